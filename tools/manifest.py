#!/usr/bin/env python3
"""Writes MANIFEST.json (run after changing the list of checks)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
ENUM = "bounded exhaustive enumeration of executions of the real code, each step compared with a reference model"
SEQ = "bounded exhaustive exploration of all operation sequences of the real object against a step model"
T = {
 "C01": ENUM, "C02": "exhaustive enumeration of all chunkings within bounds on the real code", "C03": ENUM, "C04": ENUM, "C05": ENUM,
 "C06": ENUM, "C07": ENUM, "C08": ENUM, "C09": ENUM, "C10": SEQ, "C11": SEQ, "C12": SEQ, "C13": SEQ, "C14": SEQ,
 "C15": "exhaustive enumeration of interleavings, call histories and thread assignments of sessions on the real code",
 "C16": "stateless model checking of real threads under a controlled scheduler, preemption-bounded at every instrumented instruction block and memory access",
 "C17": "exhaustive enumeration of all call sequences to a depth, watching for panics, aborts and hangs",
 "C18": "exhaustive enumeration of operation cycles with a heap-accounting monitor on every step",
 "C19": "exhaustive enumeration of configurations around the limits, extreme ones in child processes",
 "C20": ENUM,
 "C22": "exhaustive enumeration of the wrong-byte patterns of a padding on the single-stepped real code, comparing the number of instructions executed",
 "C25": "bounded exhaustive enumeration of executions of the real code under a basic-block path monitor, comparing the paths of calls of equal lengths",
 "C23": "bounded exhaustive enumeration of executions of the real code with arguments and objects in guarded memory, each compared with the same execution in ordinary memory",
 "C24": "bounded exhaustive enumeration of executions of the real code under a monitor of system calls, environment and clock accesses",
 "C21": "exhaustive enumeration of executions of a native 32-bit build of the code, compared with the reference models",
}
N = {
 "default": "Every execution in the bounded space is run on the real code and agrees with the reference; nothing is claimed outside the bounds given in the evidence. Trusts rustc and the reference models (tested against published vectors at each start).",
 "C15": "Every interleaving/history/thread assignment in the bounded space gives what the session gives alone in a process of its own.",
 "C16": "Every schedule within the preemption bound, at the granularity of compiler-inserted callbacks (basic blocks, loads, stores) in the crate, under sequential consistency. Weak-memory effects are covered only through the recorded absence of conflicting accesses.",
 "C18": "Heap bytes counted at the global allocator after every operation of every cycle within the bounds.",
 "C22": "Time is the number of executed instructions of the program itself (not of the C library) in optimised builds, for paddings that end in the same byte. Caches and variable-time instructions are not modelled.",
 "C25": "Work is the number of basic blocks of the optimised crate that the calling thread executes (callbacks inserted after the optimiser); calls on one path do the same work. The C library, caches and variable-time instructions are not seen; AES is left out.",
 "C23": "Over-reads and stray writes are seen when they reach an inaccessible or read-only page or change a byte or result; every argument length in the bounds is placed against such a page on either side.",
 "C24": "Every call of the listed spaces is monitored: system calls by trapping, clocks by trapping and interposition, the environment by an inaccessible page. rdrand and cpuid are not seen.",
 "C21": "Runs the same explorer and crate compiled for 32-bit x86 (std built from rust-src) on the spaces of the other checks; every result is compared with the reference models, which the 64-bit build also agrees with; a case that fails identically in the 64-bit build is not judged. One 32-bit platform, little-endian.",
}
NA = {}
skip = set(sys.argv[1:])
checks = []
for p in props:
    i = p["id"]
    if i in NA or i in skip: continue
    checks.append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./check.sh " + i,
                   "technique": T[i], "level": "model_checking", "level_note": N.get(i, N["default"])})
na = [{"property": k, "reason": v} for k, v in NA.items()]
na += [{"property": k, "reason": "Check under construction."} for k in sorted(skip)]
json.dump({"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
           "notes": "No hooks: all checks use the public API. Every check explores a plain release build and one with overflow checks and debug assertions (C17 also an unoptimised one; C21 quick only the checked one)."},
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
