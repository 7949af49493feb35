#!/usr/bin/env python3
"""Builds and verifies planted bugs: run.py FILE... [--only ID,...]
Each FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=RUST, [demo_sh])].
A bug is written to /verif/seeded/<id>/ only if, in a scratch copy of /repo, it builds, passes the
repository's tests, and its demo exits 0 without and nonzero with the patch."""
import sys, os, subprocess, shutil, json, runpy, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__)); verif = os.path.dirname(os.path.dirname(here))
SH = '''#!/bin/bash
# cwd: the repository, after its build. Exit 0: the property held here.
D="$(cd "$(dirname "$0")" && pwd)"
T="$(mktemp -d)" || exit 99
trap 'rm -rf "$T"' EXIT
rustc --edition 2018 -O -Awarnings --crate-type rlib --crate-name dumb_crypto src/lib.rs -o "$T/libdumb_crypto.rlib" || exit 98
rustc --edition 2018 -O -Awarnings "$D/demo.rs" --extern dumb_crypto="$T/libdumb_crypto.rlib" -o "$T/demo" || exit 97
cd "$T" && timeout 250 ./demo
'''
def refs():
    o = "#![allow(dead_code)]\n// Reference implementations written from the standards.\n"
    for m in ["sha", "salsa", "kdf", "aes", "cbc"]:
        o += "pub mod %s {\n%s}\n" % (m, open(os.path.join(verif, "harness/src/refs", m + ".rs")).read().replace("//!", "//"))
    return o
def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    return subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=e)
def demo_rc(d, cwd):
    # the demo runs from a folder of its own, with nothing else of /verif
    p = os.path.dirname(d) + "/demo"
    shutil.rmtree(p, ignore_errors=True); shutil.copytree(d, p)
    for f in os.listdir(p):
        if f.endswith(".diff") or f == "meta.json": os.remove(os.path.join(p, f))
    r = sh("bash %s/demo.sh" % p, cwd, 320)
    shutil.rmtree(p)
    return r.returncode, r.stdout[-400:]
def one(b):
    i = b["id"]; base = "/tmp/sb/" + i
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base); sh("git -C /repo archive --prefix=repo/ HEAD | tar x -C %s" % base, "/tmp")
    repo = base + "/repo"
    if os.path.exists("/repo/Cargo.lock"): shutil.copy("/repo/Cargo.lock", repo)
    sh("git init -q && git add -Af && git -c user.name=x -c user.email=x@x commit -qm x", repo)
    try:
        d = base + "/seed"; os.makedirs(d)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", SH)); os.chmod(d + "/demo.sh", 0o755)
        if "demo" in b:
            src = b["demo"]
            open(d + "/demo.rs", "w").write(src)
            if "mod refs" in src: open(d + "/refs.rs", "w").write(refs())
        for f in b.get("files", []):
            shutil.copy(os.path.join(verif, f), d)
        rc, out = demo_rc(d, repo)
        if rc != 0: return i, "demo fails on the unchanged tree (%d): %s" % (rc, out)
        for (f, old, new) in b["edits"]:
            p = os.path.join(repo, f); s = open(p).read()
            if s.count(old) != 1: return i, "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", repo).stdout
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", repo, CARGO_TARGET_DIR=base + "/target",
               RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_PROFILE_DEV_OPT_LEVEL="2",
               CARGO_PROFILE_DEV_OVERFLOW_CHECKS="true", CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="true")
        ok = r.stdout.count("... ok"); bad = r.stdout.count("... FAILED")
        if r.returncode != 0 or bad or ok < 68:
            return i, "tests: ok %d failed %d: %s" % (ok, bad, "\n".join(l for l in r.stdout.splitlines() if "FAILED" in l or l.startswith("error"))[-900:] or r.stdout[-600:])
        rc, out = demo_rc(d, repo)
        if rc == 0 or rc in (97, 98, 99): return i, "demo does not detect (%d) %s" % (rc, out)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        t = os.path.join(verif, "seeded", i)
        shutil.rmtree(t, ignore_errors=True); shutil.copytree(d, t)
        c = sh("git apply --check %s/patch.diff" % t, "/repo")
        return i, "KEPT (demo %d: %s)%s" % (rc, out.strip().splitlines()[-1][:120] if out.strip() else "", "" if c.returncode == 0 else " BUT DOES NOT APPLY " + c.stdout)
    finally:
        shutil.rmtree(base, ignore_errors=True)
def safe(b):
    try: return one(b)
    except Exception as e: return b["id"], "EXC %r" % e
def main():
    only = None; files = []
    a = sys.argv[1:]
    while a:
        x = a.pop(0)
        if x == "--only": only = set(a.pop(0).split(","))
        else: files.append(x)
    bugs = []
    for f in files: bugs += runpy.run_path(f)["BUGS"]
    if only: bugs = [b for b in bugs if b["id"] in only]
    assert len({b["id"] for b in bugs}) == len(bugs)
    os.makedirs("/tmp/sb", exist_ok=True)
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for i, r in ex.map(safe, bugs): print(i, "::", r, flush=True)
main()
