#!/usr/bin/env python3
"""Runs checks against planted bugs: catch.py [ID|C..]... ; env J=parallel, CHECKS=C01,C02 to run others than the bug's own.
Each run sees a copy of /repo with the bug applied bound over /repo (own mount namespace), and a copy of /verif."""
import sys, os, subprocess, json, shutil, time, concurrent.futures as cf
seeded = "/verif/seeded"
def one(job):
    i, prop = job
    base = "/tmp/catch/%s-%s" % (i, prop)
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    try:
        subprocess.run("cp -a /repo %s/repo && rm -rf %s/repo/target && cp -a /verif %s/verif && rm -rf %s/verif/seeded" % ((base,) * 4), shell=True, check=True)
        if i != "clean": subprocess.run(["git", "-C", base + "/repo", "apply", os.path.join(seeded, i, "patch.diff")], check=True)
        t = time.time()
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && exec timeout 900 ./check.sh %s" % (base, base, prop)],
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER=os.environ.get("VERIF_TIER", "quick"), VERIF_SEED="1"))
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=%s " % prop)]
        ok = r.returncode == 1 and v
        det = [l for l in r.stdout.splitlines() if l.strip()][-3:]
        return i, prop, ("caught" if ok else "MISSED rc=%d" % r.returncode), time.time() - t, det
    finally:
        shutil.rmtree(base, ignore_errors=True)
def main():
    ids = sorted(os.listdir(seeded)); sel = sys.argv[1:]
    jobs = []
    for i in ids:
        p = json.load(open(os.path.join(seeded, i, "meta.json")))["property"]
        if sel and i not in sel and p not in sel: continue
        for c in (os.environ.get("CHECKS") or p).split(","): jobs.append((i, c))
    with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for i, p, r, t, d in ex.map(one, jobs): print("%-28s %s %s (%.0f s) %s" % (i, p, r, t, " | ".join(d)), flush=True)
main()
