#!/usr/bin/env python3
"""Runs all checks against behaviour-preserving changes: quiet.py [ids|Cxx]... ; env J=parallel. Prints every run that is not quiet."""
import sys, os, subprocess, json, shutil, time, runpy, concurrent.futures as cf
here = os.path.dirname(os.path.abspath(__file__))
R = {r["id"]: r for r in runpy.run_path(here + "/refactors.py")["REFACTORS"]}
def prep(i):
    base = "/tmp/quiet/" + i
    shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
    subprocess.run("cp -a /repo %s/repo && rm -rf %s/repo/target" % (base, base), shell=True, check=True)
    for f, old, new in R[i]["edits"]:
        p = base + "/repo/" + f; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    r = subprocess.run("cargo test --offline 2>&1", shell=True, cwd=base + "/repo", stdout=subprocess.PIPE, text=True, env=dict(os.environ, CARGO_TARGET_DIR=base + "/t", CARGO_PROFILE_DEV_OPT_LEVEL="2"))
    shutil.rmtree(base + "/t", ignore_errors=True)
    assert r.returncode == 0, (i, r.stdout[-1500:])
def one(job):
    i, c = job
    base = "/tmp/quiet/%s" % i; v = "%s/verif-%s" % (base, c)
    subprocess.run("cp -a /verif %s && rm -rf %s/seeded" % (v, v), shell=True, check=True)
    t = time.time()
    r = subprocess.run(["unshare", "-Urm", "bash", "-c", "mount --bind %s/repo /repo && mount --bind %s /verif && cd /verif && exec timeout 900 ./check.sh %s" % (base, v, c)],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_TIER="quick", VERIF_SEED="1"))
    shutil.rmtree(v, ignore_errors=True)
    bad = r.returncode != 0 or "VIOLATION" in r.stdout
    return i, c, bad, r.returncode, time.time() - t, r.stdout.strip().splitlines()[-4:]
sel = sys.argv[1:]
ids = [i for i in R if i in sel] or list(R)
checks = [c for c in sel if c[0] == "C"] or ["C%02d" % k for k in range(1, 26)]
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    list(ex.map(prep, ids)); print("prepared", len(ids), flush=True)
    for i, c, bad, rc, t, out in ex.map(one, [(i, c) for i in ids for c in checks]):
        print("%-18s %s %s rc=%d %.0f s %s" % (i, c, "NOT QUIET" if bad else "quiet", rc, t, " | ".join(out) if bad else ""), flush=True)
shutil.rmtree("/tmp/quiet", ignore_errors=True)
