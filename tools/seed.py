#!/usr/bin/env python3
"""Validates planted changes: seed.py <id>... [--checks C01,C02] [--nocheck]
In a scratch copy of /repo: demo passes unpatched; patch applies, builds, the stable tests pass, demo fails; then the
named property's check (or the given ones) is run against the patched copy (VP_REPO) and the outcome printed."""
import json, os, shutil, subprocess as sp, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd, cwd, t=900, env=None):
    try:
        r = sp.run(cmd, cwd=cwd, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, errors="replace", timeout=t, env=env)
        return r.returncode, r.stdout
    except sp.TimeoutExpired as e:
        return 124, "timeout"
def build(d):
    rc, out = sh("make -s -j4 CC=gcc CONFIG_WERROR=false CONFIG_NATIVE=false 2>&1 && make -s -j4 CC=gcc CONFIG_WERROR=false VARIANT=light CONFIG_NATIVE=false 2>&1 && cd test && for f in *.c *.cc; do rm -f ${f%.*}; done && make -s -j4 CC=gcc CXX=g++ 2>&1", d)
    return rc, out
def runtests(d):
    want = json.load(open("/opt/vp/BASELINE.json"))
    rc, out = sh("cd test && python3 -m unittest -q test_smc 2>&1 | tail -3", d)
    return out
def one(i, checks, nocheck):
    sd = os.path.join(V, "seeded", i)
    meta = json.load(open(sd + "/meta.json"))
    d = tempfile.mkdtemp(prefix="seed_")
    try:
        r = d + "/repo"; shutil.copytree("/repo", r, symlinks=True); sh("rm -rf %s/out %s/out-light" % (r, r), d)
        dd = d + "/demo"; os.mkdir(dd)
        for f in os.listdir(sd):
            if f not in ("meta.json",) and not f.endswith((".diff", ".patch")): shutil.copy2(sd + "/" + f, dd)
        rc, o = build(r)
        if rc: return i, "BUILD FAIL unpatched " + o[-500:]
        rc, o = sh("bash " + dd + "/demo.sh", r, 300)
        if rc: return i, "DEMO FAILS UNPATCHED %d %s" % (rc, o[-800:])
        rc, o = sh("git apply " + sd + "/patch.diff", r)
        if rc: return i, "NO APPLY " + o
        rc, o = build(r)
        if rc: return i, "BUILD FAIL " + o[-1500:]
        t = runtests(r)
        if "OK" not in t: return i, "TESTS FAIL " + t
        rc, o = sh("bash " + dd + "/demo.sh", r, 300)
        if rc == 0: return i, "DEMO PASSES PATCHED " + o[-500:]
        res = "valid(demo rc %d)" % rc
        if nocheck: return i, res
        for c in checks or [meta["property"]]:
            env = dict(os.environ, VP_REPO=r, VP_BUILD=d + "/b", VP_EVIDENCE=d + "/ev", VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER=os.environ.get("VERIF_TIER", "quick"))
            t0 = time.time()
            rc, o = sh("python3 check.py " + c, V, 900, env)
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + c)]
            res += " | %s: %s %.0fs" % (c, "CAUGHT" if rc == 1 and v else "MISSED rc=%d %s" % (rc, o[-300:] if rc else ""), time.time() - t0)
        return i, res
    finally:
        shutil.rmtree(d, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; checks = None; nocheck = "--nocheck" in a
    a = [x for x in a if x != "--nocheck"]
    if "--checks" in a:
        k = a.index("--checks"); checks = a[k + 1].split(","); del a[k:k + 2]
    for i in a or sorted(os.listdir(V + "/seeded")):
        print("%s: %s" % one(i, checks, nocheck), flush=True)
