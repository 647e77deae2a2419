#!/usr/bin/env python3
"""seedtest.py [-n] [ids]: for each planted bug: demo passes on the clean tree, patch applies, builds, 68 tests pass, demo fails,
the property's quick check reports it (-n: no check). Works on /repo itself and undoes the patch straight afterwards."""
import json, os, subprocess, sys, time
SD = "/verif/seeded"
args = sys.argv[1:]; nocheck = "-n" in args; args = [a for a in args if a != "-n"]
ids = args or sorted(os.listdir(SD))
def sh(c, t=900): return subprocess.run(c, shell=True, capture_output=True, text=True, timeout=t, errors="replace")
def clean(): sh("git -C /repo checkout -- ."); return sh("bash /opt/vp/build.sh")
if sh("git -C /repo status --porcelain").stdout.strip(): sys.exit("/repo is not clean")
assert clean().returncode == 0
for i in ids:
    d = os.path.join(SD, i); m = json.load(open(d + "/meta.json")); res = []
    r = sh("cd /repo && bash %s/demo.sh" % d, 300)
    if r.returncode: print(i, "DEMO FAILS ON CLEAN", (r.stdout + r.stderr)[-600:]); continue
    try:
        if sh("git -C /repo apply %s/patch.diff" % d).returncode: print(i, "PATCH DOES NOT APPLY"); continue
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print(i, "BUILD FAILS", (b.stdout + b.stderr)[-1500:]); continue
        t = sh("bash /opt/vp/test.sh /tmp/seedtest.json"); tj = json.load(open("/tmp/seedtest.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        res.append("tests %d/%d" % (len(tj["passed"]), len(tj["failed"])))
        r = sh("cd /repo && bash %s/demo.sh" % d, 300)
        res.append("demo %d (%s)" % (r.returncode, (r.stdout.strip() or r.stderr.strip())[-160:].replace("\n", " | ")))
        if not nocheck:
            t0 = time.time(); r = sh("cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py %s quick" % m["property"])
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + m["property"])]
            res.append("CAUGHT" if r.returncode == 1 and v else "MISSED rc=%d %s" % (r.returncode, (r.stdout + r.stderr)[-300:]))
            res.append("%ds %d" % (time.time() - t0, len(v)))
    finally: clean()
    print(i, m["property"], "; ".join(res), flush=True)
