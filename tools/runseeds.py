#!/usr/bin/env python3
"""runseeds.py [ID...]   run the property's check against each planted bug in a scratch copy of /repo (VP_REPO)"""
import json, os, subprocess, sys, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedrun"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W): sh("cp -a /repo %s" % W)
for d in sorted(glob.glob(V + "/seeded/*")):
    i = os.path.basename(d)
    if len(sys.argv) > 1 and i not in sys.argv[1:]: continue
    p = json.load(open(d + "/meta.json"))["property"]
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)
    a = sh("git apply %s/patch.diff" % d, cwd=W)
    assert a.returncode == 0, a.stdout
    r = sh("python3 check.py %s" % p, cwd=V, env=dict(os.environ, VP_REPO=W, VP_BUILD="/tmp/seedbuild"))
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    f = [l for l in r.stdout.splitlines() if l.lstrip("[0123456789. s]").startswith("verus") and " proved " not in l or "kani" in l and "proved" not in l]
    print(i, p, "rc", r.returncode, v, [x[:140] for x in f], flush=True)
    if r.returncode not in (1,): print(r.stdout[-1500:])
