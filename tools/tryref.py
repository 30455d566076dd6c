#!/usr/bin/env python3
"""tryref.py NAME MODULE [FUNC CHOICE]   debugging aid: one refactoring of refactors.py, one annotation set"""
import sys, os, subprocess
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors
n, mod = sys.argv[1:3]
subprocess.run("git checkout -q -- .", shell=True, cwd=refactors.W)
for a, p, m, ed in refactors.R:
    if a == n:
        for f, x, y in ed:
            q = os.path.join(refactors.W, f); t = open(q).read(); assert x in t; open(q, "w").write(t.replace(x, y, 1))
import vlib, modules
x = vlib.extract(modules.all_contracts().keys())
ch = {sys.argv[3]: int(sys.argv[4])} if len(sys.argv) > 3 else {}
m = modules.build(mod, x, ch)
print(m.variants)
r = vlib.run_verus(m)
print(r["status"], r["verified"], r.get("detail", ""))
for e in r["errors"]: print(e["group"], e["message"], e["spans"])
