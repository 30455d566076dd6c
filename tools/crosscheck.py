#!/usr/bin/env python3
"""crosscheck.py   authoring-time comparison of oracle/ucd.json with the Unicode data of Perl and Python in the sandbox
(15.0.0 both): every property of every code point, apart from what 15.1.0 added or changed.  No check runs this."""
import json, os, subprocess, unicodedata
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = json.load(open(os.path.join(V, "oracle", "ucd.json")))
N = 0x110000
def expand(rows, dflt=None):
    a = [dflt] * N
    for r in rows:
        for c in range(r[0], r[1] + 1): a[c] = r[2] if len(r) > 2 else True
    return a
age = expand(O["enum"]["age"])
new = {c for c in range(N) if age[c] in ("V15_1", "15.1")}
print("code points new in 15.1:", len(new), [hex(min(new)), hex(max(new))] if new else "")
PL = r'''
use Unicode::UCD qw(prop_invmap prop_invlist prop_value_aliases);
my ($kind, $p) = @ARGV;
if ($kind eq "bin") { print join(",", prop_invlist($p)), "\n"; }
else {
  my ($l, $m, $f, $d) = prop_invmap($p);
  for my $i (0 .. $#$l) { my $v = $m->[$i]; my @a = prop_value_aliases($p, $v); print "$l->[$i] ", (@a ? $a[0] : $v), "\n"; }
}'''
def perl(*a): return subprocess.run(["perl", "-e", PL, *a], capture_output=True, text=True).stdout
tot = 0
def report(name, diff):
    d = [c for c in diff if c not in new]
    print("%-8s %d differences outside the 15.1 additions %s" % (name, len(d), [hex(c) for c in d[:12]]))
norm = lambda s: s.replace("_", "").replace(" ", "").lower()
for p, q in dict(gc="gc", bc="bc", ccc="ccc", dt="dt", gcb="gcb", wb="wb", hst="hst", insc="insc", blk="blk", sc="sc", age="age").items():
    a = expand(O["enum"][p]); t = perl("enum", q).split("\n")[:-1]
    if not t: print(p, "not in Perl"); continue
    rows = [l.split(" ", 1) for l in t]
    b = [None] * N
    for i, (s, v) in enumerate(rows):
        e = int(rows[i + 1][0]) if i + 1 < len(rows) else N
        for c in range(int(s), e): b[c] = v
    # values are compared as a partition: every oracle value corresponds to one Perl value
    m, diff = {}, []
    for c in range(N):
        if c in new: continue
        m.setdefault((a[c], b[c]), []).append(c)
    best = {}
    for (x, y), l in m.items():
        if len(l) > len(m.get((x, best.get(x)), [])): best[x] = y
    for (x, y), l in m.items():
        if best[x] != y: diff += l
    inj = len(set(best.values())) == len(best)
    same = sum(norm(str(x)) == norm(str(y)) for x, y in best.items())
    report(p, diff); print("         %d values, one-to-one %s, %d with the same short alias" % (len(best), inj, same))
for k, r in O["bin"].items():
    t = perl("bin", k).strip()
    if not t: print("%-8s not in Perl" % k); continue
    l = [int(x) for x in t.split(",")]
    b = [False] * N
    for i in range(0, len(l), 2):
        for c in range(l[i], l[i + 1] if i + 1 < len(l) else N): b[c] = True
    a = expand(r, False)
    report(k, [c for c in range(N) if a[c] != b[c]])
dm = {c: v for c, v in O["dm"]}
diff = []
for c in range(N):
    d = unicodedata.decomposition(chr(c)).split()
    d = [int(x, 16) for x in d if not x.startswith("<")]
    if 0xAC00 <= c <= 0xD7A3: continue
    if dm.get(c, []) != d: diff.append(c)
report("dm", diff)
na = {c: v for c, v in O["na"]}
def nm(c):
    if c in na: return na[c]
    if 0xAC00 <= c <= 0xD7A3:
        i = c - 0xAC00; L, W, T = O["jamo"]; return "HANGUL SYLLABLE " + L[i // 588] + W[i % 588 // 28] + T[i % 28]
    for a, z, p in O["nr2"]:
        if a <= c <= z: return p + "%04X" % c
    return ""
report("na", [c for c in range(N) if nm(c) != unicodedata.name(chr(c), "")])
