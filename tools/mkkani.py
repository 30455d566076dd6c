#!/usr/bin/env python3
"""Generate the Kani crate: one function contract per table-backed property, on the public API of the
crate in /repo, against the Unicode 15.1 oracle, enforced for every code point (loop-free: no unwinding bound)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = json.load(open(os.path.join(here, "oracle/ucd.json")))
I = json.load(open(os.path.join(here, "oracle/idents.json")))
NUM = {int(v): k for v, k in I["ccc"]["num"].items()} if not all(isinstance(v, int) for v in I["ccc"]["num"].values()) else {v: k for k, v in I["ccc"]["num"].items()}
EMOJI = {"emoji": "Emoji", "epres": "EPres", "emod": "EMod", "ebase": "EBase", "ecomp": "EComp", "ext_pict": "ExtPict"}
def ident(p, v):
    if p == "ccc": return NUM[int(v)]
    for k, (ab, full) in I[p]["values"].items():
        if ab == v: return k
    for k, (ab, full) in I[p]["values"].items():
        if full == v or k == v: return k
    raise KeyError((p, v))
def contract(p, ty, post):
    """The function contract of the public getter: for every code point and the oracle row `i` that contains it, the value of that row."""
    return """
#[kani::requires(i < V_%(p)s.len() && L_%(p)s[i] <= cp && cp < L_%(p)s[i + 1])]
#[kani::ensures(|r| %(post)s)]
fn %(p)s(cp: u32, i: usize) -> %(ty)s { CodePoint::new(cp).unwrap().%(p)s() }
#[kani::proof_for_contract(%(p)s)]
fn h_%(p)s() {
    let cp: u32 = kani::any();
    %(p)s(cp, kani::any());
    kani::cover!(cp > 0xFFFF);
}
""" % dict(p=p, ty=ty, post=post)
def enum_harness(p):
    e, rows = I[p]["enum"], O["enum"][p]
    assert rows[0][0] == 0 and rows[-1][1] == 0x10FFFF and all(rows[i][1] + 1 == rows[i + 1][0] for i in range(len(rows) - 1)), p
    n = len(rows)
    lo = ",".join(str(r[0]) for r in rows) + ",1114112"
    vs = ",".join("props::%s::%s as u16" % (e, ident(p, r[2])) for r in rows)
    num = " && *r as u8 == N_%s[i]" % p if p == "ccc" else ""
    nums = "static N_ccc: [u8; %d] = [%s];\n" % (n, ",".join(r[2] for r in rows)) if p == "ccc" else ""
    return "static L_%s: [u32; %d] = [%s];\nstatic V_%s: [u16; %d] = [%s];\n%s" % (p, n + 1, lo, p, n, vs, nums), contract(p, "props::" + e, "*r as u16 == V_%s[i]%s" % (p, num))
def bool_harness(p):
    rs = O["bin"][EMOJI[p]]
    pts, m = [0], []
    for a, b in sorted(tuple(t[:2]) for t in rs):
        if m and m[-1][1] + 1 >= a: m[-1][1] = max(b, m[-1][1])
        else: m.append([a, b])
    lo, v, cur = [], [], 0
    for a, b in m:
        if a > cur: lo.append(cur); v.append(0)
        lo.append(a); v.append(1); cur = b + 1
    if cur < 0x110000: lo.append(cur); v.append(0)
    n = len(v)
    return "static L_%s: [u32; %d] = [%s];\nstatic V_%s: [u8; %d] = [%s];\n" % (p, n + 1, ",".join(map(str, lo + [0x110000])), p, n, ",".join(map(str, v))), contract(p, "bool", "*r as u8 == V_%s[i]" % p)
VERSION = """
/// equality, order, copying and the published constant
#[kani::ensures(|r| r.0 == (a == x && b == y && c == z) && r.1 == !r.0)]
#[kani::ensures(|r| r.2 == Some((a, b, c).cmp(&(x, y, z))))]
#[kani::ensures(|r| r.3 == (a, b, c).cmp(&(x, y, z)).is_lt() && r.4 == (a, b, c).cmp(&(x, y, z)).is_le() && r.5 == !r.4 && r.6 == !r.3)]
#[kani::ensures(|r| r.7 == (a, b, c) && r.8 == (15, 1, 0))]
fn version(a: u32, b: u32, c: u32, x: u32, y: u32, z: u32) -> (bool, bool, Option<Ordering>, bool, bool, bool, bool, (u32, u32, u32), (u32, u32, u32)) {
    let (p, q) = (UnicodeVersion { major: a, minor: b, update: c }, UnicodeVersion { major: x, minor: y, update: z });
    let d = p.clone();
    let v = UNICODE_VERSION;
    (p == q, p != q, p.partial_cmp(&q), p < q, p <= q, p > q, p >= q, (d.major, d.minor, d.update), (v.major, v.minor, v.update))
}
#[kani::proof_for_contract(version)]
fn h_version() {
    let (a, b, c, x, y, z): (u32, u32, u32, u32, u32, u32) = kani::any();
    version(a, b, c, x, y, z);
    kani::cover!(a == x && b < y);
}
"""
def main(out, repo, which):
    os.makedirs(out + "/src", exist_ok=True)
    open(out + "/Cargo.toml", "w").write('[package]\nname = "tables"\nversion = "0.1.0"\nedition = "2021"\n[dependencies]\nseshat-unicode = { path = "%s" }\n[workspace]\n' % repo)
    d, h = [], []
    for p in which:
        a, b = ("", VERSION) if p == "version" else bool_harness(p) if p in EMOJI else enum_harness(p)
        d.append(a); h.append(b)
    open(out + "/src/lib.rs", "w").write("#![cfg(kani)]\n#![allow(non_upper_case_globals, unused_imports)]\nuse seshat::unicode::*;\nuse std::cmp::Ordering;\n" + "".join(d) + "".join(h))
if __name__ == "__main__": main(sys.argv[1], sys.argv[2], sys.argv[3:])
