"""Generation of specification tables (spec fn : index -> value as nested ifs; big bodies are split into small
functions because the parsers are superlinear in the nesting depth) and of the divide-and-conquer checks over them."""
C = 16
def ite(vals, starts, v):
    if len(vals) == 1: return str(vals[0])
    m = len(vals) // 2
    return "if %s < %d { %s } else { %s }" % (v, starts[m], ite(vals[:m], starts[:m], v), ite(vals[m:], starts[m:], v))
def tree(name, ty, vals, starts=None, arg="i: int", opaque=True):
    """spec fn name(i) == vals[k] for the largest k with starts[k] <= i (default starts: 0, 1, 2, ...)"""
    starts = list(range(len(vals))) if starts is None else starts
    v = arg.split(":")[0]
    out, lvl = [], 0
    vals = [str(x) for x in vals]
    if not vals: return "pub open spec fn %s(%s) -> %s { arbitrary() }" % (name, arg, ty)
    while len(vals) > C:
        v2, s2 = [], []
        for k in range(0, len(vals), C):
            n = "%s_%d_%d" % (name, lvl, k // C)
            out.append("pub open spec fn %s(%s) -> %s { %s }" % (n, arg, ty, ite(vals[k:k + C], starts[k:k + C], v)))
            v2.append("%s(%s)" % (n, v)); s2.append(starts[k])
        vals, starts, lvl = v2, s2, lvl + 1
    out.append("%spub open spec fn %s(%s) -> %s { %s }" % ("#[verifier::opaque]\n" if opaque else "", name, arg, ty, ite(vals, starts, v)))
    return "\n".join(out)
def codes(s): return "seq![%s]" % ", ".join("%du32" % (ord(c) if isinstance(c, str) else c) for c in s) if len(s) else "Seq::<u32>::empty()"
def ranges_tree(name, ty, ranges, default, arg="cp: u32", **k):
    """ranges: sorted [lo, hi, value]"""
    vals, starts, nxt = [], [], 0
    for a, z, v in sorted(ranges):
        if a > nxt: vals.append(default); starts.append(nxt)
        vals.append(v); starts.append(a); nxt = z + 1
    vals.append(default); starts.append(nxt)
    # merge neighbours
    V, S = [], []
    for v, s in zip(vals, starts):
        if V and V[-1] == v: continue
        V.append(v); S.append(s)
    return tree(name, ty, V, S, arg, **k)
def check_all(name, pred, n, count, chunk=120):
    """name_at(i): pred(i) for 0 <= i < n, decided by evaluation (in chunks: evaluation has a time limit)"""
    o = ["""
#[verifier::opaque]
pub open spec fn {n}_in(lo: int, hi: int) -> bool decreases hi - lo when lo < hi {{ if hi - lo <= 1 {{ {p}(lo) }} else {{ {n}_in(lo, (lo + hi) / 2) && {n}_in((lo + hi) / 2, hi) }} }}
proof fn {n}_sub(lo: int, hi: int, i: int) requires lo <= i < hi, {n}_in(lo, hi) ensures {p}(i) decreases hi - lo
{{ reveal({n}_in); if hi - lo > 1 {{ if i < (lo + hi) / 2 {{ {n}_sub(lo, (lo + hi) / 2, i); }} else {{ {n}_sub((lo + hi) / 2, hi, i); }} }} }}""".format(n=name, p=pred)]
    body = ""
    for k in range(0, count, chunk):
        o.append("proof fn {n}_{k}() ensures {n}_in({a}, {z}) {{ assert({n}_in({a}, {z})) by (compute_only); }}".format(n=name, k=k // chunk, a=k, z=min(count, k + chunk)))
        body += "%sif i < %d { %s_%d(); %s_sub(%d, %d, i); }" % (" else " if body else "", min(count, k + chunk), name, k // chunk, name, k, min(count, k + chunk))
    o.append("proof fn {n}_at(i: int) requires 0 <= i < {m} ensures {p}(i) {{ assert({m} == {c}); {b} }}\n".format(n=name, p=pred, m=n, c=count, b=body))
    return "\n".join(o)
def partition(pre, cols, cuts=()):
    """cols: list of (name, type, [[lo, hi, value] ...], default).  One table of intervals that refines all columns;
    the columns are functions o_<name>(cp) defined by a search of the interval starts."""
    pts = {0} | set(cuts)
    for name, ty, rs, d in cols:
        m = sorted(rs)
        for a, z, v in m: pts |= {a, z + 1}
    pts = sorted(p for p in pts if p < 0x110000)
    vals = []
    for name, ty, rs, d in cols:
        m, k, out = sorted(rs), 0, []
        for p in pts:
            while k < len(m) and m[k][1] < p: k += 1
            out.append(m[k][2] if k < len(m) and m[k][0] <= p else d)
        vals.append(out)
    keep = [i for i in range(len(pts)) if i == 0 or pts[i] in cuts or any(c[i] != c[i - 1] for c in vals)]
    n = len(keep)
    o = ["pub spec const N_%s: int = %d;" % (pre, n), tree(pre + "_lo", "u32", [pts[i] for i in keep] + [0x110000])]
    for (name, ty, rs, d), c in zip(cols, vals):
        o.append(tree("%s_%s" % (pre, name), ty, [c[i] for i in keep]))
        o.append("pub open spec fn o_%s(cp: u32) -> %s { %s_%s(%s_at(cp)) }" % (name, ty, pre, name, pre))
    o.append("""
#[verifier::opaque]
pub open spec fn {p}_bs(cp: u32, lo: int, hi: int) -> int decreases hi - lo when lo < hi {{ if hi - lo <= 1 {{ lo }} else if cp < {p}_lo((lo + hi) / 2) {{ {p}_bs(cp, lo, (lo + hi) / 2) }} else {{ {p}_bs(cp, (lo + hi) / 2, hi) }} }}
pub open spec fn {p}_at(cp: u32) -> int {{ {p}_bs(cp, 0, N_{p}) }}
proof fn {p}_bs_in(cp: u32, lo: int, hi: int) requires lo < hi, {p}_lo(lo) <= cp < {p}_lo(hi)
    ensures lo <= {p}_bs(cp, lo, hi) < hi, {p}_lo({p}_bs(cp, lo, hi)) <= cp < {p}_lo({p}_bs(cp, lo, hi) + 1) decreases hi - lo
{{ reveal({p}_bs); if hi - lo > 1 {{ if cp < {p}_lo((lo + hi) / 2) {{ {p}_bs_in(cp, lo, (lo + hi) / 2); }} else {{ {p}_bs_in(cp, (lo + hi) / 2, hi); }} }} }}
proof fn {p}_in(cp: u32) requires cp <= 0x10FFFF ensures 0 <= {p}_at(cp) < N_{p}, {p}_lo({p}_at(cp)) <= cp < {p}_lo({p}_at(cp) + 1)
{{ assert({p}_lo(0) == 0 && {p}_lo({n}) == 0x110000) by (compute_only); {p}_bs_in(cp, 0, N_{p}); }}
""".format(p=pre, n=n))
    return "\n".join(o), n, [pts[i] for i in keep]

def runs(pre, vals):
    """spec fn <pre>(i) == vals[i], stored as maximal runs of consecutive numbers: <pre>_s (first index), <pre>_b (first value)"""
    r = []
    for i, v in enumerate(vals):
        if not r or r[-1][1] + (i - r[-1][0]) != v: r.append((i, v))
    n = len(r)
    o = ["pub spec const N_%s: int = %d; pub spec const L_%s: int = %d;" % (pre, n, pre, len(vals)), tree(pre + "_s", "int", [a for a, _ in r] + [len(vals)]), tree(pre + "_b", "int", [b for _, b in r]), """
#[verifier::opaque]
pub open spec fn {p}_bs(i: int, lo: int, hi: int) -> int decreases hi - lo when lo < hi {{ if hi - lo <= 1 {{ lo }} else if i < {p}_s((lo + hi) / 2) {{ {p}_bs(i, lo, (lo + hi) / 2) }} else {{ {p}_bs(i, (lo + hi) / 2, hi) }} }}
pub open spec fn {p}_run(i: int) -> int {{ {p}_bs(i, 0, N_{p}) }}
pub open spec fn {p}(i: int) -> int {{ {p}_b({p}_run(i)) + (i - {p}_s({p}_run(i))) }}
proof fn {p}_bs_in(i: int, lo: int, hi: int) requires lo < hi, {p}_s(lo) <= i < {p}_s(hi)
    ensures lo <= {p}_bs(i, lo, hi) < hi, {p}_s({p}_bs(i, lo, hi)) <= i < {p}_s({p}_bs(i, lo, hi) + 1) decreases hi - lo
{{ reveal({p}_bs); if hi - lo > 1 {{ if i < {p}_s((lo + hi) / 2) {{ {p}_bs_in(i, lo, (lo + hi) / 2); }} else {{ {p}_bs_in(i, (lo + hi) / 2, hi); }} }} }}
proof fn {p}_in(i: int) requires 0 <= i < L_{p} ensures 0 <= {p}_run(i) < N_{p}, {p}_s({p}_run(i)) <= i < {p}_s({p}_run(i) + 1)
{{ assert({p}_s(0) == 0 && {p}_s({n}) == {l}) by (compute_only); {p}_bs_in(i, 0, N_{p}); }}
""".format(p=pre, n=n, l=len(vals))]
    return "\n".join(o), n
