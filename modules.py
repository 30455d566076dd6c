"""The proof modules: which functions are verified together against which contracts."""
import json, os, re, sys, threading
import vlib
from vlib import *
sys.path.insert(0, os.path.join(VERIF, "tools"))
import tables

LOCK = threading.Lock()
ORACLE = json.load(open(os.path.join(VERIF, "oracle", "ucd.json")))
IDENTS = json.load(open(os.path.join(VERIF, "oracle", "idents.json")))
ENUM_G = "bc ccc dt gc gcb wb hst insc incb blk sc age".split()
BOOL_BIN = "wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri".split()
BOOL_DER = "ci math alpha lower upper cased di gr_ext ids idc xids xidc".split()
BOOL_EMO = "emoji epres emod ebase ecomp ext_pict".split()
GETTERS = [("dm", "String"), ("na", "String")] + [(p, IDENTS[p]["enum"]) for p in ENUM_G] + [(b, "bool") for b in BOOL_BIN + ["ce", "comp_ex"] + BOOL_DER + BOOL_EMO]
ORACLE_BIN = {k.lower(): k for k in ORACLE["bin"]}
def leaf(p):
    if p in BOOL_BIN: return "binary_props::" + p
    if p in BOOL_DER or p == "incb": return "derived_props::" + p
    if p in BOOL_EMO: return "emoji_props::" + p
    if p == "comp_ex": return "normalization_props::comp_ex"
    return "%s::%s" % (p, p)
LEAF = {p: leaf(p) for p, _ in GETTERS}

HEADER = """#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, non_snake_case, non_upper_case_globals, non_camel_case_types, unreachable_code, unused_must_use, path_statements, unused_comparisons)]
use vstd::prelude::*;
verus! {
/// an element of a loop's sequence, by value or by reference
pub trait Dr { type T; spec fn dr(self) -> Self::T; }
impl Dr for char { type T = char; open spec fn dr(self) -> char { self } }
impl<'a> Dr for &'a char { type T = char; open spec fn dr(self) -> char { *self } }
impl Dr for u32 { type T = u32; open spec fn dr(self) -> u32 { self } }
impl<'a> Dr for &'a u32 { type T = u32; open spec fn dr(self) -> u32 { *self } }
/// Option, or Result without its error
pub trait ToOpt: Sized { type T; spec fn opt(self) -> Option<Self::T>; fn as_opt(self) -> (r: Option<Self::T>) ensures r == self.opt(); }
impl<A> ToOpt for Option<A> { type T = A; open spec fn opt(self) -> Option<A> { self } fn as_opt(self) -> (r: Option<A>) { self } }
impl<A, E> ToOpt for Result<A, E> { type T = A; open spec fn opt(self) -> Option<A> { match self { Ok(a) => Some(a), Err(_) => None } } fn as_opt(self) -> (r: Option<A>) { match self { Ok(a) => Some(a), Err(_) => None } } }
fn to_opt<X: ToOpt>(x: X) -> (r: Option<X::T>) ensures r == x.opt() { x.as_opt() }
/// Default::default()
pub trait Dflt: Sized { spec fn is_dflt(self) -> bool; fn new_dflt() -> (r: Self) ensures r.is_dflt(); }
impl Dflt for bool { open spec fn is_dflt(self) -> bool { !self } fn new_dflt() -> (r: bool) { false } }
impl Dflt for usize { open spec fn is_dflt(self) -> bool { self == 0 } fn new_dflt() -> (r: usize) { 0 } }
impl Dflt for u32 { open spec fn is_dflt(self) -> bool { self == 0 } fn new_dflt() -> (r: u32) { 0 } }
impl Dflt for String { open spec fn is_dflt(self) -> bool { self@ == Seq::<char>::empty() } fn new_dflt() -> (r: String) { String::new() } }
impl<A> Dflt for Vec<A> { open spec fn is_dflt(self) -> bool { self@ == Seq::<A>::empty() } fn new_dflt() -> (r: Vec<A>) { Vec::new() } }
fn dflt<X: Dflt>() -> (r: X) ensures r.is_dflt() { X::new_dflt() }
/// a counter or a flag
pub trait Flag { spec fn up(self) -> bool; spec fn upto(self, n: nat) -> bool; spec fn added(self, b: Self, n: int) -> bool; }
impl Flag for usize { open spec fn up(self) -> bool { self != 0 } open spec fn upto(self, n: nat) -> bool { self <= n } open spec fn added(self, b: usize, n: int) -> bool { self <= b + n && (n == 0 ==> self == b) && (n > 0 ==> self != 0) } }
impl Flag for bool { open spec fn up(self) -> bool { self } open spec fn upto(self, n: nat) -> bool { true } open spec fn added(self, b: bool, n: int) -> bool { self == (b || n > 0) } }
"""
FOOTER = "\n} // verus!\n"

def view_ty(t): return "Seq<char>" if t == "String" else t
def res_eq(t, e): return "r@ == " + e if t == "String" else "r == " + e

def spec_getters(which=None):
    return "\n".join("pub uninterp spec fn o_%s(cp: u32) -> %s;" % (p, view_ty(t)) for p, t in GETTERS if which is None or p in which)

def enums(x, which=None):
    o = []
    for name in sorted({IDENTS[p]["enum"] for p in ENUM_G} if which is None else which):
        if name not in x["enums"]: raise Lost("enum %s not found" % name)
        vs = ", ".join(v + (" = %su8" % d if d else "") for v, d in x["enums"][name])
        o.append("#[derive(Structural, PartialEq, Eq, Clone, Copy)]\n#[repr(u8)]\npub enum %s { %s }" % (name, vs) if any(d for _, d in x["enums"][name]) else
                 "#[derive(Structural, PartialEq, Eq, Clone, Copy)]\npub enum %s { %s }" % (name, vs))
    return "\n".join(o)

def consts(x, keys):
    """scalar constants reachable from the given functions, as extracted"""
    need, todo = [], []
    for k in keys: todo += x["fns"][k]["consts"]
    while todo:
        c = todo.pop()
        if c in need: continue
        need.append(c)
        d = x["consts"][c]
        if "expr" in d:
            for e, dd in x["consts"].items():
                if dd["flat"] in d["expr"]: todo.append(e)
    o = []
    for c in sorted(need):
        d = x["consts"][c]
        if "expr" in d: o.append("pub const %s: %s = %s;" % (d["flat"], d["ty"], d["expr"]))
    return "\n".join(o)

CODEPOINT = """
pub struct CodePoint { pub code_point: u32 }
impl Clone for CodePoint { #[verifier::external_body] fn clone(&self) -> (r: CodePoint) ensures r == *self { unimplemented!() } }
impl Copy for CodePoint {}
"""

def trait_ucd(which):
    ms = "\n".join("    fn %s(&self) -> (r: %s) requires self.cp_wf(), ensures %s;" % (p, t, res_eq(t, "o_%s(self.cpv())" % p)) for p, t in GETTERS if p in which)
    return "pub trait Ucd {\n    spec fn cpv(&self) -> u32;\n    spec fn cp_wf(&self) -> bool;\n%s\n}" % ms

def ucd_assumed(which):
    """CodePoint and the getters by contract only (their bodies are verified in module `wrap`)."""
    o = [CODEPOINT, spec_getters(which), trait_ucd(which)]
    for ty, v, wf in (("CodePoint", "self.code_point", "self.code_point <= 0x10FFFF"), ("char", "*self as u32", "true")):
        o.append("impl Ucd for %s {\n    open spec fn cpv(&self) -> u32 { %s }\n    open spec fn cp_wf(&self) -> bool { %s }\n%s\n}" % (ty, v, wf,
            "\n".join("    #[verifier::external_body] fn %s(&self) -> (r: %s) { unimplemented!() }" % (p, t) for p, t in GETTERS if p in which)))
    o.append("""impl CodePoint {
    #[verifier::external_body] pub fn new(cp: u32) -> (r: Result<CodePoint, &'static str>) ensures cp <= 0x10FFFF ==> r is Ok && r->Ok_0.code_point == cp, cp > 0x10FFFF ==> r is Err { unimplemented!() }
    #[verifier::external_body] pub fn to_u32(&self) -> (r: u32) ensures r == self.code_point { unimplemented!() }
}""")
    return "\n".join(o)

CHOICE = {}
def need(x, key):
    if key not in x["fns"]: raise Lost("function %s not found" % key)
    return x["fns"][key]

SHIMS = [("hex.vrs", r"\b(fmt_first|fmt_show|show_string)\b"), ("shims_collect.vrs", r"\b(collect_chars|extend_chars)\b"), ("shims_char.vrs", r"\bfrom_u32\b"),
    ("shims_str.vrs", r"\bstr_is_empty\b"), ("shims_string.vrs", r"\bString\s*::\s*from\b"), ("shims_cap.vrs", r"\bString\s*::\s*with_capacity\b"), ("shims_swap.vrs", r"\.\s*swap\b")]
class B:
    """module builder"""
    def __init__(self, name, x, cs):
        self.m, self.x, self.cs = Module(name), x, cs
        self.choice = CHOICE
        self.files = set()
        self.m.raw(HEADER)
        self.fns = []
    def raw(self, t, group=None): self.m.raw(t, group)
    def file(self, fn, group=None):
        self.files.add(fn)
        self.m.raw(open(os.path.join(VERIF, "proofs", fn)).read(), group or ("lemmas of " + fn))
    def fn(self, key, variant=""):
        f = need(self.x, key)
        es = emit_fn(self.cs[key + variant], f)
        es = [re.sub(r"\.\s*to_string\s*\(\s*\)", ".show_string()", e) for e in es]
        self.m.variants[key] = len(es)
        self.m.raw(es[min(self.choice.get(key, 0), len(es) - 1)], key)
        self.m.functions.append(key)
        self.m.inlined += [n[8:] for n in f["notes"] if n.startswith("inlined")]
        self.fns.append(key)
    def method(self, ty, keys, head=None):
        self.m.raw((head or "impl %s" % ty) + " {")
        for k in keys: self.fn(k)
        self.m.raw("}")
    def stub(self, key):
        self.m.raw(emit_stub(self.cs[key], self.x["fns"].get(key)))
        self.m.assumed.append(key)
    def consts(self, keys=None): self.m.raw(consts(self.x, keys or self.fns))
    def done(self):
        body = "\n".join(t for t, g in zip(self.m.parts, self.m.groups) if g[2] in self.m.functions)
        for fn, use in SHIMS:       # specifications of std that this body needs and the module does not have yet
            if fn not in self.files and re.search(use, body):
                self.file(fn)
                if fn == "hex.vrs": self.raw("broadcast use {hexl::lemma_push1, hexl::lemma_seq1};")
        self.m.raw(FOOTER)
        return self.m

# ------------------------------------------------------------------ wrap: CodePoint, char and the forwarding impls
def m_wrap(x, cs, which=None, name="wrap"):
    b = B(name, x, cs)
    which = which or [p for p, _ in GETTERS]
    b.raw(enums(x))
    b.raw(CODEPOINT + spec_getters(which) + trait_ucd(which))
    for p, t in GETTERS:
        if p in which:
            b.raw("#[verifier::external_body] fn %s(cp: u32) -> (r: %s) requires cp <= 0x10FFFF, ensures %s { unimplemented!() }" % (LEAF[p].replace("::", "__"), t, res_eq(t, "o_%s(cp)" % p)))
            b.m.assumed.append(LEAF[p])
    b.method("CodePoint", ["CodePoint::new", "CodePoint::to_u32"])
    b.raw("pub trait ToCodePoint { fn to_code_point(&self) -> CodePoint; }") if False else None
    b.raw("pub trait ToCodePoint { spec fn tcp(&self) -> u32; fn to_code_point(&self) -> (r: CodePoint) ensures r.code_point == self.tcp(), r.code_point <= 0x10FFFF; }")
    b.raw("impl ToCodePoint for char { open spec fn tcp(&self) -> u32 { *self as u32 }"); b.fn("char::to_code_point"); b.raw("}")
    for ty, v, wf in (("CodePoint", "self.code_point", "self.code_point <= 0x10FFFF"), ("char", "*self as u32", "true")):
        b.raw("impl Ucd for %s {\n    open spec fn cpv(&self) -> u32 { %s }\n    open spec fn cp_wf(&self) -> bool { %s }\n" % (ty, v, wf))
        for p, _ in GETTERS:
            if p in which: b.fn("%s::%s" % (ty, p))
        b.raw("}")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ bins: PropList properties and CE
def merged(r):
    m = []
    for a, b in sorted(tuple(t[:2]) for t in r):
        if m and m[-1][1] + 1 >= a: m[-1][1] = max(b, m[-1][1])
        else: m.append([a, b])
    return m
def bal(xs):
    if not xs: return "false"
    if len(xs) == 1: return xs[0]
    k = (len(xs) + 1) // 2
    return "(%s || %s)" % (bal(xs[:k]), bal(xs[k:]))
def in_ranges(r, v="cp"):
    return bal(["%s == %d" % (v, a) if a == b else "(%d <= %s && %s <= %d)" % (a, v, v, b) for a, b in merged(r)])
def spec_ranges(name, r):
    return "pub open spec fn %s(cp: u32) -> bool { %s }" % (name, in_ranges(r))
def int_table(x, key, need_search=False):
    """an integer table constant as a Verus constant with the extracted entries"""
    d = x["consts"][key]
    if "rows" not in d or not all(isinstance(r, int) for r in d["rows"]): raise Lost("table %s" % key)
    return d["rows"]

def m_bins(x, cs, which=None, name="bins"):
    b = B(name, x, cs)
    for p in which or BOOL_BIN:
        key = LEAF[p]
        b.raw(spec_ranges("u_" + p, ORACLE["bin"][ORACLE_BIN[p]]))
        cs[key].spec = "ensures r == u_%s(%s)," % (p, cs[key].params[0])
        b.fn(key)
    b.consts()
    return b.done()

def m_ce(x, cs):
    b = B("ce", x, cs)
    f = need(x, "ce::ce")
    b.file("shims_slice.vrs")
    for c in sorted(set(f["consts"])):
        d = x["consts"][c]
        if "rows" in d:
            rows = int_table(x, c)
            b.raw("pub open spec fn t_%s(cp: u32) -> bool { %s }" % (d["flat"], bal(["cp == %d" % r for r in rows])))
            b.raw("pub struct T_%s {}\npub const %s: T_%s = T_%s {};\nimpl T_%s { #[verifier::external_body] pub fn contains(&self, x: &u32) -> (r: bool) ensures r == t_%s(*x) { unimplemented!() } }" % ((d["flat"],) * 6))
            if rows == sorted(set(rows)):
                b.raw("impl T_%s { #[verifier::external_body] pub fn binary_search(&self, x: &u32) -> (r: Result<usize, usize>) ensures r is Ok == t_%s(*x) { unimplemented!() } }" % ((d["flat"],) * 2))
            b.m.assumed.append("slice contains on the %d extracted entries of %s" % (len(rows), c))
    b.raw(spec_ranges("u_ce", ORACLE["bin"]["CE"]))
    cs["ce::ce"].spec = "ensures r == u_ce(%s)," % cs["ce::ce"].params[0]
    b.fn("ce::ce")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ derived: UAX #44 derivations
def m_derived(x, cs, name="derived", keys=None):
    b = B(name, x, cs)
    b.raw(enums(x))
    b.raw(ucd_assumed([p for p, _ in GETTERS]))
    b.file("shims_slice.vrs")
    for p in keys or ["math", "alpha", "lower", "upper", "cased", "ci", "di", "gr_ext", "ids", "idc"]:
        b.fn(LEAF[p])
    b.consts()
    return b.done()
def m_incb(x, cs): return m_derived(x, cs, "incb", ["incb"])
def m_xid(x, cs):
    b = B("xid", x, cs)
    b.raw(enums(x))
    b.raw(ucd_assumed([p for p, _ in GETTERS]))
    b.file("shims_slice.vrs")
    for _ in not_xid(b): pass
    b.raw("".join("#[verifier::external_body] fn derived_props__%s(cp: u32) -> (r: bool) requires cp <= 0x10FFFF, ensures r == o_%s(cp) { unimplemented!() }\n" % (p, p) for p in ("ids", "idc")))
    b.fn("derived_props::xids"); b.fn("derived_props::xidc")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ table: the generic two-stage table
def m_table(x, cs):
    b = B("table", x, cs)
    if "TwoStageTable" not in x["structs"]: raise Lost("struct TwoStageTable")
    gen, fields = x["structs"]["TwoStageTable"]
    b.raw("""
// stand-ins for num::Num and num::cast::AsPrimitive (assumed: as_() is the primitive cast)
pub trait Num {}
pub trait AsPrimitive<U>: Copy { spec fn as_spec(self) -> U; fn as_(self) -> (r: U) ensures r == self.as_spec(); }
pub struct TwoStageTable%s %s
""" % (gen, re.sub(r"(\w+ :)", r"pub \1", re.sub(r"pub(\s*\([^)]*\))?\s", "", fields))))
    b.raw("pub open spec fn quot(cp: u32, bs: usize) -> int { (cp as int) / (bs as int) }\npub open spec fn offs(cp: u32, bs: usize) -> int { (cp as int) % (bs as int) }")
    for t in ("u8", "u16", "u32", "u64", "usize"):
        b.raw("impl Num for %s {}\nimpl AsPrimitive<usize> for %s { open spec fn as_spec(self) -> usize { self as usize } fn as_(self) -> (r: usize) { self as usize } }" % (t, t))
    for k in ("TwoStageTable::new", "TwoStageTable::at"):
        b.raw(need(x, k)["hdr"] + " {"); b.fn(k); b.raw("}")
    b.m.assumed.append("num::cast::AsPrimitive::as_ (modelled by an abstract cast; exact for unsigned primitives)")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ names: PropertyValueAliases
NAMED = list(IDENTS.keys())
def name_fn(p): return "property_names::%s_name" % ("binary_property" if p == "binary" else p)
def rs(t): return '"' + t.replace("\\", "\\\\").replace('"', '\\"') + '"'
def name_tree(ns, mk):
    """a decision tree on length and characters: which of the names is s?"""
    if len(ns) == 1: return mk(ns[0])
    tests = {}
    for n in ns: tests.setdefault(("l", len(n)), set()).add(n)
    for i in range(min(map(len, ns))):
        for n in ns: tests.setdefault((i, n[i]), set()).add(n)
    k, part = min(tests.items(), key=lambda t: (abs(2 * len(t[1]) - len(ns)), str(t[0])))
    c = "s.len() == %d" % k[1] if k[0] == "l" else "s[%d] == '%s'" % k
    return "if %s { %s } else { %s }" % (c, name_tree([n for n in ns if n in part], mk), name_tree([n for n in ns if n not in part], mk))
CH = 8
def distinct_names(b, p, e, k, names):
    """a value is determined by its name"""
    inv = {n: v for v, n in names.items()}
    assert len(inv) == len(names)
    b.raw("pub open spec fn of_%s_%s(s: Seq<char>) -> %s { %s }" % (k, p, e, name_tree(sorted(inv), lambda n: "%s::%s" % (e, inv[n]))), "lemmas of the names of " + p)
    vs = list(names.items())
    for q in range(0, len(vs), CH):
        c = vs[q:q + CH]
        b.raw("proof fn named_%s_%s_%d(v: %s) requires %s ensures of_%s_%s(%s_%s(v)) == v\n{ match v { %s _ => {} } }" % (k, p, q, e, " || ".join("v == %s::%s" % (e, v) for v, _ in c), k, p, k, p,
            ", ".join("%s::%s => { reveal_strlit(%s); }" % (e, v, rs(n)) for v, n in c) + ","), "lemmas of the names of " + p)
    b.raw("pub proof fn thm_%s_%s(v: %s, w: %s) requires %s_%s(v) == %s_%s(w) ensures v == w\n{ %s }" % (k, p, e, e, k, p, k, p,
        " ".join("if %s { named_%s_%s_%d(%s); }" % (" || ".join("%s == %s::%s" % (z, e, v) for v, _ in vs[q:q + CH]), k, p, q, z) for q in range(0, len(vs), CH) for z in "vw")), "lemmas of the names of " + p)

def names_oracle(b, x, each):
    b.raw(enums(x, [IDENTS[p]["enum"] for p in NAMED]))
    for p in NAMED:
        e, vs = IDENTS[p]["enum"], IDENTS[p]["values"]
        if sorted(v for v, _ in x["enums"][e]) != sorted(vs): raise Lost("values of enum %s" % e)
        for k, i in (("abbr", 0), ("full", 1)):
            b.raw("pub open spec fn %s_%s(v: %s) -> Seq<char> { match v { %s } }" % (k, p, e, ", ".join("%s::%s => %s@" % (e, v, rs(n[i])) for v, n in vs.items())))
            each(p, e, k, {v: n[i] for v, n in vs.items()})
def m_namethm(x, cs):
    """the published names of the values of a property are distinct"""
    b = B("namethm", x, cs)
    names_oracle(b, x, lambda p, e, k, ns: distinct_names(b, p, e, k, ns))
    return b.done()
def m_names(x, cs):
    b = B("names", x, cs)
    b.raw("pub struct PropertyName { pub full: &'static str, pub abbr: &'static str }")
    names_oracle(b, x, lambda *a: None)
    for p in NAMED:
        if name_fn(p) in x["fns"]: b.fn(name_fn(p))
    b.raw("pub trait UnicodeProperty { spec fn w_abbr(&self) -> Seq<char>; spec fn w_full(&self) -> Seq<char>; fn property_value_name(&self) -> (r: PropertyName) ensures r.abbr@ == self.w_abbr(), r.full@ == self.w_full(); }")
    for p in NAMED:
        e = IDENTS[p]["enum"]
        b.raw("impl UnicodeProperty for %s { open spec fn w_abbr(&self) -> Seq<char> { abbr_%s(*self) } open spec fn w_full(&self) -> Seq<char> { full_%s(*self) }" % (e, p, p))
        b.fn("%s::property_value_name" % e)
        b.raw("}")
    b.raw("impl BinaryProperty {"); b.fn("BinaryProperty::from"); b.raw("}")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ order: the Canonical Ordering Algorithm
def m_order(x, cs):
    b = B("order", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["ccc"])); b.file("shims_swap.vrs"); b.file("def_ccc.vrs"); b.file("canon.vrs")
    if "normalization::reorderable_pair" in x["fns"]: b.fn("normalization::reorderable_pair")
    b.fn("normalization::canonical_ordering")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ decomp: full decomposition
def m_decomp(x, cs):
    b = B("decomp", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["dm", "dt"])); b.file("shims_str.vrs"); b.file("shims_collect.vrs"); b.raw("pub uninterp spec fn o_rank(cp: u32) -> nat;"); b.file("def_dec.vrs"); b.file("decomp.vrs"); b.file("facts.vrs"); b.file("veclen.vrs")
    b.fn("normalization::canonical_decomposition")
    if "normalization::compatibility_decomposition" in cs: b.fn("normalization::compatibility_decomposition")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ compose: canonical composition
def m_compose(x, cs):
    b = B("compose", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["dm", "dt", "ccc", "comp_ex", "gc"])); b.file("shims_str.vrs"); b.file("shims_char.vrs"); b.file("def_ccc.vrs"); b.file("canon.vrs"); b.file("def_pc_s.vrs"); b.file("def_pc.vrs"); b.file("def_comp.vrs"); b.file("compose.vrs"); b.file("facts_comp.vrs")
    for k in ("normalization::starter", "normalization::primary_composite", "normalization::blocked"):
        if k in x["fns"]: b.fn(k)
    b.stub("dm::rdm")
    b.fn("normalization::canonical_composition")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ norm: the four forms and their algebra
def m_norm(x, cs):
    b = B("norm", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["dm", "dt", "ccc", "comp_ex"])); b.file("shims_str.vrs"); b.file("shims_collect.vrs")
    b.raw("pub uninterp spec fn o_rank(cp: u32) -> nat;")
    for f in ("def_ccc.vrs", "canon.vrs", "def_dec.vrs", "decomp.vrs", "facts.vrs", "veclen.vrs", "def_pc_s.vrs", "def_pc.vrs", "def_comp.vrs", "compose.vrs", "facts_comp.vrs", "facts_ex.vrs", "def_nf.vrs", "norm.vrs"): b.file(f)
    for k in ("canonical_decomposition", "compatibility_decomposition", "canonical_ordering", "canonical_composition"): b.stub("normalization::" + k)
    for k in ("nfd", "nfkd", "nfc", "nfkc"):
        if "normalization::" + k in x["fns"]: b.fn("normalization::" + k)
    b.raw("pub trait Normalization { spec fn v_(&self) -> Seq<char>; " + " ".join("fn to_%s(&self) -> (r: String) ensures nf_%s(%s, self.v_(), r@);" % (k, k[-1], "true" if "k" in k else "false") for k in ("nfd", "nfkd", "nfc", "nfkc")) + " }")
    b.raw("impl Normalization for str { open spec fn v_(&self) -> Seq<char> { self@ }")
    for k in ("nfd", "nfkd", "nfc", "nfkc"): b.fn("str::to_" + k)
    b.raw("}")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ seg: grapheme clusters
def m_part(x, cs): return m_seg(x, cs, "part", "~part")
def m_seg(x, cs, name="seg", variant=""):
    b = B(name, x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["gcb", "incb", "ext_pict"])); b.file("shims_text.vrs"); b.file("def_seg.vrs"); b.file(name + ".vrs"); b.file("facts_seg.vrs")
    b.raw("pub struct BreakGraphemes<'a> { pub slice: &'a str }")
    b.raw("impl<'a> BreakGraphemes<'a> {"); b.fn("BreakGraphemes::next", variant); b.raw("}")
    b.raw("pub trait Segmentation { spec fn v_(&self) -> Seq<char>; fn break_graphemes(&self) -> (r: BreakGraphemes) ensures r.slice@ == self.v_(); }")
    b.raw("impl Segmentation for str { open spec fn v_(&self) -> Seq<char> { self@ }"); b.fn("str::break_graphemes"); b.raw("}")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ compex: Full_Composition_Exclusion
def m_compex(x, cs):
    b = B("compex", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["dm", "dt", "ccc", "ce", "gc"])); b.file("shims_str.vrs"); b.file("shims_char.vrs"); b.file("shims_collect.vrs"); b.raw("pub uninterp spec fn o_rank(cp: u32) -> nat;")
    for f in ("def_ccc.vrs", "def_dec.vrs", "decomp.vrs", "facts.vrs", "def_pc_s.vrs", "compex.vrs"): b.file(f)
    b.stub("normalization::canonical_decomposition")
    if "normalization::starter" in x["fns"]: b.fn("normalization::starter")
    for k in ("normalization::singleton_decomposition", "normalization::non_starter_decomposition", "normalization_props::comp_ex"):
        if k in x["fns"]: b.fn(k)
    b.consts()
    return b.done()

# ------------------------------------------------------------------ hangul: section 3.12
HANGUL = ["hangul::arithmetic_decomposition_mapping", "hangul::decompose", "hangul::arithmetic_primary_composite_mapping", "hangul::arithmetic_primary_composite_mapping_lv_t"]
def m_hangul(x, cs):
    b = B("hangul", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["hst"])); b.file("hangul.vrs"); b.file("facts_hst.vrs")
    for k in HANGUL:
        if k in x["fns"]: b.fn(k)
    b.consts()
    return b.done()

def m_hthm(x, cs):
    """theorems about the specification of to_nfd and to_nfc (module norm) on Hangul syllables and jamo"""
    b = B("hthm", x, cs)
    b.raw(enums(x, ["Dt", "Ccc"])); b.raw("pub uninterp spec fn o_dm(cp: u32) -> Seq<char>; pub uninterp spec fn o_dt(cp: u32) -> Dt; pub uninterp spec fn o_ccc(cp: u32) -> Ccc; pub uninterp spec fn o_comp_ex(cp: u32) -> bool; pub uninterp spec fn o_rank(cp: u32) -> nat;")
    for f in ("hangul.vrs", "def_ccc.vrs", "canon.vrs", "def_dec.vrs", "decomp.vrs", "facts.vrs", "def_pc_s.vrs", "def_pc.vrs", "def_comp.vrs", "compose.vrs", "facts_comp.vrs", "facts_ex.vrs", "def_nf.vrs", "norm.vrs", "facts_h.vrs", "hthm.vrs"): b.file(f)
    return b.done()

# ------------------------------------------------------------------ dm: Decomposition_Mapping
def dm_oracle(b):
    rows = ORACLE["dm"]
    b.raw("pub spec const NDM: int = %d;" % len(rows))
    b.raw(tables.tree("u_dk", "u32", [r[0] for r in rows]))
    b.raw(tables.tree("u_du", "Seq<u32>", [tables.codes(r[1]) for r in rows]))
    b.file("dm.vrs")
    b.raw(tables.check_all("d_rows", "d_row", "NDM", len(rows)))
def str_table(x, key, kt, vt):
    if key not in x["consts"] or "rows" not in x["consts"][key]: raise Lost("table %s" % key)
    d = x["consts"][key]
    for r in d["rows"]:
        if not isinstance(r, list) or len(r) != 2 or not isinstance(r[0], kt) or not isinstance(r[1], vt): raise Lost("rows of table %s" % key)
    return d["flat"], d["rows"]
def m_dm(x, cs):
    b = B("dm", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed([])); b.file("shims_char.vrs"); b.file("shims_string.vrs"); b.file("hangul.vrs")
    dm_oracle(b)
    flat, rows = str_table(x, "dm_map::DM_MAP", int, str)
    b.raw("pub spec const XDM: int = %d;" % len(rows), "table dm_map::DM_MAP")
    b.raw(tables.tree("x_dk", "u32", [r[0] for r in rows]), "table dm_map::DM_MAP")
    b.raw(tables.tree("x_du", "Seq<u32>", [tables.codes(r[1]) for r in rows]), "table dm_map::DM_MAP")
    b.file("dmtab.vrs", "table dm_map::DM_MAP")
    b.raw(tables.check_all("x_rows", "x_row", "XDM", len(rows)) + "proof fn x_len() ensures XDM == NDM { }\n", "table dm_map::DM_MAP")
    b.raw("""
#[verifier::external_body] fn %s__search(k: &u32) -> (r: Result<usize, usize>)
    requires x_sorted()
    ensures match r { Ok(i) => i < XDM && x_dk(i as int) == *k, Err(_) => forall|i: int| 0 <= i < XDM ==> #[trigger] x_dk(i) != *k } { unimplemented!() }
#[verifier::external_body] fn %s__row(i: usize) -> (r: (u32, &'static str)) requires i < XDM ensures r.0 == x_dk(i as int), r.1@ == chars_of(x_du(i as int)) { unimplemented!() }""" % (flat, flat))
    b.m.assumed += ["slice::binary_search_by_key on the %d extracted rows of dm_map::DM_MAP (its sortedness is proved)" % len(rows), "reading row i of dm_map::DM_MAP yields the extracted row"]
    b.stub("hangul::arithmetic_decomposition_mapping")
    b.fn("dm::dm")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ rdm: the reverse mapping
def pair_rows():
    """the rows of ORACLE["dm"] that are canonical two-character mappings of code points not listed in CompositionExclusions, in the order of their mappings"""
    rows, can, ce = ORACLE["dm"], set(), set()
    for a, z, v in ORACLE["enum"]["dt"]:
        if v == "Can": can |= set(range(a, z + 1))
    for a, z in merged(ORACLE["bin"]["CE"]): ce |= set(range(a, z + 1))
    return sorted((j for j, r in enumerate(rows) if len(r[1]) == 2 and r[0] in can and r[0] not in ce), key=lambda j: rows[j][1])
def pair_tree(b):
    pos = {j: k for k, j in enumerate(pair_rows())}
    b.raw(tables.tree("u_pos", "int", ["(%d)" % pos.get(j, -1) for j in range(len(ORACLE["dm"]))]))
def m_rdm(x, cs):
    b = B("rdm", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["hst"]) + "\npub uninterp spec fn o_dt(cp: u32) -> Dt; pub uninterp spec fn o_comp_ex(cp: u32) -> bool;"); b.file("shims_char.vrs"); b.file("shims_collect.vrs"); b.file("hangul.vrs"); b.file("facts_hst.vrs")
    dm_oracle(b); pair_tree(b)
    b.file("def_pc_s.vrs"); b.file("def_pc.vrs"); b.file("facts_rdm.vrs")
    flat, rows = str_table(x, "dm_map::RDM_MAP", str, int)
    g = "table dm_map::RDM_MAP"
    dm = ORACLE["dm"]; no = {r[0]: j for j, r in enumerate(dm)}
    at = {}
    for i, r in enumerate(rows): at.setdefault((r[0], r[1]), i)
    b.raw("pub spec const XRD: int = %d;" % len(rows), g)
    b.raw(tables.tree("x_rk", "Seq<u32>", [tables.codes(r[0]) for r in rows]), g)
    b.raw(tables.tree("x_rv", "u32", [r[1] for r in rows]), g)
    b.raw(tables.tree("x_ri", "int", ["(%d)" % no.get(r[1], -1) for r in rows]), g)
    b.raw(tables.tree("u_rp", "int", ["(%d)" % at.get(("".join(map(chr, r[1])), r[0]), -1) for r in dm]), g)
    b.file("rdm.vrs", g)
    b.raw(tables.check_all("rx_rows", "rx_row", "XRD", len(rows)), g)
    b.raw(tables.check_all("rp_rows", "rp_row", "NDM", len(dm)), g)
    b.raw("""
#[verifier::external_body] fn %s__search(k: &&str) -> (r: Result<usize, usize>)
    requires xr_sorted()
    ensures match r { Ok(i) => i < XRD && k@ == chars_of(x_rk(i as int)), Err(_) => forall|i: int| 0 <= i < XRD ==> k@ != chars_of(#[trigger] x_rk(i)) } { unimplemented!() }
#[verifier::external_body] fn %s__row(i: usize) -> (r: (&'static str, u32)) requires i < XRD ensures r.0@ == chars_of(x_rk(i as int)), r.1 == x_rv(i as int) { unimplemented!() }""" % (flat, flat))
    b.m.assumed += ["slice::binary_search_by_key on the %d extracted rows of dm_map::RDM_MAP (that the keys are in code point order, which is the order of str, is proved)" % len(rows), "reading row i of dm_map::RDM_MAP yields the extracted row"]
    for k in HANGUL[2:]:
        if k in x["fns"]: b.stub(k)
    b.fn("dm::rdm")
    b.consts()
    return b.done()

# ------------------------------------------------------------------ na: character names
def na_oracle(b):
    jam = {}
    for base, l in zip((0x1100, 0x1161, 0x11A7), ORACLE["jamo"]):
        for k, n in enumerate(l):
            if base + k != 0x11A7: jam[base + k] = n
    b.raw("/// Jamo_Short_Name\npub open spec fn o_jsn(c: u32) -> Seq<char> { %s else { Seq::<char>::empty() } }" % " else ".join('if c == %d { ("%s"@) }' % (c, n) for c, n in sorted(jam.items())))
    pre = {}
    for a, z, p in ORACLE["nr2"]: pre.setdefault(p, []).append([a, z])
    b.raw("/// rule NR2: the prefix of the names that end in the code point\npub open spec fn nr2(cp: u32) -> Option<Seq<char>> { %s else { None } }" % " else ".join('if %s { Some("%s"@) }' % (in_ranges(r), p) for p, r in pre.items()))
    t, n = tables.runs("u_nk", [r[0] for r in ORACLE["na"]])
    b.raw(t)
    b.file("hex.vrs"); b.file("na.vrs")
    b.raw(tables.check_all("n_runs", "n_run", "N_u_nk", n))
def m_na(x, cs):
    b = B("na", x, cs)
    b.raw(enums(x)); b.file("shims_string.vrs"); b.file("hangul.vrs")
    na_oracle(b)
    flat, rows = str_table(x, "na_table::NA_MAP", int, str)
    g = "table na_table::NA_MAP"
    ids = {r[1]: j for j, r in enumerate(ORACLE["na"])}
    assert len(ids) == len(ORACLE["na"])
    t, n = tables.runs("x_nk", [r[0] for r in rows]); b.raw(t, g)
    t, m = tables.runs("x_nt", [ids.setdefault(r[1], len(ids)) for r in rows]); b.raw(t, g)
    b.file("natab.vrs", g)
    b.raw(tables.check_all("x_runs", "x_run", "N_x_nk", n), g)
    b.raw("proof fn x_same_len() ensures N_x_nk == N_u_nk && L_x_nk == L_u_nk && N_x_nt == 1 && L_x_nt == L_x_nk && L_x_nk > 0 { }\nproof fn x_text() ensures x_nt_b(0) == 0 && x_nt_s(0) == 0 { assert(x_nt_b(0) == 0 && x_nt_s(0) == 0) by (compute_only); }", g)
    b.raw("""
#[verifier::external_body] fn %s__search(k: &u32) -> (r: Result<usize, usize>)
    requires x_nk_sorted()
    ensures match r { Ok(i) => i < L_x_nk && x_nk(i as int) == *k, Err(_) => forall|i: int| 0 <= i < L_x_nk ==> #[trigger] x_nk(i) != *k } { unimplemented!() }
#[verifier::external_body] fn %s__row(i: usize) -> (r: (u32, &'static str)) requires i < L_x_nk ensures r.0 == x_nk(i as int), r.1@ == text(x_nt(i as int)) { unimplemented!() }""" % (flat, flat))
    b.m.assumed += ["slice::binary_search_by_key on the %d extracted rows of na_table::NA_MAP (its sortedness is proved)" % len(rows), "reading row i of na_table::NA_MAP yields the extracted row; its name is represented by a number that is equal for equal names only"]
    if "jsn::jsn" in x["fns"]: b.fn("jsn::jsn")
    if "hangul::decompose" in x["fns"]: b.stub("hangul::decompose")
    for k in ("hangul::syllable_name", "na::na"):
        if k in x["fns"]: b.fn(k)
    b.consts()
    return b.done()

def m_nathm(x, cs):
    """no two code points share a name"""
    b = B("nathm", x, cs)
    b.raw(enums(x)); b.file("hangul.vrs"); na_oracle(b); b.file("hexthm.vrs"); b.file("nathm.vrs")
    code = lambda s: sum(ord(c) * 256 ** k for k, c in enumerate(reversed(s)))
    cases = []
    for base, l, w in zip((0x1100, 0x1161, 0x11A7), ORACLE["jamo"], "lvt"):
        inv = [(code(n), base + k) for k, n in enumerate(l) if base + k != 0x11A7]
        b.raw("pub open spec fn inv_%s(n: int) -> u32 { %s else { 0 } }" % (w, " else ".join("if n == %d { %d }" % e for e in inv)))
        cases += [(base + k, n) for k, n in enumerate(l) if base + k != 0x11A7]
    b.raw("""proof fn nj_all(c: u32) requires is_l(c) || is_v(c) || is_t(c)
    ensures is_l(c) ==> all_cons(o_jsn(c)) && inv_l(jn(o_jsn(c))) == c, is_v(c) ==> all_vow(o_jsn(c)) && inv_v(jn(o_jsn(c))) == c, is_t(c) ==> all_cons(o_jsn(c)) && inv_t(jn(o_jsn(c))) == c && o_jsn(c).len() > 0
{ %s }""" % " else ".join('if c == %d { reveal_strlit("%s"); assert(o_jsn(c) =~= %s); }' % (c, n, "seq![%s]" % ", ".join("'%s'" % k for k in n) if n else "Seq::<char>::empty()") for c, n in cases))
    pre = ["HANGUL SYLLABLE "] + sorted({p for _, _, p in ORACLE["nr2"]})
    names = [r[1] for r in ORACLE["na"]]
    assert len(set(names)) == len(names) and all(names) and not any(n.startswith(p) for n in names for p in pre)      # fact_text
    neq = lambda p, q: next(i for i in range(min(len(p), len(q))) if p[i] != q[i])
    b.raw("proof fn lemma_pre() ensures %s { %s %s }" % (
        ", ".join('"%s"@.len() == %d' % (p, len(p)) for p in pre) + ", " + ", ".join('"%s"@[%d] != "%s"@[%d]' % (p, neq(p, q), q, neq(p, q)) for p in pre for q in pre if p < q),
        "".join('reveal_strlit("%s"); ' % p for p in pre), ""))
    b.raw("""proof fn lemma_prefixes(s: Seq<char>, a: u32, b: u32)
    requires syl(a) || nr2(a) is Some, syl(b) || nr2(b) is Some, starts(s, nr(a)), starts(s, nr(b))
    ensures nr(a) == nr(b), syl(a) == syl(b)
{ lemma_pre(); %s }""" % " ".join('assert(!(starts(s, "%s"@) && starts(s, "%s"@))) by { if starts(s, "%s"@) && starts(s, "%s"@) { assert(s[%d] == "%s"@[%d]); assert(s[%d] == "%s"@[%d]); } }' % (p, q, p, q, neq(p, q), p, neq(p, q), neq(p, q), q, neq(p, q)) for p in pre for q in pre if p < q))
    b.raw("""proof fn lemma_listed(s: Seq<char>, a: u32)
    requires syl(a) || nr2(a) is Some, starts(s, nr(a)), %s
    ensures false
{ }""" % ", ".join('!starts(s, "%s"@)' % p for p in pre))
    b.raw("""/// the listed names (text(j) stands for the j-th): evaluated on the oracle when this file is generated
#[verifier::external_body]
proof fn fact_text(i: int, j: int) requires 0 <= i < L_u_nk, 0 <= j < L_u_nk ensures text(i).len() > 0, text(i) == text(j) ==> i == j, %s { }""" % ", ".join('!starts(text(i), "%s"@)' % p for p in pre))
    b.m.assumed += ["the %d listed names of the oracle are distinct, non-empty, and none begins with a prefix of rule NR1 or NR2: evaluated when the module is generated" % len(names)]
    return b.done()

def m_fmt(x, cs):
    """Display of CodePoint"""
    b = B("fmt", x, cs)
    b.raw(CODEPOINT); b.file("hex.vrs"); b.file("fmt.vrs"); b.file("hexthm.vrs")
    b.method("CodePoint", ["CodePoint::fmt", "CodePoint::to_u32"])
    b.m.assumed += ["core::fmt: write!(f, \"<pre>{:04X}<post>\", u32) appends pre, at least four upper-case hexadecimal digits of the value, post"]
    return b.done()

def m_version(x, cs):
    """what a UnicodeVersion prints"""
    b = B("version", x, cs)
    b.raw("pub struct UnicodeVersion { pub major: u32, pub minor: u32, pub update: u32 }"); b.file("hex.vrs"); b.file("version.vrs")
    b.method("UnicodeVersion", ["UnicodeVersion::to_string"])
    b.m.assumed += ["core::fmt: {} writes a u32 in decimal without leading zeros"]
    return b.done()

# ------------------------------------------------------------------ the data facts, over the oracle
def enum_col(p):
    import mkkani
    return (p, IDENTS[p]["enum"], [[a, z, "%s::%s" % (IDENTS[p]["enum"], mkkani.ident(p, v))] for a, z, v in ORACLE["enum"][p]], "/* uncovered */")
def bool_col(p):
    import mkkani
    return (p, "bool", [[a, z, "true"] for a, z in merged(ORACLE["bin"][mkkani.EMOJI.get(p) or ORACLE_BIN[p]])], "false")
def fact_file(b, fn, proofs):
    """the facts exactly as the other modules assume them, with a proof in place of #[verifier::external_body]"""
    t = open(os.path.join(VERIF, "proofs", fn)).read().replace("#[verifier::external_body]\n", "").replace("{ arbitrary() }", "{ }")
    for name, body in proofs.items():
        i = t.index("proof fn %s(" % name); j = t.index("{ }", i)
        t = t[:j] + "{" + body + "}" + t[j + 3:]
    assert "{ }" not in t
    b.raw(t, "data facts of " + fn)
def m_segfacts(x, cs):
    b = B("segfacts", x, cs)
    b.raw(enums(x, ["Gcb", "Incb"]))
    t, n, los = tables.partition("p", [enum_col("gcb"), enum_col("incb"), bool_col("ext_pict")])
    b.raw(t); b.file("def_seg.vrs")
    b.raw("""pub open spec fn el_(i: int) -> bool { p_incb(i) == Incb::Extend || p_incb(i) == Incb::Linker }
pub open spec fn seg_ok(i: int) -> bool {
    (el_(i) ==> p_gcb(i) == Gcb::EX || p_gcb(i) == Gcb::ZWJ || p_gcb(i) == Gcb::SM) && (p_incb(i) == Incb::Consonant ==> p_gcb(i) == Gcb::XX)
    && (p_ext_pict(i) ==> p_gcb(i) == Gcb::XX && p_incb(i) == Incb::None)
}""")
    b.raw(tables.check_all("seg_rows", "seg_ok", n, n))
    fact_file(b, "facts_seg.vrs", {"fact_seg": " p_in(c as u32); seg_rows_at(p_at(c as u32)); assert(o_gcb(0) == Gcb::CN) by (compute_only); "})
    return b.done()

def rank_of():
    dm = {c: v for c, v in ORACLE["dm"]}
    memo = {}
    def rk(c):
        if 0xAC00 <= c <= 0xD7A3: return 1 if (c - 0xAC00) % 28 == 0 else 2
        if c not in dm: return 0
        if c not in memo: memo[c] = 1 + max(rk(d) for d in dm[c])
        return memo[c]
    return [[c, c, str(rk(c))] for c in sorted(dm)]
def dm_facts(b):
    for a, z, v in ORACLE["enum"]["hst"]:     # the closed form of Hangul_Syllable_Type below is the oracle's table
        for c in range(a, z + 1):
            w = ("LV" if (c - 0xAC00) % 28 == 0 else "LVT") if 0xAC00 <= c <= 0xD7A3 else "L" if 0x1100 <= c <= 0x115F or 0xA960 <= c <= 0xA97C else "V" if 0x1160 <= c <= 0x11A7 or 0xD7B0 <= c <= 0xD7C6 else "T" if 0x11A8 <= c <= 0x11FF or 0xD7CB <= c <= 0xD7FB else "NA"
            assert v == w, (hex(c), v, w)
    b.file("hangul.vrs")
    b.raw("""pub open spec fn o_hst(cp: u32) -> Hst { if lv(cp) { Hst::LV } else if lvt(cp) { Hst::LVT } else if 0x1100 <= cp <= 0x115F || 0xA960 <= cp <= 0xA97C { Hst::L } else if 0x1160 <= cp <= 0x11A7 || 0xD7B0 <= cp <= 0xD7C6 { Hst::V } else if 0x11A8 <= cp <= 0x11FF || 0xD7CB <= cp <= 0xD7FB { Hst::T } else { Hst::NA } }
proof fn lemma_hst(cp: u32) ensures (o_hst(cp) == Hst::LV) == lv(cp), (o_hst(cp) == Hst::LVT) == lvt(cp) { }""")
    dm_oracle(b)
    rows = ORACLE["dm"]
    rowno = {r[0]: j for j, r in enumerate(rows)}
    dt = enum_col("dt"); ce = bool_col("ce"); ccc = enum_col("ccc")
    t, n, los = tables.partition("p", [dt, ccc, ce, ("rk", "nat", rank_of(), "0")])
    b.raw(t)
    b.raw(tables.tree("p_row", "int", [rowno.get(lo, 0) for lo in los]))
    pc = pair_rows()
    b.raw("pub spec const NPC: int = %d;" % len(pc))
    b.raw(tables.tree("u_pc", "int", pc))
    pair_tree(b)
    for f in ("def_ccc.vrs", "def_dec.vrs", "decomp.vrs", "def_pc_s.vrs", "def_pc.vrs", "compex.vrs", "dmfacts.vrs"): b.file(f)
    b.raw(tables.check_all("itvs", "itv_ok", n, n)); b.raw(tables.check_all("rows", "row_ok", "NDM", len(rows))); b.raw(tables.check_all("pcs", "pc_ok", "NPC", len(pc)))
    fact_file(b, "facts.vrs", {"fact_rank": " prove_rank(k, c); "})
    fact_file(b, "facts_comp.vrs", {"fact_pc": " prove_pc(p, l, c); "})
    fact_file(b, "facts_ex.vrs", {"fact_excluded": " prove_excluded(c); ", "fact_ns": " prove_ns(c); "})
    fact_file(b, "facts_hst.vrs", {"fact_hst": " lemma_hst(cp); "})
    fact_file(b, "facts_rdm.vrs", {"fact_dt": " thm_dt(cp); ", "fact_pair": " lemma_pc_case(p, l, c) "})
    fact_file(b, "facts_h.vrs", {"fact_syl": " prove_syl(s); ", "fact_jamo": " lemma_jamo_rank(c); ", "fact_h_only": " let j = lemma_pc_case(p, l, c); "})
def m_dmfacts(x, cs):
    b = B("dmfacts", x, cs)
    b.raw(enums(x, ["Dt", "Ccc", "Hst"]))
    dm_facts(b)
    return b.done()

def not_xid(b):
    o = ORACLE["bin"]
    for p, base in (("XIDS", "IDS"), ("XIDC", "IDC")):
        S = lambda k: {c for a, z in merged(o[k]) for c in range(a, z + 1)}
        assert S(p) <= S(base)
        d = sorted(S(base) - S(p))
        b.raw("pub open spec fn not_%s(cp: u32) -> bool { %s }" % (p.lower(), in_ranges([[c, c] for c in d])))
        yield d
def m_idfacts(x, cs):
    """facts_id.vrs over the oracle's rows"""
    b = B("idfacts", x, cs)
    b.raw(enums(x, ["Dt", "Ccc", "Hst"]))
    b.file("hangul.vrs"); dm_oracle(b)
    ds = list(not_xid(b))
    t, n, los = tables.partition("p", [enum_col("dt"), enum_col("ccc")] + [bool_col(p) for p in ("ids", "idc", "xids", "xidc")], {c + k for d in ds for c in d for k in (0, 1)})
    b.raw(t)
    for w, d in zip("sc", ds): b.raw("pub open spec fn no_cut_%s(a: u32, z: u32) -> bool { %s }" % (w, " && ".join("(%d < a || z <= %d || (a == %d && z == %d))" % (c, c, c, c + 1) for c in d)))
    b.raw("pub uninterp spec fn o_comp_ex(cp: u32) -> bool;")
    for f in ("def_pc_s.vrs", "def_pc.vrs", "idfacts.vrs"): b.file(f)
    b.raw(tables.check_all("id_itvs", "id_itv_ok", n, n)); b.raw(tables.check_all("id_rows", "id_row_ok", "NDM", len(ORACLE["dm"])))
    fact_file(b, "facts_id.vrs", {"fact_id": " prove_id(c); ", "fact_id_pc": " prove_id_pc(p, l, c); "})
    return b.done()
def m_ident(x, cs):
    """identifiers are closed under the normalization forms (lemmas over the specification of to_nfd, ..., to_nfkc)"""
    b = B("ident", x, cs)
    b.raw(enums(x)); b.raw(ucd_assumed(["dm", "dt", "ccc", "comp_ex", "xids", "xidc"]))
    b.raw("pub uninterp spec fn o_rank(cp: u32) -> nat;")
    for f in ("def_ccc.vrs", "canon.vrs", "def_dec.vrs", "def_pc_s.vrs", "def_pc.vrs", "def_comp.vrs", "def_nf.vrs", "facts_id.vrs", "ident.vrs"): b.file(f)
    return b.done()

def all_contracts():
    cs = load_contracts()
    for p in NAMED:
        c = Contract(name_fn(p), ["prop"]); c.spec = "ensures r.abbr@ == abbr_%s(prop), r.full@ == full_%s(prop)," % (p, p); cs[c.key] = c
        c = Contract(IDENTS[p]["enum"] + "::property_value_name", ["self"]); cs[c.key] = c
    c = Contract("BinaryProperty::from", ["val"]); c.spec = "ensures r == (if val { BinaryProperty::Y } else { BinaryProperty::N }),"; cs[c.key] = c
    for p, _ in GETTERS:
        for ty in ("CodePoint", "char"):
            c = Contract("%s::%s" % (ty, p), ["self"]); cs[c.key] = c
        if LEAF[p] not in cs:
            c = Contract(LEAF[p], ["cp"]); cs[c.key] = c
    return cs

def build(name, x, choice=None):
    global CHOICE
    with LOCK:
        CHOICE = choice or {}
        m = globals()["m_" + name](x, all_contracts())
        m.choice = dict(CHOICE)
        return m

def canary(name, x, choice=None, **kw):
    """Vacuity: with assert(false) at every end of every function, each function must fail; a function that does not has a contradictory
    precondition, invariant or callee contract.  Returns the functions that do not fail."""
    with LOCK:
        global CHOICE
        CHOICE = choice or {}
        vlib.CANARY = "proof { assert(false); } "
        try: m = globals()["m_" + name](x, all_contracts())
        finally: vlib.CANARY = ""
    m.parts[-1] = "proof fn canary_of_the_module() { assert(false); }" + m.parts[-1]
    m.name += "_canary"
    r = run_verus(m, **kw)
    bad = {e["group"] for e in r["errors"] if "assertion failed" in e["message"]}
    return m, r, [f for f in m.functions if f not in bad] + ([] if None in bad else ["(module)"])

def prove(name, x, **kw): return vlib.prove(lambda ch: build(name, x, ch), **kw)

if __name__ == "__main__":
    x = extract(all_contracts().keys())
    if len(sys.argv) > 2 and sys.argv[2] == "canary":
        m, r, v = canary(sys.argv[1], x, threads=8)
        print(m.name, r["status"], "functions", len(m.functions), "not failing:", v, "%.1fs" % r["wall"], r.get("detail", "")[:300])
        sys.exit(1 if v else 0)
    m, r = prove(sys.argv[1], x, threads=8)
    print(m.name, r["status"], "verified", r["verified"], "errors", r.get("nerrors"), "%.1fs" % r["wall"], r.get("detail", "")[:3000])
    for e in r["errors"][:12]: print("  *", e["group"], "|", e["message"][:300], "|", e["spans"][:3])
