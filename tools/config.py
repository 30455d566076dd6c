"""Which proof modules and Kani harnesses decide which property."""
EMO = ["emoji", "epres", "emod", "ebase", "ecomp", "ext_pict"]
ENUMS = "gc bc ccc dt gcb wb hst insc blk sc age".split()
def kani_harnesses(props): return ["h_" + p for p in props]
RLIMIT = {}
TRUSTED = ["Verus 0.2026.09.13 and z3 (incl. vstd's specifications of core/alloc)", "rustc's semantics of the extracted source; the extractor's source-to-source rules listed in DESIGN.md (extract/)"]
ASSUMPTIONS = ["the Unicode 15.1 oracle in oracle/ucd.json (frozen from the UCD 15.1.0 data files and the UAX #31/#44 formulas, cross-checked against the Unicode 15.0 data of Perl and Python, see DESIGN.md) is correct"]
SEGT = "proofs/shims_text.vrs: assumed specifications of str::char_indices, CharIndices::next, str indexing, and the isize::MAX bound on str lengths"
KANIT = "Kani 0.68 / CBMC 6.11 (bit-precise, no unwinding bound is involved: the lookups are loop-free)"
GET = "the getters of other properties by their contracts (value = oracle value): discharged in this check by Kani (enumerated properties) and the modules wrap, ce and incb"
NORM = ["decomp", "order", "norm", "dm", "dmfacts", "wrap"]
COMP = ["compose", "rdm", "hangul", "compex", "ce"]
PROPS = {
 "C01": dict(modules=["incb", "wrap"], kani=ENUMS, exhaustive=True, trusted=[KANIT]),
 "C02": dict(modules=["bins", "ce", "wrap"], exhaustive=True),
 "C03": dict(modules=["wrap"], kani=EMO, exhaustive=True, trusted=[KANIT]),
 "C04": dict(modules=["derived", "wrap"], exhaustive=True),
 "C05": dict(modules=["xid", "wrap", "ident", "idfacts"], exhaustive=True),
 "C06": dict(modules=["compex", "ce", "decomp", "dm", "dmfacts", "wrap"], kani=["ccc", "dt"], exhaustive=True, trusted=[KANIT]),
 "C07": dict(modules=["wrap", "fmt"], exhaustive=True),
 "C08": dict(modules=["na", "nathm", "hangul", "wrap"], exhaustive=True),
 "C09": dict(modules=["dm", "hangul", "dmfacts", "wrap"], kani=["dt", "hst"], exhaustive=True, trusted=[KANIT]),
 "C10": dict(modules=["names", "namethm"], exhaustive=True),
 "C11": dict(modules=["hangul", "hthm"] + NORM + COMP[:2] + COMP[3:], kani=["ccc", "dt", "hst"], exhaustive=True, trusted=[KANIT]),
 "C12": dict(modules=["order", "wrap"], kani=["ccc"], exhaustive=False, trusted=[KANIT]),
 "C13": dict(modules=NORM, kani=["ccc", "dt"], exhaustive=False, trusted=[KANIT]),
 "C14": dict(modules=NORM + COMP, kani=["ccc", "dt", "hst"], exhaustive=False, trusted=[KANIT]),
 "C15": dict(modules=NORM + COMP, kani=["ccc", "dt", "hst"], exhaustive=False, trusted=[KANIT]),
 "C16": dict(modules=["part", "segfacts", "incb", "wrap"], kani=["gcb", "ext_pict"], exhaustive=False, trusted=[SEGT, KANIT]),
 "C17": dict(modules=["seg", "segfacts", "incb", "wrap"], kani=["gcb", "ext_pict"], exhaustive=False, trusted=[SEGT, KANIT]),
 "C18": dict(modules=["table"], exhaustive=False),
 "C19": dict(modules=["seg", "part", "segfacts", "incb", "bins", "derived", "xid", "names", "table", "na", "fmt", "version", "hangul"] + NORM + COMP[:2] + COMP[3:], kani=ENUMS + EMO, exhaustive=False, safety_only=True, trusted=[SEGT, KANIT]),
 "C20": dict(modules=["version"], kani=["version"], exhaustive=False, trusted=[KANIT]),
}
# modules whose contracts quantify over single code points only, and the exhaustive searches that together evaluate them on the whole domain
FULL_DOMAIN = {"wrap": ["C0%d" % i for i in range(1, 10)], "ce": ["C02", "C06"], "incb": ["C01"], "dm": ["C09"], "compex": ["C06"], "hangul": ["C08", "C09", "C11"],
 "bins": ["C02"], "derived": ["C04"], "xid": ["C05"], "names": ["C10"], "na": ["C08"], "fmt": ["C07"]}
NA = {}
