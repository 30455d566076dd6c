"""Assembly of the Verus proof modules from the mechanically extracted functions (extract/) and the
contracts (proofs/*.contracts), and running of Verus.  See DESIGN.md."""
import threading, json, os, re, subprocess, time, hashlib

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.environ.get("VP_BUILD", os.path.join(VERIF, ".build"))

class Lost(Exception):
    """An anchor of the proof is gone (function, loop or local missing): not a verdict on the property."""

# ------------------------------------------------------------------ contracts
class Contract:
    def __init__(self, key, params):
        self.key, self.params, self.spec, self.locals, self.loops, self.marks, self.attrs = key, params, "", [], {}, {}, []
        self.opts = set()
        self.moved = set()
        self.alts = []      # further annotations (loop invariants, hints) of the same contract, for other shapes of the body

def load_contracts():
    out = {}
    for fn in sorted(os.listdir(os.path.join(VERIF, "proofs"))):
        if not fn.endswith(".contracts"): continue
        cur = sec = None
        buf = []
        def flush():
            if cur is None: return
            t = "\n".join(buf).rstrip()
            if sec is None: cur.spec = t
            elif sec[0] == "alt": assert not t, t
            elif sec[0] == "loop": cur.loops[int(sec[1])] = (sec[2], t)
            else: cur.marks["_".join(sec)] = t
        for line in open(os.path.join(VERIF, "proofs", fn)):
            line = line.rstrip("\n")
            if line.startswith("#"): continue
            if line.startswith("@"):
                w = line[1:].split()
                if w[0] == "contract":
                    flush(); buf = []; sec = None
                    m = re.match(r"@contract\s+([\w:#~]+)\(([^)]*)\)", line)
                    cur = Contract(m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()])
                    assert cur.key not in out, cur.key
                    out[cur.key] = cur
                elif w[0] == "alt":
                    flush(); buf = []; sec = ["alt"]
                    main = cur if not getattr(cur, "main", None) else cur.main
                    cur = Contract(main.key, main.params); cur.main = main; cur.spec = main.spec; cur.opts = set(main.opts); cur.attrs = list(main.attrs)
                    main.alts.append(cur)
                elif w[0] == "locals": cur.locals = w[1:]
                elif w[0] == "attr": cur.attrs.append(line[6:])
                elif w[0] == "opt": cur.opts |= set(w[1:])
                else:
                    flush(); buf = []; sec = w
            else: buf.append(line)
        flush()
    return out

# ------------------------------------------------------------------ extraction
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)

def build_extractor():
    tgt = os.path.join(BUILD, "extract")
    env = dict(os.environ, CARGO_TARGET_DIR=tgt)
    r = sh(["cargo", "build", "--offline", "--quiet"], cwd=os.path.join(VERIF, "extract"), env=env)
    exe = os.path.join(tgt, "debug", "extract")
    if r.returncode != 0 or not os.path.exists(exe): raise RuntimeError("extractor does not build: " + r.stderr[-2000:])
    return exe

def extract(keys):
    exe = build_extractor()
    os.makedirs(BUILD, exist_ok=True)
    lst = os.path.join(BUILD, "contracted.%d" % os.getpid())
    open(lst, "w").write("\n".join(sorted({k.split("~")[0] for k in keys})))
    r = sh([exe, os.path.join(REPO, "src"), lst])
    os.unlink(lst)
    if r.returncode != 0: raise Lost("extraction failed: " + r.stderr[-500:])
    return json.loads(r.stdout)

# ------------------------------------------------------------------ one function
def balanced(s, i):
    d = 0
    while True:
        if s[i] == "(": d += 1
        elif s[i] == ")":
            d -= 1
            if d == 0: return i
        i += 1

def balanced_sq(s, i):
    d = 0
    while True:
        d += {"[": 1, "]": -1}.get(s[i], 0)
        if d == 0: return i
        i += 1

def rename(text, m):
    if not m: return text
    return re.sub(r"(?<![\w.])(%s)(?!\w)" % "|".join(map(re.escape, m)), lambda k: m[k.group(1)], text)

def name_map(c, f):
    m = {}
    if len(c.params) != len(f["pnames"]): raise Lost("%s: parameter list changed" % c.key)
    for a, b in zip(c.params, f["pnames"]):
        if a != b: m[a] = b
    actual = list(dict.fromkeys(f["locals"]))
    # a local that moved into an extracted (and inlined) helper keeps its name up to the inlining suffix
    for x in c.locals:
        ren = [y for y in actual if re.fullmatch(re.escape(x) + r"__i\d+", y)]
        if len(ren) == 1 and (x not in actual or x in c.moved): m[x] = ren[0]
    missing = [x for x in c.locals if x not in actual and x not in m]
    if missing:
        new = [x for x in actual if x not in c.locals and x not in m.values() and not re.fullmatch(r"\w+__i\d+", x)]
        if len(new) != len(missing):       # a local no annotation speaks of need not be there
            used = set(re.findall(r"\w+", " ".join(map(str, c.marks.keys())) + " " + c.spec + " ".join(c.marks.values()) + " ".join(t for _, t in c.loops.values())))
            if any(x not in used for x in missing):
                missing = [x for x in missing if x in used]
                if not missing: return m
        if len(new) != len(missing): new = [x for x in new if re.search(r"\bmut %s\b" % re.escape(x), f["body"])]
        if len(new) != len(missing): raise Lost("%s: locals %s not found" % (c.key, ", ".join(missing)))
        m.update(zip(missing, new))
    return m

SPEC_NAMES = set()
def spec_names():
    if not SPEC_NAMES:
        d = os.path.join(VERIF, "proofs")
        for fn in os.listdir(d):
            if fn.endswith(".vrs"): SPEC_NAMES.update(re.findall(r"\bfn (\w+)", open(os.path.join(d, fn)).read()))
    return SPEC_NAMES

def collisions(c, f, m):
    """locals and parameters of the code that would hide a name the annotations use: they get a suffix"""
    ghost = set(re.findall(r"let ghost (?:mut )?(\w+)", " ".join(c.marks.values())))
    own = set(c.params) | set(c.locals)
    used = set(re.findall(r"\w+", c.spec + " ".join(c.marks.values()) + " ".join(t for _, t in c.loops.values())))
    return {n for n in set(f["locals"]) | set(f["pnames"]) if n in ghost or (n in spec_names() and n in used)} - {x for x in own if m.get(x, x) == x} - {"self"}

def signature(c, f, m, attrs=(), suf=lambda t: t):
    ret = f["ret"]
    sig = "\n".join(list(attrs) + c.attrs)
    name = f["flat"] if not f["owner"] else c.key.split("::")[1].split("#")[0].split("~")[0]
    r = "" if ret == "()" else " -> (r: %s)" % ret
    gen = f["generics"] if f["generics"] and not f["owner"] else ""
    return "%s\nfn %s%s(%s)%s\n%s\n" % (sig, name, gen, ", ".join(suf(p) for p in f["params"]), r, rename(c.spec, m))

def emit_fn(c, f):
    """the annotation sets whose loops and locals are those of the body, each applied to the body; Lost if there is none"""
    out, err = [], None
    for a in [c] + c.alts:
        a.moved = set()
        try: out.append(emit_one(a, f))
        except Lost as e: err = err or e
        # a name the body has twice, once from an inlined helper: the annotations may mean either
        a.moved = {x for x in a.locals if x in f["locals"] and len([y for y in f["locals"] if re.fullmatch(re.escape(x) + r"__i\d+", y)]) == 1}
        if a.moved:
            try: out.append(emit_one(a, f))
            except Lost as e: err = err or e
    if not out: raise err
    return out

def source(h):
    """the variable a for loop runs over"""
    k = re.match(r"^&?\s*(?:mut\s+)?(\w+)\s*(?:\.\s*(?:iter|chars|into_iter)\s*\(\s*\)\s*)?$", h.strip())
    return k.group(1) if k else None

CANARY = ""     # "proof { assert(false); } " at the ends of every function: must fail everywhere (see modules.canary)
def emit_one(c, f):
    m = name_map(c, f)
    if len(c.loops) and len(f["loops"]) != len(c.loops): raise Lost("%s: %d loops instead of %d" % (c.key, len(f["loops"]), len(c.loops)))
    if not c.loops and f["loops"]: raise Lost("%s: unexpected loop" % c.key)
    for k, (kind, inv) in c.loops.items():
        if f["loops"][k][0] != kind: raise Lost("%s: loop %d is a %s loop, not a %s loop" % (c.key, k, f["loops"][k][0], kind))
    body = f["body"]
    bad = collisions(c, f, m)
    suf = (lambda t: re.sub(r"(?<![\w.])(%s)(?!\w)(?!\s*[(!])" % "|".join(map(re.escape, bad)), r"\1__l", t)) if bad else (lambda t: t)
    body = suf(body)
    for n in bad: body = body.replace("let_%s " % n + "__l", "let_%s " % n)
    m.update({a: suf(b) for a, b in m.items()})
    texts = c.spec + " ".join(c.marks.values()) + " ".join(t for _, t in c.loops.values())
    for k in range(len(f["loops"])):
        if "SRC_%d" % k in texts:
            s = source(suf(f["loops"][k][1])) if f["loops"][k][0] == "for" else None
            if s is None: raise Lost("%s: what loop %d runs over is not a variable" % (c.key, k))
            m["SRC_%d" % k] = s
    while True:
        i = body.find("__it !(")
        if i < 0: break
        j = balanced(body, i + 6)
        k, e = body[i + 7:j].split(",", 1)
        body = body[:i] + "it_%s: %s" % (k.strip(), e.strip()) + body[j + 1:]
    for t in set(f["consts"]):
        t = t.replace("::", "__") + " ["
        while t in body:
            i = body.index(t); j = balanced_sq(body, i + len(t) - 1)
            body = body[:i] + t[:-2] + "__row (" + body[i + len(t):j] + ")" + body[j + 1:]
    for k in range(len(f["loops"])):
        inv = rename(c.loops[k][1], m) if k in c.loops else ""
        body = re.sub(r"\{\s*__mark !\(inv_%d \);" % k, lambda _: "\n%s\n{" % inv, body)
    back = {b: a for a, b in m.items()}
    def mk(x):
        n = x.group(1).strip()
        if n.startswith("let_"): n = "let_" + back.get(n[4:], n[4:])
        return rename(c.marks.get(n, ""), m) + (CANARY if n in ends else "")
    ends = ("ret", "finish") if CANARY and re.search(r"__mark !\((ret|finish) \);", body) else ("start",) if CANARY else ()
    body = re.sub(r"__mark !\(([A-Za-z_0-9]+) \);", mk, body)
    return signature(c, f, m, ["#[verifier::loop_isolation(false)]", "#[verifier::allow_complex_invariants]"] if f["loops"] else (), suf=suf) + body + "\n"

def emit_stub(c, f):
    if f and len(c.params) != len(f["pnames"]): raise Lost("%s: parameter list changed" % c.key)
    m = {a: b for a, b in zip(c.params, f["pnames"]) if a != b} if f else {}
    return signature(c, f, m, ["#[verifier::external_body]"]) + "{ unimplemented!() }\n"

# ------------------------------------------------------------------ modules
class Module:
    """Text of a Verus file with a map from line ranges to the function (obligation group) they belong to."""
    def __init__(self, name):
        self.name, self.parts, self.groups = name, [], []
        self.line = 1
        self.functions, self.inlined, self.assumed, self.dropped = [], [], [], []
        self.variants = {}      # function -> how many annotation sets fit it
    def raw(self, text, group=None):
        n = text.count("\n") + 1
        self.parts.append(text)
        self.groups.append((self.line, self.line + n - 1, group))
        self.line += n
    def text(self): return "\n".join(self.parts)
    def group_at(self, line):
        for a, b, g in self.groups:
            if a <= line <= b: return g
        return None

VERUS_ENV = dict(os.environ, RUST_MIN_STACK="2000000000")

def run_verus(mod, rlimit=60, threads=4, timeout=700, extra=()):
    os.makedirs(BUILD, exist_ok=True)
    path = os.path.join(BUILD, mod.name + ".rs")
    open(path, "w").write(mod.text())
    cmd = ["verus", path, "--crate-type=lib", "--output-json", "--time-expanded", "--rlimit", str(rlimit), "--num-threads", str(threads), *(() if "--multiple-errors" in extra else ("--multiple-errors", "3")), *extra]
    t = time.time()
    try:
        p = subprocess.run(["bash", "-c", "ulimit -s unlimited; exec \"$@\"", "x", *cmd, "--", "--error-format=json"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=VERUS_ENV, timeout=timeout)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return dict(name=mod.name, status="timeout", verified=0, errors=[], failed=[], wall=time.time() - t, cmd=" ".join(cmd), solver_ms=0, detail="timeout", path=path)
    res = dict(name=mod.name, wall=time.time() - t, cmd=" ".join(cmd), verified=0, errors=[], failed=[], solver_ms=0, path=path)
    try:
        j = json.loads(out[out.index("{"):])
    except Exception:
        res.update(status="tool-error", detail=(out[-1500:] + err[-3000:]))
        return res
    vr = j.get("verification-results", {})
    res["verified"] = vr.get("verified", 0)
    res["solver_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0) if isinstance(j.get("times-ms"), dict) else 0
    msgs = []
    for line in err.splitlines():
        if not line.startswith("{"): continue
        try: d = json.loads(line)
        except Exception: continue
        if d.get("level") != "error": continue
        if d.get("message", "").startswith("aborting due to"): continue
        sp = d.get("spans", [])
        prim = [s for s in sp if s.get("is_primary")] or sp
        groups = [mod.group_at(s["line_start"]) for s in prim if s["file_name"].endswith(mod.name + ".rs")]
        ext = [s for s in sp if not s["file_name"].endswith(mod.name + ".rs")]
        m0 = d["message"].lower()
        safety = any(w in m0 for w in ("overflow", "underflow", "division by zero", "decreases", "bounds")) or "precondition" in m0 and any("failed precondition" in (s.get("label") or "") for s in ext)
        msgs.append(dict(message=d["message"], safety=safety, group=next((g for g in groups if g), None), line=prim[0]["line_start"] if prim else 0,
                         spans=[(s["line_start"], s.get("label") or "", "".join(t["text"].strip() + " " for t in s.get("text", [])[:2])[:160]) for s in sp], rendered=d.get("rendered", "")[:1500]))
    res["errors"] = msgs
    if vr.get("encountered-vir-error") or (not vr.get("success") and not vr.get("errors") and vr.get("verified", 0) == 0):
        ev = [m for m in msgs if "simplifies to false" in m["message"] or "failed to simplify" in m["message"]]
        if ev and len(ev) == len(msgs):
            res.update(status="failed", failed=ev, undecided=[], nerrors=len(ev))
            return res
        res["status"] = "unsupported"
        res["detail"] = "; ".join(m["message"][:200] for m in msgs[:4]) or err[-800:]
        return res
    und = ("resource limit", "rlimit", "timed out", "canceled", "incomplete")
    res["failed"] = [m for m in msgs if not any(u in m["message"].lower() for u in und)]
    res["undecided"] = [m for m in msgs if any(u in m["message"].lower() for u in und)]
    res["status"] = "proved" if vr.get("success") else ("failed" if res["failed"] else "undecided")
    res["nerrors"] = vr.get("errors", 0)
    return res

NO_RETRY = threading.Event()    # set once a failing input is known: what the first attempt reports is enough
def prove(build, **kw):
    """build(choice) -> Module.  Where a function is not proved with one annotation set and another one fits its body, that one is tried
    too: the contract is the same, so whichever the verifier accepts is a proof."""
    choice, first = {}, None
    t0 = time.time()
    deadline = t0 + kw.get("timeout", 700)
    again = min(deadline, t0 + 420)      # further attempts end before this
    while True:
        mod = build(choice)
        kw["timeout"] = max(20, deadline - time.time())
        r = run_verus(mod, **kw)
        if first is None: first = (mod, r)
        if r["status"] == "proved": return mod, r
        more = [g for g in {e["group"] for e in r["errors"]} if g and mod.variants.get(g, 1) > choice.get(g, 0) + 1]
        if not more or time.time() + first[1]["wall"] + 10 > again or NO_RETRY.is_set(): break
        for g in more: choice[g] = choice.get(g, 0) + 1
    # a proof that the solver gave up on, or lost in a lemma (which no change of the code can falsify), is tried with other random seeds
    m0, r0 = first
    for s in (7, 23):
        shaky = r0["status"] in ("failed", "undecided") and (r0.get("undecided") or any((e["group"] or "").startswith("lemmas") for e in r0["errors"]))
        if not shaky or time.time() + 2 * r0["wall"] + 10 > again or NO_RETRY.is_set(): break
        kw["timeout"] = max(20, deadline - time.time())
        mod = build({})
        r = run_verus(mod, **dict(kw, rlimit=2 * kw.get("rlimit", 60), extra=("--smt-option", "smt.random_seed=%d" % s)))
        if r["status"] == "proved": return mod, r
    return first
