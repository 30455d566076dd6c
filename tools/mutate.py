#!/usr/bin/env python3
"""mutate.py N [SEED] [FILE-SUBSTRING]   soundness test of the machinery: N random small changes of the verified functions.  For each: do the modules
prove it?  If they do, the change must be harmless, so the search must find nothing: 'UNSOUND?' is printed where it does."""
import os, random, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, BLD = "/tmp/mutrun", "/tmp/mutbuild"
os.environ["VP_REPO"], os.environ["VP_BUILD"] = W, BLD
sys.path.insert(0, V)
import vlib, modules, check, config
FILES = {   # file: (first line of the code or None, modules, search properties)
 "src/unicode/normalization.rs": (["order", "decomp", "compose", "compex", "norm"], ["C06", "C12", "C13", "C14"]),
 "src/unicode/seg.rs": (["seg", "part"], ["C17", "C16"]),
 "src/unicode.rs": (["wrap", "fmt", "seg", "part", "norm", "version"], ["C07", "C16", "C17", "C14", "C13", "C20"]),
 "src/unicode/hangul.rs": (["hangul", "na", "dm"], ["C08", "C09", "C11", "C14"]),
 "src/unicode/ucd/dm.rs": (["dm", "rdm"], ["C09", "C14", "C11"]),
 "src/unicode/ucd/na.rs": (["na"], ["C08"]),
 "src/unicode/ucd/jsn.rs": (["na"], ["C08"]),
 "src/collections.rs": (["table"], ["C18"]),
 "src/unicode/ucd/derived_props.rs": (["derived", "incb", "xid"], ["C04", "C05", "C01"]),
 "src/unicode/ucd/normalization_props.rs": (["compex"], ["C06"]),
 "src/unicode/ucd/ce.rs": (["ce"], ["C02"]),
}
def sites(t):
    """(line number, new line) candidates outside tests, comments, doc, use"""
    out, ls = [], t.split("\n")
    stop = next((i for i, l in enumerate(ls) if "#[cfg(test)]" in l), len(ls))
    for i, l in enumerate(ls[:stop]):
        c = l.split("//")[0]
        if not c.strip() or c.strip().startswith(("use ", "pub use", "mod ", "pub mod", "pub(crate) mod", "pub(self)", "#", "impl", "pub fn", "fn ", "pub(crate) fn", "pub struct", "pub enum", "pub trait", "pub(crate) use")): continue
        def add(n):
            if n != c: out.append((i, n))
        for a, bs in (("<=", ["<", "=="]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), ("&&", ["||"]), ("||", ["&&"]), (" < ", [" <= ", " > "]), (" > ", [" >= ", " < "]),
                      (" + ", [" - "]), (" - ", [" + "]), (" / ", [" % "]), (" % ", [" / "]), ("..=", [".."]), ("true", ["false"]), ("false", ["true"]), ("continue", ["break"]), ("break", ["continue"]), ("None", []), (" += ", [" -= "]), (".nfd(", [".nfc("]), ("!", [""])):
            for m in re.finditer(re.escape(a), c):
                if a == "!" and (c[m.end():m.end() + 1] == "=" or c[m.start() - 1:m.start()].isalnum()): continue
                if a in ("<=", ">=") and 0: continue
                for b in bs: add(c[:m.start()] + b + c[m.end():])
        for m in re.finditer(r"(?<![\w.{])(0x[0-9A-Fa-f_]+|[1-9]\d*|0)(?![\w.]*\")", c):
            v = int(m.group(1).replace("_", ""), 0)
            for d in (1, -1):
                if v + d >= 0: add(c[:m.start()] + (hex(v + d) if m.group(1).startswith("0x") else str(v + d)) + c[m.end():])
        for m in re.finditer(r"\b(Gcb|Incb|Hst|Dt|Gc|Sc|Insc)::(\w+)", c):
            e = [v for v, _ in X["enums"].get(m.group(1), [])]
            if m.group(2) in e: add(c[:m.start(2)] + e[(e.index(m.group(2)) + 1) % len(e)] + c[m.end(2):])
        if re.match(r"^\s+[^{}]*;\s*$", c) and not re.match(r"^\s*let ", c): add("")
        m = re.match(r"^(\s+)(let (?:mut )?\w+(?:: [^=]+)? = )(\w+)(;)$", c)
    return out
X = None
def main():
    global X
    n, seed, sub = int(sys.argv[1]), int(sys.argv[2]) if len(sys.argv) > 2 else 1, sys.argv[3] if len(sys.argv) > 3 else ""
    subprocess.run("rm -rf /tmp/mutrun && cp -a /repo /tmp/mutrun", shell=True, check=True)
    os.makedirs(BLD, exist_ok=True)
    cs = modules.all_contracts()
    X = vlib.extract(cs.keys())
    r = random.Random(seed)
    allc = []
    for f in FILES:
        if sub not in f or not os.path.exists(os.path.join(W, f)): continue
        for i, nl in sites(open(os.path.join(W, f)).read()): allc.append((f, i, nl))
    r.shuffle(allc)
    print(len(allc), "sites", flush=True)
    vlib.NO_RETRY.set()
    stat = {}
    for f, i, nl in allc[:n]:
        p = os.path.join(W, f)
        t = open(p).read()
        ls = t.split("\n"); old = ls[i]; ls[i] = nl
        open(p, "w").write("\n".join(ls))
        try:
            q = subprocess.run(["cargo", "check", "--offline", "--quiet"], cwd=W, env=dict(os.environ, CARGO_TARGET_DIR=BLD + "/chk"), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if q.returncode: stat["nocompile"] = stat.get("nocompile", 0) + 1; continue
            mods, props = FILES[f]
            st = []
            try:
                x = vlib.extract(cs.keys())
                for m in mods:
                    try: st.append((m, modules.prove(m, x, threads=4, timeout=200)[1]["status"]))
                    except vlib.Lost as e: st.append((m, "lost"))
                    if st[-1][1] != "proved": break
            except vlib.Lost as e: st.append(("extract", "lost"))
            if st[-1][1] != "proved": stat[st[-1][1]] = stat.get(st[-1][1], 0) + 1; continue
            res = []
            for pr in props:
                s = check.run_search(pr, "quick", 1, 300)
                res.append((pr, s["status"]))
                if s["status"] != "clean": break
            bad = res[-1][1] != "clean"
            stat["UNSOUND?" if bad else "proved"] = stat.get("UNSOUND?" if bad else "proved", 0) + 1
            print("UNSOUND?" if bad else "proved", f, i + 1, "\n   -", old.strip()[:160], "\n   +", nl.strip()[:160], res if bad else "", flush=True)
        finally: open(p, "w").write(t)
    print(stat)
main()
