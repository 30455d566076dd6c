#!/usr/bin/env python3
"""seed.py ID...   (re)create and confirm planted bugs described in tools/seeds.py in a scratch copy of /repo"""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'find "$w" -delete' EXIT
mkdir -p "$w/src"
cp "$d/main.rs" "$w/src/main.rs"
cp "$d/demo.lock" "$w/Cargo.lock"
printf '[package]\\nname = "demo"\\nversion = "0.1.0"\\nedition = "2021"\\n[dependencies]\\nseshat-unicode = { path = "%s" }\\nnum = "0.3.0"\\n[workspace]\\n' "$PWD" > "$w/Cargo.toml"
cd "$w" && CARGO_TARGET_DIR="$w/target" timeout 250 cargo run --offline --quiet
'''
def sh(c, cwd=None, t=400): return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
def main():
    import seeds
    base = set(json.load(open("/opt/vp/BASELINE.json")).get("stable") or []) if False else None
    for s in seeds.SEEDS:
        if len(sys.argv) > 1 and s["id"] not in sys.argv[1:]: continue
        if not os.path.exists(W): sh("cp -a /repo %s" % W)
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
        d = os.path.join(V, "seeded", s["id"]); os.makedirs(d, exist_ok=True)
        for f, old, new in s["edits"]:
            p = os.path.join(W, "src", f); t = open(p).read()
            k = s.get("nth", {}).get(old, None)
            if k is None: assert t.count(old) == 1, (s["id"], f, t.count(old)); t = t.replace(old, new)
            else:
                i = -1
                for _ in range(k): i = t.index(old, i + 1)
                t = t[:i] + new + t[i + len(old):]
            open(p, "w").write(t)
        open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", W).stdout)
        open(os.path.join(d, "main.rs"), "w").write("use seshat::unicode::props::*;\nuse seshat::unicode::*;\n#[allow(unused_imports)]\nuse seshat::collections::*;\nfn main() {\n    let _ = Gc::Lu;\n    let _ = UNICODE_VERSION;\n" + s["demo"] + "\n}\n")
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        shutil.copy(os.path.join(V, "tools", "demo.lock"), os.path.join(d, "demo.lock"))
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8", W)
        failed = sorted({l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")})
        built = "error: could not compile" not in r.stdout and "test result" in r.stdout
        bad = sh("bash %s/demo.sh" % d, W); good = sh("bash %s/demo.sh" % d, "/repo")
        print(s["id"], "built", built, "failed tests", failed, "| demo patched:", bad.returncode, "unpatched:", good.returncode, "" if good.returncode == 0 else good.stdout[-1500:], flush=True)
        if bad.returncode == 0: print(bad.stdout[-500:])
main()
