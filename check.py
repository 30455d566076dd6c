#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property on /repo's current tree
   check.py --replay <file>               run a recorded failing input against the real code again

The deciding step is the verifiers (Verus on the mechanically extracted functions, Kani/CBMC on the public API for the
big two-stage tables).  The search only turns a violated contract into a concrete failing input.  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, threading, traceback
from concurrent.futures import ThreadPoolExecutor
import vlib
from vlib import VERIF, REPO, BUILD, Lost, sh
sys.path.insert(0, os.path.join(VERIF, "tools"))
import config

T0 = time.time()
EVID = os.path.join(VERIF, "evidence")
def log(*a): print("[%6.1fs]" % (time.time() - T0), *a, flush=True)

# ------------------------------------------------------------------ search
def search_crate():
    src = os.path.join(VERIF, "search")
    if REPO != "/repo" or VERIF != "/verif":
        dst = os.path.join(BUILD, "search_src")
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(src, dst, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(dst, "Cargo.toml")
        t = open(p).read().replace("../../repo", REPO)
        open(p, "w").write(t)
        src = dst
    return src
def build_search():
    tgt = os.path.join(BUILD, "search")
    r = sh(["cargo", "build", "--release", "--offline", "--quiet"], cwd=search_crate(), env=dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings"))
    exe = os.path.join(tgt, "release", "search")
    if r.returncode != 0: return None, r.stderr[-2000:]
    return exe, ""
def oracle_txt():
    import mktxt
    p = os.path.join(BUILD, "ucd.txt")
    os.makedirs(BUILD, exist_ok=True)
    mktxt.write(p)
    return p
def run_search(pid, tier, seed, timeout):
    exe, err = build_search()
    if exe is None: return dict(status="not-built", detail=err, evals=0, fails=[])
    if tier == "thorough":      # the assumed specifications of std, against std
        r = sh([exe, "shims"], timeout=timeout)
        log("assumed std specifications sampled:", r.stdout.strip() or r.stderr[-300:])
        if r.returncode != 0: raise SystemExit(2)
    cmd = [exe, oracle_txt(), pid, tier, str(seed)]
    t = time.time()
    try: r = sh(cmd, timeout=timeout)
    except subprocess.TimeoutExpired: return dict(status="timeout", evals=0, fails=[], wall=time.time() - t, detail="search timed out")
    fails, evals, done = [], 0, False
    for l in r.stdout.splitlines():
        w = l.split("\t")
        if w[0] == "FAIL": fails.append(dict(input=w[1], expected=w[2], actual=w[3]))
        if w[0] == "DONE": evals, done = int(w[2]), True
    if not done and not fails:
        # abort (stack overflow, out of memory, signal) inside the code under test
        return dict(status="aborted", evals=0, fails=[], wall=time.time() - t, detail="exit %s: %s" % (r.returncode, r.stderr[-600:]))
    return dict(status="fails" if fails else "clean", evals=evals, fails=fails, wall=time.time() - t, detail="")

# ------------------------------------------------------------------ kani
def run_kani(pid, props, tier, timeout):
    import mkkani
    d = os.path.join(BUILD, "kani_" + pid)
    mkkani.main(d, REPO, props)
    lock = open(os.path.join(VERIF, "search", "Cargo.lock")).read().replace('name = "search"', 'name = "tables"')
    open(os.path.join(d, "Cargo.lock"), "w").write(lock)
    cmd = ["cargo", "kani", "-Z", "function-contracts", "-j", "8", "--output-format", "terse"]
    t = time.time()
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        p = subprocess.Popen(cmd, cwd=d, env=env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try: p.wait(timeout=timeout); to = False
        except subprocess.TimeoutExpired:
            to = True
            try: os.killpg(p.pid, 9)
            except Exception: pass
            p.wait()
    txt = open(out).read()
    hs = config.kani_harnesses(props)
    res = dict(name="kani", cmd=" ".join(cmd), wall=time.time() - t, harnesses=hs, checks=0, failed=[], timeout=to)
    m = re.search(r"Complete - (\d+) successfully verified harnesses, (\d+) failures, (\d+) total", txt)
    for a, b in re.findall(r"\*\* (\d+) of (\d+) failed", txt): res["checks"] += int(b); res["bad"] = res.get("bad", 0) + int(a)
    res["solver_s"] = sum(float(x) for x in re.findall(r"Verification Time: ([\d.]+)s", txt))
    for c, n in re.findall(r"\*\* (\d+) of (\d+) cover properties satisfied", txt):
        if c != n: res["vacuous"] = True
    if m and int(m.group(1)) == len(hs) == int(m.group(3)) and not res.get("vacuous"): res["status"] = "proved"
    elif m and int(m.group(2)) > 0 or "VERIFICATION:- FAILED" in txt:
        res["status"] = "failed"
        names = re.findall(r"Verification failed for - (\S+)", txt)
        if "unwinding assertion" in txt and not re.search(r"Failed Checks: (?!unwinding assertion)", txt): res["status"] = "undecided"
        res["failed"] = names or ["(harness not reported)"]
        res["unsafe"] = any(not re.match(r"Failed Checks: \|r\|", l) and "unwinding" not in l for l in txt.splitlines() if l.startswith("Failed Checks:"))
        res["detail"] = "\n".join(l for l in txt.splitlines() if "Failed Checks" in l or "File:" in l)[:2000]
    elif to: res["status"] = "timeout"
    else:
        res["status"] = "tool-error"; res["detail"] = txt[-1500:]
    return res

# ------------------------------------------------------------------ proofs
STATE = []
def run_proofs(pid, tier, deadline):
    import modules
    out = []
    try:
        cs = modules.all_contracts()
        x = vlib.extract(cs.keys())
        STATE[:] = x["state"]
    except Lost as e:
        return [dict(name=m, status="lost", detail=str(e), verified=0, errors=[], failed=[], wall=0, solver_ms=0, cmd="", functions=[], assumed=[], inlined=[]) for m in config.PROPS[pid]["modules"]]
    def one(name):
        try:
            m, r = modules.prove(name, x, threads=4, timeout=max(20, deadline - time.time()), rlimit=config.RLIMIT.get(name, 60) * (4 if tier == "thorough" else 1))
        except Lost as e:
            return [dict(name=name, status="lost", detail=str(e), verified=0, errors=[], failed=[], wall=0, solver_ms=0, cmd="", functions=[], assumed=[], inlined=[])]
        r.update(functions=m.functions, assumed=m.assumed, inlined=sorted(set(m.inlined)), dropped=m.dropped)
        if x["state"] and r["status"] == "proved": r.update(status="undecided", detail="the source has state outside the arguments, of which contracts do not speak: " + ", ".join(x["state"][:4]))
        log("verus", m.name, r["status"], "verified", r["verified"], "%.1fs" % r["wall"], r.get("detail", "")[:300])
        for e in r["errors"][:6]: log("   ", e["group"], "|", e["message"][:200])
        if tier == "thorough" and r["status"] == "proved":
            mc, rc, vac = modules.canary(name, x, m.choice, threads=4, timeout=max(20, deadline - time.time()), rlimit=30)
            r["canary"] = "every function rejects assert(false) at its ends" if not vac else "not completed" if rc["status"] in ("timeout", "tool-error") else "VACUOUS: " + ", ".join(vac)
            log("canary", name, r["canary"])
            if vac and rc["status"] not in ("timeout", "tool-error"): r.update(status="undecided", detail=r["canary"])
        return [r]
    mods = config.PROPS[pid]["modules"]
    with ThreadPoolExecutor(max_workers=4) as ex:
        for rs in ex.map(one, mods): out += rs
    return out

def findings():
    kf, p = [], os.path.join(VERIF, "KNOWN_FINDINGS")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) (.*)", l)
        if m: kf.append((m.group(1), m.group(2).strip()))
    return kf

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = config.PROPS[pid]
    limit = 720 if tier == "quick" else 3000
    deadline = T0 + limit
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    proofs, kani, srch = [], None, {}
    with ThreadPoolExecutor(max_workers=3) as ex:
        fp = ex.submit(run_proofs, pid, tier, deadline)
        fk = ex.submit(run_kani, pid, cfg["kani"], tier, limit - 30) if cfg.get("kani") else None
        fs = ex.submit(run_search, pid, tier, seed, limit - 60)
        srch = fs.result()
        if srch["status"] in ("fails", "aborted"): vlib.NO_RETRY.set()
        log("search", srch["status"], srch["evals"], "evaluations", srch.get("detail", "")[:300])
        proofs = fp.result()
        if fk:
            kani = fk.result()
            if STATE and kani["status"] == "proved": kani.update(status="undecided", detail="state outside the arguments: " + ", ".join(STATE[:4]))
            log("kani", kani["status"], kani.get("failed"), "%.1fs" % kani["wall"], kani.get("detail", "")[:300])
    # ---- verdict
    # a job that failed for a machine reason says nothing about the property; only real failed obligations do
    failed = [(r["name"], e) for r in proofs for e in r["failed"] if r["status"] == "failed"]
    kfailed = kani["failed"] if kani and kani["status"] == "failed" else []
    if cfg.get("safety_only"):      # a wrong value is another property's business: only obligations about panics, bounds, overflow and termination
        failed = [(n, e) for n, e in failed if e["safety"]]
        kfailed = kfailed if kani and kani.get("unsafe") else []
    # a contract over single code points that the exhaustive searches find true in full holds: the proof did not follow the code
    evaluated = []
    if failed and not cfg["exhaustive"] and srch["status"] == "clean":
        for n in sorted({n for n, e in failed}):
            if n not in config.FULL_DOMAIN or any(n == "compex" and e["group"] == "normalization::starter" for k, e in failed if k == n): continue
            rs = []
            for q in config.FULL_DOMAIN[n]:
                rs.append(run_search(q, "quick", seed, max(20, deadline - time.time())))
                if rs[-1]["status"] != "clean": break
            log("contract of module", n, "evaluated on its whole domain:", rs[-1]["status"], sum(r["evals"] for r in rs), "evaluations")
            if rs[-1]["status"] == "clean": evaluated.append(n)
        failed = [(n, e) for n, e in failed if n not in evaluated]
    undec = [r for r in proofs if r["status"] not in ("proved", "failed")] + ([kani] if kani and kani["status"] not in ("proved", "failed") else [])
    known = [k for p, k in findings() if p == pid]
    newf = [f for f in srch["fails"] if f["input"] not in [k.split(" :: ")[0] for k in known]]
    nobl = sum(r["verified"] + r.get("nerrors", 0) for r in proofs) + (kani["checks"] if kani else 0)
    ndis = sum(r["verified"] for r in proofs) + (kani["checks"] - kani.get("bad", 0) if kani else 0)
    rc, lines = 0, []
    replay = os.path.join(EVID, "replay_%s.json" % pid)
    obl = [dict(module=n, function=e["group"], obligation=e["message"], where=e["spans"], verifier_output=e["rendered"]) for n, e in failed]
    obl += [dict(module="kani", function=h, obligation="postcondition (the Unicode 15.1 oracle), or a panic on the way", verifier_output=kani.get("detail", "")) for h in kfailed]
    if newf:
        json.dump(dict(property=pid, kind="failing input", inputs=newf, failed_obligations=obl, replay="python3 check.py --replay " + replay), open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay)); rc = 1
        for f in newf[:3]: log("failing input:", f["input"], "| expected", f["expected"][:160], "| got", f["actual"][:160])
    elif srch["status"] == "aborted":
        json.dump(dict(property=pid, kind="abort while running the code under test", detail=srch["detail"], failed_obligations=obl), open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (pid, replay)); rc = 1
    elif obl and not (cfg["exhaustive"] and srch["status"] == "clean"):
        json.dump(dict(property=pid, kind="failed obligation, no failing input found", failed_obligations=obl, search=srch), open(replay, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay)); rc = 1
    for k in known: lines.append("KNOWN-FINDING: property=%s %s" % (pid, k))
    if rc == 0 and undec and srch["status"] not in ("clean",):
        log("no answer: neither the proofs nor the search completed"); rc = 2
    standin = None
    obl = obl or [dict(module=r["name"], function=e["group"], obligation=e["message"]) for r in proofs for e in r["failed"] if r["status"] == "failed"]
    if rc == 0 and (undec or obl):
        standin = ("the proof did not complete on this source (%s); the real code agreed with the executable contract on %d inputs (%s)" % (
            "; ".join(["%s: %s %s" % (r["name"], r["status"], r.get("detail", "")[:200]) for r in undec] + ["%s: obligation of %s not discharged" % (o["module"], o["function"]) for o in obl]), srch["evals"],
            "the whole domain of the property" if cfg["exhaustive"] else "bounded"))
        log("NOT PROVED:", standin)
    ev = dict(property=pid, tier=tier, seed=seed, level="proof" if not standin else "other",
        coverage=dict(obligations=nobl, discharged=ndis,
            checker_cmd="; ".join([r["cmd"].replace(BUILD, "$BUILD") for r in proofs if r["cmd"]] + ([kani["cmd"] + " (in $BUILD/kani_%s)" % pid] if kani else [])),
            trusted_base=config.TRUSTED + sorted({a for r in proofs for a in r["assumed"]} - {f for r in proofs for f in r["functions"]}) + cfg.get("trusted", []),
            functions_under_contract=sorted({f for r in proofs for f in r["functions"]}),
            contracts_assumed_in_one_module_and_discharged_in_another_of_this_check=sorted({a for r in proofs for a in r["assumed"]} & {f for r in proofs for f in r["functions"]}),
            functions_inlined_into_callers=sorted({f for r in proofs for f in r["inlined"]}),
            backends=[dict(backend="verus 0.2026.09.13 / z3", module=r["name"], status=r["status"], verified=r["verified"], errors=r.get("nerrors", 0), solver_ms=r["solver_ms"], canary=r.get("canary", "thorough tier only"), wall_s=round(r["wall"], 1), detail=r.get("detail", "")[:300]) for r in proofs]
              + ([dict(backend="kani 0.68 / cbmc 6.11", module="tables", status=kani["status"], harnesses=kani["harnesses"], checks=kani["checks"], solver_s=round(kani["solver_s"], 1), wall_s=round(kani["wall"], 1))] if kani else []),
            failed_obligations=[dict(module=o["module"], function=o["function"], obligation=o["obligation"]) for o in obl],
            evaluations=srch["evals"], input_search=dict(status=srch["status"], evaluations=srch["evals"], domain="exhaustive" if cfg["exhaustive"] else "bounded sample", role="finds a concrete failing input for a violated contract; does not decide"),
            explanation=standin or "every obligation of the listed modules was discharged on this run from the current source"),
        assumptions=config.ASSUMPTIONS + cfg.get("assumptions", []), wall_s=round(time.time() - T0, 1), violations=1 if rc == 1 else 0)
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)
    log("obligations %d, discharged %d" % (nobl, ndis))
    for l in lines: print(l)
    if rc == 0: print("OK property=%s" % pid)
    sys.stdout.flush()
    sys.exit(rc)

def do_replay(path):
    d = json.load(open(path))
    print(json.dumps({k: d[k] for k in ("property", "kind")}))
    for o in d.get("failed_obligations", []): print("failed obligation:", o["module"], o["function"], o["obligation"]); print(o["verifier_output"])
    if not d.get("inputs"): sys.exit(1)
    exe, err = build_search()
    bad = False
    r = sh([exe, oracle_txt(), d["property"], "quick", "1"])
    for f in d["inputs"]:
        hit = [l for l in r.stdout.splitlines() if l.startswith("FAIL\t" + f["input"] + "\t")]
        if not hit and re.match(r"^[0-9A-F ]+$", f["input"]):
            q = sh([exe, oracle_txt(), d["property"], "replay", "0"] + f["input"].split())
            hit = [q.stdout] if q.returncode else []
        print("input:", f["input"], "->", "VIOLATED\n" + "\n".join(hit) if hit else "holds")
        bad |= bool(hit)
    sys.exit(1 if bad else 0)

if __name__ == "__main__":
    if sys.argv[1] == "--replay": do_replay(sys.argv[2])
    try: main()
    except SystemExit: raise
    except Exception:
        traceback.print_exc(); sys.exit(2)
