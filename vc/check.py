#!/usr/bin/env python3
"""One check: extract the real code, verify it against its contracts, then look for a failing input.

  check.py <property> [quick|thorough]      run the check
  check.py --replay <file>                  rerun the input recorded in a replay file
  check.py --baseline [ids]                 record the hash of the generated text of the unchanged tree
"""
import hashlib, json, os, re, subprocess, sys, tempfile, time, traceback, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, verus, xlate
from props import PROPS

ROOT = build.ROOT; REPO = build.REPO
BASE = os.path.join(ROOT, "baseline.json")
KNOWN = os.path.join(ROOT, "known_findings.txt")
CXX = ["g++", "-std=gnu++17", "-O1", "-g1", "-DNDEBUG", "-fno-exceptions", "-fno-rtti", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
       "-I/usr/lib/llvm-20/include", "-I" + REPO + "/include", "-I" + REPO + "/_build/include"]

class Harness:
    def __init__(self, cfg, work):
        self.cfg = cfg; self.work = work; self.exe = None; self.err = None; self.t = 0.0
    def compile(self):
        t0 = time.time(); c = self.cfg
        fl = list(CXX) + c.get("flags", [])
        if c.get("nosan"): fl = [f for f in fl if "sanitize" not in f]
        srcs = [os.path.join(ROOT, "replay", c["src"])] + [os.path.join(REPO, s) for s in c["repo"]]
        objs = []; per = c.get("per", {})
        def one(i):
            o = os.path.join(self.work, "h%d.o" % i)
            r = subprocess.run(fl + next((v for k, v in per.items() if srcs[i].endswith(k)), []) + ["-I" + os.path.join(ROOT, "replay"), "-c", srcs[i], "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            return o, r
        with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, range(len(srcs))))
        for i, (o, r) in enumerate(res):
            if r.returncode: self.err = "%s does not compile:\n%s" % (srcs[i], r.stdout.decode(errors="replace")[-1500:]); return self
            objs.append(o)
        exe = os.path.join(self.work, "harness")
        r = subprocess.run(fl + objs + ["-o", exe, "-L/usr/lib/llvm-20/lib"] + c.get("libs", []) + ["-Wl,-rpath,/usr/lib/llvm-20/lib"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode: self.err = "harness does not link:\n" + r.stdout.decode(errors="replace")[-1500:]; return self
        self.exe = exe; self.t = time.time() - t0
        return self
    def run(self, prop, tier, seed, seconds, case=None, timeout=600):
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=0")
        cmd = [self.exe, prop, tier, str(seed), str(seconds)] + ([str(case)] if case is not None else [])
        try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout, cwd=self.work)
        except subprocess.TimeoutExpired: return {"error": "harness exceeded %d s" % timeout, "fails": [], "samples": [], "stats": {}}
        out = r.stdout.decode(errors="replace"); res = {"fails": [], "samples": [], "stats": {}, "error": None, "cmd": cmd[1:]}
        for l in out.split("\n"):
            if l.startswith("FAIL\t"):
                f = (l.split("\t") + [""] * 5)[1:5]; res["fails"].append({"case": int(f[0]), "key": f[1], "input": f[2], "detail": f[3]})
            elif l.startswith("SAMPLE "): res["samples"].append(l[7:])
            elif l.startswith("STATS "): res["stats"] = {k: int(v) for k, v in (x.split("=") for x in l[6:].split())}
            elif l.startswith("HARNESS-ERROR"): res["error"] = l
        if r.returncode not in (0, 3) or not res["stats"]: res["error"] = res["error"] or "harness exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-500:])
        return res

def known(prop):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"^finding: property=(\S+) key=\{(.*?)\} input=\{(.*?)\} (.*)$", l.rstrip("\n"))
            if m and m.group(1) == prop: out.append({"key": m.group(2), "input": m.group(3), "what": m.group(4)})
    return out

def parts(prop):
    cfg = PROPS[prop]
    return [dict(cfg, **p) for p in cfg["parts"]] if cfg.get("parts") else ([cfg] if cfg.get("contracts") else [])

def generate(cfg):
    u = build.merge(cfg["contracts"])
    roots = [k for k, c in u.contracts.items() if not c.inline and any(re.search(x, c.name or k) for x in cfg["roots"])]
    if not roots: raise xlate.Unsupported("no roots")
    return build.build(cfg["contracts"], cfg["tus"], roots, cfg.get("elsewhere", ()))

def norm_hash(text): return hashlib.sha256(re.sub(r"[ \t]+", " ", text).encode()).hexdigest()

def static_part(prop, work, tier):
    """-> dict(status: proved|failed|undecided, ...); a property may be split into parts that are verified separately"""
    ps = parts(prop)
    with ThreadPoolExecutor(3) as ex: rs = list(ex.map(lambda i: static_one("%s_%d" % (prop, i) if len(ps) > 1 else prop, ps[i], work, tier), range(len(ps))))
    if len(rs) == 1: return rs[0]
    st = {"status": "proved", "why": "; ".join(r["why"] for r in rs if r.get("why")), "failed": sum((r["failed"] for r in rs), []), "obligations": sum(r["obligations"] for r in rs), "discharged": sum(r["discharged"] for r in rs)}
    for x in ("undecided", "failed"):
        if any(r["status"] == x for r in rs): st["status"] = x
    st["hash"] = norm_hash("\n".join(r.get("hash", "?") for r in rs))
    for k in ("names", "lemmas", "inlined", "trusted", "elsewhere", "contracts"): st[k] = sorted(set(sum((list(r.get(k, [])) for r in rs), [])))
    for k in ("smt_s", "verified"): st[k] = round(sum(r.get(k) or 0 for r in rs), 2)
    st["verus_wall"] = max((r.get("verus_wall") or 0) for r in rs); st["cmd"] = " ; ".join(r.get("cmd", "") for r in rs); st["version"] = next((r["version"] for r in rs if r.get("version")), None)
    for k in ("by_kind", "assume_scan", "probes"):
        st[k] = {}
        for r in rs:
            for a, b in (r.get(k) or {}).items(): st[k][a] = st[k].get(a, 0) + b
    st["raw"] = "\n".join(r.get("raw", "") for r in rs)[:6000]
    return st

def static_one(prop, cfg, work, tier):
    st = {"status": "undecided", "why": "", "failed": [], "obligations": 0, "discharged": 0}
    t0 = time.time()
    try:
        p, text = generate(cfg)
    except xlate.Unsupported as e:
        st["why"] = "extraction: " + str(e)[:400]; return st
    except Exception as e:
        st["why"] = "extraction: %s: %s" % (type(e).__name__, str(e)[:400]); st["trace"] = traceback.format_exc()[-1500:]; return st
    st["extract_s"] = round(time.time() - t0, 2)
    st["hash"] = norm_hash(text)
    path = os.path.join(work, prop + ".rs"); open(path, "w").write(text); lines = text.split("\n")
    st["contracts"] = sorted(p.done if isinstance(p.done, (list, set)) else list(p.done))
    st["names"] = sorted(set(re.findall(r"^//@fn (.*)\n(?!#\[verifier::external_body\])", text, re.M)))
    st["elsewhere"] = sorted(k for k in p.done if k in p.unit.contracts and p.unit.contracts[k].elsewhere and p.unit.contracts[k].trusted is None)
    lem = re.findall(r"^\s*(?:pub )?(?:broadcast )?proof fn (\w+)", text, re.M); st["lemmas"] = lem
    st["inlined"] = sorted(p.inlined)
    st["trusted"] = sorted(k for k in p.done if k in p.unit.contracts and p.unit.contracts[k].trusted) if hasattr(p, "unit") else []
    # mechanical scan: the only assumptions are the typing assumptions and the reification stub
    bad = [l.strip() for l in lines if re.search(r"\b(assume|admit)\s*\(", l) and "//@ty" not in l and "//@trust" not in l and "//@lib" not in l]
    ext = [l.strip() for i, l in enumerate(lines) if "external_body" in l]
    st["assume_scan"] = {"typing_assumptions": sum("//@ty" in l for l in lines), "library_assumptions": sum("//@lib" in l for l in lines), "other_assume_or_admit": len(bad), "external_body": len(ext)}
    if bad: st["why"] = "unexpected assumption: " + bad[0]; return st
    kinds = dict(p.obl); st["by_kind"] = kinds
    ob = kinds["ensures"] + kinds["inv"] + kinds["asserts"] + kinds["calls"] + len(lem)
    st["obligations"] = ob
    if not kinds["ensures"]: st["why"] = "no postcondition generated"; return st
    ptext, where = build.with_probes(text)
    ppath = os.path.join(work, prop + "_probe.rs"); open(ppath, "w").write(ptext)
    rl = cfg.get("rlimit", 30) * (4 if tier == "thorough" else 1)
    with ThreadPoolExecutor(2) as ex:
        f1 = ex.submit(verus.run, path, rl, 6, cfg.get("vextra", ()), 500)
        f2 = ex.submit(verus.run, ppath, cfg.get("probe_rlimit", 10), 4, ("--multiple-errors", "1000") if False else (), 500)
        res, pres = f1.result(), f2.result()
    failed, und, hard = verus.classify(res, lines)
    st["cmd"] = re.sub(re.escape(work) + "/", "", res["cmd"]); st["smt_s"] = res["smt_s"]; st["verus_wall"] = round(res["wall"], 2); st["version"] = res.get("version"); st["verified"] = res["verified"]
    if failed or und:
        # rule out a solver budget effect before believing a failure
        res2 = verus.run(path, rl * 5, 8, cfg.get("vextra", ()), 300)
        f2_, u2_, h2_ = verus.classify(res2, lines)
        if not res2.get("timeout") and not h2_: failed, und, hard, res = f2_, u2_, h2_, res2
    # obligations that speak of another property than this one
    own = lambda f: re.search(cfg.get("own", ""), f["what"] or "") and not (cfg.get("not_own") and re.search(cfg["not_own"], f["what"] or ""))
    other = [f for f in failed if not own(f)]; failed = [f for f in failed if own(f)]
    st["failed"] = failed; st["undecided"] = und
    if res.get("timeout"): st["why"] = "verifier timeout"; return st
    if hard: st["why"] = "verifier rejects the generated text: %s (line %s: %s)" % (hard[0]["msg"], hard[0]["line"], lines[hard[0]["line"] - 1].strip()[:160] if hard[0]["line"] else ""); return st
    if failed:
        st["status"] = "failed"; st["discharged"] = max(0, ob - len(failed)); st["raw"] = "\n".join(d.get("rendered", d.get("message", "")) for d in res["diags"])[:6000]; return st
    if other: st["why"] = "obligations of other properties fail: " + ", ".join(sorted({"%s: %s" % (f["fn"], f["what"]) for f in other}))[:300]; return st
    if und: st["why"] = "solver gave no answer on " + ", ".join(sorted({str(x["fn"]) for x in und})); return st
    if not res.get("ok") or not res["verified"]: st["why"] = "verifier did not report success: " + res.get("raw", "")[-300:]; return st
    # vacuity: every probe must be refuted
    pl = ptext.split("\n"); hit = set()
    for d in pres["diags"]:
        for s in d.get("spans", []):
            ln = s.get("line_start")
            if ln and ln <= len(pl) and "//@probe" in pl[ln - 1]: hit.add(ln)
    alive = [w for w in where if w[0] not in hit]
    st["probes"] = {"total": len(where), "refuted": len(hit)}
    dead = []; allow = dict(cfg.get("dead_ok", {}))  # code that is unreachable on the reference tree, too
    for ln, kind in alive:
        fn = verus.fn_at(pl, ln)
        a = next((x for x in allow if fn and x in fn), None)
        if a and allow[a] > 0: allow[a] -= 1; continue
        dead.append("%s of %s" % (kind, fn))
    pund = verus.classify(pres, pl)[1]
    if dead and not pund and not pres.get("timeout"):
        st["why"] = "vacuous: unreachable " + "; ".join(dead[:5]); st["vacuous"] = dead; return st
    st["status"] = "proved"; st["discharged"] = ob
    return st

TRUST = ["clang 20 front end (syntax tree of the compiled sources)", "the C++ to Verus translator /verif/vc/xlate.py (semantics given to C++ integers, containers, references and control flow)",
         "Verus and Z3", "containers hold fewer than 2^32 elements and machine integers are in range at function entry (typing assumptions, counted in assume_scan)",
         "library containers and algorithms (llvm::SmallVector, std::vector, BitVector, ...) behave as sequences (specification built in the translator)"]

def write_replay(prop, n, body):
    d = os.path.join(ROOT, "replays"); os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.txt" % (prop, n)); open(path, "w").write(body); return path

def main():
    t0 = time.time()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); cfg = PROPS[prop]
    work = tempfile.mkdtemp(prefix="vc-%s-" % prop)
    try: rc = run(prop, tier, seed, cfg, work, t0)
    finally: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(prop, tier, seed, cfg, work, t0):
    h = None
    with ThreadPoolExecutor(2) as ex:
        hf = ex.submit(Harness(cfg["harness"], work).compile) if cfg.get("harness") else None
        sf = ex.submit(static_part, prop, work, tier) if parts(prop) else None
        h = hf.result() if hf else None; st = sf.result() if sf else {"status": "none", "failed": [], "obligations": 0, "discharged": 0}
    secs = cfg.get("secs", 12) * (15 if tier == "thorough" else 1)
    hr = None
    if h and h.exe:
        hr = h.run(prop, tier, seed, secs)
        if st["status"] == "failed" and not hr["fails"] and not hr["error"]:
            hr2 = h.run(prop, "thorough", seed + 1000003, 60)  # search harder for a failing input
            if hr2["fails"]: hr = hr2
    base = json.load(open(BASE)) if os.path.exists(BASE) else {}
    viol = []; notes = []
    kn = known(prop); seen_known = []
    fails = []
    if hr:
        for f in hr["fails"]:
            k = next((x for x in kn if x["key"] == f["key"] and x["input"] == f["input"]), None)
            if k: seen_known.append(k)
            else: fails.append(f)
    for k in kn:
        if k in seen_known: print("KNOWN-FINDING: property=%s %s (input %s)" % (prop, k["what"], k["input"]))
    if st["status"] == "failed" and st.get("hash") == base.get(prop):
        st["status"] = "undecided"; st["why"] = "the generated text is the one verified on the reference tree: solver instability on " + ", ".join(str(f["fn"]) for f in st["failed"]); st["failed"] = []
    n = 0
    obs = "".join("failed obligation: %s | %s | %s | %s\n" % (f["fn"], f["kind"], f["what"], f["text"]) for f in st["failed"])
    for key in sorted({f["key"] for f in fails}):
        f = next(x for x in fails if x["key"] == key); n += 1
        if n > 5: break
        path = write_replay(prop, n, "property=%s\nkey=%s\ncase=%d\nseed=%d\ntier=%s\ninput=%s\nobserved=%s\nharness=%s\nrerun: python3 /verif/vc/check.py --replay <this file>\n%s%s" % (
            prop, key, f["case"], int(hr["cmd"][2]), hr["cmd"][1], f["input"], f["detail"], cfg["harness"]["src"], obs, ("\n" + st.get("raw", "")) if obs else ""))
        print("VIOLATION property=%s replay=%s" % (prop, path)); print("  %s: %s -- %s" % (key, f["input"], f["detail"])); viol.append(path)
    if st["status"] == "failed" and not viol:
        path = write_replay(prop, 1, "property=%s\nno failing input found by the bounded search (%s)\n%s\nverifier output:\n%s" % (prop, hr and hr["stats"], obs, st.get("raw", "")))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)); viol.append(path)
    if st["status"] == "failed": print(obs, end="")
    err = None
    if st["status"] in ("undecided", "none") and (not h or not h.exe or (hr and hr["error"])) and not viol:
        err = "no answer: %s; %s" % (st.get("why"), (h and h.err) or (hr and hr["error"]))
    level = cfg["level"] if st["status"] == "proved" else ("other" if hr else "other")
    cov = {"checker_cmd": st.get("cmd", ""), "obligations": st["obligations"], "discharged": st["discharged"], "trusted_base": TRUST + cfg.get("trust", []),
           "functions_under_contract": st.get("names", []), "inlined_into_callers": st.get("inlined", []), "lemmas": st.get("lemmas", []), "obligations_by_kind": st.get("by_kind", {}),
           "back_end": "Verus %s (Z3)" % st.get("version"), "solver_s": st.get("smt_s"), "verifier_wall_s": st.get("verus_wall"), "verus_queries_verified": st.get("verified"),
           "vacuity_probes": st.get("probes"), "assumption_scan": st.get("assume_scan"), "status": st["status"], "undecided_reason": st.get("why", ""),
           "failed_obligations": [dict(fn=f["fn"], kind=f["kind"], what=f["what"], text=f["text"]) for f in st["failed"]],
           "not_under_contract": cfg.get("gaps", [])}
    if st.get("elsewhere"): cov["callee_contracts_discharged_by_other_checks"] = st["elsewhere"]
    if st.get("trusted"): cov["trusted_contracts"] = st["trusted"]
    if hr:
        cov["bounded_companion"] = {"label": "bounded, not counted as proved", "bound": cfg.get("bounded", ""), "error": hr["error"]}
        cov["evaluations"] = hr["stats"].get("evaluations", 0); cov["distinct_nontrivial"] = hr["stats"].get("nontrivial", 0)
        cov["rule"] = "cases generated by replay/%s: %s; non-trivial as marked by the oracle (e.g. the operands interact)" % (cfg["harness"]["src"], cfg.get("bounded", "")); cov["samples"] = hr["samples"] or ["(none)"]
    cov["explanation"] = cfg.get("explanation") or ("Contracts of the listed functions, extracted from /repo on this run, discharged by Verus for all inputs; the bounded companion runs the compiled real code against an independent oracle."
        if st["status"] == "proved" else "The deductive part gave no verdict on this tree (%s); only the bounded companion covered it on this run." % st.get("why", ""))
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level, "coverage": cov, "assumptions": TRUST + cfg.get("trust", []), "wall_s": round(time.time() - t0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %s; obligations %d/%d, %s functions, %.1fs solver; bounded companion %s; %.1fs" % (prop, st["status"] + (" (" + st["why"] + ")" if st.get("why") else ""), st["discharged"], st["obligations"], len(st.get("names", [])), st.get("smt_s") or 0, hr and (hr["error"] or hr["stats"]) or (h and h.err), time.time() - t0))
    if err: print("ERROR " + err); return 2
    return 1 if viol else 0

def replay(path):
    kv = dict(l.split("=", 1) for l in open(path).read().split("\n") if re.match(r"^\w+=", l))
    prop = kv["property"]
    if "case" not in kv: print(open(path).read()); return 0
    work = tempfile.mkdtemp(prefix="vc-replay-")
    try:
        h = Harness(PROPS[prop]["harness"], work).compile()
        if not h.exe: print(h.err); return 2
        r = h.run(prop, kv["tier"], kv["seed"], 1e9, kv["case"])
        for f in r["fails"]: print("reproduced: %(key)s: %(input)s -- %(detail)s" % f)
        if not r["fails"]: print("not reproduced", r["stats"], r["error"])
        return 1 if r["fails"] else 0
    finally: shutil.rmtree(work, ignore_errors=True)

def baseline(ids):
    b = json.load(open(BASE)) if os.path.exists(BASE) else {}
    for i in ids or PROPS:
        ps = parts(i)
        if not ps: continue
        try:
            hs = [norm_hash(generate(p)[1]) for p in ps]
            b[i] = hs[0] if len(hs) == 1 else norm_hash("\n".join(hs))
        except Exception as e: print(i, "not recorded:", e); b.pop(i, None)
    json.dump(b, open(BASE, "w"), indent=1, sort_keys=True)

if __name__ == "__main__":
    if sys.argv[1] == "--replay": sys.exit(replay(sys.argv[2]))
    if sys.argv[1] == "--baseline": baseline(sys.argv[2:]); sys.exit(0)
    main()
