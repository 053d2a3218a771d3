"""Run Verus on a generated file and classify every diagnostic by the marker of the line it points at."""
import json, os, re, subprocess, time, resource

VERUS = "verus"

def run(path, rlimit=30, threads=8, extra=(), timeout=600):
    cmd = [VERUS, path, "--crate-type=lib", "--output-json", "--error-format=json", "--multiple-errors", "20",
           "--rlimit", str(rlimit), "--num-threads", str(threads), "--time"] + list(extra)
    t0 = time.time()
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, cwd=os.path.dirname(path))
        out, err, rc = r.stdout.decode(errors="replace"), r.stderr.decode(errors="replace"), r.returncode
    except subprocess.TimeoutExpired as e:
        return {"ok": False, "timeout": True, "verified": 0, "errors": 0, "diags": [], "wall": time.time() - t0, "smt_s": 0, "raw": "timeout", "cmd": " ".join(cmd)}
    res = {"timeout": False, "wall": time.time() - t0, "cmd": " ".join(cmd), "verified": 0, "errors": 0, "diags": [], "smt_s": 0.0, "rc": rc}
    try:
        j = json.loads(out[out.index("{"):])
        vr = j.get("verification-results", {})
        res["verified"] = vr.get("verified", 0); res["errors"] = vr.get("errors", 0); res["ok"] = bool(vr.get("success"))
        res["encountered_vir_error"] = vr.get("encountered-vir-error")
        tm = j.get("times-ms", {})
        smt = tm.get("smt", {})
        res["smt_s"] = (smt.get("total") or 0) / 1000.0
        res["version"] = j.get("verus", {}).get("version")
    except Exception as e:
        res["ok"] = False; res["bad_json"] = str(e)
    for l in err.split("\n"):
        l = l.strip()
        if not l.startswith("{"): continue
        try: d = json.loads(l)
        except Exception: continue
        if d.get("level") not in ("error",): continue
        res["diags"].append(d)
    res["raw"] = err
    return res

FAIL_MSGS = {
 "postcondition not satisfied": "ensures", "precondition not satisfied": "requires", "assertion failed": "assert",
 "invariant not satisfied before loop": "invariant-entry", "invariant not satisfied at end of loop body": "invariant-preserved",
 "loop invariant not satisfied": "invariant-preserved", "decreases not satisfied": "termination", "loop ensures not satisfied": "loop-exit",
 "failed precondition": "requires",
}
UNDECIDED = ("rlimit", "timed out", "timeout", "Resource limit")

def classify(res, lines):
    """-> (failed obligations, undecided, hard errors); each failed: dict(fn, kind, what, line, text)"""
    failed, und, hard = [], [], []
    for d in res["diags"]:
        msg = d.get("message", "")
        if msg.startswith("aborting due to"): continue
        if any(u in msg for u in UNDECIDED):
            und.append({"msg": msg, "line": first_line(d), "fn": fn_at(lines, first_line(d))}); continue
        kind = None
        for k, v in FAIL_MSGS.items():
            if msg.startswith(k): kind = v
        if kind is None:
            m2 = msg.lower()
            if "decreases" in m2 or "termination" in m2: kind = "termination"
            elif "assert" in m2 and "fail" in m2: kind = "assert"
            elif "possible arithmetic" in m2 or "possible division" in m2: kind = "assert"
            elif "invariant" in m2 and "not satisfied" in m2: kind = "invariant"
            elif "not satisfied" in m2: kind = "other"
        if kind is None:
            hard.append({"msg": msg, "line": first_line(d)}); continue
        sp = d.get("spans", [])
        marker = None; pl = first_line(d)
        for s in sorted(sp, key=lambda s: 0 if "failed" in (s.get("label") or "") else 1):
            ln = s.get("line_start")
            if ln and ln <= len(lines):
                m = re.search(r"//@(ens|req|inv|ob)\s*(.*)$", lines[ln - 1])
                if m: marker = (m.group(1), m.group(2).strip(), lines[ln - 1].split("//@")[0].strip()); break
        failed.append({"fn": fn_at(lines, pl), "kind": kind, "what": marker[1] if marker else "", "line": pl,
                       "text": marker[2] if marker else (lines[pl - 1].strip() if pl and pl <= len(lines) else ""), "msg": msg})
    return failed, und, hard

def first_line(d):
    sp = d.get("spans", [])
    pr = [s for s in sp if s.get("is_primary")] or sp
    return pr[0].get("line_start") if pr else None

def fn_at(lines, ln):
    if not ln: return None
    i = min(ln, len(lines)) - 1
    while i >= 0:
        m = re.match(r"^//@fn (.*)$", lines[i])
        if m: return m.group(1)
        m = re.match(r"^\s*(?:pub\s+)?(?:broadcast\s+)?(?:open\s+)?(?:proof|spec) fn (\w+)", lines[i])
        if m: return "lemma " + m.group(1)
        i -= 1
    return None
