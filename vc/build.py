"""Build the Verus text of one property from /repo's current sources and /verif/contracts."""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cxxast, contracts, xlate
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"

def merge(files):
    u = contracts.Unit()
    for f in files:
        v = contracts.load(os.path.join(ROOT, "contracts", f))
        u.prelude += "\n// ---- contracts/%s\n" % f + v.prelude
        for k, c in v.contracts.items():
            if k in u.contracts: raise ValueError("two contracts for " + k)
            u.contracts[k] = c
        u.aliases.update(v.aliases)
        for k, o in v.options.items():
            if isinstance(o, set): u.options.setdefault(k, set()).update(o)
            else: u.options.setdefault(k, {}).update(o)
    return u

def load_tus(tus, filt="marco::"):
    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda t: cxxast.TU(os.path.join(REPO, t[0]), t[1] or filt, t[2:]) if isinstance(t, tuple) else cxxast.TU(os.path.join(REPO, t), filt), tus))

def build(files, tus, roots, elsewhere=()):
    """contracts of the files in `elsewhere` are used, but discharged by other checks"""
    u = merge(files)
    for c in u.contracts.values():
        if os.path.basename(c.file) in elsewhere: c.elsewhere = True
    loaded = load_tus(tus)
    p = xlate.Prog(u, loaded)
    p.run(roots)
    pre = u.prelude
    words = set(re.findall(r"\w+", re.sub(r"//.*", "", pre)))
    for key in p.records:
        if p.rname(key) in words: p.use_record(key)
    for key in p.poly:
        if p.rname(key) in words: p.use_record(key)
    for key in p.enums:
        if p.rname(key) in words: p.use_enum(key)
    for key in list(p.used_records): p.use_record(key)
    base = open(os.path.join(ROOT, "contracts", "base.rs")).read()
    fns = "\n\n".join(p.fntext[k] for k in p.done) + "\n" + "\n".join(p.extra)
    recs = p.emit_records()
    text = "#![allow(unused_imports, unused_variables, unused_mut, unused_assignments, dead_code, non_snake_case, unused_parens, non_camel_case_types, unreachable_code, unused_braces)]\nuse vstd::prelude::*;\nuse vstd::math::*;\nverus! {\n" + base + "\n" + recs + "\n" + pre + "\n" + fns + "\n} // verus!\n"
    text = text.replace("use vstd::math::*;\n", "")
    return p, text

def with_probes(text):
    """vacuity probes: one unprovable assert at each entry/loop body/exit."""
    out = []; k = 0; where = []
    for l in text.split("\n"):
        out.append(l)
        m = re.match(r"^\s*//@(entry|loopbody|exit)", l)
        if m:
            k += 1
            out.append("    if reify(Ghost(probe(%d))) { assert(false); } //@probe %d %s" % (k, k, m.group(1)))
            where.append((len(out), m.group(1)))
    return "\n".join(out), where
