#!/usr/bin/env python3
"""Fills the per-property part of DESIGN.md (below the marker line) from properties.jsonl, vc/props.py, vc/na.py, tools/design/*.md and seeded/."""
import json, os, re, sys
sys.path.insert(0, "/verif/vc")
from props import PROPS
from na import NA
import check
MARK = "<!-- generated by tools/mkdesign.py from here -->\n"
d = open("/verif/DESIGN.md").read().split(MARK)[0] + MARK
P = [json.loads(l) for l in open("/verif/properties.jsonl")]
seeds = {}
for s in sorted(os.listdir("/verif/seeded")):
    m = json.load(open("/verif/seeded/%s/meta.json" % s)); seeds.setdefault(m["property"], []).append((s, m))
res = json.load(open("/verif/seeded/RESULTS.json")) if os.path.exists("/verif/seeded/RESULTS.json") else {}
d += "\n## Properties decided\n"
for p in P:
    i = p["id"]
    if i not in PROPS: continue
    c = PROPS[i]
    d += "\n### %s %s (level: %s)\n%s\n\n" % (i, p["title"], c["level"], p["statement"])
    d += "* Deciding step: %s\n" % c["note"]
    for q in check.parts(i): d += "* Contracts: %s; sources: %s; roots: `%s`%s\n" % (", ".join(q["contracts"]), ", ".join(t[0] if isinstance(t, tuple) else t for t in q["tus"]), " ".join(q["roots"]), "; only obligations labelled `%s`" % q["own"] if q.get("own") else "; obligations labelled `%s` belong to another property" % q["not_own"] if q.get("not_own") else "")
    if c.get("gaps"): d += "* Not under contract (bounded companion only): %s\n" % "; ".join(c["gaps"])
    if c.get("harness"): d += "* Bounded companion `replay/%s`: %s\n" % (c["harness"]["src"], c.get("bounded", ""))
    f = "/verif/tools/design/%s.md" % i
    if os.path.exists(f): d += open(f).read()
    for s, m in seeds.get(i, []): d += "* Planted bug `%s` (needs %s): %s. %s\n" % (s, m["needs"], m["what_it_breaks"], m.get("caught", "Caught."))
d += "\n## Not applicable\n"
for p in P:
    if p["id"] not in PROPS: d += "* %s %s: %s\n" % (p["id"], p["title"], NA.get(p["id"], "no contract has been built for it"))
open("/verif/DESIGN.md", "w").write(d)
