#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py and check.TABLE"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.insert(0, os.path.join(V, "tools"))
from props import PROPS
from props import TECHS
try:
    from props import NA
except ImportError:
    NA = []
from check import TABLE

PY = "/opt/veriftools/pyvenv/bin/python3"
TECH = "static analysis: "
rows, checks, na = [], [], []
for q in PROPS:
    kw = q.pop("_kw", {})
    if q["id"] in TECHS:
        kw = dict(kw, tech="static analysis: " + TECHS[q["id"]][0], note=TECHS[q["id"]][1])
    rows.append(q)
    if q["id"] in TABLE:
        cmd = "python3-vt check.py %s" % q["id"]
        checks.append({"property": q["id"], "quick_cmd": cmd, "thorough_cmd": cmd + " --tier thorough",
                       "evidence_file": "evidence/%s.json" % q["id"],
                       "technique": kw.get("tech", "static analysis: gated value-numbering dataflow over Python and C sources with array-region comparison"),
                       "level": "other",
                       "level_note": kw.get("note", "Decides the property from the current source on every run (clang AST for C, ast for Python) for all sizes and neighbour subsets in the stated domain; trusts the analyser, the compiler, numpy and the MPI library.")})
    else:
        na.append({"property": q["id"], "reason": kw.get("na", "no sound static check built yet")})
for q in NA:
    kw = q.pop("_kw", {})
    rows.append(q)
    na.append({"property": q["id"], "reason": kw["na"]})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
m = {"version": 1, "setup_cmd": "python3-vt check.py --setup", "checks": checks, "not_applicable": na,
     "notes": "All checks are static: they parse /repo's working tree on every run (no build, no execution of lambdapic code). See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
