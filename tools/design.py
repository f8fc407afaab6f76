#!/opt/venv/bin/python
"""fills the tables of DESIGN.md from DESIGN.in.md"""
import glob
import json
import os
import re
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symbss import catalog, spec  # noqa: E402

rows = []
for pid in sorted(catalog.PROPS):
    p = catalog.PROPS[pid]
    rows.append("### %s %s\n\n%s\n\nBounds: %s. Cases: %d quick, %d thorough.\n" % (
        pid, spec.SPEC[pid][0], p.explanation, p.bounds, len([c for c in p.cases("quick") if "quick" in c.tiers]),
        len([c for c in p.cases("thorough") if "thorough" in c.tiers])))
for pid, (t, st, why) in sorted(spec.NOT_APPLICABLE.items()):
    rows.append("### %s %s: not applicable\n\n%s\n" % (pid, t, why))
seeded = ["| change | property | what it breaks | caught by |", "|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools", "caught.json")))
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    seeded.append("| %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"].replace("|", "/"), caught.get(n, "not evaluated")))
s = open(os.path.join(V, "tools", "DESIGN.in.md")).read()
s = s.replace("PROPERTY_TABLE", "\n".join(rows)).replace("SEEDED_TABLE", "\n".join(seeded))
open(os.path.join(V, "DESIGN.md"), "w").write(s)
