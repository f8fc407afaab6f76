#!/opt/venv/bin/python
"""writes properties.jsonl and MANIFEST.json"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from symbss import catalog, props, spec

NOTE = ("Bounded: holds for every real value of the listed symbolic samples within the sizes given in the evidence (bounds); nothing is "
        "claimed outside. Trusted: z3, the symbolic array layer (validated against the real library at each path's witness), exact real "
        "arithmetic in place of doubles, contracts for linalg.solve and scipy's assignment. Counterexamples are replayed on the "
        "unpatched library before being reported.")

rows, checks, na = [], [], []


def ext(p, tier):
    return props.extent([c for c in p.cases(tier) if tier in c.tiers])


def line(pid, title, st, over, text, why, files, mech):
    assert len(title) <= 80, (pid, len(title))
    rows.append({"id": pid, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
                 "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}})


for pid in sorted(spec.SPEC):
    if pid not in catalog.PROPS:
        continue
    line(pid, *spec.SPEC[pid])
    p = catalog.PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "/opt/venv/bin/python -B check.py %s --quick" % pid,
        "thorough_cmd": "/opt/venv/bin/python -B check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "symbolic execution of the library's Python code on symbolic sample values; z3 decides the resulting assertions",
        "level": p.level,
        "level_note": "Bounds: %s. Quick: %s. Thorough: %s. %s" % (p.bounds, ext(p, "quick"), ext(p, "thorough"), NOTE),
    })
assert set(catalog.PROPS) <= set(spec.SPEC), set(catalog.PROPS) - set(spec.SPEC)
for pid, (title, st, reason) in sorted(spec.NOT_APPLICABLE.items()):
    line(pid, title, st, ["inputs"], "all inputs", "tests sample few inputs", spec.M, [("implementation", "metrics.py")])
    na.append({"property": pid, "reason": reason})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for r in rows:
        f.write(json.dumps(r) + "\n")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the checks import /repo's working tree and substitute the arrays, not the code."}, f, indent=1)
    f.write("\n")
print(len(checks), "checks")
