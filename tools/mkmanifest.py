"""Writes MANIFEST.json from the contract modules present."""
import importlib
import json
import os
import sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
NA = {}
props = [json.loads(x) for x in open(os.path.join(R, "properties.jsonl"))]
checks, na = [], []


def note(i, m):
    """What is proved, what only within a bound, what only sampled."""
    from vf.run import SCEN
    pr, bd, sa = [], [], []
    for sc in SCEN[i]:
        if not sc.sym:
            sa.append(sc.name)
        elif sc.bound:
            bd.append(f"{sc.name} ({sc.bound})")
        else:
            pr.append(sc.name)
    t = []
    if pr:
        t.append("Proved for all inputs: " + ", ".join(pr) + ".")
    if bd:
        t.append("Obligations discharged within a bound (bounded, not "
                 "counted as proved): " + "; ".join(bd) + ".")
    if sa:
        t.append("Sampled only (bounded stand-in): " + ", ".join(sa) + ".")
    t.append("Floats are treated as reals; the other assumptions and the "
             "trusted base are listed in the evidence file and DESIGN.md.")
    return " ".join(t)


TECH = ("contract-based deductive verification: contracts on the real "
        "functions, obligations from /repo's current source discharged by "
        "z3 (counterexamples replayed on the real code)")
for p in props:
    i = p["id"]
    if not os.path.exists(os.path.join(R, "contracts", i.lower() + ".py")):
        na.append({"property": i, "reason": NA.get(
            i, "contract not built yet")})
        continue
    m = importlib.import_module("contracts." + i.lower())
    checks.append({
        "property": i,
        "quick_cmd": f"./check {i} --tier quick",
        "thorough_cmd": f"./check {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": getattr(m, "TECH", TECH),
        "level": getattr(m, "LEVEL", "proof"),
        "level_note": note(i, m)})
json.dump({"version": 1, "setup_cmd": "./check C05 --con all -n 5",
           "hooks": {"guard": "none", "enable": "no hooks: the checks load "
                     "/repo's modules as they are", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
