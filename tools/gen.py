#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py (one source, so that they stay in step)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import NOT_APPLICABLE, PROPS  # noqa: E402

TECH = "contract-based deductive verification of the real code: contracts on the functions in /repo, verification conditions generated by symbolic execution of the current source, discharged by z3"
NOTE = ("Each contract is proved for all inputs and all sequence lengths unless its evidence entry says 'bounded'; floats are read as reals; library calls "
        "(numpy, pandas, pydantic) are assumed contracts, cross-checked by native runs of the same contracts on generated inputs.")


def design(na):
    """DESIGN.md: the template with the lists of repairs and planted bugs filled in"""
    t = open(os.path.join(ROOT, "tools", "DESIGN.tmpl.md")).read()
    fixes = [line.split(" ", 3) for line in open(os.path.join(ROOT, "known_findings.txt")) if line.startswith("fixed:")]
    t = t.replace("@@FIXES@@", "\n".join(f"* {p.split('=')[1]} `{c}`: {w.strip()}" for _, p, c, w in fixes))
    rows = ["| planted bug | what it breaks | needs | caught by |", "|---|---|---|---|"]
    seeded = os.path.join(ROOT, "seeded")
    for d in sorted(os.listdir(seeded)):
        j = json.load(open(os.path.join(seeded, d, "meta.json")))
        rows.append(f"| {d} | {j['what_it_breaks']} | {j['needs']} | {j.get('caught_by', j['property'])} |")
    t = t.replace("@@SEEDED@@", "\n".join(rows))
    t = t.replace("@@NA@@", "\n".join(f"* {n['property']}: {n['reason']}" for n in na) + NA)
    t = t.replace("@@EXTRA@@", "")
    open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)


NA = """* What NeqSim computes (density, enthalpy, flash) is outside the code under contract.
* Floating-point rounding: no contract decides the error of a computation, only its real-number value.
* Concurrency and crash points: eCalc is a single-threaded batch program; its only external effects are the result files it writes."""


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            over, text = p["quantifier"]
            rec = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": over, "text": text},
                   "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mechanism"]]}}
            f.write(json.dumps(rec) + "\n")
    na = {n["property"] for n in NOT_APPLICABLE}
    m = {"version": 1, "setup_cmd": "bash setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} quick", "thorough_cmd": f"python3 check.py {p['id']} thorough",
                     "technique": TECH, "level": p.get("level", "proof"), "level_note": p.get("note", NOTE)} for p in PROPS if p["id"] not in na],
         "not_applicable": NOT_APPLICABLE}
    design(NOT_APPLICABLE)
    json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)


main()
