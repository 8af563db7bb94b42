#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (python3-vt tools/gen.py)."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "libclingo-lpx/src/"
AI = "abstract interpretation of the type-resolved syntax tree (polynomial/sign polyhedra domain)"
ST = "structural rules over the type-resolved syntax tree and call graph"

# id: (title, statement, over, quantifier text, why tests can't, files, mechanisms[(name, where)], technique, level note)
P = {}


def prop(pid, title, statement, over, qtext, why, files, mech, tech, note):
    P[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, tech=tech, note=note)


exec(open(os.path.join(V, "tools", "table.py")).read())

NA = [
    ("N01", "End-to-end answers equal the mathematical semantics of the program",
     "For every program the reported models are exactly the stable models whose linear constraints are satisfiable, and the reported values satisfy them.",
     "The composition of grounding, clasp's search and unboundedly many simplex iterations is not statically decidable here; the component obligations it rests on (equivalent bounds, sound steps, exact backtracking, implied clauses, exact arithmetic) are decided by the other properties."),
    ("N02", "Termination of solving and optimization",
     "Every call to solve or optimize returns after finitely many pivots for every input.",
     "Termination needs a global ranking argument over all bases (Bland's theorem); only its local premise, the selection rule, is a fact about single steps and is decided separately (C07, C08)."),
    ("N03", "Resource usage stays proportional to the problem",
     "Memory and running time of a solve call stay within bounds polynomial in the problem size per pivot.",
     "Quantifies over sizes of numbers and fill-in at run time, which no static argument in reach bounds."),
]


def main():
    lines = []
    done = [p for p in sorted(P) if os.path.exists(os.path.join(V, "props", p.lower() + ".py"))]
    for pid in done:
        d = P[pid]
        assert len(d["title"]) <= 80, pid
        lines.append({"id": pid, "title": d["title"], "statement": d["statement"],
                      "quantifier": {"over": d["over"], "text": d["qtext"]}, "why_tests_cant": d["why"],
                      "anchors": {"files": d["files"], "mechanism": [{"name": n, "where": w} for n, w in d["mech"]]}})
    for pid, t, s, r in NA:
        lines.append({"id": pid, "title": t, "statement": s, "quantifier": {"over": ["inputs", "programs"], "text": "all programs"},
                      "why_tests_cant": "Quantifies over all programs.",
                      "anchors": {"files": [S + "solving.cc"], "mechanism": [{"name": "simplex loop", "where": S + "solving.cc"}]}})
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for l in lines:
            f.write(json.dumps(l) + "\n")
    man = {"version": 1, "setup_cmd": "python3-vt check.py --setup",
           "checks": [{"property": pid, "quick_cmd": "python3-vt check.py %s quick" % pid,
                       "thorough_cmd": "python3-vt check.py %s thorough" % pid, "technique": P[pid]["tech"],
                       "level": "other", "level_note": P[pid]["note"]} for pid in done],
           "not_applicable": [{"property": p, "reason": r} for p, _, _, r in NA],
           "notes": "All checks are static analyses of the current sources (clang front end, engine/*.py); see DESIGN.md."}
    json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    try:
        import jsonschema
        sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for l in lines:
            jsonschema.validate(l, sch)
        jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
    except (ImportError, FileNotFoundError):
        pass
    print(len(done), "properties claimed;", [p for p in P if p not in done], "without a check")


main()
