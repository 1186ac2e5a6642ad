#!/usr/bin/env python3
"""Generates MANIFEST.json from the registered specs and the list of properties."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, ROOT)
from sa import main, spec as S
main.load_specs()
NA = {
 "N01": "quantifies over every derivation of every grammar; completeness of Earley parsing is an algorithm proof, not a property of the shape of the source that a sound dataflow analysis in reach can bound",
 "N02": "termination over every recursive grammar needs a ranking argument over runtime grammars",
 "N03": "semantic equivalence of queries quantifies over all databases and predicates",
 "N04": "running time depends on data and predicates",
 "N05": "durability is decided by the database engine and the caller's transactions",
 "N06": "rounding error depends on runtime values",
}
TECH_ABS = "static analysis: path-sensitive abstract interpretation of the source with loop summaries; obligations decided by fact lookup on every abstract path"
TECH_FLOW = "static analysis: whole-program dataflow/effect analysis over the resolved syntax tree"
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8"):
    i = json.loads(l)["id"]
    if i in S.SPECS:
        tech = S.TECH.get(i, TECH_ABS)
        if tech == "flow": tech = TECH_FLOW
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i}", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=tech, level="other",
                           level_note="sound up to the abstraction where an obligation is decided; constructs the analysis does not understand are reported as undecided in the evidence, never as violations; see DESIGN.md"))
    else: na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="python3 -m compileall -q sa check.py", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
