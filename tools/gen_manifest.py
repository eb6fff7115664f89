#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registry and the property list."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C34": "running time: no static argument in reach bounds wall-clock time; the related structural facts (unlisted messages are not decoded) are in C14",
}
TECH = {"next": "interprocedural forward dataflow (value provenance and path facts) over rustc MIR of one pull of the parser, with loop summaries and inferred type invariants",}
NOTE = "Every function on the analysed paths is interpreted abstractly from /repo's current source for all inputs at once; nothing is executed and no solver is used. Trusted: rustc's MIR, the library models in engine/models.py, the interpreter. A construct the interpreter cannot follow is reported as undecided (exit 0), never as a violation."
checks, na = [], []
for p in props:
    i = p["id"]
    c = registry.CHECKS.get(i)
    if c:
        checks.append({"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --thorough" % i,
                       "technique": c.get("tech") or TECH[c["kind"]], "level": "other", "level_note": (c["rule"] + " " + NOTE)})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet (work in progress)")})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not applicable")
