#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.json."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
plan = json.load(open(os.path.join(V, "plan.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in plan:
        continue
    gen = plan[i].get("gen", [])
    tech = "TLA+ trace validation with TLC: recorded histories of the real library followed in spec/Trace.tla"
    if gen:
        tech += "; model %s checked exhaustively with TLC, all its behaviours replayed on the library" % ", ".join("spec/%s.tla (%s)" % tuple(x.split(":")) for x in gen)
    checks.append({"property": i, "quick_cmd": "python3 check.py " + i,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": tech, "level": plan[i]["level"],
                   "level_note": plan[i].get("note", "Every generated history is executed on the real code and every event is judged by TLC "
                                 "against the explicit TLA+ specification of the interpreter; sampled inputs, bounded sizes. "
                                 + ("All operands of a small pool, or all graphs up to two nodes and relationships, are enumerated by TLC. " if gen else "") +
                                 "Assumes TLC and lpg's iterators are right; events outside the specified region are left open (counted in evidence).")})
na = [{"property": i, "reason": "not claimed yet"} for i in ids if i not in plan]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks use the public API of the library only. See DESIGN.md."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
