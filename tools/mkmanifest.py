#!/usr/bin/env python3
"""writes MANIFEST.json from plan.PLAN and properties.jsonl"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + "/tools")
import plan
props = [json.loads(l) for l in open(HERE + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in plan.PLAN:
        na.append({"property": i, "reason": "the specification does not cover it yet"})
        continue
    checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": plan.PLAN[i].get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                   "level": plan.LEVEL,
                   "level_note": plan.PLAN[i].get("note", "The specification's own properties are model-checked; the code is bound to it by conformance of recorded executions: every observable of every call (shape, strides, offset, flags, elements, memory of every live buffer, frees, refusals) must be the one the specification allows. Bounded by the programs executed. Trusts TLC, the harness' recording and the allocator interposition.")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: everything is observed through the public API, Debug output and an interposed allocator. Defects found were repaired in fix: commits, see known_findings.txt."}
json.dump(m, open(HERE + "/MANIFEST.json", "w"), indent=1)
