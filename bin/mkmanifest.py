#!/usr/local/bin/python3
"""regenerates MANIFEST.json from properties.jsonl and checks.py"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import CHECKS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 -B bin/setup.py", checks=[], not_applicable=[], hooks=dict(guard="none", enable="no hooks: the checks use the public API of the code only", source_commits=[]),
         notes="bin/check <id> [--tier quick|thorough] [--replay FILE]; see DESIGN.md")
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append(dict(property=i, quick_cmd="bin/check %s --tier quick" % i,
                                thorough_cmd="bin/check %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
                                technique=c["technique"], level="exploration", level_note=c["note"]))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "check not built yet")))
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not claimed")
