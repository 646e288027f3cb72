#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl (development helper)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 check.py --setup",
    hooks=dict(guard="none", enable="no hooks are needed: the harnesses observe through element types, allocators, resources, mutexes and streams", source_commits=[]),
    checks=[dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough", technique=CHECKS[i]["technique"], level=CHECKS[i].get("level", "exploration"), level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason="check not built yet") for i in ids if i not in CHECKS],
    notes="Every check is check.py <id>: it compiles the property's harnesses from /repo/include and runs them.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed,", len(m["not_applicable"]), "not")
