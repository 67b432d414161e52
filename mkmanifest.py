"""Writes MANIFEST.json from vf/props.py and properties.jsonl."""
import json, sys
sys.path.insert(0, "vf")
from props import PROPS
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
DEF = "random exploration against an independent oracle: no absence proof; trusts the reference model in vf/, gcc 13 and x86-64, ARCH_SCALAR builds only"
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0,'vf'); import build, props, check\"",
 "checks": [{"property": i, "quick_cmd": f"python3 vf/check.py {i} --tier quick", "thorough_cmd": f"python3 vf/check.py {i} --tier thorough",
   "technique": PROPS[i].get("technique", "property-based testing: generated cases, reference-model oracle, shrinking"), "level": "exploration",
   "level_note": PROPS[i].get("note", DEF)} for i in ids if i in PROPS],
 "not_applicable": [{"property": i, "reason": "check not built yet"} for i in ids if i not in PROPS]}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
