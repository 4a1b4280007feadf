"""Writes MANIFEST.json from the list of properties and of what is claimed."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import props
ps = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in ps:
    i = p["id"]
    if i in props.PROPS:
        c = "python3 check.py --property " + i
        checks.append({"property": i, "quick_cmd": c, "thorough_cmd": c, "technique": props.PROPS[i].get("technique", props.TECHNIQUE),
                       "level": "model_checking", "level_note": props.PROPS[i].get("note", props.NOTE)})
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo are needed: every observation is made through the public API. See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
