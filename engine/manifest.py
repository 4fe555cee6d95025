"""Writes MANIFEST.json from properties.jsonl (run by hand when the claims change)."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
LEVEL = json.load(open(os.path.join(R, "engine", "levels.json")))
m = dict(version=1, setup_cmd="python3-vt engine/setup.py", checks=[], not_applicable=[])
for p in ps:
    l = LEVEL[p["id"]]
    if l.get("na"):
        m["not_applicable"].append(dict(property=p["id"], reason=l["na"]))
        continue
    m["checks"].append(dict(property=p["id"], quick_cmd="python3-vt engine/check.py %s quick" % p["id"],
                            thorough_cmd="python3-vt engine/check.py %s thorough" % p["id"],
                            technique=l["technique"], level=l["level"], level_note=l["note"]))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
