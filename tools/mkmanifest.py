#!/usr/bin/env python3
# writes MANIFEST.json from lib/checks.py (claimed) and properties.jsonl (everything)
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import checks
NA = {"P24": "the JSON serializer needs the microjson submodule, which is absent from this sandbox: the code can neither be built nor executed, so there is nothing to explore"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bin/check --build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks.PROPS:
        c = checks.PROPS[i]
        m["checks"].append({"property": i, "quick_cmd": "bin/check %s quick" % i, "thorough_cmd": "bin/check %s thorough" % i, "technique": c.technique,
                            "level": c.level, "level_note": c.note})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
