#!/bin/bash
# builds /repo and compares its tests with the baseline
bash /opt/vp/build.sh > /tmp/b.log 2>&1 || { echo BUILD-FAILED; exit 1; }
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'X'
import json
p=set(json.load(open("/tmp/t.json"))["passed"]); b=json.load(open("/opt/vp/BASELINE.json"))
b=set(b.get("stable") or b["passed"]); print("missing:", sorted(b-p)[:10], len(b-p), "of", len(b))
X
