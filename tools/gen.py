#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py, and check
that the registry, the properties and the manifest agree."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(HERE, "..", "hxsa")]
from props import PROPS
from rules.registry import CHECKS

ROOT = os.path.join(HERE, "..")
ids = [p["id"] for p in PROPS]
assert len(ids) == len(set(ids))
claimed = [p for p in PROPS if "na" not in p]
assert {p["id"] for p in claimed} == set(CHECKS), {p["id"] for p in claimed} ^ set(CHECKS)

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["quant"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            "observe_at": p.get("observe", []), "hook_needed": False}) + "\n")

m = {"version": 1, "setup_cmd": "make -s -C frontend && python3 hxsa/facts.py",
     "checks": [{"property": p["id"], "quick_cmd": "python3 hxsa/check.py " + p["id"],
                 "thorough_cmd": "python3 hxsa/check.py %s --thorough" % p["id"],
                 "technique": p["technique"], "level": "other", "level_note": p["note"]} for p in claimed],
     "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if "na" in p]}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(claimed), "claimed,", len(PROPS) - len(claimed), "not applicable")
