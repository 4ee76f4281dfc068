#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
     "hooks": {"guard": "LIBFLATARRAY_VERIF (unused: the checks need no hooks in /repo)", "enable": "nothing to enable", "source_commits": []},
     "checks": [], "not_applicable": []}
for i in ids:
    p = props.PROPS.get(i)
    if p:
        m["checks"].append({"property": i, "quick_cmd": "python3 bin/check.py %s quick" % i,
                            "thorough_cmd": "python3 bin/check.py %s thorough" % i,
                            "evidence_file": "evidence/%s.json" % i, "technique": p["technique"], "level": p["level"],
                            "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": props.NOT_APPLICABLE.get(i, "not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
