#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from lib/meta.py and lib/specs.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "lib"))
import meta, specs
ids = [i for i in meta.META if i in specs.PROPS]
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for i in ids:
        f.write(json.dumps(meta.META[i]["prop"]) + "\n")
    for i in meta.NA:
        f.write(json.dumps(meta.NA[i][0]) + "\n")
man = {"version": 1, "setup_cmd": "python3 check.py --setup",
       "checks": [{"property": i, "quick_cmd": "python3 check.py %s" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                   "technique": meta.META[i]["technique"], "level": "exploration", "level_note": meta.META[i]["note"],
                   "evidence_file": "evidence/%s.json" % i} for i in ids],
       "not_applicable": [{"property": i, "reason": meta.NA[i][1]} for i in meta.NA]}
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
