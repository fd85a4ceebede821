#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from engine/specs.py."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "engine"))
sys.dont_write_bytecode = True
import specs  # noqa: E402

LEVEL_NOTE = (
    "Every obligation is derived from the current sources on all paths of the analysed "
    "functions, for symbolic inputs of any size; nothing is executed. Trusts the clang front "
    "end, the transfer functions and the library models, and assumes no signed overflow.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for k in sorted(list(specs.SPECS) + [n["id"] for n in specs.NOT_APPLICABLE]):
        s = specs.SPECS.get(k) or [n for n in specs.NOT_APPLICABLE if n["id"] == k][0]
        assert len(s["title"]) <= 80, s["title"]
        f.write(json.dumps({x: s[x] for x in ("id", "title", "statement", "quantifier",
                                              "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "checks": [{"property": k,
                 "quick_cmd": "python3 check.py %s quick" % k,
                 "thorough_cmd": "python3 check.py %s thorough" % k,
                 "technique": specs.SPECS[k].get("technique", specs.TECHNIQUE),
                 "level": specs.SPECS[k].get("level", "other"),
                 "level_note": specs.SPECS[k].get("level_note", LEVEL_NOTE),
                 "evidence_file": "evidence/%s.json" % k} for k in sorted(specs.SPECS)],
     "not_applicable": [{"property": n["id"], "reason": n["reason"]}
                        for n in specs.NOT_APPLICABLE]}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
