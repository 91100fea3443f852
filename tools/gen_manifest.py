#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8") if x.strip()]
checks = []
for p in props:
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']}",
        "thorough_cmd": f"python3 check.py {p['id']} --thorough",
        "technique": "static analysis: path-sensitive effect and typestate rules over the syntax tree, and path-summary comparison with reviewed behaviour",
        "level": "other",
        "level_note": "Decided from the current source without running it: rules over every path (loops for 0, 1, 2 iterations) of the functions the property rests on, plus comparison of their effects and outcomes with the reviewed "
                      "behaviour. Trusts the modelled meaning of the standard library and the human review of the reference; nothing is claimed about code outside src/diwire.",
    })
json.dump({"version": 1, "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 10)\"", "checks": checks, "not_applicable": [],
           "notes": "No hooks in /repo. Known findings: known_findings.json. See DESIGN.md."}, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
