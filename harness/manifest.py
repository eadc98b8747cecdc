"""Rewrites MANIFEST.json from the registry (python3 harness/manifest.py; not part of any check)."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(ROOT, "harness", "notes.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
claimed = sorted(re.findall(r'"(C\d\d)":', open(os.path.join(ROOT, "harness", "registry.py")).read()))
checks = [{"property": p,
           "quick_cmd": "python3 harness/check.py %s quick" % p,
           "thorough_cmd": "python3 harness/check.py %s thorough" % p,
           "technique": NOTES[p]["technique"], "level": "model_checking", "level_note": NOTES[p]["note"]} for p in claimed]
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
           "not_applicable": [{"property": p, "reason": "check under construction"} for p in ids if p not in claimed],
           "notes": "Specification: /verif/spec (TLA+, TLC). Harness: /verif/harness. No hooks in /repo: everything is observed through the public functions of the modules."},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
