"""Writes MANIFEST.json from the registry of checks and properties.jsonl."""
import json, os, sys
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, os.path.join(here, "harness"))
sys.path.insert(0, "/repo")
import registry
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "tools", "notes.json")))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.py " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.py " + i,
                       "technique": NOTES[i][0], "level": "model_checking", "level_note": NOTES[i][1]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "./run.py setup", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC; harness/ replays every transition TLC enumerates on the real "
              "library and has TLC check traces recorded from it. No hooks in /repo. run.py replay FILE reproduces a violation."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
