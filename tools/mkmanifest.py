#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check, vlib
NOTES = {}
try:
    NOTES = json.load(open(os.path.join(vlib.VERIF, "tools", "levels.json")))
except FileNotFoundError:
    pass
DEFAULT = "TLA+ model checked by TLC within its bounds; real code bound to it by checking its recorded runs against the specification"
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
reg = check.registry()
for line in open(os.path.join(vlib.VERIF, "properties.jsonl")):
    p = json.loads(line)["id"]
    if p in reg:
        m["checks"].append({"property": p, "quick_cmd": "python3 tools/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 tools/check.py " + p,
                            "technique": "TLA+ specification (TLC) with trace validation of the real code", "level": "model_checking", "level_note": NOTES.get(p, DEFAULT)})
    else:
        m["not_applicable"].append({"property": p, "reason": "its check is being built"})
json.dump(m, open(os.path.join(vlib.VERIF, "MANIFEST.json"), "w"), indent=1)
