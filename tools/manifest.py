#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties and the harness binaries which exist."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
NOTES = {}
notes_file = os.path.join(root, "tools", "level_notes.json")
if os.path.exists(notes_file):
    NOTES = json.load(open(notes_file))
checks, missing = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness/src/bin", i.lower() + ".rs")):
        checks.append(dict(
            property=i,
            quick_cmd="python3 run.py " + i,
            thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
            technique="property-based testing: seeded generated cases against an explicit oracle, shrunk failures as replay files",
            level="exploration",
            level_note=NOTES.get(i, "Generated inputs against an independent oracle; a bounded random exploration, no proof.")))
    else:
        missing.append(dict(property=i, reason="the check is not built yet"))
m = dict(version=1, setup_cmd="python3 run.py --setup", checks=checks, not_applicable=missing)
m["notes"] = ("Every check builds the property's binary of /verif/harness against /repo's working tree in several "
    "configurations (std, no_std, SSE2, AVX2; matrix and interop: std) and runs a fixed number of generated cases. "
    "No hooks in /repo are needed.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
