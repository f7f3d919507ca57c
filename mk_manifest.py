"""writes MANIFEST.json from the table below"""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "vf"))
from manifest_notes import NOTES, LEVEL, NOT_APPLICABLE, TECH
checks = []
for prop, note in NOTES.items():
    checks.append({
        "property": prop,
        "quick_cmd": f"bin/check {prop} quick",
        "thorough_cmd": f"bin/check {prop} thorough",
        "evidence_file": f"evidence/{prop}.json",
        "technique": "contract-based deductive verification of the real source (own VC generator over the AST, z3" + TECH.get(prop, "") + "), bounded run of the same contracts on the real code as failing-input search",
        "level": LEVEL.get(prop, "proof"),
        "level_note": note,
    })
json.dump({"version": 1, "setup_cmd": "true", "hooks": {"guard": "none", "enable": "no hooks: contracts live in /verif/vf and are checked against the unmodified source", "source_commits": []},
           "checks": checks, "not_applicable": NOT_APPLICABLE}, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
