#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": [{
        "property": k, "quick_cmd": "python3 check.py %s quick" % k, "thorough_cmd": "python3 check.py %s thorough" % k,
        "evidence_file": "evidence/%s.json" % k, "technique": v["technique"], "level": v.get("level", "exploration"),
        "level_note": v["note"] + " Random search over bounded sizes: violations outside of what was generated are not excluded."
        + ("" if not v.get("assumptions") else " " + " ".join(v["assumptions"])),
    } for k, v in CHECKS.items()],
    "not_applicable": [],
}
open(os.path.join(here, "..", "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
