#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from checks import CHECKS, READY, NOT_APPLICABLE
m = dict(
    version=1,
    setup_cmd="python3 tools/setup.py",
    checks=[dict(property=p, quick_cmd=f"python3 tools/check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {p}",
                 technique=c["technique"], level="exploration", level_note=c["note"]) for p, c in CHECKS.items() if p in READY],
    not_applicable=[dict(property=p, reason=r) for p, r in NOT_APPLICABLE.items()],
    notes="No hooks in /repo: every monitor observes the public API. Runtime monitoring throughout; see DESIGN.md.",
)
with open(os.path.join(os.path.dirname(HERE), "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
