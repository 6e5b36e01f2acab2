"""Writes MANIFEST.json (run by hand after changing the list of checks)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from checks_table import TABLE, NOT_APPLICABLE
checks = []
for pid, technique, level, note in TABLE:
    checks.append({"property": pid, "quick_cmd": "python3 run.py %s" % pid, "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % pid,
                   "technique": technique, "level": level, "level_note": note})
m = {"version": 1, "setup_cmd": "python3 setup.py",
     "hooks": {"guard": "--cfg tsfile_verif", "enable": "RUSTFLAGS='--cfg tsfile_verif' cargo build in /verif/harness (path dependency on /repo/tsfile-writer)",
               "source_commits": ["fe6e4ff", "815b459"]},
     "checks": checks, "not_applicable": [{"property": p, "reason": r} for p, r in NOT_APPLICABLE],
     "notes": "Checks are decided by TLA+ specifications under spec/, checked with TLC; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
