"""Writes MANIFEST.json from pbt/checks/meta.py and the check modules present."""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from pbt.checks.meta import META  # noqa: E402
checks, na = [], []
for pid, m in META.items():
    if os.path.exists(os.path.join(V, "pbt", "checks", pid.lower() + ".py")):
        cmd = "/opt/venv/bin/python run.py " + pid
        checks.append(dict(property=pid, quick_cmd=cmd + " --tier quick", thorough_cmd=cmd + " --tier thorough",
                           evidence_file=f"evidence/{pid}.json", technique=m["technique"], level="exploration", level_note=m["note"]))
    else:
        na.append(dict(property=pid, reason="no check built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import casadi, numpy'", checks=checks, not_applicable=na,
               notes="No hooks: all checks drive the unmodified code of /repo (fix: commits only)."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
