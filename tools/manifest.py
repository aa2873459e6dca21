#!/opt/venv/bin/python
"""Regenerate MANIFEST.json from properties.jsonl and the check modules."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    path = os.path.join(ROOT, "vlib", "checks", pid.lower() + ".py")
    if not os.path.exists(path):
        missing.append({"property": pid, "reason": "its check is not built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ("LEVEL", "TECHNIQUE", "LEVEL_NOTE"):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": pid,
        "quick_cmd": f"/opt/venv/bin/python run_check.py {pid} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run_check.py {pid} --tier thorough",
        "evidence_file": f"evidence/{pid}.json",
        "technique": consts["TECHNIQUE"],
        "level": consts["LEVEL"],
        "level_note": consts["LEVEL_NOTE"],
    })
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python tools/selftest.py",
     "checks": checks, "not_applicable": missing,
     "notes": "Checks import acetn from /repo (or VERIF_REPO) directly; C20 compiles /repo/csrc in a temporary directory. No hooks in /repo are needed. Known and fixed defects: known-findings.txt."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(missing), "not claimed")
