"""writes MANIFEST.json: a check is claimed for every property that has a contract module"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {}
exec(open(os.path.join(HERE, "tools", "level_notes.py")).read())
checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid in NOTES and os.path.exists(os.path.join(HERE, "contracts", pid.lower() + ".py")):
        level, tech, note = NOTES[pid]
        checks.append({"property": pid, "quick_cmd": f"/opt/venv/bin/python /verif/check.py {pid}",
                       "thorough_cmd": f"/opt/venv/bin/python /verif/check.py {pid} --tier thorough",
                       "technique": tech, "level": level, "level_note": note})
    else:
        na.append({"property": pid, "reason": NA.get(pid, "contracts for this property are not written yet")})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0,'/verif'); import pyvc, z3; print(z3.get_version_string())\"",
           "checks": checks, "not_applicable": na,
           "notes": "contract harnesses in contracts/, verifier in pyvc/, driver check.py; see DESIGN.md"},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
