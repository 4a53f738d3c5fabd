"""Writes MANIFEST.json from the harness modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("path-exhaustive symbolic execution of the real Python code with z3"
        " deciding branches and assertions; replay on the real libraries")
NA = {}
NOTES = {}
exec(open(os.path.join(HERE, "tools", "notes.py"), encoding="utf-8").read())  # pylint: disable=exec-used

checks, na = [], []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
  p = json.loads(line)
  i = p["id"]
  if os.path.exists(os.path.join(HERE, "harness", i.lower() + ".py")):
    checks.append({
        "property": i,
        "quick_cmd": f"python3 run_check.py {i} --tier quick",
        "thorough_cmd": f"python3 run_check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH,
        "level": "model_checking",
        "level_note": NOTES.get(i, "All inputs, layouts and schedules within"
                                " the bounds stated in the evidence file"
                                " (coverage.bounds) and DESIGN.md."),
    })
  else:
    na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": checks, "not_applicable": na}
with open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8") as f:
  json.dump(m, f, indent=1)
  f.write("\n")
