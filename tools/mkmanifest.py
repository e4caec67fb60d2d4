"""Writes MANIFEST.json from the check modules and properties.jsonl (run with /opt/venv/bin/python)."""
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, "/repo")
from mc.run import registry  # noqa

reg = registry()
props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in reg:
        m = importlib.import_module(reg[i])
        checks.append({
            "property": i,
            "quick_cmd": f"./run.sh {i} --tier quick",
            "thorough_cmd": f"./run.sh {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": m.TECHNIQUE,
            "level": m.LEVEL,
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
man = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks are bounded exhaustive explorations driven by mc/engine.py; a failing case "
             "is written to evidence/replay/ and replayed with run.sh <id> --replay <file>. No "
             "hooks in /repo are needed.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks;", len(na), "not claimed")
