"""Regenerates MANIFEST.json from the check modules present."""
import ast
import json
import subprocess
from pathlib import Path

V = Path(__file__).resolve().parent
props = [json.loads(x) for x in (V / "properties.jsonl").read_text().splitlines() if x.strip()]
TECH = json.loads((V / "techniques.json").read_text())
checks, na = [], []
for p in props:
    i = p["id"]
    if (V / "checks" / f"{i.lower()}.py").exists() and i in TECH:
        tree = ast.parse((V / "checks" / f"{i.lower()}.py").read_text())
        level = next(ast.literal_eval(n.value) for n in tree.body if isinstance(n, ast.Assign)
                     and n.targets[0].id == "LEVEL")
        checks.append({"property": i, "quick_cmd": f"./check {i} --tier quick",
                       "thorough_cmd": f"./check {i} --tier thorough",
                       "technique": TECH[i]["technique"], "level": level, "level_note": TECH[i]["note"]})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "No check built yet.")})
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -s -m vlib.build plain", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
try:
    subprocess.run(["python3-vt", "-c", "import json,jsonschema,sys;jsonschema.validate(json.load(open('MANIFEST.json')),"
                    "json.load(open('/root/.vp/MANIFEST.schema.json')));print('manifest valid')"], cwd=V, check=True)
except FileNotFoundError:
    pass
print(len(checks), "checks", len(na), "unclaimed")
