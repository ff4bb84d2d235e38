#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks present in /verif/checks."""
import ast, json, re
from pathlib import Path
V = Path(__file__).resolve().parent.parent
props = [json.loads(l) for l in (V / "properties.jsonl").read_text().splitlines()]
NOTE = {}
checks, na = [], []
for p in props:
    f = V / "checks" / (p["id"].lower() + ".py")
    if not f.exists():
        na.append({"property": p["id"], "reason": "No check built yet; generated-input search applies and is planned."})
        continue
    src = f.read_text()
    doc = " ".join((ast.get_docstring(ast.parse(src)) or "").split())
    consts = {n.targets[0].id: n.value.value for n in ast.parse(src).body
              if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Constant)}
    tech, note = consts.get("TECHNIQUE"), consts.get("LEVEL_NOTE", doc)
    checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{f.name}",
                   "thorough_cmd": f"VERIF_TIER=thorough python3 checks/{f.name}",
                   "technique": tech or "property-based testing against a reference model",
                   "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
(V / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
print(len(checks), "checks;", len(na), "not claimed")
