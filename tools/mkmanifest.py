#!/usr/bin/env python3-vt
"""writes MANIFEST.json from the check modules and the list of properties"""
import importlib, json, os, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from irv.notclaimed import REASONS
import jsonschema
props = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    if os.path.exists(f"{V}/irv/checks/{p.lower()}.py"):
        m = importlib.import_module(f"irv.checks.{p.lower()}")
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p} --tier quick",
                           thorough_cmd=f"python3-vt check.py {p} --tier thorough", technique=m.TECHNIQUE, level=m.LEVEL,
                           level_note=m.NOTE))
    else:
        na.append(dict(property=p, reason=REASONS.get(p, "no check built yet")))
M = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="Checks compile /repo's working tree to LLVM bitcode in a scratch directory and leave /repo untouched; no hooks.")
jsonschema.validate(M, json.load(open("/root/.vp/MANIFEST.schema.json")))
json.dump(M, open(f"{V}/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
