"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [HERE, os.path.join(HERE, "tools")]
import properties  # noqa: E402

checks, na = [], []
for p in properties.P:
    id = p["id"]
    if id in properties.NA:
        na.append(dict(property=id, reason=properties.NA[id]))
    elif os.path.exists(os.path.join(HERE, f"dst/props/{id.lower()}.py")):
        mod = importlib.import_module(f"dst.props.{id.lower()}")
        checks.append(dict(
            property=id,
            quick_cmd=f"python3 dst/run.py {id} --tier quick",
            thorough_cmd=f"python3 dst/run.py {id} --tier thorough",
            evidence_file=f"evidence/{id}.json",
            technique="deterministic simulation with fault injection: "
            + mod.TECHNIQUE,
            level=mod.LEVEL, level_note=mod.NOTE))
    else:
        na.append(dict(property=id, reason="check not built yet"))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(
        version=1,
        setup_cmd="python3 dst/run.py --setup",
        checks=checks, not_applicable=na,
        notes="No hooks in /repo: every seam is outside (sys.monitoring on "
        "pygsp code, NumPy's generator constructors, builtins.open, the "
        "import system, threading locks). See DESIGN.md."), f, indent=1)
    f.write("\n")
