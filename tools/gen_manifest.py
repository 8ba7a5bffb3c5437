"""Writes MANIFEST.json from the property modules that exist."""
import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    f = os.path.join(V, "mc", "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="check not built yet"))
        continue
    m = importlib.import_module(f"mc.props.{pid.lower()}")
    checks.append(
        dict(
            property=pid,
            quick_cmd=f"./check {pid} --tier quick",
            thorough_cmd=f"./check {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique="explicit bounded model checking of the real code: " + getattr(m, "TECHNIQUE", "exhaustive enumeration of configurations and operation sequences against an independent reference model"),
            level="model_checking",
            level_note="Exhaustive within: " + m.BOUNDS["quick"] + ". Assumes: " + "; ".join(m.ASSUMPTIONS),
        )
    )
json.dump(
    dict(
        version=1,
        setup_cmd="chmod +x check && mkdir -p evidence && PYTHONPATH=/repo/src JAX_PLATFORMS=cpu /opt/venv/bin/python -B -c 'import jax, numpy, scipy, fmmax'",
        checks=checks,
        not_applicable=na,
        notes="All checks run the working tree under /repo/src directly (pure Python, nothing to build). No hooks are needed.",
    ),
    open(os.path.join(V, "MANIFEST.json"), "w"),
    indent=1,
)
