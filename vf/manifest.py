#!/usr/bin/env python3
"""Rewrites MANIFEST.json from the tables."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from instances import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in ids:
    if p not in PROPS:
        continue
    checks.append({
        "property": p,
        "quick_cmd": "python3 vf/check.py " + p,
        "thorough_cmd": "VERIF_TIER=thorough python3 vf/check.py " + p,
        "technique": "symbolic execution of the LLVM IR compiled from /repo's source, deciding every branch, assertion and memory access with Z3; counterexamples replayed natively",
        "level": "model_checking",
        "level_note": "Within the bounds, for every value of the symbolic inputs: " + PROPS[p]["bounds"] + ". Assumes: " + "; ".join(PROPS[p]["assumptions"]) + ".",
    })
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in log if "verification hook" in l]
m = {
    "version": 1,
    "setup_cmd": "python3 vf/check.py setup",
    "hooks": {
        "guard": "cfg(grenad_verif), cfg(grenad_verif_varint), cfg(grenad_verif_writer)",
        "enable": "RUSTFLAGS='--cfg grenad_verif --cfg grenad_verif_varint --cfg grenad_verif_writer' (only the -hook variants built by vf/build.py)",
        "source_commits": hooks,
    },
    "checks": checks,
    "not_applicable": [{"property": p, "reason": "check not built yet"} for p in ids if p not in PROPS],
    "notes": "See DESIGN.md. vf/check.py replay FILE replays a recorded counterexample.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
