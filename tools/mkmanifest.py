#!/usr/bin/env python3-vt
"""Regenerates MANIFEST.json from the registry and properties.jsonl."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import registry                                     # noqa: E402

NA = registry.NOT_APPLICABLE
TECH = ("symbolic execution of the real source (z3), bounded, with every "
        "counterexample replayed on the unmodified code")
checks = []
na = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)["id"]
    c = registry.CHECKS.get(p)
    if c is None:
        na.append({"property": p, "reason": NA.get(
            p, "no check built yet; nothing is claimed")})
        continue
    note = "Every path and every value within the bounds is decided by the " \
        "solver; nothing is claimed outside them. Bounds: %s. Outside: %s." \
        % (c.bounds, c.outside or "anything longer or larger")
    if c.assumes:
        note += " Trusted: %s; the engine's model of Python (each completed " \
            "path is also executed on the unmodified code and must agree)." \
            % c.assumes
    checks.append({
        "property": p,
        "quick_cmd": "python3-vt check.py %s --tier quick" % p,
        "thorough_cmd": "python3-vt check.py %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": TECH, "level": "model_checking", "level_note": note})
m = {"version": 1, "setup_cmd": "python3-vt tools/setup_check.py",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the engine loads /repo's current source "
     "itself and transforms it in memory on every run."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
