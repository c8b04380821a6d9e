#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = "runtime monitor: every result of the real code compared online with an independent reference model"
LAW = "runtime monitor: metamorphic laws checked online over pairs of executions of the real code"
TECH = {
    "S01": "runtime monitor: argument and result fingerprints checked before/after every call, read-only inputs",
    "S02": "runtime monitor: recorded call histories replayed in other orders and in another process, RNG-state and error-state watch",
    "S03": "runtime monitor: differential executions over memory layouts and dtypes",
    "S04": "runtime monitor: calls of several threads under a seeded line-level scheduler compared with the same calls alone",
    "G05": "runtime monitor: acceptance/refusal oracle on both sides of every documented boundary",
    "G06": "runtime monitor: exact structure oracle plus statistical oracles over pooled draws",
    "G08": "runtime monitor: exact invariants per draw plus statistical oracles over pooled draws (>= 7 sigma)",
    "T08": LAW,
    "T09": "runtime monitor: conservation checker over the reported moves, plain matrix against a reference model",
    "P10": "runtime monitor: matplotlib artists read back and compared with values derived from run()",
}
NOTE = ("Exploration: holds on every execution observed in the run (counts and situations in the evidence file), generated from VERIF_SEED; nothing is claimed beyond them. "
        "Trusts NumPy/SciPy primitives, the reference formulas in tfmon/, and the stated floating-point tolerances. "
        "A run that observed too little of any listed situation is reported as inconclusive (exit 2), not as held.")
checks = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    cmd = "/opt/venv/bin/python -B -m tfmon.run %s --tier %%s" % i
    checks.append(dict(property=i, quick_cmd=cmd % "quick", thorough_cmd=cmd % "thorough", technique=TECH.get(i, REF), level="exploration", level_note=NOTE))
m = dict(version=1, setup_cmd="/opt/venv/bin/python -B tools/setup_check.py", checks=checks, not_applicable=[],
         notes="Pure-Python target: nothing to compile, the checks import tftb from /repo's working tree (and refuse any other copy). No hooks are needed in /repo. Compiler sanitizers and native race detectors have nothing to watch here (no native code); calls from several threads are watched by S04: see DESIGN.md.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
    json.dump(m, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks")
