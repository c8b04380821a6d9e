#!/usr/bin/env python3
"""Fills the per-property table of DESIGN.md between the markers, from properties.jsonl and the monitors' RULE texts."""
import importlib, json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
rows = []
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    m = importlib.import_module("tfmon.props." + p["id"].lower())
    req = ", ".join("%s >= %d" % kv for kv in list(m.REQUIRED.items())[:14]) + (", ..." if len(m.REQUIRED) > 14 else "")
    rows.append("### %s %s\n\n*Watches and oracle.* %s\n\n*What tests miss.* %s\n\n*Must have been observed for a verdict.* %s\n" % (p["id"], p["title"], m.RULE.replace("\n", " "), p["why_tests_cant"], req))
path = os.path.join(HERE, "DESIGN.md")
s = open(path).read()
a, b = "<!-- properties -->", "<!-- /properties -->"
i, j = s.index(a) + len(a), s.index(b)
open(path, "w").write(s[:i] + "\n" + "\n".join(rows) + s[j:])
