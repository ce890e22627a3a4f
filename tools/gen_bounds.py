#!/usr/bin/env python3
"""Writes BOUNDS.md (every harness with its bound) from checks.py."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import json
from checks import CHECKS
titles = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(V + "/properties.jsonl")}
with open(V + "/BOUNDS.md", "w") as o:
    o.write("# Bounds of every harness (generated by tools/gen_bounds.py)\n\nBudget: seconds per harness, quick / thorough. An exhausted tree ends earlier.\n")
    for p in sorted(CHECKS):
        o.write("\n## %s %s\n" % (p, titles.get(p, "")))
        for u in CHECKS[p]["units"]:
            o.write("\n`%s`%s%s\n\n" % (u["src"], " with " + ", ".join(u["defs"]) if u["defs"] else "",
                    ", scheduling points: " + ("all shared accesses" if u["yields"] is True else u["yields"]) if u["yields"] else ""))
            last = None
            for h in u["h"]:
                b = "%.3g / %.3g s" % (h["budget"], h["thorough"])
                o.write("* %s — %s (%s)%s\n" % (h["name"], h["bounds"], b, " thorough only" if h["tier"] == "thorough" else ""))
