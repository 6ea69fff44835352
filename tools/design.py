#!/usr/bin/env python3
"""Regenerate the per-property section of DESIGN.md from meta.py."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta, checks
MARK = "<!-- generated: properties -->\n"
END = "<!-- end generated -->\n"
t = MARK + "## Properties\n\n"
for p in sorted(meta.PROPS):
    d, c = meta.PROPS[p]["property"], meta.PROPS[p]["check"]
    sans = "/".join(sorted({checks.UNITS[u].get("san", "asan") for u in c["units"]}))
    t += "### %s %s\n\nDecided by: harness %s (%s). %s\n\nWhy tests cannot: %s\n" % (
        p, d["title"], ", ".join(c["units"]), sans, c["rule"], d["why_tests_cant"])
    for a in c["assumptions"]:
        t += "\nAssumption: %s\n" % a
    t += "\n"
na = getattr(meta, "NOT_APPLICABLE", {})
if na:
    t += "### Not applicable here\n\n"
    for p in sorted(na):
        t += "* %s %s: %s\n" % (p, na[p]["property"]["title"], na[p]["reason"])
    t += "\n"
t += END
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
if MARK in s:
    s = s[:s.index(MARK)] + t + s[s.index(END) + len(END):]
else:
    s += t
open(f, "w").write(s)
