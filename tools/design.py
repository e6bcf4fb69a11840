#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md and the entries of props_data.py (rules from evidence/, planted bugs from seeded/)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
import props
D = os.path.join(ROOT, "tools", "design")


def rd(f):
    return open(os.path.join(D, f)).read().rstrip() + "\n\n"


out = rd("head.md") + "## Properties and how each is decided\n\n"
na = []
for d, tech, note, why in sorted(props.P, key=lambda x: x[0]["id"]):
    if why:
        na.append((d, why))
        continue
    out += "### %s %s\n\n" % (d["id"], d["title"])
    out += "*%s*\n\n" % d["statement"]
    ev = os.path.join(ROOT, "evidence", d["id"] + ".json")
    rules = []
    if os.path.exists(ev):
        rules = [json.load(open(ev))["coverage"]["explanation"]]
    out += "Method: %s. " % tech
    if rules:
        out += "Oracle: " + " ".join(rules) + " "
    out += "\n\nBounds and trust: %s\n\nWhy tests cannot settle it: %s\n\n" % (note, d["why_tests_cant"])
    x = os.path.join(D, d["id"] + ".md")
    if os.path.exists(x):
        out += open(x).read().rstrip() + "\n\n"
if na:
    out += "## Not applicable\n\n"
    for d, why in na:
        out += "- **%s %s.** %s\n" % (d["id"], d["title"], why)
    out += "\n"
out += "## Planted bugs\n\n| bug | breaks | needs | what it breaks | caught by |\n|---|---|---|---|---|\n"
caught = {}
f = os.path.join(D, "caught.txt")
if os.path.exists(f):
    for l in open(f):
        if l.strip():
            a, b = l.strip().split(None, 1)
            caught[a] = b
S = os.path.join(ROOT, "seeded")
for s in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, s, "meta.json")))
    out += "| %s | %s | %s | %s | %s |\n" % (s, m["property"], m["needs"], m["what_it_breaks"], caught.get(s, "?"))
out += "\n" + rd("tail.md")
open(os.path.join(ROOT, "DESIGN.md"), "w").write(out.rstrip() + "\n")
