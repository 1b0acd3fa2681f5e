#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design.tmpl.md, tools/props.py, known-findings.txt and the planted bugs."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from props import PROPS
lines = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
title = {l["id"]: l["title"] for l in lines}
m = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
out = []
for p, P in sorted(PROPS.items()):
    b = "; ".join("%s: quick %d runs, thorough up to %d runs or %d s" % (h["name"], h["quick"]["runs"], h["thorough"]["runs"], h["thorough"]["time"]) for h in P["harnesses"])
    out += ["### %s %s" % (p, title[p]), "", "* Runs: " + P["rule"], "* Oracle: " + P["tech"] + ".",
            "* Real code: " + ", ".join(P["real"]) + ". Simulated: " + ", ".join(P["stub"]) + ".",
            "* Bounds and cost: " + b + ".", "* States counted: " + P["state_measure"] + ".", "* " + P["note"], ""]
na = ["* %s %s: %s" % (n["property"], title[n["property"]], n["reason"]) for n in m["not_applicable"]]
fi = ["* %s (%s): %s" % tuple([l.split()[1].split("=")[1], l.split()[2], " ".join(l.split()[3:])]) for l in open(os.path.join(ROOT, "known-findings.txt")) if l.startswith("fixed:")]
pl = ["| id | property | caught by | what it breaks | needs |", "|---|---|---|---|---|"]
S = os.path.join(ROOT, "seeded")
caught = json.load(open(os.path.join(ROOT, "tools", "caught.json")))
for i in sorted(os.listdir(S)):
    d = json.load(open(os.path.join(S, i, "meta.json")))
    pl.append("| %s | %s | %s | %s | %s |" % (i, d["property"], caught.get(i, "missed"), d["what_it_breaks"], d["needs"]))
t = open(os.path.join(ROOT, "tools", "design.tmpl.md")).read()
for k, v in dict(PROPS=out[:-1], NA=na, FINDINGS=fi, PLANTS=pl).items():
    t = t.replace("@@%s@@" % k, "\n".join(v))
open(os.path.join(ROOT, "DESIGN.md"), "w").write(t)
