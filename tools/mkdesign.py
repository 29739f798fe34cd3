#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/design.txt, known-findings.txt and seeded/."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
tpl = open("tools/design.tpl").read()
props = [json.loads(l) for l in open("properties.jsonl")]
txt, cur = {}, None
for l in open("tools/design.txt"):
    if l.startswith("== "):
        cur = l.split()[1]; txt[cur] = ""
    elif cur:
        txt[cur] += l
out = ""
for p in props:
    out += "\n### %s %s\n\n%s\n" % (p["id"], p["title"], txt.get(p["id"], "(not built yet)\n").strip())
fixes = "".join("* %s\n" % l.strip()[len("fixed: "):] for l in open("known-findings.txt") if l.startswith("fixed:"))
seeds = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
caught = json.load(open("tools/caught.json")) if os.path.exists("tools/caught.json") else {}
for s in sorted(os.listdir("seeded")):
    m = json.load(open("seeded/%s/meta.json" % s))
    seeds += "| %s | %s | %s | %s |\n" % (s, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(s, ["?"])))
open("DESIGN.md", "w").write(tpl.replace("@@PROPS@@", out.strip()).replace("@@FIXES@@", fixes.strip()).replace("@@SEEDS@@", seeds.strip()))
