#!/usr/bin/env python3
"""appends the table of planted bugs to DESIGN.md (run by hand after planting; caught-by is recorded in seeded/caught.txt)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S = V+"/seeded"
by = {}
for l in open(S+"/caught.txt"):
    if l.strip(): a, b = l.split(None, 1); by[a] = b.strip()
t = open(V+"/DESIGN.md").read().split("\n## Planted bugs\n")[0].rstrip()+"\n\n## Planted bugs\n\nEach in `seeded/<id>`; all pass the stable tests. *Caught by* is what `tools/seedcheck.sh` saw.\n\n| id | property | breaks | needs | caught by |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(S)):
    if os.path.isdir(S+"/"+d):
        m = json.load(open(S+"/"+d+"/meta.json")); t += "| %s | %s | %s | %s | %s |\n" % (d, m["property"], m["what_it_breaks"], m["needs"], by.get(d, "-"))
open(V+"/DESIGN.md", "w").write(t)
