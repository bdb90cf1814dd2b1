#!/usr/bin/env python3
"""write_design.py - DESIGN.md from tools/design_head.md, tools/fixes.txt and seeded/*/meta.json (development tool)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = open(os.path.join(V, "tools/design_head.md")).read()
out += "| commit | property | what was wrong |\n|---|---|---|\n"
for l in open(os.path.join(V, "tools/fixes.txt")):
    c, p, w = l.strip().split(None, 2)
    out += "| %s | %s | %s |\n" % (c, p.replace(",", ", "), w)
out += open(os.path.join(V, "tools/design_tail.md")).read()
out += "| bug | caught by the quick check of | needs | breaks |\n|---|---|---|---|\n"
missed = dict(l.strip().split(None, 1) for l in open(os.path.join(V, "tools/missed.txt")) if l.strip()) if os.path.exists(os.path.join(V, "tools/missed.txt")) else {}
for b in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", b, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (b, m["property"] if b not in missed else "not caught (%s): %s" % (m["property"], missed[b]),
                                         str(m["needs"]).replace("|", "/"), str(m["what_it_breaks"]).replace("|", "/"))
open(os.path.join(V, "DESIGN.md"), "w").write(out)
