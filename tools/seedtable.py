#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = "<!-- seeded -->"
rows = []
for name in sorted(os.listdir(os.path.join(HERE, "seeded"))):
    m = json.load(open(os.path.join(HERE, "seeded", name, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "/"), m["what_it_breaks"].replace("|", "/")))
text = open(os.path.join(HERE, "DESIGN.md")).read().split(MARK)[0].rstrip() + "\n\n" + MARK + "\n\n| planted bug | caught by | needs | breaks |\n|---|---|---|---|\n" + "\n".join(rows) + "\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(text)
