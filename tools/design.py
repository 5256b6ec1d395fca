#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(here, "DESIGN.md")
text = open(path).read()
mark = "<!-- planted bugs: written by tools/design.py -->\n"
head = text.split(mark)[0]
rows = []
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["what_it_breaks"].replace("|", "\\|")))
open(path, "w").write(head + mark + "\n| planted bug | caught by | what it breaks |\n|---|---|---|\n" + "\n".join(rows) + "\n")
