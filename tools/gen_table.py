#!/usr/bin/env python3
"""Rewrites the table of section 5 of DESIGN.md from the planted bugs' descriptions."""

import json
import os
import re

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(VERIF, "DESIGN.md")
with open(path) as f:
    text = f.read()
head, _, tail = text.partition("<!-- table -->\n")
tail = tail.partition("<!-- end of table -->\n")[2]
rows = ["| planted bug | caught by | needs |\n", "|---|---|---|\n"]
top = os.path.join(VERIF, "seeded")
for name in sorted(os.listdir(top)):
    with open(os.path.join(top, name, "meta.json")) as f:
        meta = json.load(f)
    rows.append("| %s | %s | %s |\n" % (name, meta["property"], meta["needs"].replace("|", "/")))
# The numbers of cases in section 2, from the last quick runs
for name in os.listdir(os.path.join(VERIF, "evidence")):
    with open(os.path.join(VERIF, "evidence", name)) as f:
        ev = json.load(f)
    if ev.get("tier", "quick") == "quick":
        count = str(ev["coverage"]["evaluations"])
        head = re.sub(r"^(\*\*%s\*\* \()[0-9]+" % ev["property"], lambda m: m.group(1) + count, head, flags=re.M)
with open(path, "w") as f:
    f.write(head + "<!-- table -->\n" + "".join(rows) + "<!-- end of table -->\n" + tail)
