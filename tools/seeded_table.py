#!/usr/bin/env python3
"""Regenerates the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for b in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{b}/meta.json"))
    rows.append(f"| `{b}` | {m['property']} | {m['needs']} |")
s = open(R + "/DESIGN.md").read()
t = "<!-- seeded table begin -->\n| bug | property (caught by its check) | what it needs |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- seeded table end -->"
s = re.sub(r"<!-- seeded table begin -->.*?<!-- seeded table end -->", lambda _: t, s, flags=re.S)
open(R + "/DESIGN.md", "w").write(s)
