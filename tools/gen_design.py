#!/usr/bin/env python3
"""DESIGN.md = tools/design_body.md with the table of planted bugs filled in from seeded/*/meta.json and tools/caught.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
caught = json.load(open(f"{root}/tools/caught.json"))
rows = []
for d in sorted(glob.glob(f"{root}/seeded/*/meta.json")):
    m = json.load(open(d)); n = os.path.basename(os.path.dirname(d))
    rows.append(f"| {n} | {m['property']}: {m['what_it_breaks']} | {m['needs']} | {caught.get(n, 'not yet run')} |")
t = open(f"{root}/tools/design_body.md").read().replace("@@BUGS@@", "\n".join(rows))
open(f"{root}/DESIGN.md", "w").write(t)
