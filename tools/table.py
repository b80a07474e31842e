"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json"""
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(HERE, "DESIGN.md")
head = open(path).read().split("<!-- SEEDED TABLE -->")[0]
rows = []
for meta in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(meta))
    rows.append(f"| {os.path.basename(os.path.dirname(meta))} | {m['what_it_breaks']} | {m['needs']} | {m['property']} |")
table = "<!-- SEEDED TABLE -->\n\n| planted bug | what it breaks | what it needs | caught by (quick, seed 1) |\n|---|---|---|---|\n"
open(path, "w").write(head + table + "\n".join(rows) + "\n")
