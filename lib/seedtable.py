"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = root + "/DESIGN.md"
head = open(p).read().split("<!-- table: lib/seedtable.py -->")[0]
t = "<!-- table: lib/seedtable.py -->\n| property, caught by | bug | manifests with |\n|---|---|---|\n"
for d in sorted(os.listdir(root + "/seeded")):
    m = json.load(open(f"{root}/seeded/{d}/meta.json"))
    t += f"| {m['property']} | {d} | {m['needs']} |\n"
open(p, "w").write(head + t)
