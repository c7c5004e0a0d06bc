"""Rewrites the table of seeded changes in DESIGN.md from seeded/*/meta.json."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| change | property (its check catches it) | what it needs in order to show |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(here, "seeded"))):
    m = json.load(open(os.path.join(here, "seeded", d, "meta.json")))
    rows.append(f"| {d} | {m['property']} | {m['needs']} |")
p = os.path.join(here, "DESIGN.md")
s = open(p).read()
a, b = "<!-- seeded -->\n", "<!-- /seeded -->"
if a in s:
    s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
    open(p, "w").write(s)
