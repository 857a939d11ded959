"""Rewrite the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(R + "/DESIGN.md").read()
h = "| check | change | what it breaks |\n|---|---|---|\n"
i = s.index(h) + len(h)
rows = []
for d in sorted(glob.glob(R + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    rows.append((m["property"], d.split("/")[-2], str(m["what_it_breaks"]).replace("\n", " ").replace("|", "/")[:150]))
open(R + "/DESIGN.md", "w").write(s[:i] + "".join("| %s | %s | %s |\n" % r for r in sorted(rows)))
