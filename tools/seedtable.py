"""rewrite the table of planted bugs in DESIGN.md"""
import json, glob, os
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
extra = json.load(open("tools/also.json")) if os.path.exists("tools/also.json") else {}
for d in sorted(glob.glob("seeded/*/")):
    i = d.split("/")[1]
    m = json.load(open(d + "meta.json"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], ", ".join([m["property"]] + extra.get(i, []))))
s = open("DESIGN.md").read()
a, b = s.index("<!-- table -->"), s.index("<!-- end -->")
open("DESIGN.md", "w").write(s[:a] + "<!-- table -->\n" + "\n".join(rows) + "\n" + s[b:])
