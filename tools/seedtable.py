"""Rewrite the table of planted bugs in DESIGN.md from seeded/*/meta.json (results in tools/seedresults.json)."""
import json, glob, os, re
R = json.load(open("tools/seedresults.json"))
rows = ["| planted bug | property | what it breaks | needs | quick check |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], R.get(i, "not run")))
s = open("DESIGN.md").read()
b, e = "<!-- seeds -->", "<!-- /seeds -->"
t = b + "\n" + "\n".join(rows) + "\n" + e
if b in s: s = s[:s.index(b)] + t + s[s.index(e) + len(e):]
else: s = s.replace("SEEDTABLE", t)
open("DESIGN.md", "w").write(s)
