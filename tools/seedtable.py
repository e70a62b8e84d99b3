"""Write the table of planted bugs into DESIGN.md (between the headings of section 5)."""
import json
import os
import re

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|---|---|---|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    rows.append("| %s | %s | %s |" % (d, m["property"], m["needs"]))
p = os.path.join(V, "DESIGN.md")
t = open(p).read()
if "SEEDTABLE" in t:
    t = t.replace("SEEDTABLE", "\n".join(rows))
else:
    t = re.sub(r"\| planted bug \|.*?\n\n", lambda m: "\n".join(rows) + "\n\n", t, flags=re.S)
open(p, "w").write(t)
