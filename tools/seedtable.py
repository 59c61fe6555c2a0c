"""Writes the table of planted bugs into DESIGN.md (between the two markers)."""
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
missed = set(sys.argv[1:])
rows = ["| change | needs | caught by |", "|---|---|---|"]
for s in sorted(os.listdir(R + "/seeded")):
    m = json.load(open(f"{R}/seeded/{s}/meta.json"))
    rows.append("| %s | %s | %s |" % (s, m["needs"].replace("|", "/"), "missed" if s in missed else m["property"]))
d = open(R + "/DESIGN.md").read()
a, b = "<!-- seeds -->\n", "<!-- end of seeds -->\n"
if "SEEDTABLE\n" in d:
    d = d.replace("SEEDTABLE\n", a + b)
i, j = d.index(a) + len(a), d.index(b)
open(R + "/DESIGN.md", "w").write(d[:i] + "\n".join(rows) + "\n" + d[j:])
