"""rewrites the table of planted bugs in DESIGN.md"""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| property | bug | what it breaks |", "|---|---|---|"]
L = []
for p in glob.glob(V + "/seeded/*/meta.json"):
    m = json.load(open(p))
    L.append((m["property"], os.path.basename(os.path.dirname(p)), m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
rows += ["| %s | `%s` | %s |" % x for x in sorted(L)]
s = open(V + "/DESIGN.md").read()
a, b = "<!-- planted -->\n", "<!-- /planted -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(V + "/DESIGN.md", "w").write(s)
print(len(L))
