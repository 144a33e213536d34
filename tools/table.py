"""table.py: writes the table of planted bugs into DESIGN.md from seeded/*/meta.json."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| bug | property (= check that catches it) | what it breaks |", "|---|---|---|"]
for b in sorted(os.listdir(V + "/seeded")):
    m = json.load(open("%s/seeded/%s/meta.json" % (V, b)))
    rows.append("| %s | %s | %s |" % (b, m["property"], m["what_it_breaks"].replace("|", "\\|").replace("\n", " ")))
p = V + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- table -->.*?<!-- end -->", lambda _: "<!-- table -->\n" + "\n".join(rows) + "\n<!-- end -->", s, flags=re.S)
open(p, "w").write(s)
