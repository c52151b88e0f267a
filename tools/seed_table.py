"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (a development aid, no check uses it)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| bug | file | needs | caught by |", "|---|---|---|---|"]
for s in sorted(os.listdir(V + "/seeded")):
    m = json.load(open(f"{V}/seeded/{s}/meta.json"))
    with open(f"{V}/seeded/{s}/patch.diff", newline="") as f:
        files = re.findall(r"^\+\+\+ b/(\S+)", f.read(), re.M)
    rows.append("| %s | %s | %s | %s |" % (s, ", ".join(map(os.path.basename, files)), m["needs"].replace("|", "/"), m.get("caught_by", m["property"])))
rows.append("<!-- /seeds -->")
d = open(V + "/DESIGN.md").read().replace("@@SEEDED@@", "<!-- seeds -->\n<!-- /seeds -->")
a, b = d.index("<!-- seeds -->"), d.index("<!-- /seeds -->") + len("<!-- /seeds -->")
open(V + "/DESIGN.md", "w").write(d[:a] + "\n".join(rows) + d[b:])
