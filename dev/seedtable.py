import json, glob, os
rows = ["| bug | property | needs | caught by (quick) |", "|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s: %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"], m["what_it_breaks"], m.get("caught", m["property"])))
p = "/verif/DESIGN.md"
s = open(p).read()
i = s.index("SEEDTABLE") if "SEEDTABLE" in s else s.index("| bug | property")
open(p, "w").write(s[:i] + "\n".join(rows) + "\n")
