"""fills the table of seeded bugs in DESIGN.md from seeded/*/meta.json and tools/caught.json"""
import json, glob, os, re
c = json.load(open("/verif/tools/caught.json"))
rows = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    f = lambda s: s.replace("|", "\\|").replace("\n", " ")
    rows.append(f"| {i} | {m['property']} | {f(m['what_it_breaks'])} | {f(m['needs'])} | {c.get(i, '?')} |")
s = open("/verif/DESIGN.md").read()
s = re.sub(r"<!-- seeds -->.*<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open("/verif/DESIGN.md", "w").write(s)
