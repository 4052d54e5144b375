"""Rewrites the table of planted bugs in DESIGN.md."""
import glob, json, os, re
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "..")
rows = ["| id | needs | breaks |", "|---|---|---|"]
for m in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    d = json.load(open(m))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["needs"], d["what_it_breaks"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- SEEDS -->.*<!-- /SEEDS -->", lambda m: "<!-- SEEDS -->\n" + "\n".join(rows) + "\n<!-- /SEEDS -->", s, flags=re.S)
open(p, "w").write(s)
