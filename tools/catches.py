"""Writes the table of planted bugs into DESIGN.md: python3 tools/catches.py < lines of tools/seed.py verify (optional)"""
import json, glob, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | needs |", "|----|----|----|"]
for d in sorted(glob.glob(ROOT + "/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(d)), m["property"], m["needs"]))
p = ROOT + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"CATCHES\n|(\| planted bug .*?\n)(?=\n)", lambda _: "\n".join(rows) + "\n", s, count=1, flags=re.S)
open(p, "w").write(s)
