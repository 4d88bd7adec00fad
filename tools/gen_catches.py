"""Writes the table of planted bugs in DESIGN.md (between the markers) from seeded/*/meta.json and tools/catches.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
notes = json.load(open(root + "/tools/catches.json"))
rows = ["| id | needs | caught by | first |", "|----|-------|-----------|-------|"]
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m, i = json.load(open(f)), f.split("/")[-2]
    rows.append("| %s | %s | %s | %s |" % (i, m["needs"].replace("|", "\\|"), notes.get(i, {}).get("by", m["property"]),
                                          notes.get(i, {}).get("first", "yes")))
p = root + "/DESIGN.md"
s = open(p).read()
a, b = "<!-- catches -->\n", "<!-- /catches -->"
s = s[:s.index(a) + len(a)] + "\n".join(rows) + "\n" + s[s.index(b):]
open(p, "w").write(s)
