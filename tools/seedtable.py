"""Prints the table of planted bugs for DESIGN.md (section 6)."""
import json, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
print("| planted bug | caught by | what it needs |\n|---|---|---|")
for i in sorted(os.listdir(D)):
    m = json.load(open(os.path.join(D, i, "meta.json")))
    print("| %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
