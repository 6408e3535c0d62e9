"""prints the table of planted changes for DESIGN.md (section 4)"""
import json
import os

here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
by = {}
for n in sorted(os.listdir(here)):
    m = json.load(open(os.path.join(here, n, "meta.json")))
    by.setdefault(m["property"], []).append((n, m["what_it_breaks"]))
print("| check | planted changes it reports |\n|---|---|")
for p in sorted(by):
    print("| %s | %s |" % (p, "; ".join("%s (%s)" % x for x in by[p])))
