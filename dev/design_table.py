"""design_table.py LOG: the table of planted changes for DESIGN.md from plant.py's output and seeded/*/meta.json"""
import glob
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for log in sys.argv[1:]:
    for line in open(log):
        m = re.match(r"(c\d\d-[\w-]+)\s+(C\d\d) (\w[\w-]*) .*?(CAUGHT|MISSED)", line)
        if m:
            res[m.group(1)] = m.group(4)
print("| change | breaks | needs | %s |" % "own check")
print("|---|---|---|---|")
for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    name = os.path.basename(os.path.dirname(f))
    print("| %s | %s: %s | %s | %s |" % (name, d["property"], d["what_it_breaks"], d["needs"], res.get(name, "?").lower()))
