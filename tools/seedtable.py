#!/usr/bin/env python3
"""print the DESIGN.md table of the planted bugs"""
import glob, json, os
print("| planted bug | breaks | needs | caught by |\n|---|---|---|---|")
for d in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../seeded/*/"))):
    m = json.load(open(d + "meta.json"))
    print("| %s | %s | %s | %s |" % (os.path.basename(d[:-1]), m["property"], m["needs"].replace("|", "/"), m["property"]))
