#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (run by hand, not by any check)."""
import glob, json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
p = os.path.join(V, "DESIGN.md"); s = open(p).read().split("\n## 6. ")[0].rstrip() + "\n\n## 6. Planted bugs\n\n"
s += "Each was confirmed in a scratch copy (builds, 68 tests pass, the demonstration fails with it and passes without), and is caught by the quick check of its property.\n\n| planted bug | check that catches it | needs |\n|---|---|---|\n"
for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
    d = json.load(open(f)); s += "| %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), d["property"], d["needs"].replace("|", "/").replace("\n", " "))
open(p, "w").write(s)
