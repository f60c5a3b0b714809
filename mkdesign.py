#!/usr/bin/env python3
"""Fills the table of planted bugs in DESIGN.md from seeded/*/meta.json and caught.txt (written by hand after running the checks)."""
import glob, json, os, re
H = os.path.dirname(os.path.abspath(__file__))
caught = {}
for l in open(os.path.join(H, "caught.txt")):
    if l.strip():
        k, v = l.split(None, 1); caught[k] = v.strip()
rows = ["| change | property | needs | outcome of the check |", "|---|---|---|---|"]
for m in sorted(glob.glob(os.path.join(H, "seeded", "*", "meta.json"))):
    k = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    rows.append("| %s | %s | %s | %s |" % (k, d["property"], d["needs"].replace("|", "/"), caught.get(k, "not yet run")))
p = os.path.join(H, "DESIGN.md"); s = open(p).read()
s = re.sub(r"<!-- bugs -->.*<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s, flags=re.S)
open(p, "w").write(s)
