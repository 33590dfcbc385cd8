#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["<!-- seeds -->", "| planted bug | caught by | file | what it needs in order to manifest |", "|---|---|---|---|"]
for i in sorted(os.listdir(ROOT + "/seeded")):
    d = os.path.join(ROOT, "seeded", i)
    m = json.load(open(d + "/meta.json"))
    fs = sorted(set(re.findall(r"^\+\+\+ b/(\S+)", open(d + "/patch.diff").read(), re.M)))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], ", ".join(os.path.basename(f) for f in fs), m["needs"].replace("|", "/")))
rows.append("<!-- /seeds -->")
p = ROOT + "/DESIGN.md"
t = open(p).read()
new = "\n".join(rows)
t = re.sub(r"<!-- seeds -->.*<!-- /seeds -->|@SEEDS@", lambda _: new, t, count=1, flags=re.S)
open(p, "w").write(t)
