#!/usr/bin/env python3
# Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json.
import json, glob, os, re
h = os.path.dirname(os.path.abspath(__file__)); rows = []
for m in sorted(glob.glob(h + "/seeded/*/meta.json")):
    d = json.load(open(m)); rows.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(m)), d["needs"], d["property"] + (" (after strengthening: %s)" % d["missed_first"] if "missed_first" in d else "")))
t = open(h + "/DESIGN.md").read()
tab = "<!-- seeds -->\n| planted bug | needs | caught by |\n|---|---|---|\n" + "\n".join(rows) + "\n<!-- /seeds -->"
t = re.sub(r"SEEDTABLE|<!-- seeds -->.*?<!-- /seeds -->", lambda _: tab, t, flags=re.S)
open(h + "/DESIGN.md", "w").write(t); print(len(rows), "planted bugs")
