#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json
import os
import re

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted bug | caught by | file | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(ROOT + "/seeded")):
    d = "%s/seeded/%s/" % (ROOT, s)
    meta = json.load(open(d + "meta.json"))
    files = sorted({os.path.basename(line[6:].strip())
                    for line in open(d + "patch.diff")
                    if line.startswith("+++ b/")})
    rows.append("| %s | %s | %s | %s |" % (
        s, meta["property"], ", ".join(files),
        meta["needs"].replace("|", "\\|").replace("\n", " ")))
p = ROOT + "/DESIGN.md"
text = open(p).read()
text = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)",
              lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2),
              text, flags=re.S)
open(p, "w").write(text)
