#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design/body.md with the table of planted bugs filled in."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S, T = os.path.join(V, "seeded"), os.path.join(V, "tools", "design")
notes = json.load(open(os.path.join(T, "caught.json")))
rows = ["| %s | %s | %s |" % (i, json.load(open(os.path.join(S, i, "meta.json")))["needs"].replace("|", "\\|"), notes.get(i, "caught")) for i in sorted(os.listdir(S))]
open(os.path.join(V, "DESIGN.md"), "w").write(open(os.path.join(T, "body.md")).read().replace("@@SEEDED@@", "\n".join(rows)))
