#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "TLA+ specification checked with TLC; recorded library sessions validated as behaviours of it (trace validation) and TLC-enumerated behaviours replayed into the library"
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PENDING:
        na.append(dict(property=i, reason=PENDING[i])); continue
    checks.append(dict(property=i, quick_cmd="python3 tools/run.py check %s" % i, thorough_cmd="python3 tools/run.py check %s --thorough" % i,
                       evidence_file="evidence/%s.json" % i, technique=TECHS.get(i, TECH), level="model_checking", level_note=NOTE[i]))
m = dict(version=1, setup_cmd="python3 tools/run.py setup", checks=checks, not_applicable=na,
         notes="Specification modules in spec/; harness crate in harness/; driver tools/run.py. Design: DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
