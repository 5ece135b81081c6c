#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and lib/props.py's registry."""
import json, os, subprocess, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
import props
checks, na = [], []
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if i in props.RUN:
        t, n = props.NOTE[i]
        checks.append(dict(property=i, quick_cmd="bin/check %s --quick" % i, thorough_cmd="bin/check %s --thorough" % i,
                           technique=t, level="model_checking", level_note=n))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="bin/setup", checks=checks,
               hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources unchanged and observe the public API", source_commits=[]),
               not_applicable=na,
               notes="TLA+/TLC specification in spec/; conformance by trace validation and replay of TLC-generated behaviours. See DESIGN.md."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
