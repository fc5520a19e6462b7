#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py (run after changing either)."""
import json, os
from registry import PROPS, TECHNIQUE, LEVEL_NOTE

HERE = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
assert set(ids) == set(PROPS), set(ids) ^ set(PROPS)
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd="python3 check.py run %s --tier quick" % i,
                           thorough_cmd="python3 check.py run %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECHNIQUE[i], level="exploration",
                           level_note=LEVEL_NOTE[i]))
m = dict(version=1, setup_cmd="python3 check.py setup",
         checks=checks,
         not_applicable=[],
         notes="No hooks in /repo are needed: everything is observed through the public API with instrumented "
               "builders, artifacts, states, doctors and writers. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
