#!/usr/bin/env python3
"""Writes MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append(dict(property=i, quick_cmd="python3 tools/check.py %s quick" % i,
                           thorough_cmd="python3 tools/check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="TLA+ specification (TLC): %s; traces of the real code validated against it" % P["technique"],
                           level="model_checking", level_note=P["note"]))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "check under construction")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="python3 tools/build.py", hooks=dict(guard="none", enable="no hooks: only the public interface is observed", source_commits=[]),
               checks=checks, not_applicable=na,
               notes="Specification in spec/*.tla (TLA+, checked with TLC); harnesses in harness/; driver tools/check.py. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
