#!/usr/bin/env python3
"""Regenerates MANIFEST.json from bin/specs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NOT = getattr(specs, "NOT_APPLICABLE", {})
checks, na = [], []
for p in props:
    i = p["id"]
    if i in specs.SPECS:
        s = specs.SPECS[i]
        checks.append(dict(property=i, quick_cmd="python3 bin/check.py %s --tier quick" % i, thorough_cmd="python3 bin/check.py %s --tier thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=s["technique"], level="exploration", level_note=s["level_note"]))
    else:
        na.append(dict(property=i, reason=NOT.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 bin/setup.py",
    hooks=dict(guard="none", enable="no hooks: every monitor works through the public interface (user-defined destinations, facets, allocators, charsets) and compiler instrumentation; the checks compile /repo/include and /repo/src directly", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Each check compiles its harnesses from /repo's working tree with sanitizers into a temporary directory, runs them, and removes the directory. See DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
