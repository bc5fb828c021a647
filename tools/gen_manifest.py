#!/usr/bin/env python3
"""Writes MANIFEST.json from the registry."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.CLAIMS:
        t, level, note = registry.CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i, technique=t, level=level, level_note=note, evidence_file="evidence/%s.json" % i))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="Every check rebuilds the allocator from /repo's working tree (all sources through /repo's own Makefile, in several configurations) into the git-ignored /verif/build. No hooks in /repo are needed: system calls and locks are interposed at link time. VERIF_SEED and VERIF_TIER are honoured. Replay: python3 check.py <ID> --replay <file>.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
