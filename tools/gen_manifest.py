#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, '..', 'properties.jsonl'))]
ENUM = "explicit-state enumeration of the real code (every %s within bounds), each execution compared with a reference model"
CLAIMED = {}
exec(open(os.path.join(here, 'claimed.py')).read())
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        what, note = CLAIMED[i]
        checks.append(dict(property=i, quick_cmd="./check.sh %s quick" % i, thorough_cmd="./check.sh %s thorough" % i,
            evidence_file="evidence/%s.json" % i, technique=what, level="model_checking", level_note=note))
    else:
        na.append(dict(property=i, reason="the check for this property is not built yet"))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="none", enable="no hooks: the checks compile /repo's working tree as it is (C11-C13: a copy instrumented at build time through go build -overlay)", source_commits=[]),
    checks=checks, not_applicable=na,
    notes="Model checking by stateless enumeration of the real code; see DESIGN.md. Replay of a violation: ./replay.sh FILE.")
json.dump(m, open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, '..', 'MANIFEST.json'), 'a').write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
