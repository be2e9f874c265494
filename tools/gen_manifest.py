#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import registry  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.STEPS:
        tech, level, note = registry.describe(i)
        checks.append(dict(property=i, quick_cmd='bin/check.py %s' % i, thorough_cmd='bin/check.py %s' % i,
                           technique=tech, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, 'no check yet')))
m = dict(version=1, setup_cmd='bin/setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ specifications in spec/, checked with TLC and bound to the code by trace validation; see DESIGN.md')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
