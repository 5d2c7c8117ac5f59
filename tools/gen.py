"""Regenerates MANIFEST.json and properties.jsonl from the property modules."""
import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from harness import boot  # noqa: E402

boot.setup()
V = boot.VERIF
mods = []
for f in sorted(os.listdir(os.path.join(V, 'harness', 'props'))):
    if f.endswith('.py') and f != '__init__.py':
        mods.append(importlib.import_module('harness.props.' + f[:-3]))
mods.sort(key=lambda m: m.ID)
assert len({m.ID for m in mods}) == len(mods)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for m in mods:
        assert len(m.TITLE) <= 80, (m.ID, len(m.TITLE))
        f.write(json.dumps(dict(id=m.ID, title=m.TITLE, **m.PROP)) + '\n')
checks = [{
    'property': m.ID,
    'quick_cmd': './check.sh %s quick' % m.ID,
    'thorough_cmd': './check.sh %s thorough' % m.ID,
    'technique': getattr(m, 'TECHNIQUE', 'property-based testing (Hypothesis): generated inputs against an independent reference model'),
    'level': 'exploration',
    'level_note': getattr(m, 'LEVEL_NOTE', 'Explored, not proved: every generated case is decided against an independent oracle; '
                          'absence of violations holds for the generated cases only. Trusts numpy/scipy and the harness oracle.'),
} for m in mods]
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': [],
       'notes': 'Checks import the library from /repo (DOATOOLS_REPO overrides it for experiments). No hooks are needed.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(mods), 'properties')
