#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json, os, re
from spec import SPEC
from props import PROPS
try:
    from spec import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
here = os.path.dirname(os.path.abspath(__file__))
checks = []
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for s in SPEC:
        na = [n for n in NOT_APPLICABLE if n['property'] == s['id']]
        if s['id'] not in PROPS and not na:
            print('not claimed yet:', s['id'])
            continue
        assert len(s['title']) <= 80, s['title']
        assert len(re.findall(r'[.](\s|$)', s['statement'])) <= 3, s['id']
        p = {k: v for k, v in s.items() if k != 'tech'}
        f.write(json.dumps(p) + '\n')
        if s['id'] in PROPS:
            checks.append({
                'property': s['id'],
                'quick_cmd': 'VERIF_TIER=quick python3 check.py run ' + s['id'],
                'thorough_cmd': 'VERIF_TIER=thorough python3 check.py run ' + s['id'],
                'technique': s['tech'],
                'level': 'exploration',
                'level_note': 'Seeded search over simulated runs of the real library code (several build configurations); a clean run is evidence, not proof. '
                              'Trusts the reference model in sim/model.cpp, the simulated allocator/disk/callbacks, and glibc stdio.'})
m = {'version': 1, 'setup_cmd': 'python3 check.py build',
     'hooks': {'guard': 'MPACK_HAS_CONFIG', 'enable': "No hooks were added to /repo: its own seams (mpack-config.h selected by -DMPACK_HAS_CONFIG=1 with sim/mpack-config.h, "
               'allocator macros, callbacks) are used.', 'source_commits': []},
     'checks': checks, 'not_applicable': NOT_APPLICABLE,
     'notes': 'check.py compiles src/mpack from the working tree; see DESIGN.md.'}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
ids = {s['id'] for s in SPEC}
assert set(PROPS) <= ids, set(PROPS) - ids
print(len(checks), 'checks')
