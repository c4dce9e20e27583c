#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a rule."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/sa')
import registry  # noqa

NA = {
    'N01': 'Quantifies over whole histories of operations and replays composed with each other; the obligations it '
           'reduces to per operation are decided separately (L01, L02, L03, L05, L08, L10, C04), but their '
           'composition is an inductive argument over an unbounded history that no analysis here carries out.',
    'N02': 'Composes the encodings, the log and both replays over an unbounded history, across two languages; what it '
           'reduces to is decided separately (C04 and L01-L14 on the Rust side, D02, D05-D09 for the client), the '
           'induction over histories is not.',
    'N03': 'Stack depth is a quantitative runtime resource: the recursion depth of the decoder is bounded by the '
           'nesting of the input, which is unbounded for recursive types, and frame sizes are not visible in MIR.',
}
checks, na = [], []
rules = registry.rules()
for line in open(HERE + '/properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    if pid in rules:
        checks.append({
            'property': pid,
            'quick_cmd': 'python3 /verif/sa/run.py --property %s' % pid,
            'thorough_cmd': 'python3 /verif/sa/run.py --property %s --thorough' % pid,
            'technique': registry.TECH.get(pid, registry.TECH['*']),
            'level': 'other',
            'level_note': registry.NOTE.get(pid, registry.NOTE['*']),
        })
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'No rule built yet.')})
json.dump({'version': 1, 'setup_cmd': 'python3 /verif/sa/run.py --setup', 'checks': checks, 'not_applicable': na},
          open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
