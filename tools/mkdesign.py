#!/usr/bin/env python3
"""Rewrites the generated tables of DESIGN.md (between <!-- NAME --> and <!-- /NAME -->): findings from known-findings.json,
planted bugs from seeded/, mutant counts from mutants/."""
import glob
import json
import os
import re
import runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def findings():
    k = json.load(open(V + '/known-findings.json'))
    out = ['| property | commit | what failed |', '|---|---|---|']
    for f in k['fixed']:
        m = re.match(r'fixed: property=(\w+) (\w+) (.*)', f)
        out.append('| %s | %s | %s |' % m.groups())
    for f in k['findings']:
        out.append('| open | | %s |' % json.dumps(f))
    return out


def seeds():
    rows = []
    for d in sorted(glob.glob(V + '/seeded/*/meta.json')):
        m = json.load(open(d))
        rows.append((m['property'], os.path.basename(os.path.dirname(d)), m['what_it_breaks'], m['needs']))
    out = ['| caught by | bug | breaks | needs |', '|---|---|---|---|']
    return out + ['| %s | %s | %s | %s |' % r for r in sorted(rows)]


def mutants():
    out = ['| file | mutants | of these preserving behaviour |', '|---|---|---|']
    for f in sorted(glob.glob(V + '/mutants/*.py')):
        ms = runpy.run_path(f)['M']
        n = sum(1 for m in ms if not m[1] or m[1] == '-')
        out.append('| %s | %d | %d |' % (os.path.basename(f), len(ms), n))
    return out


t = open(V + '/DESIGN.md').read()
for name, fn in [('FINDINGS', findings), ('SEEDS', seeds), ('MUTANTS', mutants)]:
    t = re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name),
               lambda m: m.group(1) + '\n'.join(fn()) + '\n' + m.group(2), t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
