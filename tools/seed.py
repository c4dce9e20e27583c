#!/usr/bin/env python3
"""Builds and verifies planted bugs.

seed.py make   FILE.py [-k REGEX]   FILE.py defines B = [dict(id, property, needs, breaks, edits=[(path, old, new)], main=RUST)]
                                    writes seeded/<id>/ and verifies it
seed.py verify [-k REGEX]           verifies the ones in seeded/

Verification works in a copy of /repo under /tmp: the patch applies and builds, the existing tests pass with it, the
demonstration exits 0 without and nonzero with it.  It then says which checks report it."""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SD = HERE + '/seeded'
W = '/tmp/seedwork'
DEMO = '''#!/bin/bash
# run with the repository as the working directory
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d)
trap 'find "$w" -delete' EXIT
mkdir "$w/src"
cp "$here/main.rs" "$w/src/main.rs"
cp "$repo/Cargo.lock" "$w/Cargo.lock"
cat > "$w/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
steit = { path = "$repo/steit" }
[workspace]
EOF
cd "$w"
CARGO_TARGET_DIR="$w/target" timeout 280 cargo run --offline -q
'''


def sh(c, cwd, **k):
    return subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def fresh():
    r = W + '/repo'
    if not os.path.exists(r):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', r])
    sh('git checkout -q -- . && git fetch -q /repo && git reset -q --hard FETCH_HEAD', r)
    return r


def verify(i):
    d = SD + '/' + i
    r = fresh()
    o = sh('bash %s/demo.sh' % d, r)
    res = []
    if o.returncode:
        res.append('DEMO FAILS ON CLEAN TREE: ' + o.stdout[-600:])
    o = sh('git apply %s/patch.diff' % d, r)
    if o.returncode:
        return ['PATCH DOES NOT APPLY ' + o.stdout]
    try:
        o = sh('timeout 150 cargo test --workspace --offline -q', r, env=dict(os.environ, CARGO_TARGET_DIR=W + '/target'))
        if o.returncode:
            res.append('TESTS FAIL: ' + '\n'.join(l for l in o.stdout.splitlines() if 'error' in l or 'FAILED' in l or 'panicked' in l)[-1500:])
        o = sh('bash %s/demo.sh' % d, r)
        if o.returncode == 0:
            res.append('DEMO PASSES WITH THE BUG')
        elif 'could not compile' in o.stdout:
            res.append('DEMO DOES NOT COMPILE: ' + o.stdout[-900:])
        p = json.load(open(d + '/meta.json'))['property']
        o = sh('python3 %s/sa/run.py -v --property %s' % (HERE, 'all' if '-a' in sys.argv else p), r, env=dict(
            os.environ, STEIT_REPO=r, STEIT_SA_BUILD=W + '/build', STEIT_SA_EVIDENCE=W + '/evidence'))
        got = re.findall(r'VIOLATION property=(\w+)', o.stdout)
        res.append('%s (property %s) reported by %s' % ('caught' if p in got else 'MISSED', p, ','.join(got) or '-'))
        if p not in got:
            res += [l[:300] for l in o.stdout.splitlines() if l.startswith('undecided')][:8]
    finally:
        sh('git checkout -q -- .', r)
    return res


def make(b):
    d = SD + '/' + b['id']
    os.makedirs(d, exist_ok=True)
    r = fresh()
    for p, old, new in b['edits']:
        t = open(r + '/' + p).read()
        assert t.count(old) == 1, (b['id'], p, old, t.count(old))
        open(r + '/' + p, 'w').write(t.replace(old, new))
    open(d + '/patch.diff', 'w').write(sh('git diff', r).stdout)
    sh('git checkout -q -- .', r)
    open(d + '/demo.sh', 'w').write(b.get('demo', DEMO))
    if 'main' in b:
        open(d + '/main.rs', 'w').write(b['main'])
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)


rx = sys.argv[sys.argv.index('-k') + 1] if '-k' in sys.argv else ''
if sys.argv[1] == 'make':
    ids = []
    for b in runpy.run_path(sys.argv[2])['B']:
        if re.search(rx, b['id']):
            make(b)
            ids.append(b['id'])
else:
    ids = sorted(x for x in os.listdir(SD) if re.search(rx, x))
for i in ids:
    print(i, '\n   ', '\n    '.join(verify(i)), flush=True)
