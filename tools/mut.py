#!/usr/bin/env python3
"""Sensitivity and quietness of the rules: applies small edits to copies of /repo and lists what each rule says.

usage: mut.py [-j N] [-k SUBSTR] [-p PROPS] FILE.py...   (files define M = [(name, expected, [(path, old, new)...])])
expected: properties that should report, '' for a behaviour-preserving edit."""
import concurrent.futures as cf
import os
import re
import runpy
import shutil
import subprocess
import sys
import argparse

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('-j', type=int, default=6)
ap.add_argument('-k', default='')
ap.add_argument('-p', default='all')
ap.add_argument('-t', action='store_true', help='also run the repository tests')
ap.add_argument('files', nargs='+')
a = ap.parse_args()
ms = []
for f in a.files:
    ms += [m for m in runpy.run_path(f)['M'] if re.search(a.k, m[0])]
slots = list(range(a.j))
import queue
q = queue.Queue()
for s in slots:
    q.put(s)


def one(m):
    name, exp, edits = m
    s = q.get()
    d = os.environ.get('MUTBASE', '/tmp/mut') + '/slot%d' % s
    try:
        repo = d + '/repo'
        if not os.path.exists(repo):
            os.makedirs(d, exist_ok=True)
            subprocess.check_call(['cp', '-a', '/repo', repo])
        subprocess.check_call(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', repo + '/']) \
            if shutil.which('rsync') else subprocess.check_call(
                'git -C %s checkout -q -- . && git -C %s fetch -q /repo && git -C %s reset -q --hard FETCH_HEAD' % (repo, repo, repo), shell=True)
        for p, old, new in edits:
            t = open(repo + '/' + p).read()
            if t.count(old) < 1:
                return name, exp, 'EDIT DOES NOT APPLY: %s' % old[:60]
            open(repo + '/' + p, 'w').write(t.replace(old, new, 1))
        env = dict(os.environ, STEIT_REPO=repo, STEIT_SA_BUILD=d + '/build', STEIT_SA_EVIDENCE=d + '/evidence')
        o = subprocess.run([sys.executable, HERE + '/sa/run.py', '-v', '--property', a.p], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True).stdout
        got = re.findall(r'VIOLATION property=(\w+)', o)
        msg = [l.strip()[:260] for l in o.splitlines() if l.startswith('  ') or 'Traceback' in l or 'Error' in l]
        if exp and not got:
            msg += [l.strip()[:260] for l in o.splitlines() if l.startswith('undecided')]
        tst = ''
        if a.t:
            r = subprocess.run(['cargo', 'test', '--offline', '-q'], cwd=repo, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               env=dict(os.environ, CARGO_TARGET_DIR=d + '/ttarget'))
            tst = ' tests:%s' % ('pass' if r.returncode == 0 else 'FAIL')
        return name, exp, '%s%s%s' % (','.join(got) or '-', tst, ''.join('\n      ' + x for x in msg[:4]))
    finally:
        q.put(s)


miss = 0
with cf.ThreadPoolExecutor(a.j) as ex:
    for name, exp, res in ex.map(one, ms):
        first = res.split('\n')[0]
        got = set(first.split(' ')[0].split(',')) - {'-'}
        want = set(exp.split(',')) - {''}
        okk = bool(got & want) if want else not got
        miss += not okk
        print('%s %-34s want %-8s got %s' % ('ok  ' if okk else 'MISS', name, exp or '-', res), flush=True)
print(miss, 'mismatches of', len(ms))
