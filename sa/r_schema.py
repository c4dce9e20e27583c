"""D01: compile-fail witnesses. Every invalid schema must be rejected by the compiler, every twin accepted."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
import tempfile

from core import Check, World, HERE
import facts as F
import schema


class Compiler:
    def __init__(self, d):
        lib = d + '/lib'
        st = sorted(glob.glob(lib + '/libsteit-*.rmeta'), key=os.path.getmtime)
        if not st:
            raise F.FactsError('no compiled library for the witnesses')
        self.args = ['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=json',
                     '-Awarnings', '-L', 'dependency=' + lib, '--extern', 'steit=' + st[-1]]
        self.dir = tempfile.mkdtemp(prefix='steit-wit-')
        self.n = 0
        self.runs = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, name, src):
        """(accepted, [(line, message)] of errors; lines of the witness file, also through macro expansion)"""
        d = '%s/%s' % (self.dir, name)
        os.makedirs(d, exist_ok=True)
        f = d + '/w.rs'
        open(f, 'w').write(src)
        env = dict(os.environ)
        for k in ('RUSTFLAGS', 'RUSTC_WRAPPER'):
            env.pop(k, None)
        p = subprocess.run(self.args + ['-o', d + '/libw.rmeta', '--crate-name', 'w', f], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True, cwd=d)
        self.runs += 1
        errs = []
        for l in p.stderr.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if not str(m.get('level', '')).startswith('error'):
                continue
            lines = set()
            for s in m.get('spans', []):
                if not s.get('is_primary'):
                    continue
                while s:
                    if s['file_name'].endswith('w.rs'):
                        lines.add(s['line_start'])
                    s = (s.get('expansion') or {}).get('span')
            errs.append((lines, m.get('message', '')))
        return p.returncode == 0, errs, p.returncode


def pack(ws):
    """one file of modules; (source, [(first line, last line)])"""
    out, pos, ln = [], [], 1
    for i, w in enumerate(ws):
        t = 'pub mod w%d {\n%s\n}\n' % (i, w)
        n = t.count('\n')
        out.append(t)
        pos.append((ln, ln + n - 1))
        ln += n
    return ''.join(out), pos


HEAD = '#![allow(warnings)]\n'


def attribute(errs, pos):
    hit = {}
    for lines, msg in errs:
        for l in lines:
            for k, (a, b) in enumerate(pos):
                if a <= l - 1 <= b:
                    hit.setdefault(k, msg)
    return hit


def shorten(src):
    return re.sub(r'\s+', ' ', src.split('\n', 1)[1])


def d01(C):
    W = World.get()
    C.rule('every witness schema that breaks a rule is rejected by the compiler on the derive of the current tree; its twin, which '
           'differs only in the offending part, compiles')
    g = schema.Gen(C.thorough).run()
    comp = Compiler(W.dir)
    try:
        bad = g.bad
        good = [(r, w, s) for s, (r, w) in g.good.items()]
        CH = 60

        def chunk(kind, k, ws):
            src, pos = pack([w[2] for w in ws])
            ok, errs, rc = comp.compile('%s%d' % (kind, k), HEAD + src)
            return ok, attribute(errs, pos), rc

        def alone(kind, k, w):
            return comp.compile('%s-alone%d' % (kind, k), HEAD + 'pub mod w0 {\n%s\n}\n' % w[2])

        with cf.ThreadPoolExecutor(8) as ex:
            gc = [good[i:i + CH] for i in range(0, len(good), CH)]
            bc = [bad[i:i + CH] for i in range(0, len(bad), CH)]
            gf = [ex.submit(chunk, 'g', k, ws) for k, ws in enumerate(gc)]
            bf = [ex.submit(chunk, 'b', k, ws) for k, ws in enumerate(bc)]
            # twins first: when nothing valid compiles, a rejection means nothing
            todo = []
            accepted = 0
            for ws, f in zip(gc, gf):
                ok, hit, rc = f.result()
                if ok:
                    accepted += len(ws)
                    for w in ws:
                        C.ok()
                        C.count('valid schemas compiled')
                else:
                    todo += ws
            for w, f in [(w, ex.submit(alone, 'g', k, w)) for k, w in enumerate(todo)]:
                ok, errs, rc = f.result()
                C.count('valid schemas compiled')
                if ok:
                    accepted += 1
                    C.ok()
                elif errs:
                    C.bad('rejects:' + w[0] + ':' + w[1], 'the derive rejects a valid schema (%s): %s: %s' % (
                        w[1], shorten(w[2]), errs[0][1][:160]), where=where(w[0]))
                else:
                    C.unknown('twin:' + w[1], 'the compiler failed on a witness: ' + shorten(w[2]))
            if not accepted:
                C.unknown('twins', 'no valid schema compiles: the witnesses say nothing')
                return
            todo = []
            for ws, f in zip(bc, bf):
                ok, hit, rc = f.result()
                for k, w in enumerate(ws):
                    if k in hit and not ok:
                        C.ok()
                        C.count('invalid schemas rejected: ' + w[0])
                        if len(C.samples) < 12 and not any(s['rule'] == w[0] for s in C.samples):
                            C.samples.append({'rule': w[0], 'witness': shorten(w[2])[:200], 'compiler': hit[k][:120]})
                    else:
                        todo.append(w)
            for w, f in [(w, ex.submit(alone, 'b', k, w)) for k, w in enumerate(todo)]:
                ok, errs, rc = f.result()
                if ok:
                    C.bad('accepts:' + w[0] + ':' + w[1], 'the derive accepts an invalid schema (%s; %s): %s' % (
                        w[0], w[1], shorten(w[2])), where=where(w[0]))
                elif errs:
                    C.ok()
                    C.count('invalid schemas rejected: ' + w[0])
                else:
                    C.unknown('witness:' + w[1], 'the compiler failed on a witness: ' + shorten(w[2]))
        C.count('compiler runs', comp.runs)
        C.floor('valid schemas compiled', 200)
    finally:
        comp.close()


SITES = {'duplicate tag': 'steit-derive/src/derive: parse_fields / parse_variants', 'reserved tag': 'steit-derive/src/derive: parse_fields / parse_variants',
         'missing tag': 'steit-derive/src/derive: FieldAttrs::parse / VariantAttrs::parse', 'out-of-range tag': 'steit-derive/src/derive/tag.rs: validate',
         'no variant tagged 0': 'steit-derive/src/derive/enum.rs: parse_variants', 'no variants': 'steit-derive/src/derive/enum.rs: Enum::parse',
         'union': 'steit-derive/src/derive/derive.rs: derive', 'const generics': 'steit-derive/src/derive/derive.rs: parse_type_params',
         'unknown attribute': 'steit-derive/src/attr.rs: parse_meta', 'repeated attribute': 'steit-derive/src/attr.rs: Attribute::set',
         'ill-typed attribute': 'steit-derive/src/attr.rs: parse_name_value / parse_list'}


def where(rule):
    return SITES.get(rule, 'steit-derive/src/derive')
