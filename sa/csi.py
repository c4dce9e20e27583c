"""Abstract interpretation of the C# client: path-sensitive over symbolic values, loops by one generic iteration (or, for the
number readers, unrolled over octets whose bits are unknown).

Values are tuples: ('b', bool), ('n', type, bits) an integer as a vector of affine bits, ('s', term, type) something unknown,
('o', id) an object the code created, ('null',), ('str', s), ('type', Type), ('tup', values), ('lam', params, body, env)."""
import cs
from cs import Type

INT = {'byte': (8, 0), 'Byte': (8, 0), 'sbyte': (8, 1), 'SByte': (8, 1), 'short': (16, 1), 'Int16': (16, 1), 'ushort': (16, 0),
       'UInt16': (16, 0), 'int': (32, 1), 'Int32': (32, 1), 'uint': (32, 0), 'UInt32': (32, 0), 'long': (64, 1), 'Int64': (64, 1),
       'ulong': (64, 0), 'UInt64': (64, 0)}
NAMES = {(8, 0): 'byte', (8, 1): 'sbyte', (16, 1): 'short', (16, 0): 'ushort', (32, 1): 'int', (32, 0): 'uint', (64, 1): 'long',
         (64, 0): 'ulong'}
Z, O = (0, frozenset()), (1, frozenset())
NULL = ('null',)
TRUE, FALSE = ('b', True), ('b', False)


class Unknown(Exception):
    pass


def mentions(t, x):
    return t == x or isinstance(t, tuple) and any(mentions(y, x) for y in t)


# ---------------------------------------------------------------- integers

def num(n, t='int'):
    w = INT[t][0]
    return ('n', NAMES[INT[t]], tuple((n >> i & 1, frozenset()) for i in range(w)))


def unknown_bits(name, t, known=()):
    w = INT[t][0]
    bits = [(0, frozenset([(name, i)])) for i in range(w)]
    for i, v in dict(known).items():
        bits[i] = (v, frozenset())
    return ('n', NAMES[INT[t]], tuple(bits))


def const(v):
    """the number, if every bit is known"""
    if v[0] != 'n' or any(b[1] for b in v[2]):
        return None
    n = sum(b[0] << i for i, b in enumerate(v[2]))
    w, s = INT[v[1]]
    return n - (1 << w) if s and n >> (w - 1) else n


def convert(v, t):
    w, s = INT[t]
    b = v[2]
    fill = b[-1] if INT[v[1]][1] else Z
    return ('n', NAMES[(w, s)], tuple((list(b) + [fill] * w)[:w]))


def promote(a, b):
    ta, tb = INT[a[1]], INT[b[1]]
    w = max(32, ta[0], tb[0])
    us = [t for t in (ta, tb) if t[0] == w and not t[1]]
    if not us:
        t = (w, 1)
    elif all(x[0] == w and not x[1] or x[0] < w and not x[1] or const(y) is not None and const(y) >= 0
             for x, y in ((ta, a), (tb, b))):
        t = (w, 0)
    else:
        t = (64, 1)
    n = NAMES[t]
    return convert(a, n), convert(b, n), n


def bxor(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def band(a, b):
    for x, y in ((a, b), (b, a)):
        if not x[1]:
            return y if x[0] else Z
    if a == b:
        return a
    if bxor(a, b) == O:
        return Z
    raise Unknown('and of two unknown bits')


def bor(a, b):
    return bxor(O, band(bxor(O, a), bxor(O, b)))


def neg(v):
    """-v for a number with at most one unknown low bit, or a known one"""
    c = const(v)
    if c is not None:
        return num(-c, v[1])
    if not any(b != Z for b in v[2][1:]):
        return ('n', v[1], tuple(v[2][0] for _ in v[2]))
    raise Unknown('negation of unknown bits')


def arith(op, a, b):
    if op in ('<<', '>>'):
        n = const(b)
        if n is None:
            raise Unknown('shift by an unknown amount')
        if INT[a[1]][0] < 32:
            a = convert(a, 'int')
        w, s = INT[a[1]]
        n &= w - 1
        bits = list(a[2])
        if op == '<<':
            bits = [Z] * n + bits[:w - n]
        else:
            bits = bits[n:] + [bits[-1] if s else Z] * n
        return ('n', a[1], tuple(bits))
    a, b, t = promote(a, b)
    if op in '&|^':
        f = {'&': band, '|': bor, '^': bxor}[op]
        return ('n', t, tuple(f(x, y) for x, y in zip(a[2], b[2])))
    x, y = const(a), const(b)
    if op in ('+', '-') and y is not None and (x is None or op == '-' and 0) and y == 0:
        return a
    if op in ('|', '+') and x is None or y is None:
        if op == '+' and all(p == Z or q == Z for p, q in zip(a[2], b[2])):
            return ('n', t, tuple(bxor(p, q) for p, q in zip(a[2], b[2])))
    if x is None or y is None:
        raise Unknown('%s of unknown bits' % op)
    if op in '/%' and y == 0:
        raise Unknown('division by zero')
    v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: int(x / y), '%': lambda: x - y * int(x / y)}[op]()
    return num(v, t)


def compare(op, a, b):
    a, b, t = promote(a, b)
    x, y = const(a), const(b)
    if op in ('==', '!='):
        if x is None or y is None:
            d = [bxor(p, q) for p, q in zip(a[2], b[2])]
            if any(p == O for p in d):
                return op == '!='
            d = [p for p in d if p != Z]
            if not d:
                return op == '=='
            return None
        return (x == y) == (op == '==')
    if x is None or y is None:
        # by the range of the unknown side
        for u, v, flip in ((a, b, False), (b, a, True)):
            c = const(v)
            if c is None or INT[t][1] and u[2][-1] != Z:
                continue
            lo = sum(p[0] << i for i, p in enumerate(u[2]) if not p[1])
            hi = lo + sum(1 << i for i, p in enumerate(u[2]) if p[1])
            o = op if not flip else {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
            rs = {'<': (hi < c, lo >= c), '<=': (hi <= c, lo > c), '>': (lo > c, hi <= c), '>=': (lo >= c, hi < c)}[o]
            if rs[0]:
                return True
            if rs[1]:
                return False
        return None
    return {'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op]


def show(v):
    if v is None:
        return 'nothing'
    k = v[0]
    if k == 'n':
        c = const(v)
        return str(c) if c is not None else '%s(%s)' % (v[1], ' '.join(
            str(b[0]) if not b[1] else ('~' if b[0] else '') + '^'.join('%s%d' % x for x in sorted(b[1])) for b in reversed(v[2])))
    if k == 's':
        return showt(v[1])
    if k == 'o':
        return 'object %d' % v[1]
    if k == 'b':
        return str(v[1]).lower()
    if k == 'str':
        return v[1]
    return k if k != 'tup' else '(%s)' % ', '.join(map(show, v[1]))


def showt(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if isinstance(t[0], str) and t[0] in ('n', 's', 'o', 'b', 'null', 'tup', 'str') and len(t) <= 3 and (
            t[0] != 's' or len(t) == 3):
        return show(t)
    if len(t) == 1:
        return str(t[0])
    return '%s(%s)' % (t[0], ', '.join(showt(x) for x in t[1:]))


# ---------------------------------------------------------------- state

class State:
    __slots__ = ('env', 'heap', 'conds', 'trace', 'this', 'cls', 'tenv', 'n')

    def __init__(self):
        self.env, self.heap, self.conds, self.trace, self.this, self.cls, self.tenv, self.n = {}, {}, {}, (), NULL, None, {}, 0

    def copy(self):
        s = State()
        s.env = dict(self.env)
        s.heap = {k: dict(v) for k, v in self.heap.items()}
        s.conds = dict(self.conds)
        s.trace, s.this, s.cls, s.tenv, s.n = self.trace, self.this, self.cls, self.tenv, self.n
        return s

    def event(self, *e):
        self.trace = self.trace + (e,)

    def fresh(self):
        self.n += 1
        return self.n


class Interp:
    def __init__(self, classes, hooks=None, unroll=0):
        self.classes = {}
        self.all = []
        for c in classes:
            self.add(c)
        self.hooks = hooks or {}
        self.unroll = unroll
        self.depth = 0
        self.steps = 0
        self.visited = set()
        self.ext = {}
        for c in self.all:
            for m in c.members:
                if getattr(m, 'kind', None) == 'method' and m.params and 'this' in m.params[0].mods:
                    self.ext.setdefault(m.name, []).append(m)

    def add(self, c):
        self.classes.setdefault(c.name, c)
        self.all.append(c)
        for n in c.nested():
            self.add(n)

    # -- look-up

    def find_class(self, name, st):
        c = st.cls
        while c is not None:
            if c.name == name:
                return c
            for n in c.nested():
                if n.name == name:
                    return n
            c = c.outer
        return self.classes.get(name)

    def class_of(self, v, st):
        if v[0] == 'o':
            t = st.heap[v[1]]['#']
        elif v[0] == 's' and v[2] is not None:
            t = v[2]
        else:
            return None
        return self.find_class(t.name, st) if t is not None else None

    def member(self, c, name, kinds):
        seen = 0
        while c is not None and seen < 5:
            ms = [m for m in c.all(name) if getattr(m, 'kind', 'class') in kinds]
            if ms:
                return ms
            nxt = None
            for b in c.bases:
                k = self.classes.get(b.name)
                if k is not None and k.kind != 'interface':
                    nxt = k
            c = nxt
            seen += 1
        return []

    # -- conditions

    def truth(self, st, v):
        """[(state, bool)]"""
        if v[0] == 'b':
            return [(st, v[1])]
        if v[0] != 's':
            raise Unknown('condition %s' % show(v))
        t, want = v[1], True
        while t[0] == 'not':
            t, want = t[1], not want
        if t in st.conds:
            return [(st, st.conds[t] == want)]
        out = []
        for r in (True, False):
            s = st.copy()
            s.conds[t] = r
            out.append((s, r == want))
        return out

    def isnull(self, st, v):
        """a condition value"""
        if v == NULL:
            return TRUE
        if v[0] != 's' or v[2] is not None and v[2].name in INT and not v[2].suffix:
            return FALSE
        if isinstance(v[1], tuple) and v[1][0] == 'nest':       # Path.GetNested makes a path (D08)
            return FALSE
        return ('s', ('isnull', v[1]), None)

    def eq(self, st, a, b):
        if a == b and a[0] != 's':
            return TRUE
        if a == b:
            return TRUE
        for x, y in ((a, b), (b, a)):
            if y == NULL:
                return self.isnull(st, x)
        if a[0] == 'n' and b[0] == 'n':
            r = compare('==', a, b)
            if r is not None:
                return ('b', r)
            return ('s', ('eq', a, b), None)
        if a[0] == 'b' and b[0] == 'b':
            return ('b', a[1] == b[1])
        if a[0] == 'b' or b[0] == 'b':
            x, y = (a, b) if a[0] == 'b' else (b, a)
            return y if x[1] else self.no(y)
        if a[0] == 'o' and b[0] == 'o':
            return ('b', a == b)
        if a[0] == 'str' and b[0] == 'str':
            return ('b', a == b)
        x, y = sorted([self.term(a), self.term(b)], key=repr)
        return ('s', ('eq', x, y), None)

    def no(self, v):
        if v[0] == 'b':
            return ('b', not v[1])
        return v and ('s', v[1][1] if v[1][0] == 'not' else ('not', v[1]), None)

    def term(self, v):
        return v[1] if v[0] == 's' else v

    # -- statements: [(kind, value, state)]

    def exec(self, s, st):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown('too long')
        return getattr(self, 'do_' + s[0])(s, st)

    def do_block(self, s, st):
        outer = set(st.env)
        out, cur = [], [st]
        for x in s[2]:
            nxt = []
            for z in cur:
                for k, v, t in self.exec(x, z):
                    if k == 'next':
                        nxt.append(t)
                    else:
                        out.append((k, v, t))
            cur = nxt
            if len(cur) + len(out) > 4000:
                raise Unknown('too many paths')
        out += [('next', None, t) for t in cur]
        for k, v, t in out:
            for n in set(t.env) - outer:
                del t.env[n]
        return out

    def lift(self, pairs, f):
        """continue evaluation with f(value, state) where evaluation did not throw"""
        out = []
        for v, t in pairs:
            if v[0] == '!':
                out.append(('throw', v[1], t))
            else:
                out += f(v, t)
        return out

    def do_expr(self, s, st):
        return self.lift(self.ev(s[2], st), lambda v, t: [('next', None, t)])

    def do_decl(self, s, st):
        cur, out = [st], []
        for n, init in s[3]:
            nxt = []
            for z in cur:
                if init is None:
                    z.env[n] = ('s', ('unset', n), s[2])
                    nxt.append(z)
                    continue
                for v, t in self.ev(init, z):
                    if v[0] == '!':
                        out.append(('throw', v[1], t))
                        continue
                    if s[2].name != 'var':
                        v = self.coerce(v, s[2])
                    t.env[n] = v
                    nxt.append(t)
            cur = nxt
        return out + [('next', None, z) for z in cur]

    def coerce(self, v, t):
        if v[0] == 'n' and t.name in INT and not t.suffix.endswith(']'):
            return convert(v, t.name)
        if v[0] == 's' and (v[2] is None) and t.name != 'var':
            return ('s', v[1], t)
        return v

    def do_decltuple(self, s, st):
        def f(v, t):
            for i, n in enumerate(s[2]):
                t.env[n] = self.item(v, i)
            return [('next', None, t)]
        return self.lift(self.ev(s[3], st), f)

    def item(self, v, i):
        if v[0] == 'tup':
            return v[1][i]
        if v[0] == 's':
            ty = v[2].args[i] if v[2] is not None and v[2].name == '()' and i < len(v[2].args) else None
            return ('s', ('item', v[1], i), ty)
        raise Unknown('items of %s' % show(v))

    def do_if(self, s, st):
        def f(v, t):
            out = []
            for z, d in self.truth(t, v):
                if d:
                    out += self.exec(s[3], z)
                elif s[4] is not None:
                    out += self.exec(s[4], z)
                else:
                    out.append(('next', None, z))
            return out
        return self.lift(self.ev(s[2], st), f)

    def do_return(self, s, st):
        if s[2] is None:
            return [('return', None, st)]
        return self.lift(self.ev(s[2], st), lambda v, t: [('return', v, t)])

    def do_throw(self, s, st):
        name = 'rethrow'
        if s[2] is not None and s[2][0] == 'new':
            name = s[2][2].name
        return [('throw', name, st)]

    def do_break(self, s, st):
        return [('break', None, st)]

    def do_continue(self, s, st):
        return [('continue', None, st)]

    def do_try(self, s, st):
        raise Unknown('try')

    def do_switch(self, s, st):
        def f(v, t):
            out, cur = [], [t]
            default = None
            for labels, body in s[3]:
                for l in labels:
                    if l is None:
                        default = body
                        continue
                    nxt = []
                    for z in cur:
                        for lv, z2 in self.ev(l, z):
                            if lv[0] == '!':
                                raise Unknown('label')
                            for z3, d in self.truth(z2, self.eq(z2, v, lv)):
                                if d:
                                    out += self.section(body, z3)
                                else:
                                    nxt.append(z3)
                    cur = nxt
            for z in cur:
                out += self.section(default, z) if default is not None else [('next', None, z)]
            return out
        return self.lift(self.ev(s[2], st), f)

    def section(self, body, st):
        out = []
        for k, v, t in self.do_block(('block', 0, body), st):
            out.append(('next', None, t) if k == 'break' else (k, v, t))
        return out

    def do_for(self, s, st):
        out = []
        for k, v, t in self.do_block_open(s[2], st):
            if k != 'next':
                out.append((k, v, t))
                continue
            out += self.loop(s, s[3], s[5], s[4], t)
        return out

    def do_block_open(self, stmts, st):
        cur, out = [st], []
        for x in stmts:
            nxt = []
            for z in cur:
                for k, v, t in self.exec(x, z):
                    (nxt if k == 'next' else out).append(t if k == 'next' else (k, v, t))
            cur = nxt
        return out + [('next', None, z) for z in cur]

    def do_while(self, s, st):
        return self.loop(s, s[2], s[3], [], st)

    def do_do(self, s, st):
        out = []
        for k, v, t in self.exec(s[3], st):
            if k in ('next', 'continue'):
                out += self.loop(s, s[2], s[3], [], t)
            elif k == 'break':
                out.append(('next', None, t))
            else:
                out.append((k, v, t))
        return out

    def loop(self, s, cond, body, step, st):
        if self.unroll:
            return self.unrolled(cond, body, step, st)
        st = st.copy()
        uid = ('loop', s[1])
        names = [n for n in assigned(body) | set().union(*[assigned(x) for x in step], assigned(cond)) if n in st.env]
        init = {n: st.env[n] for n in names}
        t = st.copy()
        t.trace = ()
        kept = dict(t.conds)
        for n in names:
            v = init[n]
            ty = v[2] if v[0] == 's' else Type(v[1]) if v[0] == 'n' else None
            if v[0] == 'o':
                ty = t.heap[v[1]]['#']
            t.env[n] = ('s', ('var', n, uid), ty)
        self.havoc(t, uid, changed((body, step, cond)))
        iters, out, ends = [], [], []

        def one(z):
            for k, v, z2 in self.exec(body, z):
                if k in ('next', 'continue'):
                    for k3, v3, z3 in self.do_block_open(step, z2):
                        iters.append((k3, v3, z3, {n: z3.env[n] for n in names if n in z3.env}))
                elif k == 'break':
                    ends.append(z2)
                    iters.append(('break', None, z2, {n: z2.env[n] for n in names if n in z2.env}))
                else:
                    iters.append((k, v, z2, {}))
                    if k in ('return', 'throw'):
                        out.append((k, v, z2))
        for v, z in (self.ev(cond, t) if cond is not None else [(TRUE, t)]):
            if v[0] == '!':
                iters.append(('throw', v[1], z, {}))
                out.append(('throw', v[1], z))
                continue
            for z2, d in self.truth(z, v):
                if d:
                    one(z2)
                else:
                    ends.append(z2)
                    iters.append(('exit', None, z2, {}))
        ev = ('loop', uid, init, tuple((k, v, {c: d for c, d in z.conds.items() if kept.get(c) != d}, z.trace, fin)
                                       for k, v, z, fin in iters))
        res = []
        for k, v, z in out:
            z2 = z.copy()
            z2.trace = st.trace + (ev, ('last',) + z.trace)
            res.append((k, v, z2))
        for z in ends:
            z2 = z.copy()
            z2.trace = st.trace + (ev, ('last',) + z.trace)
            for n in names:
                v = z2.env.get(n)
                if v is not None and v[0] == 's' and v[1] == ('var', n, uid):
                    z2.env[n] = ('s', ('after', n, uid), v[2])
            res.append(('next', None, z2))
        return res

    def havoc(self, t, uid, names):
        """what a list created earlier holds is unknown inside a loop that may change it; the additions are events"""
        for n in names:
            v = t.env.get(n)
            if v is not None and v[0] == 'o' and t.heap[v[1]]['#'].name == 'List':
                h = t.heap[v[1]]
                h['base'], h['dropped'], h['items'] = ('list', n, uid), 0, ()

    def unrolled(self, cond, body, step, st):
        out, cur = [], [st]
        for i in range(self.unroll + 1):
            nxt = []
            for z in cur:
                for v, z1 in (self.ev(cond, z) if cond is not None else [(TRUE, z)]):
                    if v[0] == '!':
                        out.append(('throw', v[1], z1))
                        continue
                    for z2, d in self.truth(z1, v):
                        if not d:
                            out.append(('next', None, z2))
                            continue
                        for k, w, z3 in self.exec(body, z2):
                            if k in ('next', 'continue'):
                                for k4, w4, z4 in self.do_block_open(step, z3):
                                    nxt.append(z4)
                            elif k == 'break':
                                out.append(('next', None, z3))
                            else:
                                out.append((k, w, z3))
            cur = nxt
            if not cur:
                return out
        raise Unknown('more than %d iterations' % self.unroll)

    def do_foreach(self, s, st):
        def f(v, t):
            uid = ('loop', s[1])
            st = t.copy()
            names = [n for n in assigned(s[5]) if n in st.env]
            init = {n: st.env[n] for n in names}
            z = st.copy()
            z.trace = ()
            for n in names:
                x = init[n]
                ty = x[2] if x[0] == 's' else Type(x[1]) if x[0] == 'n' else z.heap[x[1]]['#'] if x[0] == 'o' else None
                z.env[n] = ('s', ('var', n, uid), ty)
            ety = s[2] if s[2].name != 'var' else elem_type(self, v, t)
            z.env[s[3]] = ('s', ('elem', self.term(v), uid), ety)
            iters, out = [], []
            for k, w, z2 in self.exec(s[5], z):
                if k == 'continue':
                    k = 'next'
                iters.append((k, w, {c: d for c, d in z2.conds.items() if st.conds.get(c) != d}, z2.trace,
                              {n: z2.env[n] for n in names}))
                if k in ('return', 'throw'):
                    out.append((k, w, z2))
            ev = ('each', uid, v, init, tuple(iters))
            res = []
            for k, w, z2 in out:
                z3 = z2.copy()
                z3.trace = st.trace + (ev, ('last',) + z2.trace)
                res.append((k, w, z3))
            end = st.copy()
            end.trace = st.trace + (ev,)
            for n in names:
                x = z.env[n]
                end.env[n] = ('s', ('after', n, uid), x[2] if x[0] == 's' else None)
            end.env.pop(s[3], None)
            return res + [('next', None, end)]
        return self.lift(self.ev(s[4], st), f)

    # -- expressions: [(value, state)]; ('!', name) is an exception

    def ev(self, e, st):
        self.steps += 1
        if self.steps > 200000:
            raise Unknown('too long')
        return getattr(self, 'ev_' + e[0])(e, st)

    def evs(self, es, st):
        """[(values, state)], an exception as ('!', name) instead of the list"""
        cur = [((), st)]
        for e in es:
            nxt = []
            for vs, s in cur:
                if vs and vs[0] == '!':
                    nxt.append((vs, s))
                    continue
                for v, t in self.ev(e, s):
                    nxt.append((v if v[0] == '!' else vs + (v,), t))
            cur = nxt
        return cur

    def bind(self, pairs, f):
        out = []
        for v, t in pairs:
            out += [(v, t)] if v and v[0] == '!' else f(v, t)
        return out

    def ev_num(self, e, st):
        s = e[2].replace('_', '').lower()
        if '.' in s:
            return [(('s', ('float', s), None), st)]
        suf = ''
        while s[-1] in 'ul' and not (s.startswith('0x') and s[-1] not in 'ul'):
            suf += s[-1]
            s = s[:-1]
        n = int(s, 0) if not (s.startswith('0') and len(s) > 1 and s[1].isdigit()) else int(s)
        t = {'': 'int', 'u': 'uint', 'l': 'long'}.get(suf, 'ulong')
        if t == 'int' and n >= 1 << 31:
            t = 'uint' if n < 1 << 32 else 'long'
        return [(num(n, t), st)]

    def ev_str(self, e, st):
        return [(('str', e[2].strip('$@')[1:-1]), st)]

    def ev_chr(self, e, st):
        return [(('str', e[2]), st)]

    def ev_bool(self, e, st):
        return [(('b', e[2]), st)]

    def ev_null(self, e, st):
        return [(NULL, st)]

    def ev_this(self, e, st):
        return [(st.this, st)]

    def ev_typeof(self, e, st):
        return [(('type', self.targ(e[2], st)), st)]

    def targ(self, t, st):
        if t.name in st.tenv and not t.args:
            return st.tenv[t.name]
        return Type(t.name, [self.targ(a, st) for a in t.args], t.suffix)

    def ev_default(self, e, st):
        if e[2] is not None and e[2].name in INT:
            return [(num(0, e[2].name), st)]
        if e[2] is not None and e[2].name in ('bool', 'Boolean'):
            return [(FALSE, st)]
        return [(('s', ('default',), e[2]), st)]

    def ev_tuple(self, e, st):
        return self.bind(self.evs(e[2], st), lambda vs, t: [(('tup', vs), t)])

    def ev_lambda(self, e, st):
        return [(('lam', tuple(e[2]), e[3], tuple(sorted(st.env.items(), key=lambda x: x[0]))), st)]

    def ev_name(self, e, st):
        n = e[2]
        if n in st.env:
            return [(st.env[n], st)]
        c = st.cls
        while c is not None:
            ms = self.member(c, n, ('field', 'property', 'const', 'event'))
            if ms:
                return self.get(ms[0], st.this if 'static' not in ms[0].mods and ms[0].kind != 'const' and c is st.cls else None, st, c)
            c = c.outer
        k = self.find_class(n, st)
        if k is not None:
            return [(('type', Type(n, [self.targ(a, st) for a in e[3]])), st)]
        return [(('type', self.targ(Type(n, e[3]), st)), st)]

    def get(self, m, obj, st, cls):
        if m.kind == 'const':
            s = st.copy()
            s.cls, s.env = cls, {}
            return [(self.coerce(v, m.type), st) for v, _ in self.ev(m.init, s)]
        if m.kind == 'property' and m.get is not None:
            return self.invoke_body(m, m.get, {}, obj or NULL, cls, st, {})
        key = m.name
        if obj is None or obj == NULL:
            return [(('s', ('static', cls.name, key), m.type), st)]
        if obj[0] == 'o':
            h = st.heap[obj[1]]
            if key in h:
                return [(h[key], st)]
            return [(default_of(m.type), st)]
        return [(('s', ('field', self.term(obj), key), m.type), st)]

    def ev_member(self, e, st):
        def f(o, t):
            if e[4]:  # ?.
                out = []
                for z, d in self.truth(t, self.isnull(t, o)):
                    out += [(NULL, z)] if d else self.getm(o, e[3], z, e)
                return out
            return self.getm(o, e[3], t, e)
        return self.bind(self.ev(e[2], st), f)

    def getm(self, o, name, st, e):
        h = self.hooks.get('get')
        if h:
            r = h(self, o, name, st)
            if r is not None:
                return r
        if o[0] == 'type':
            c = self.find_class(o[1].name, st)
            if c is not None:
                if c.kind == 'enum':
                    for i, (n, init) in enumerate(c.values):
                        if n == name:
                            return [(self.enum_value(c, n), st)]
                ms = self.member(c, name, ('field', 'property', 'const', 'event'))
                if ms:
                    return self.get(ms[0], None, st, c)
                for k in c.nested():
                    if k.name == name:
                        return [(('type', Type(name)), st)]
            return [(('s', ('static', str(o[1]), name), None), st)]
        if o == NULL:
            return [(('!', 'NullReferenceException'), st)]
        c = self.class_of(o, st)
        if o[0] == 's' and o[2] is not None and o[2].suffix.endswith('?') and name in ('Value', 'HasValue'):
            if name == 'Value':
                return [(('s', o[1], Type(o[2].name, o[2].args)), st)]
            return [(self.no(self.isnull(st, o)), st)]
        if o[0] in ('n', 'b') and name == 'Value':
            return [(o, st)]
        if c is not None:
            ms = self.member(c, name, ('field', 'property', 'const', 'event'))
            if ms:
                return self.get(ms[0], o, st, c)
            for b in c.bases:
                k = self.classes.get(b.name)
                ms = k and self.member(k, name, ('property',))
                if ms:
                    return [(('s', ('field', self.term(o), name), ms[0].type), st)]
        if o[0] == 'o':
            hobj = st.heap[o[1]]
            if name in hobj:
                return [(hobj[name], st)]
            ty = hobj['#'].name
            if ty == 'List' and name == 'Count':
                return [(self.list_count(hobj), st)]
            return [(('s', ('field', o, name), None), st)]
        if o[0] == 'tup':
            raise Unknown('named tuple items')
        if o[0] == 's':
            if o[2] is not None and o[2].name == '()' and name in ('Tag', 'WireType', 'Item1', 'Item2'):
                return [(self.item(o, {'Tag': 0, 'WireType': 1, 'Item1': 0, 'Item2': 1}[name]), st)]
            return [(('s', ('field', o[1], name), Type('int') if name in ('Count', 'Length') else None), st)]
        raise Unknown('%s of %s' % (name, show(o)))

    def enum_value(self, c, n):
        k = -1
        for m, init in c.values:
            k = const(self.ev(init, State())[0][0]) if init is not None else k + 1
            if m == n:
                return ('n', 'int', num(k)[2])
        raise Unknown(n)

    # lists the code builds: base sequence, number of items dropped from its end, items added
    def list_count(self, h):
        if h['base'] is None:
            return num(len(h['items']))
        t = ('count', h['base'])
        d = h['dropped'] - len(h['items'])
        return ('s', t if d == 0 else ('add', t, -d), Type('int'))

    def ev_index(self, e, st):
        def f(vs, t):
            o, i = vs[0], vs[1]
            h = self.hooks.get('index')
            if h:
                r = h(self, o, i, t)
                if r is not None:
                    return r
            if o[0] == 'o' and t.heap[o[1]]['#'].name == 'List':
                b = t.heap[o[1]]
                if b['items'] or b['base'] is None:
                    raise Unknown('an element of a list being built')
                ty = b['#'].args[0] if b['#'].args else None
                return [(('s', ('at', b['base'], self.term(i)), ty), t)]
            return [(('s', ('at', self.term(o), self.term(i)), None), t)]
        return self.bind(self.evs([e[2]] + [a[2] for a in e[3]], st), f)

    def ev_un(self, e, st):
        def f(v, t):
            if e[2] == '!':
                return [(self.no(v), t)]
            if v[0] == 'n':
                if e[2] == '-':
                    return [(neg(convert(v, 'int') if INT[v[1]][0] < 32 else v), t)]
                if e[2] == '~':
                    v = convert(v, 'int') if INT[v[1]][0] < 32 else v
                    return [(('n', v[1], tuple(bxor(O, b) for b in v[2])), t)]
                return [(v, t)]
            return [(('s', ('un' + e[2], self.term(v)), v[2] if v[0] == 's' else None), t)]
        return self.bind(self.ev(e[3], st), f)

    def plus(self, v, d):
        if v[0] == 'n':
            return convert(arith('+', v, num(d)) if INT[v[1]][1] or d >= 0 else num((const(v) or 0) + d, v[1]), v[1])
        t = self.term(v)
        k = d
        if isinstance(t, tuple) and t[0] == 'add':
            t, k = t[1], t[2] + d
        return ('s', t if k == 0 else ('add', t, k), v[2])

    def ev_pre(self, e, st):
        def f(v, t):
            w = self.plus(v, 1 if e[2] == '++' else -1)
            return self.assign(e[3], w, t, w)
        return self.bind(self.ev(e[3], st), f)

    def ev_post(self, e, st):
        def f(v, t):
            w = self.plus(v, 1 if e[2] == '++' else -1)
            return self.assign(e[3], w, t, v)
        return self.bind(self.ev(e[3], st), f)

    def ev_cast(self, e, st):
        def f(v, t):
            ty = self.targ(e[2], t)
            if v[0] == 'n' and ty.name in INT:
                return [(convert(v, ty.name), t)]
            c = self.find_class(ty.name, t)
            if v[0] == 'n' and c is not None and c.kind == 'enum':
                return [(v, t)]
            if v[0] == 's':
                if ty.name in INT and v[2] is not None and v[2].name in INT and INT[ty.name][0] < INT[v[2].name][0]:
                    return [(('s', ('trunc', NAMES[INT[ty.name]], v[1]), ty), t)]
                return [(('s', v[1], ty), t)]
            return [(v, t)]
        return self.bind(self.ev(e[3], st), f)

    def ev_as(self, e, st):
        def f(v, t):
            ty = self.targ(e[3], t)
            if v == NULL:
                return [(NULL, t)]
            if v[0] == 'o':
                c = self.class_of(v, t)
                if t.heap[v[1]]['#'].name == ty.name:
                    return [(v, t)]
                if c is not None and any(b.name == ty.name for b in c.bases):
                    return [(v, t)]
                return [(NULL, t)]
            if v[0] != 's':
                return [(NULL, t)]
            if v[2] is not None and v[2].name == ty.name:
                return [(v, t)]
            return [(('s', ('as', self.term(v), str(ty)), ty), t)]
        return self.bind(self.ev(e[2], st), f)

    def ev_is(self, e, st):
        def f(v, t):
            ty = self.targ(e[3], t)
            if v == NULL:
                return [(FALSE, t)]
            if v[0] == 'o':
                c = self.class_of(v, t)
                r = ('b', t.heap[v[1]]['#'].name == ty.name or c is not None and any(b.name == ty.name for b in c.bases))
            else:
                r = ('s', ('is', self.term(v), str(ty)), None)
            if e[4]:
                t.env[e[4]] = v if v[0] != 's' else ('s', v[1], ty)
            return [(r, t)]
        return self.bind(self.ev(e[2], st), f)

    def ev_cond(self, e, st):
        def f(v, t):
            out = []
            for z, d in self.truth(t, v):
                out += self.evt(e[3] if d else e[4], z)
            return out
        return self.bind(self.ev(e[2], st), f)

    def evt(self, e, st):
        if e[0] == 'throw':
            return [(('!', e[2][2].name if e[2][0] == 'new' else 'exception'), st)]
        return self.ev(e, st)

    def ev_throw(self, e, st):
        return self.evt(e, st)

    def ev_coalesce(self, e, st):
        def f(v, t):
            out = []
            for z, d in self.truth(t, self.isnull(t, v)):
                out += self.evt(e[3], z) if d else [(v, z)]
            return out
        return self.bind(self.ev(e[2], st), f)

    def ev_bin(self, e, st):
        op = e[2]
        if op in ('&&', '||'):
            def g(v, t):
                out = []
                for z, d in self.truth(t, v):
                    if d == (op == '||'):
                        out.append((('b', d), z))
                    else:
                        out += self.ev(e[4], z)
                return out
            return self.bind(self.ev(e[3], st), g)

        def f(vs, t):
            return [(self.binop(op, vs[0], vs[1], t), t)]
        return self.bind(self.evs([e[3], e[4]], st), f)

    def binop(self, op, a, b, st):
        if op == '==':
            return self.eq(st, a, b)
        if op == '!=':
            return self.no(self.eq(st, a, b))
        if a[0] == 'n' and b[0] == 'n':
            if op in ('<', '>', '<=', '>='):
                r = compare(op, a, b)
                return ('b', r) if r is not None else ('s', (op, a, b), None)
            return arith(op, a, b)
        if a[0] == 'b' and b[0] == 'b' and op in '&|^':
            return ('b', {'&': a[1] and b[1], '|': a[1] or b[1], '^': a[1] != b[1]}[op])
        if op in '|&^' and 'b' in (a[0], b[0]) or op in '|&' and a[0] == b[0] == 's' and is_bool(a) and is_bool(b):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'b':
                    if op == '^':
                        return self.no(y) if x[1] else y
                    return x if x[1] == (op == '|') else y
            return ('s', ('or' if op == '|' else 'and', a[1], b[1]), None)
        ty = a[2] if a[0] == 's' else b[2] if b[0] == 's' else None
        if op in ('+', '-') and b[0] == 'n' and const(b) is not None:
            return self.plus(a, const(b) if op == '+' else -const(b))
        if op == '+' and a[0] == 'n' and const(a) is not None and b[0] == 's' and b[2] is not None and b[2].name in INT:
            return self.plus(b, const(a))
        if op in ('<', '>', '<=', '>='):
            return self.order(op, a, b, st)
        return ('s', (op, self.term(a), self.term(b)), ty)

    def order(self, op, a, b, st):
        """every comparison of integers as  x < y  with constants folded to the right"""
        if op in ('>', '<='):
            r = self.order('<' if op == '>' else '>=', b, a, st) if op == '>' else self.no(self.order('<', b, a, st))
            return r
        if op == '>=':
            return self.no(self.order('<', a, b, st))
        ta, tb = self.norm(a), self.norm(b)
        d = tb[1] - ta[1]
        x, y = ta[0], tb[0]
        if x == y:
            return ('b', 0 < d)
        # x < y + d
        if x is None:
            # 0 < y + d: not (y < 1 - d)
            return ('s', ('not', ('lt', y, 1 - d)), None)
        if y is None:
            return ('s', ('lt', x, d), None)
        return ('s', ('lt', x, ('add', y, d) if d else y), None)

    def norm(self, v):
        if v[0] == 'n':
            c = const(v)
            if c is None:
                return (v, 0)
            return (None, c)
        t = self.term(v)
        if isinstance(t, tuple) and t[0] == 'add':
            return (t[1], t[2])
        return (t, 0)

    def ev_assign(self, e, st):
        op = e[2]
        if op == '??':
            def g(v, t):
                out = []
                for z, d in self.truth(t, self.isnull(t, v)):
                    if d:
                        out += self.bind(self.ev(e[4], z), lambda w, z2: self.assign(e[3], w, z2, w))
                    else:
                        out.append((v, z))
                return out
            return self.bind(self.ev(e[3], st), g)
        if op:
            def f(vs, t):
                w = self.binop(op, vs[0], vs[1], t)
                if vs[0][0] == 'n' and w[0] == 'n':
                    w = convert(w, vs[0][1])
                return self.assign(e[3], w, t, w)
            return self.bind(self.evs([e[3], e[4]], st), f)
        return self.bind(self.evt(e[4], st), lambda v, t: self.assign(e[3], v, t, v))

    def assign(self, target, v, st, result):
        k = target[0]
        if k == 'name':
            n = target[2]
            if n in st.env:
                old = st.env[n]
                if old[0] == 'n' and v[0] == 'n':
                    v = convert(v, old[1])
                st.env[n] = v
                return [(result, st)]
            c = st.cls
            while c is not None:
                ms = self.member(c, n, ('field', 'property', 'event'))
                if ms:
                    return self.put(ms[0], st.this if 'static' not in ms[0].mods else None, c, v, st, result)
                c = c.outer
            raise Unknown('assignment to ' + n)
        if k == 'member':
            def f(o, t):
                if o[0] == 'type':
                    c = self.find_class(o[1].name, t)
                    ms = c and self.member(c, target[3], ('field', 'property', 'event'))
                    return self.put(ms[0], None, c, v, t, result) if ms else raise_('assignment')
                c = self.class_of(o, t)
                ms = c and self.member(c, target[3], ('field', 'property', 'event'))
                if o[0] == 'o':
                    m = ms and ms[0]
                    w = self.coerce(v, m.type) if m else v
                    t.heap[o[1]][target[3]] = w
                t.event('set', o, target[3], v)
                return [(result, t)]
            return self.bind(self.ev(target[2], st), f)
        if k == 'index':
            def f(vs, t):
                h = self.hooks.get('setindex')
                if h:
                    r = h(self, vs[0], vs[1], v, t)
                    if r is not None:
                        return [(result, r)]
                t.event('setindex', vs[0], vs[1], v)
                return [(result, t)]
            return self.bind(self.evs([target[2]] + [a[2] for a in target[3]], st), f)
        if k == 'tuple':
            cur = [(result, st)]
            for i, x in enumerate(target[2]):
                nxt = []
                for r, s in cur:
                    nxt += self.assign(x, self.item(v, i), s, result)
                cur = nxt
            return cur
        raise Unknown('assignment to ' + k)

    def put(self, m, obj, cls, v, st, result):
        if m.kind == 'property' and m.set is not None:
            raise Unknown('a setter')
        if obj is None:
            st.event('set', ('type', Type(cls.name)), m.name, v)
        else:
            if obj[0] == 'o':
                st.heap[obj[1]][m.name] = self.coerce(v, m.type)
            st.event('set', obj, m.name, v)
        return [(result, st)]

    def ev_outvar(self, e, st):
        return [(('s', ('out', e[2]), None), st)]

    # -- objects and calls

    def new(self, st, ty, **fields):
        i = max(st.heap, default=0) + 1
        st.heap[i] = dict(fields)
        st.heap[i]['#'] = ty
        return ('o', i)

    def ev_newarray(self, e, st):
        def f(vs, t):
            return [(('s', ('array', str(e[2]), self.term(vs[0]) if vs else None), Type(str(e[2]), (), '[]')), t)]
        return self.bind(self.evs([e[3]] if e[3] is not None else [], st), f)

    def ev_new(self, e, st):
        def f(vs, t):
            ty = self.targ(e[2], t)
            h = self.hooks.get('new')
            if h:
                r = h(self, ty, vs, t)
                if r is not None:
                    return r
            if ty.name == 'List':
                return [(self.new(t, ty, base=self.term(vs[0]) if vs else None, dropped=0, items=()), t)]
            c = self.find_class(ty.name, t)
            if c is not None and e[4] is None:
                return self.construct(c, ty, vs, t, [a[0] for a in e[3]])
            return [(self.new(t, ty, args=vs), t)]
        return self.bind(self.evs([a[2] for a in e[3]], st), f)

    def construct(self, c, ty, vs, st, names=(), obj=None):
        o = obj or self.new(st, ty)
        ctors = [m for m in c.members if getattr(m, 'kind', '') == 'ctor' and 'static' not in m.mods]
        tenv = dict(zip(c.tparams, ty.args))
        for m in c.members:
            if getattr(m, 'kind', '') in ('field', 'property') and m.init is not None and 'static' not in m.mods and obj is None:
                s = st.copy()
                s.cls, s.env, s.tenv = c, {}, tenv
                for v, _ in self.ev(m.init, s):
                    st.heap[o[1]][m.name] = v
        m = self.choose(ctors, vs, names, st) if ctors else None
        if m is None:
            if ctors:
                raise Unknown('constructor of ' + c.name)
            st.heap[o[1]].setdefault('args', vs)
            return [(o, st)]
        return self.bind(self.invoke(m, o, c, vs, names, st, tenv), lambda v, t: [(o, t)])

    def fits(self, p, v, st):
        """could the value be passed for the parameter; a score"""
        t = p.type
        if v[0] == 'n':
            return 2 if t.name in INT else 1 if t.name in ('T', 'object', 'TValue') or t.name not in self.classes else 0
        if v == NULL:
            return 1
        if v[0] == 'b':
            return 2 if t.name in ('bool', 'Boolean') else 1 if t.name in ('T', 'TValue', 'object') else 0
        if v[0] == 'type':
            return 2 if t.name == 'Type' else 0
        vt = st.heap[v[1]]['#'] if v[0] == 'o' else v[2] if v[0] == 's' else None
        if vt is None:
            return 1
        if vt.name == t.name and vt.suffix.rstrip('?') == t.suffix.rstrip('?'):
            return 3
        if vt.suffix.endswith(']') != t.suffix.endswith(']') and (t.suffix.endswith(']') or t.name in INT):
            return 0
        c = self.classes.get(vt.name)
        if c is not None:
            if any(b.name == t.name for b in c.bases):
                return 2
            if t.name in self.classes and self.classes[t.name].kind != 'interface':
                return 0
        if vt.name in INT and not vt.suffix.endswith(']'):
            return 2 if t.name in INT else 1 if t.name in ('T', 'TValue', 'object') else 0
        if t.name in INT or t.name in ('bool', 'Boolean'):
            return 0
        return 1

    def choose(self, ms, vs, names, st):
        best, score = None, -1
        for m in ms:
            ps = m.params
            if len(vs) > len(ps):
                continue
            given = set()
            sc = 0
            ok = True
            for i, v in enumerate(vs):
                n = names[i] if i < len(names) else None
                j = [k for k, p in enumerate(ps) if p.name == n] if n else [i]
                if not j:
                    ok = False
                    break
                given.add(j[0])
                f = self.fits(ps[j[0]], v, st)
                if not f:
                    ok = False
                    break
                sc += f
            if not ok or any(k not in given and p.default is None and 'params' not in p.mods for k, p in enumerate(ps)):
                continue
            sc = sc * 10 - (len(ps) - len(vs))
            if sc > score:
                best, score = m, sc
        return best

    def ev_call(self, e, st):
        f = e[2]
        names = [a[0] for a in e[3]]
        args = [a[2] for a in e[3]]
        refs = [(i, a[2]) for i, a in enumerate(e[3]) if a[1] == 'ref']
        if f[0] == 'name':
            if f[2] in st.env:
                return self.bind(self.evs(args, st), lambda vs, t: self.apply(t.env[f[2]], vs, t))
            if f[2] == 'nameof':
                return [(('str', ''), st)]

            def g(vs, t):
                c = t.cls
                while c is not None:
                    ms = self.member(c, f[2], ('method',))
                    m = self.choose(ms, vs, names, t)
                    if m is not None:
                        o = t.this if 'static' not in m.mods else NULL
                        return self.call(m, o, c, vs, names, t, [self.targ(a, t) for a in f[3]], refs)
                    c = c.outer
                raise Unknown('call of ' + f[2])
            return self.bind(self.evs(args, st), g)
        if f[0] == 'member':
            def g(o, t):
                if f[4]:
                    out = []
                    for z, d in self.truth(t, self.isnull(t, o)):
                        if d:
                            out.append((NULL, z))
                        else:
                            out += self.bind(self.evs(args, z), lambda vs, z2: self.method(o, f[3], vs, names, z2, f, refs))
                    return out
                return self.bind(self.evs(args, t), lambda vs, z2: self.method(o, f[3], vs, names, z2, f, refs))
            if f[2][0] == 'base':
                return self.bind(self.evs(args, st), lambda vs, t: self.opaque(t.this, 'base.' + f[3], vs, t))
            return self.bind(self.ev(f[2], st), g)
        return self.bind(self.evs([f] + args, st), lambda vs, t: self.apply(vs[0], vs[1:], t))

    def apply(self, fv, vs, st):
        if fv[0] == 'lam':
            s = st.copy()
            s.env = dict(fv[3])
            s.env.update(zip(fv[1], vs))
            out = []
            for k, v, t in self.exec(fv[2], s):
                t.env, t.this, t.cls = st.env, st.this, st.cls
                out.append((('!', v) if k == 'throw' else v or NULL, t))
            return out
        return self.opaque(fv, 'call', vs, st)

    def method(self, o, name, vs, names, st, e, refs=()):
        h = self.hooks.get('call')
        if h:
            r = h(self, o, name, vs, st, e)
            if r is not None:
                return r
        targs = [self.targ(a, st) for a in e[5]]
        if o[0] == 'type':
            c = self.find_class(o[1].name, st)
            if c is not None:
                m = self.choose(self.member(c, name, ('method',)), vs, names, st)
                if m is not None:
                    tenv0 = dict(zip(c.tparams, o[1].args))
                    return self.call(m, NULL, c, vs, names, st, targs, refs, tenv0)
            return self.opaque(o, name, vs, st)
        if o == NULL:
            return [(('!', 'NullReferenceException'), st)]
        c = self.class_of(o, st)
        if c is not None and c.kind != 'interface' and (o[0] == 'o' or o == st.this or 'sealed' in c.mods and o[0] == 's'):
            m = self.choose(self.member(c, name, ('method',)), vs, names, st)
            if m is not None:
                ty = st.heap[o[1]]['#'] if o[0] == 'o' else o[2]
                return self.call(m, o, c, vs, names, st, targs, refs, dict(zip(c.tparams, ty.args)))
        own = c is not None and self.member(c, name, ('method',))
        if not own or not self.choose(own, vs, names, st):
            if c is None or c.kind == 'interface' or not own:
                m = self.choose(self.ext.get(name, []), (o,) + tuple(vs), [None] + list(names), st)
                if m is not None and (c is None or m.params[0].type.name in ([c.name] + [b.name for b in c.bases]) or
                                      self.fits(m.params[0], o, st) >= 2):
                    return self.call(m, NULL, m.cls, (o,) + tuple(vs), [None] + list(names), st, targs, refs)
        if o[0] == 'o' and st.heap[o[1]]['#'].name == 'List':
            hobj = st.heap[o[1]]
            if name == 'RemoveAt' and vs:
                cnt = self.list_count(hobj)
                last = self.plus(cnt, -1) if cnt[0] == 's' else None
                if last is not None and self.term(last) == self.term(vs[0]):
                    hobj['dropped'] += 1
                    return [(NULL, st)]
                if const(vs[0]) == 0 if vs[0][0] == 'n' else False:
                    hobj['base'] = ('rest', hobj['base'])
                    return [(NULL, st)]
                raise Unknown('removal from a list')
            if name == 'Add':
                hobj['items'] = hobj['items'] + (vs[0],)
                st.event('add', o, vs[0])
                return [(NULL, st)]
        return self.opaque(o, name, vs, st, own and own[0].type)

    def call(self, m, o, cls, vs, names, st, targs, refs=(), tenv0=None):
        h = self.hooks.get('enter')
        if h:
            r = h(self, m, o, cls, vs, names, st, targs)
            if r is not None:
                return r
        tenv = dict(tenv0 or {})
        tenv.update(zip(m.tparams, targs))
        if m.body is None:
            return self.opaque(o, m.name, vs, st, m.type)
        return self.invoke(m, o, cls, vs, names, st, tenv, refs)

    def invoke(self, m, o, cls, vs, names, st, tenv, refs=()):
        if m.body is None and m.kind != 'ctor':
            return self.opaque(o, m.name, vs, st, m.type)
        env = {}
        for i, v in enumerate(vs):
            n = names[i] if i < len(names) else None
            p = [p for p in m.params if p.name == n][0] if n else m.params[i]
            env[p.name] = self.coerce(v, Type(tenv[p.type.name].name) if p.type.name in tenv else p.type)
        cur = [(env, st)]
        for p in m.params:
            if p.name not in env:
                s = st.copy()
                s.cls, s.env = cls, {}
                env[p.name] = self.coerce(self.ev(p.default, s)[0][0], p.type)
        if m.chain:
            which, args = m.chain
            s = st.copy()
            s.env, s.cls, s.this, s.tenv = dict(env), cls, o, tenv
            out = []
            for ws, t in self.evs([a[2] for a in args], s):
                if ws and ws[0] == '!':
                    out.append((ws, t))
                    continue
                t.env, t.cls, t.this, t.tenv = st.env, st.cls, st.this, st.tenv
                if which == 'base':
                    if o[0] == 'o':
                        t.heap[o[1]]['base'] = ws
                    out += self.invoke_body(m, m.body, env, o, cls, t, tenv)
                else:
                    ctors = [x for x in cls.members if getattr(x, 'kind', '') == 'ctor' and x is not m and 'static' not in x.mods]
                    k = self.choose(ctors, ws, [a[0] for a in args], t)
                    if k is None:
                        raise Unknown('constructor')
                    for v, t2 in self.invoke(k, o, cls, ws, [a[0] for a in args], t, tenv):
                        out += [(v, t2)] if v[0] == '!' else self.invoke_body(m, m.body, env, o, cls, t2, tenv)
            return out
        outs = self.invoke_body(m, m.body, env, o, cls, st, tenv, refs)
        return outs

    def invoke_body(self, m, body, env, o, cls, st, tenv, refs=()):
        self.depth += 1
        if self.depth > 40:
            self.depth -= 1
            raise Unknown('too deep')
        self.visited.add(m)
        try:
            s = st.copy()
            s.env, s.cls, s.this, s.tenv = dict(env), cls, o, dict(tenv)
            out = []
            for k, v, t in (self.exec(body, s) if body is not None else [('next', None, s)]):
                inner = t.env
                t.env, t.cls, t.this, t.tenv = dict(st.env), st.cls, st.this, st.tenv
                for i, target in refs:
                    if target[0] == 'name' and target[2] in t.env:
                        t.env[target[2]] = inner.get(m.params[i].name, t.env[target[2]])
                if k == 'throw':
                    out.append((('!', v), t))
                else:
                    if v is not None and v[0] in ('s', 'n') and getattr(m, 'type', None) is not None:
                        ty = m.type
                        v = self.coerce(v, Type(ty.name, ty.args, ty.suffix) if ty.name not in tenv else tenv[ty.name])
                    out.append((v if v is not None else NULL, t))
            return out
        finally:
            self.depth -= 1

    def opaque(self, o, name, vs, st, ty=None):
        r = ('s', ('ret', st.fresh(), name), ty)
        st.event('call', o, name, tuple(vs), r)
        return [(r, st)]


def raise_(m):
    raise Unknown(m)


def is_bool(v):
    return v[0] == 'b' or isinstance(v[1], tuple) and v[1][0] in ('eq', 'not', 'lt', 'isnull', 'is', 'or', 'and')


def elem_type(ip, v, st):
    t = st.heap[v[1]]['#'] if v[0] == 'o' else v[2] if v[0] == 's' else None
    return t.args[0] if t is not None and len(t.args) == 1 else None


def default_of(t):
    if t is not None and t.name in INT and not t.suffix:
        return num(0, t.name)
    if t is not None and t.name in ('bool', 'Boolean'):
        return FALSE
    return NULL


def changed(x, out=None):
    """names of what a statement calls methods on or hands to a call"""
    out = set() if out is None else out
    if isinstance(x, (list, tuple)):
        if len(x) > 3 and x[0] in ('call', 'new'):
            f = x[2]
            if isinstance(f, tuple) and f[:1] == ('member',) and f[2][:1] == ('name',):
                out.add(f[2][2])
            out |= {a[2][2] for a in x[3] if isinstance(a, tuple) and len(a) > 2 and isinstance(a[2], tuple) and a[2][:1] == ('name',)}
        for y in x:
            changed(y, out)
    return out


def assigned(x, out=None):
    """names assigned anywhere in a statement or expression"""
    out = set() if out is None else out
    if isinstance(x, (list, tuple)):
        if len(x) > 2 and x[0] == 'assign' and x[3][0] == 'name':
            out.add(x[3][2])
        if len(x) > 2 and x[0] == 'assign' and x[3][0] == 'tuple':
            out |= {y[2] for y in x[3][2] if y[0] == 'name'}
        if len(x) > 3 and x[0] in ('pre', 'post') and isinstance(x[3], tuple) and x[3][0] == 'name':
            out.add(x[3][2])
        for y in x:
            assigned(y, out)
    return out


def method(classes, cls, name, n=None, pred=None):
    for c in classes:
        if c.name == cls:
            for m in c.all(name):
                if m.kind in ('method', 'ctor') and (n is None or len(m.params) == n) and (pred is None or pred(m)):
                    return c, m
    return None, None
