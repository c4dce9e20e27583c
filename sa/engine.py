"""Path-sensitive abstract interpretation of MIR over the value-numbering domain of terms.py.

Values are terms, memory maps objects to values, branch conditions become facts, effects become an
ordered trace.  Loops are summarised: the values a loop changes are generalised, the change of one
iteration is expressed relative to the iteration number, and the result is an expression in the number
of iterations.  Nothing is executed and no solver is involved; what cannot be expressed becomes `top`."""
import sys
from terms import *
from terms import T, I, Term
import terms

sys.setrecursionlimit(20000)


class Unknown(Exception):
    """the analysis cannot decide (never a verdict)"""


class Budget(Unknown):
    pass


OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'
ARITY.update({(OPTION, 0): 0, (OPTION, 1): 1, (RESULT, 0): 1, (RESULT, 1): 1, (CFLOW, 0): 1, (CFLOW, 1): 1})

NONE = adt(OPTION, 0)


def some(v):
    return adt(OPTION, 1, v)


def ok(v):
    return adt(RESULT, 0, v)


def err(v):
    return adt(RESULT, 1, v)


def ref(obj, proj=()):
    return T('ref', obj, tuple(proj))


def cref(value):
    """reference to an immutable value"""
    if value.op == 'deref':
        return ref(('P', value.a[0]))
    return ref(('C', value))


# ------------------------------------------------------------------ collections

PHI_LEN = {}


def mk_len(v):
    o = v.op
    if o in ('arr', 'bytes'):
        return I(len(v.a) if o == 'arr' else len(v.a[0]))
    if o == 'str':
        return I(len(v.a[0].encode()))
    if o == 'push':
        return add(mk_len(v.a[0]), I(1))
    if o == 'rmlast':
        return sub(mk_len(v.a[0]), I(1))
    if o == 'upd':
        return mk_len(v.a[0])
    if o == 'pushn':
        return add(mk_len(v.a[0]), v.a[1])
    if o in ('mapn', 'mmapn', 'mupd'):
        return mk_len(v.a[0])
    if o == 'mempty':
        return I(0)
    if o == 'remove':
        return sub(mk_len(v.a[0]), I(1))
    if o == 'insert':
        return add(mk_len(v.a[0]), I(1))
    if o == 'concat':
        return add(mk_len(v.a[0]), mk_len(v.a[1]))
    if o == 'repeat':
        return v.a[1]
    if o == 'setlen':
        return v.a[1]
    if o == 'mapof':
        return mk_len(v.a[0])
    if v in PHI_LEN:
        return PHI_LEN[v]
    return T('len', v)


def mk_elem(v, i, st=None):
    o = v.op
    if o == 'arr' and i.op == 'int' and 0 <= i.a[0] < len(v.a):
        return v.a[i.a[0]]
    if o == 'bytes' and i.op == 'int' and 0 <= i.a[0] < len(v.a[0]):
        return I(v.a[0][i.a[0]])
    if o == 'repeat':
        return v.a[0]
    if o == 'upd':
        d = EQ(v.a[1], i) if st is None else st.decide_t(EQ(v.a[1], i))
        if d is TRUE:
            return v.a[2]
        if d is FALSE:
            return mk_elem(v.a[0], i, st)
    if o == 'push':
        c = EQ(mk_len(v.a[0]), i)
        d = c if st is None else st.decide_t(c)
        if d is TRUE:
            return v.a[1]
        if d is FALSE or (st is not None and st.decide(LT(i, mk_len(v.a[0]))) is True):
            return mk_elem(v.a[0], i, st)
    if o == 'rmlast':
        return mk_elem(v.a[0], i, st)
    if o == 'mapn' and i.op in ('kappa', 'bv', 'sym', 'lin', 'int', 'fld'):
        return subst(v.a[2], {BV(v.a[3]): i}) if v.a[3] >= 0 else T('elem', v, i)
    if o == 'pushn' and v.a[0].op == 'arr' and not v.a[0].a and i.op in ('kappa', 'bv', 'sym', 'lin', 'int', 'fld'):
        return subst(v.a[2], {v.a[3]: i})
    if o == 'phi' and v in PHI_ELEM:
        r = PHI_ELEM[v](i)
        if r is not None:
            return r
    return T('elem', v, i)


PHI_ELEM = {}


def BV(n):
    return T('bv', n)


def sub_bounds(v, rg):
    """(from, to) of a range of constants within an explicit array"""
    if v.op != 'arr' or rg.op != 'adt' or any(x.op != 'int' for x in rg.a[2:]):
        return None
    n = rg.a[0].rsplit('::', 1)[-1]
    a = [x.a[0] for x in rg.a[2:]]
    lo, hi = {'Range': lambda: (a[0], a[1]), 'RangeFrom': lambda: (a[0], len(v.a)), 'RangeTo': lambda: (0, a[0]),
              'RangeInclusive': lambda: (a[0], a[1] + 1), 'RangeToInclusive': lambda: (0, a[0] + 1)}.get(
                  n, lambda: (1, 0))()
    return (lo, hi) if 0 <= lo <= hi <= len(v.a) else None


def mk_sub(v, rg):
    b = sub_bounds(v, rg)
    return T('subslice', v, rg) if b is None else T('arr', *v.a[b[0]:b[1]])


def mk_upd(v, i, x, st=None):
    if v.op == 'arr' and i.op == 'int' and 0 <= i.a[0] < len(v.a):
        l = list(v.a)
        l[i.a[0]] = x
        return T('arr', *l)
    if x.op == 'elem' and x.a[0] is v and x.a[1] is i:
        return v
    if v.op == 'upd' and v.a[1] is i:
        return mk_upd(v.a[0], i, x, st)
    if v.op == 'push':
        c = EQ(mk_len(v.a[0]), i)
        if (c if st is None else st.decide_t(c)) is TRUE:
            return T('push', v.a[0], x)
        if st is not None and st.decide(LT(i, mk_len(v.a[0]))) is True:
            return T('push', mk_upd(v.a[0], i, x, st), v.a[1])
    return T('upd', v, i, x)


def mk_push(v, x):
    if v.op == 'arr' and len(v.a) < 64:
        return T('arr', *(v.a + (x,)))
    return T('push', v, x)


def mk_rmlast(v, st=None):
    if v.op == 'arr' and v.a:
        return T('arr', *v.a[:-1])
    if v.op == 'push':
        return v.a[0]
    if v.op == 'upd':
        c = EQ(v.a[1], sub(mk_len(v.a[0]), I(1)))
        d = c if st is None else st.decide_t(c)
        if d is TRUE:
            return mk_rmlast(v.a[0], st)
        if d is FALSE or (st is not None and st.decide(LT(v.a[1], sub(mk_len(v.a[0]), I(1)))) is True):
            return T('upd', T('rmlast', v.a[0]), v.a[1], v.a[2])
    return T('rmlast', v)


def mget(m, k, st=None):
    """value under key k of map term m (assumed present)"""
    if m.op == 'mins':
        d = EQ(m.a[1], k) if st is None else st.decide_t(EQ(m.a[1], k))
        if d is TRUE:
            return m.a[2]
        if d is FALSE:
            return mget(m.a[0], k, st)
    if m.op == 'mrm' and st is not None and st.decide(EQ(m.a[1], k)) is False:
        return mget(m.a[0], k, st)
    return T('mget', m, k)


def mhas(m, k, st=None):
    """condition: key k present in map m"""
    if m.op == 'mempty':
        return FALSE
    if m.op == 'mins':
        d = EQ(m.a[1], k) if st is None else st.decide_t(EQ(m.a[1], k))
        if d is TRUE:
            return TRUE
        if d is FALSE:
            return mhas(m.a[0], k, st)
    if m.op == 'mrm':
        d = EQ(m.a[1], k) if st is None else st.decide_t(EQ(m.a[1], k))
        if d is TRUE:
            return FALSE
        if d is FALSE:
            return mhas(m.a[0], k, st)
    return T('bvar', 'has', m, k)


def mk_mins(m, k, v):
    if m.op == 'mins' and m.a[1] is k:
        return mk_mins(m.a[0], k, v)
    if v.op == 'mget' and v.a[0] is m and v.a[1] is k:
        return m
    return T('mins', m, k, v)


# ------------------------------------------------------------------ facts and state

class State:
    __slots__ = ('mem', 'eqs', 'neq', 'bnd', 'atoms', 'ev', 'conds', 'nev', 'loops', 'held')

    def __init__(self):
        self.mem = {}
        self.eqs = {}
        self.neq = {}
        self.bnd = {}
        self.atoms = {}
        self.ev = None
        self.conds = None
        self.nev = 0
        self.loops = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.eqs = dict(self.eqs)
        s.neq = dict(self.neq)
        s.bnd = dict(self.bnd)
        s.atoms = dict(self.atoms)
        s.ev = self.ev
        s.conds = self.conds
        s.nev = self.nev
        s.loops = self.loops
        return s

    # -- trace
    def emit(self, *e):
        self.ev = (self.ev, e)

    def trace(self, since=None):
        out = []
        x = self.ev
        while x is not None and x is not since:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def cond_list(self, since=None):
        out = []
        x = self.conds
        while x is not None and x is not since:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out

    def fresh_id(self):
        """name of an effectful call: its position on the path, per iteration inside loops"""
        self.nev += 1
        return T('id', self.nev, *self.loops)

    # -- facts
    def simp(self, t):
        if not self.eqs:
            return t
        for _ in range(6):
            r = subst(t, self.eqs)
            if r is t:
                return r
            t = r
        return t

    @staticmethod
    def form(d):
        c, m = lin_parts(d)
        return lin(0, m), c

    def bounds(self, f):
        lo, hi = self.bnd.get(f, (None, None))
        if lo is None and f.op != 'lin' and nonneg(f):
            lo = 0
        return lo, hi

    def decide(self, c):
        c = self.simp(c)
        return self._dec(c)

    def decide_t(self, c):
        d = self.decide(c)
        return c if d is None else (TRUE if d else FALSE)

    def _dec(self, c):
        if c.op == 'int':
            return bool(c.a[0])
        if c in self.atoms:
            return self.atoms[c]
        if c.op == 'not':
            d = self._dec(c.a[0])
            return None if d is None else not d
        if c.op == 'band':
            a, b = self._dec(c.a[0]), self._dec(c.a[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if c.op == 'eq' and c.a[1].op == 'int':
            f, k = self.form(c.a[0])
            v = c.a[1].a[0] - k
            if v in self.neq.get(f, ()):
                return False
            lo, hi = self.bounds(f)
            if lo is not None and v < lo or hi is not None and v > hi:
                return False
            if lo is not None and lo == hi == v:
                return True
            if f.op == 'lin':
                # the sum of the bounds of its parts
                c0, m = lin_parts(f)
                lo = hi = c0
                for k, w in m.items():
                    l, h = self.bounds(k)
                    if w < 0:
                        l, h = h, l
                    lo = None if lo is None or l is None else lo + w * l
                    hi = None if hi is None or h is None else hi + w * h
                if lo is not None and v < lo or hi is not None and v > hi:
                    return False
            return None
        if c.op == 'neg':
            f, k = self.form(c.a[0])
            lo, hi = self.bounds(f)
            if hi is not None and hi + k < 0:
                return True
            if lo is not None and lo + k >= 0:
                return False
            return self._dec_sum(c.a[0])
        return None

    def _dec_sum(self, d):
        """d < 0 by adding up the bounds of its parts"""
        c, m = lin_parts(d)
        lo = hi = c
        for k, v in m.items():
            l, h = self.bounds(k)
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        if hi is not None and hi < 0:
            return True
        if lo is not None and lo >= 0:
            return False
        # split off one known difference
        if len(m) >= 2:
            for f, (flo, fhi) in self.bnd.items():
                if f.op != 'lin':
                    continue
                for s in (1, -1):
                    r = sub(d, mul(f, I(s)))
                    rc, rm = lin_parts(r)
                    if len(rm) > len(m) - 2 and len(rm) >= len(m):
                        continue
                    l = h = rc
                    for k, v in rm.items():
                        kl, kh = self.bounds(k)
                        if v < 0:
                            kl, kh = kh, kl
                        l = None if l is None or kl is None else l + v * kl
                        h = None if h is None or kh is None else h + v * kh
                    fl, fh = (flo, fhi) if s == 1 else (None if fhi is None else -fhi, None if flo is None else -flo)
                    if h is not None and fh is not None and h + fh < 0:
                        return True
                    if l is not None and fl is not None and l + fl >= 0:
                        return False
        return None

    def assume(self, c, val=True):
        """adds a fact; False if it contradicts what is known"""
        if not val:
            c = NOT(c)
        c0 = c
        c = self.simp(c)
        d = self._dec(c)
        if d is not None:
            return d
        self.conds = (self.conds, c0)
        self._add(c)
        return True

    def _add(self, c):
        pos = True
        a = c
        if a.op == 'not':
            pos = False
            a = a.a[0]
        self.atoms[a] = pos
        if a.op == 'band' and pos:
            self._add(a.a[0])
            self._add(a.a[1])
            return
        if a.op == 'eq' and a.a[1].op == 'int':
            f, k = self.form(a.a[0])
            v = a.a[1].a[0] - k
            if pos:
                self.bnd[f] = (v, v)
                fc, fm = lin_parts(f)
                best = None
                for t, co in fm.items():
                    if co in (1, -1):
                        r = {'kappa': 0, 'sym': 1, 'discr': 1}.get(t.op, 2)
                        if t.op == 'len':
                            r = 3
                        if best is None or (r, -t.id) < best[0]:
                            best = ((r, -t.id), t, co)
                if best:
                    _, t, co = best
                    rest = sub(I(v), sub(f, mul(t, I(co))))
                    val = mul(rest, I(co))
                    if not contains(val, lambda x: x is t):
                        self.eqs[t] = val
            else:
                s = set(self.neq.get(f, ()))
                s.add(v)
                self.neq[f] = s
                self._tighten(f)
        elif a.op == 'eq' and pos:
            x, y = a.a
            if x.op in ('sym', 'fld', 'vf', 'app', 'deref', 'elem', 'mget', 'mkey') and not contains(y, lambda z: z is x):
                self.eqs[x] = y
            elif not contains(x, lambda z: z is y):
                self.eqs[y] = x
        elif a.op == 'neg':
            f, k = self.form(a.a[0])
            lo, hi = self.bounds(f)
            if pos:
                h = -k - 1
                hi = h if hi is None else min(hi, h)
            else:
                l = -k
                lo = l if lo is None else max(lo, l)
            self.bnd[f] = (lo, hi)
            self._tighten(f)

    def _tighten(self, f):
        lo, hi = self.bounds(f)
        n = self.neq.get(f, ())
        while lo is not None and lo in n:
            lo += 1
        while hi is not None and hi in n:
            hi -= 1
        self.bnd[f] = (lo, hi)
        if lo is not None and lo == hi:
            self._add(EQ(f, I(lo)))


TERM_TY = {}
UNMODELLED = set()     # functions outside the analysed code that no model describes
BITS = {}      # operations on bit vectors (bits.py)
WIRE_OF = []


class Frame:
    __slots__ = ('fid', 'body', 'prog', 'depth', 'stack', 'selfname')

    def __init__(self, fid, body, depth, stack):
        self.fid = fid
        self.body = body
        self.prog = body.prog
        self.depth = depth
        self.stack = stack
        self.selfname = None


class Iteration(tuple):
    """(conditions, trace) of one way through a loop body, with the state it ends in"""
    def __new__(cls, conds, trace, st, template):
        r = tuple.__new__(cls, (conds, trace))
        r.st = st
        r.head = template
        return r


class Call:
    """a call about to be interpreted"""
    __slots__ = ('ip', 'st', 'fr', 'key', 'f', 'args', 'atys', 'dty', 'sp', 'prog')

    def val(self, i):
        """value behind the i-th argument (references are followed once)"""
        return self.ip.load(self.st, self.args[i])

    def ret(self, v, st=None):
        return [('ret', st or self.st, v)]

    def selfname(self):
        if 'self' in self.f:
            n = self.prog.tname(self.f['self'])
            if n == 'Self' and self.fr is not None and self.fr.selfname:
                return self.fr.selfname
            return n
        return ''


class Interp:
    def __init__(self, hooks=None, budget=60000, inline=None, max_paths=3000, unroll=0, unroll_exact=False):
        self.unroll_exact = unroll_exact
        BASE_ADT.clear()
        self.unroll = unroll
        self.self_impl = None   # (type, trait::method) -> body, for provided trait methods run on a known type
        self.max_rec = 0        # how often a function may reappear on the call stack
        self.hooks = hooks or {}
        self.nfid = 0
        self.nheap = 0
        self.nloop = 0
        self.phis = {}      # loop-carried term -> (initial value, values at the end of an iteration, their states)
        self.steps = 0
        self.budget = budget
        self.max_paths = max_paths
        self.max_depth = 60
        self.functions = set()      # functions analysed
        self.calls = 0
        self.unknown_calls = {}
        self.models = MODELS
        self.on_assert = None

    # ---------------------------------------------------------------- memory
    def heap(self, st, v, ty=None):
        self.nheap += 1
        o = ('H', self.nheap)
        st.mem[o] = v
        return ref(o)

    def obj_val(self, st, obj):
        v = st.mem.get(obj)
        if v is None:
            if obj[0] == 'P':
                v = T('deref', obj[1])
            elif obj[0] == 'C':
                v = obj[1]
            else:
                v = top('uninit')
        return v

    def load(self, st, r):
        """the value a reference points at"""
        if r.op == 'ref':
            return self.read(st, r.a[0], r.a[1])
        if r.op == 'str':
            return r
        if r.op in ('bytes', 'arr'):
            return r
        return self.read(st, ('P', r), ())

    def deep(self, st, v, n=0):
        """value with references replaced by what they point at"""
        if v.op == 'ref' and n < 6:
            return self.deep(st, self.load(st, v), n + 1)
        return v

    def store(self, st, r, v):
        if r.op == 'ref':
            self.write(st, r.a[0], r.a[1], v)
        else:
            self.write(st, ('P', r), (), v)

    def proj_val(self, st, v, e):
        k = e[0]
        if k == 'f':
            i = e[1]
            if v.op == 'tup':
                return v.a[i] if i < len(v.a) else top('field')
            if v.op == 'adt':
                return v.a[2 + i] if 2 + i < len(v.a) else top('field')
            if v.op == 'clo':
                return v.a[1 + i] if 1 + i < len(v.a) else top('field')
            if v.op == 'dc':
                return T('vf', v.a[0], v.a[1], i)
            if v.op == 'setf':
                if v.a[1] == i:
                    return v.a[2]
                return self.proj_val(st, v.a[0], e)
            return T('fld', v, i)
        if k == 'v':
            if v.op == 'adt':
                return v
            if v.op == 'dc':
                return v
            if v.op == 'setv' and v.a[1] == e[1]:
                return v
            return T('dc', v, e[1])
        if k == 'i':
            return mk_elem(v, e[1], st)
        if k == 's':
            return mk_sub(v, e[1])
        if k == 'k':
            return mget(v, e[1], st)
        if k == 'mk':
            return T('mkey', v, e[1])
        if k == 'mv':
            return T('mval', v, e[1])
        return top('proj')

    def read(self, st, obj, proj):
        v = self.obj_val(st, obj)
        for e in proj:
            v = self.proj_val(st, v, e)
        return v

    def expand(self, st, v, variant=None):
        """a symbolic struct as an explicit one, if its type is known"""
        ty = TERM_TY.get(v)
        if ty is None:
            return v
        prog, t = ty
        t = prog.t(t)
        if t['k'] == 'tuple':
            return T('tup', *[self.typed(T('fld', v, i), prog, x) for i, x in enumerate(t['ts'])])
        if t['k'] == 'adt':
            a = prog.adts.get(t['def'])
            if a is None:
                return v
            vs = a['variants']
            if variant is None:
                if a['kind'] != 'struct':
                    return v
                variant = 0
                mk = lambda i: T('fld', v, i)
            elif a['kind'] == 'struct':
                mk = lambda i: T('fld', v, i)
            else:
                mk = lambda i: T('vf', v, variant, i)
            n = len(vs[variant]['fields'])
            ARITY[(t['def'], variant)] = n
            return T('adt', t['def'], variant, *[mk(i) for i in range(n)])
        return v

    def typed(self, v, prog, ty):
        if v.op in ('sym', 'fld', 'vf', 'deref', 'elem', 'app', 'mget', 'mval', 'mkey', 'merged', 'ok', 'phi') and ty is not None:
            if v not in TERM_TY:
                TERM_TY[v] = (prog, ty)
        return v

    def set_in(self, st, v, proj, new):
        if not proj:
            return new
        e, rest = proj[0], proj[1:]
        k = e[0]
        if k == 'v':
            if v.op not in ('adt', 'dc'):
                w = self.expand(st, v, e[1])
                if w is v:
                    w = T('dc', v, e[1])
                v = w
            return self.set_in(st, v, rest, new)
        if k == 'f':
            i = e[1]
            if v.op not in ('tup', 'adt', 'clo'):
                v = self.expand(st, v)
            inner = self.set_in(st, self.proj_val(st, v, e), rest, new)
            if v.op == 'tup' and i < len(v.a):
                return T('tup', *(v.a[:i] + (inner,) + v.a[i + 1:]))
            if v.op == 'adt' and 2 + i < len(v.a):
                return adt(*(v.a[:2 + i] + (inner,) + v.a[3 + i:]))
            if v.op == 'clo' and 1 + i < len(v.a):
                return T('clo', *(v.a[:1 + i] + (inner,) + v.a[2 + i:]))
            base = v
            over = {}
            while base.op == 'setf':
                over.setdefault(base.a[1], base.a[2])
                base = base.a[0]
            over[i] = inner
            r = base
            for j in sorted(over):
                if over[j].op == 'fld' and over[j].a == (base, j):
                    continue
                r = T('setf', r, j, over[j])
            return r
        if k == 'i':
            inner = self.set_in(st, self.proj_val(st, v, e), rest, new)
            return mk_upd(v, e[1], inner, st)
        if k == 's':
            b = sub_bounds(v, e[1])
            inner = self.set_in(st, self.proj_val(st, v, e), rest, new)
            if b is None or inner.op != 'arr' or len(inner.a) != b[1] - b[0]:
                return top('part of a sequence written')
            return T('arr', *(v.a[:b[0]] + inner.a + v.a[b[1]:]))
        if k == 'k':
            inner = self.set_in(st, self.proj_val(st, v, e), rest, new)
            return mk_mins(v, e[1], inner)
        if k == 'mv':
            inner = self.set_in(st, self.proj_val(st, v, e), rest, new)
            if v.op == 'mupd' and v.a[1] is e[1]:
                v = v.a[0]
            if inner.op == 'mval' and inner.a[0] is v and inner.a[1] is e[1]:
                return v
            return T('mupd', v, e[1], inner)
        return top('write')

    def write(self, st, obj, proj, new):
        if obj[0] == 'C':
            return
        if not proj:
            st.mem[obj] = new
            return
        st.mem[obj] = self.set_in(st, self.obj_val(st, obj), proj, new)

    # ---------------------------------------------------------------- places and operands
    def place(self, st, fr, p):
        prog = fr.prog
        obj = ('L', fr.fid, p[0])
        proj = ()
        ty = fr.body.locals[p[0]]
        for e in p[1:]:
            k = e[0]
            t = prog.t(ty) if ty is not None else {'k': 'other'}
            if k == '*':
                if t['k'] == 'adt' and t['def'].endswith('Box'):
                    v = self.read(st, obj, proj)
                    if v.op == 'boxalias':
                        obj, proj = v.a
                    ty = t['args'][0]
                    continue
                v = self.read(st, obj, proj)
                if v.op == 'ref':
                    obj, proj = v.a
                elif v.op in ('str', 'bytes', 'arr'):
                    obj, proj = ('C', v), ()
                else:
                    obj, proj = ('P', v), ()
                ty = t.get('t') if t['k'] in ('ref', 'ptr') else None
                if obj[0] == 'P' and ty is not None and not proj and obj not in st.mem:
                    self.typed(self.obj_val(st, obj), prog, ty)
            elif k == 'f':
                if t['k'] == 'adt' and last_seg(t['def']) in TRANSPARENT and not (t['def'].endswith('Arc')):
                    ty = e[2]
                    continue
                proj = proj + (('f', e[1]),)
                ty = e[2]
            elif k == 'v':
                proj = proj + (('v', e[1]),)
            elif k == 'i':
                i = st.simp(self.read(st, ('L', fr.fid, e[1]), ()))
                proj = proj + (('i', i),)
                ty = t.get('t')
            elif k == 'c':
                if e[2]:
                    i = sub(mk_len(self.read(st, obj, proj)), I(e[1]))
                else:
                    i = I(e[1])
                proj = proj + (('i', i),)
                ty = t.get('t')
            else:
                proj = proj + (('?',),)
                ty = None
        return obj, proj, ty

    def operand(self, st, fr, o):
        k = o[0]
        if k in ('copy', 'move'):
            obj, proj, ty = self.place(st, fr, o[1])
            v = self.read(st, obj, proj)
            self.typed(v, fr.prog, ty)
            return v
        if k == 'const':
            return self.const(st, fr, o[1])
        return FALSE   # runtime checks

    def operand_ty(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.place_ty(fr, o[1])
        if o[0] == 'const':
            return o[1]['ty']
        return None

    def place_ty(self, fr, p):
        ty = fr.body.locals[p[0]]
        prog = fr.prog
        for e in p[1:]:
            t = prog.t(ty) if ty is not None else {'k': 'other'}
            if e[0] == '*':
                ty = t['args'][0] if t['k'] == 'adt' else t.get('t')
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = t.get('t')
            elif e[0] == 'v':
                pass
            else:
                ty = None
        return ty

    def const(self, st, fr, c):
        k = c['k']
        prog = fr.prog
        t = prog.t(c['ty'])
        if k == 'int':
            v = int(c['v'])
            if t['k'] == 'adt':
                a = prog.adts.get(t['def'])
                if a and a['kind'] == 'enum':
                    for i, x in enumerate(a['variants']):
                        if int(x['discr']) == v and not x['fields']:
                            ARITY[(t['def'], i)] = 0
                            return adt(t['def'], i)
                return T('app', 'constadt', prog.tname(c['ty']), I(v))
            return I(v)
        if k == 'fn':
            return T('fn', prog.crate, c['ty'])
        if 'str' in c:
            return T('str', c['str'])
        if 'bytes' in c:
            return T('bytes', tuple(c['bytes']))
        if k == 'zst':
            if t['k'] == 'closure':
                return T('clo', (prog.crate, c['ty']))
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'adt':
                ARITY[(t['def'], 0)] = 0
                return adt(t['def'], 0)
            if t['k'] == 'fndef':
                return T('fn', prog.crate, c['ty'])
            return T('app', 'zst', prog.tname(c['ty']))
        if c.get('body') is not None and c['body'] in prog.bodies:
            return self.const_body(st, fr, prog.bodies[c['body']], c)
        if 'name' in c:
            args = tuple(prog.tname(a) for a in c.get('args', []))
            if args and args[0] == 'Self' and fr.selfname:
                args = (fr.selfname,) + args[1:]
            if c['name'] == 'WIRE_TYPE' and args and WIRE_OF:
                return self.typed(WIRE_OF[0](args[0]), prog, c['ty'])
            owner = c['trait'].split('::')[-1] if 'trait' in c else ''
            return self.typed(T('app', 'const', owner + '::' + c['name'], *args), prog, c['ty'])
        if k == 'ty':
            return T('app', 'constparam', c['s'])
        return T('top', 'const')

    def const_body(self, st, fr, body, c):
        h = self.hooks.get('const')
        if h:
            r = h(self, st, fr, body, c)
            if r is not None:
                return r
        cache = self.__dict__.setdefault('_const', {})
        key = (body.prog.crate, body.id)
        if key in cache:
            return cache[key]
        if body.id in [b.id for b in fr.stack if b.prog is body.prog] or len(fr.stack) > 40:
            return T('app', 'const', body.sig())
        s = State()
        try:
            outs = self.exec(s, body, [], fr.depth + 1, fr.stack)
        except Unknown:
            outs = []
        r = None
        if len(outs) == 1 and outs[0][0] == 'ret':
            r = self.freeze(outs[0][1], outs[0][2])
        if r is None:
            r = T('top', 'const')
        cache[key] = r
        return r

    def freeze(self, st, v, n=0):
        """makes a value self-contained: references to memory of `st` become references to constants"""
        if n > 60:
            return top('deep')
        if v.op == 'ref':
            if v.a[0][0] in ('L', 'H'):
                return cref(self.freeze(st, self.load(st, v), n + 1))
            return v
        if v.op in ('adt', 'tup', 'arr', 'clo', 'app', 'push'):
            return T(v.op, *[self.freeze(st, x, n + 1) if isinstance(x, Term) else x for x in v.a])
        return v

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, fr, r, dest_ty):
        k = r[0]
        if k == 'use':
            if r[1][0] == 'copy' and dest_ty is not None:
                # a box is not Copy: this is the compiler's own copy of the pointer, made to reach what it owns
                t = fr.prog.t(dest_ty)
                if t['k'] == 'adt' and last_seg(t['def']) == 'Box':
                    obj, proj, ty = self.place(st, fr, r[1][1])
                    v = self.read(st, obj, proj)
                    inner = fr.prog.t(t['args'][0])['k']
                    if v.op == 'boxalias' or v.op == 'ref' and inner not in ('ref', 'ptr'):
                        return v
                    return T('boxalias', obj, proj)
            return self.operand(st, fr, r[1])
        if k == 'ref':
            obj, proj, ty = self.place(st, fr, r[1])
            if obj[0] == 'C' and not proj and obj[1].op in ('str', 'bytes'):
                return obj[1]
            return ref(obj, proj)
        if k == 'cast':
            return self.cast(st, fr, r)
        if k == 'bin':
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), r[4])
        if k == 'un':
            v = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if fr.prog.t(r[3])['k'] == 'bool':
                    return NOT(v)
                v = st.simp(v)
                if v.op == 'bits':
                    return BITS['unop']('Not', v, fr.prog.t(r[3])['n'])
                n = self.INTS.get(fr.prog.t(r[3]).get('n'))
                if v.op == 'int' and n:
                    return I(~v.a[0] if n[1] else ~v.a[0] & (1 << n[0]) - 1)
                return T('app', 'BitNot', v)
            if r[1] == 'Neg':
                v = st.simp(v)
                if v.op == 'bits':
                    return BITS['unop']('Neg', v, fr.prog.t(r[3])['n'])
                return sub(I(0), v)
            if r[1] == 'PtrMetadata':
                return mk_len(self.load(st, v))
            return top('un')
        if k == 'discr':
            obj, proj, ty = self.place(st, fr, r[1])
            v = self.read(st, obj, proj)
            return self.discr(st, v, fr.prog, r[2])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r[4]]
            if r[1] == 'tuple':
                return T('tup', *ops)
            if r[1] == 'array':
                return T('arr', *ops)
            if r[1] == 'adt':
                t = fr.prog.t(r[2]) if r[2] is not None else None
                if t is None:
                    return top('agg')
                if last_seg(t['def']) in TRANSPARENT:
                    return ops[0] if ops else top('agg')
                ARITY[(t['def'], r[3])] = len(ops)
                return adt(t['def'], r[3], *ops)
            if r[1] == 'closure':
                return T('clo', (fr.prog.crate, r[2]), *ops)
            if r[1] == 'rawptr':
                return ops[0]
            return top('agg')
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            if r[2] is None or r[2] == 'null':
                return T('repeat', v, T('app', 'arraylen'))
            n = int(r[2])
            if n <= 16:
                return T('arr', *([v] * n))
            return T('repeat', v, I(n))
        return top('rvalue ' + k)

    def discr(self, st, v, prog=None, ty=None):
        if v.op == 'adt':
            a = None
            if prog is not None and ty is not None:
                a = prog.adt_of(ty)
            if a and v.a[1] < len(a['variants']):
                return I(int(a['variants'][v.a[1]]['discr']))
            return I(v.a[1])
        if v.op == 'setf' or v.op == 'dc':
            return self.discr(st, v.a[0], prog, ty)
        if prog is not None and ty is not None:
            self.typed(v, prog, ty)
        return T('discr', v)

    INTS = {'u8': (8, 0), 'u16': (16, 0), 'u32': (32, 0), 'u64': (64, 0), 'usize': (64, 0), 'u128': (128, 0),
            'i8': (8, 1), 'i16': (16, 1), 'i32': (32, 1), 'i64': (64, 1), 'isize': (64, 1), 'i128': (128, 1)}

    def cast(self, st, fr, r):
        kind = r[1]
        prog = fr.prog
        if 'Transmute' in kind or 'PtrToPtr' in kind:
            o = r[2]
            if o[0] in ('copy', 'move'):
                bt = self.box_place(fr, o[1])
                if bt is not None:
                    obj, proj, ty = self.place(st, fr, bt)
                    v = self.read(st, obj, proj)
                    bx = prog.t(ty) if ty is not None else {}
                    if v.op == 'ref' and bx.get('args') and prog.t(bx['args'][0])['k'] not in ('ref', 'ptr'):
                        return v
                    return ref(*v.a) if v.op == 'boxalias' else ref(obj, proj)
        v = self.operand(st, fr, r[2])
        if kind == 'IntToInt':
            ft, tt = prog.t(r[4]), prog.t(r[3])
            fn = ft.get('n', ft['k'])
            tn = tt.get('n', tt['k'])
            if fn == 'bool' or fn == 'char':
                return v
            f, t = self.INTS.get(fn), self.INTS.get(tn)
            if v.op == 'bits' and t:
                return BITS['cast'](v, tn)
            if v.op == 'int' and t:
                x = v.a[0] & ((1 << t[0]) - 1)
                if t[1] and x >> (t[0] - 1):
                    x -= 1 << t[0]
                return I(x)
            if f and t:
                if f[0] <= t[0] and (not f[1] or t[1]):
                    return v
                if fn == 'usize':
                    if tn in ('u32', 'i32', 'u64', 'i64'):
                        return v
                if fn in ('u64',) and tn in ('usize',):
                    return v
                return T('app', 'trunc', tn if not f[1] else tn + ' from signed', v)
            return v
        if 'Float' in kind:
            return T('app', 'cast', kind, v)
        return v

    def box_place(self, fr, p):
        """place of the box whose pointer field the projection ends in"""
        ty = fr.body.locals[p[0]]
        prog = fr.prog
        for n, e in enumerate(p[1:]):
            t = prog.t(ty) if ty is not None else {'k': 'other'}
            if t['k'] == 'adt' and last_seg(t['def']) == 'Box' and e[0] == 'f':
                return p[:n + 1]
            if e[0] == '*':
                ty = t['args'][0] if t['k'] == 'adt' else t.get('t')
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] in ('i', 'c'):
                ty = t.get('t')
        return None

    def high_bits(self, a, b, t):
        """`x >> k == 0` and `x & !(2^k - 1) == 0` as x < 2^k, for unsigned x"""
        w = self.INTS.get(t.get('n'))
        if b is not I(0) or a.op != 'app' or w is None or w[1] or w[0] < 16:
            return None
        if a.a[0] == 'Shr' and a.a[2].op == 'int' and 0 < a.a[2].a[0] < w[0]:
            return LT(a.a[1], I(1 << a.a[2].a[0]))
        if a.a[0] == 'BitAnd':
            for x, m in (a.a[1:], a.a[:0:-1]):
                if m.op == 'int' and m.a[0] > 0:
                    low = (1 << w[0]) - m.a[0]
                    if low & (low - 1) == 0 and 0 < low < 1 << w[0]:
                        return LT(x, I(low))
        return None

    def binop(self, st, fr, op, a, b, ty):
        a, b = st.simp(a), st.simp(b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        r = None
        t = fr.prog.t(ty) if ty is not None else {'k': 'int', 'n': 'u64'}
        if a.op == 'bits' or b.op == 'bits':
            r = BITS['binop'](op, a, b, t.get('n'))
            if r is not None:
                return r
        if base == 'Add':
            r = add(a, b)
        elif base == 'Sub':
            r = sub(a, b)
        elif base == 'Mul':
            r = mul(a, b)
        elif base in ('Eq', 'Ne'):
            c = self.high_bits(a, b, t) or self.high_bits(b, a, t) or EQ(a, b)
            return c if base == 'Eq' else NOT(c)
        elif base in ('Lt', 'Le', 'Gt', 'Ge'):
            # as lo < hi or not (lo < hi)
            lo, hi = (a, b) if base in ('Lt', 'Ge') else (b, a)
            w = self.INTS.get(t.get('n')) if t['k'] in ('int', 'uint') or 'n' in t else None
            if w is not None and not w[1]:
                if hi.op == 'int' and hi.a[0] <= 0:
                    r = FALSE
                elif lo.op == 'int' and lo.a[0] >= (1 << w[0]) - 1 and w[0] < 64:
                    r = FALSE
                elif lo.op == 'int' and lo.a[0] == 0:
                    r = NOT(EQ(hi, I(0)))
                elif hi.op == 'int' and hi.a[0] == 1:
                    r = EQ(lo, I(0))
            if r is None:
                r = LT(lo, hi)
            return r if base in ('Lt', 'Gt') else NOT(r)
        elif base in ('BitAnd', 'BitOr', 'BitXor') and t['k'] == 'bool':
            if base == 'BitAnd':
                return AND(a, b)
            if base == 'BitOr':
                return OR(a, b)
            return EQ(a, NOT(b)) if is_cond(b) else NOT(EQ(a, b))
        elif a.op == 'int' and b.op == 'int':
            x, y = a.a[0], b.a[0]
            try:
                v = {'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y,
                     'Shl': lambda: x << y, 'Shr': lambda: x >> y, 'Div': lambda: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                     'Rem': lambda: x % y}.get(base, lambda: None)()
            except (ZeroDivisionError, ValueError):
                v = None
            if v is not None:
                n = self.INTS.get(t.get('n'))
                if n:
                    v &= (1 << n[0]) - 1
                    if n[1] and v >> (n[0] - 1):
                        v -= 1 << n[0]
                r = I(v)
        if r is None:
            r = T('app', base, a, b)
        if op.endswith('WithOverflow'):
            n = self.INTS.get(t.get('n'), (64, 0))
            if r.op == 'int':
                lo, hi = (-(1 << n[0] - 1), (1 << n[0] - 1) - 1) if n[1] else (0, (1 << n[0]) - 1)
                return T('tup', r, I(not lo <= r.a[0] <= hi))
            if base == 'Sub' and not n[1]:
                return T('tup', r, LT(a, b))
            return T('tup', r, T('bvar', 'overflow', base, t.get('n', ''), a, b))
        return r

    # ---------------------------------------------------------------- control
    def fork(self, st, cond):
        """[(state, truth)] for a condition"""
        d = st.decide(cond)
        if d is not None:
            return [(st, d)]
        out = []
        a = st.copy()
        if a.assume(cond, True):
            out.append((a, True))
        if st.assume(cond, False):
            out.append((st, False))
        return out

    def run(self, body, args, st=None, selfname=None):
        """all outcomes of a function: [(kind, state, value)]; selfname: what Self is, in a provided trait method"""
        st = st or State()
        return self.exec(st, body, args, 0, (), selfname)

    def exec(self, st, body, args, depth, stack, selfname=None):
        if depth > self.max_depth:
            raise Budget('call depth')
        self.nfid += 1
        fr = Frame(self.nfid, body, depth, stack + (body,))
        fr.selfname = selfname
        self.functions.add(body.sig())
        if body.spread:
            n = body.spread - 1
            tupv = T('tup', *args[n:]) if len(args) != body.argc or True else args[n]
            args = args[:n] + [tupv]
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a
            if i + 1 < len(body.locals):
                self.typed(a, body.prog, body.locals[i + 1])
        res = self.region(st, fr, 0, None, None)
        out = []
        for r in res:
            if r[0] == 'ret':
                s = r[1]
                v = self.read(s, ('L', fr.fid, 0), ())
                out.append(('ret', s, v))
            elif r[0] == 'panic':
                out.append(r)
        if len(out) > self.max_paths:
            raise Budget('paths')
        return out

    def region(self, st, fr, bb, inside, head):
        """runs from block bb; results: ('ret',st) ('panic',st,info) ('back',st) ('exit',st,bb)"""
        work = [(st, bb, True)]
        out = []
        loops = fr.body.loops()
        while work:
            st, bb, first = work.pop()
            if inside is not None:
                if bb == head and not first:
                    out.append(('back', st))
                    continue
                if bb not in inside:
                    out.append(('exit', st, bb))
                    continue
            if bb in loops and not (first and bb == head):
                for r in self.loop(st, fr, bb):
                    if r[0] == 'exit':
                        work.append((r[1], r[2], False))
                    else:
                        out.append(r)
                if len(out) + len(work) > self.max_paths:
                    raise Budget('paths')
                continue
            self.steps += 1
            if self.steps > self.budget:
                raise Budget('steps')
            blk = fr.body.blocks[bb]
            for s in blk['st']:
                if s[0] == '=':
                    dty = self.place_ty(fr, s[1])
                    v = self.rvalue(st, fr, s[2], dty)
                    self.assign(st, fr, s[1], v, s[3])
                elif s[0] == 'setdiscr':
                    obj, proj, ty = self.place(st, fr, s[1])
                    self.write(st, obj, proj, top('setdiscr'))
            t = blk['term']
            k = t['k']
            if k == 'goto':
                work.append((st, t['t'], False))
            elif k == 'return':
                out.append(('ret', st))
            elif k == 'switch':
                for s2, b2 in self.switch(st, fr, t):
                    work.append((s2, b2, False))
            elif k == 'call':
                for r in self.do_call(st, fr, t):
                    if r[0] == 'ret':
                        if t['t'] is None:
                            continue
                        self.typed(r[2], fr.prog, t['dty'])
                        self.assign(r[1], fr, t['d'], r[2], t['sp'])
                        work.append((r[1], t['t'], False))
                    else:
                        out.append(r)
            elif k == 'assert':
                for r in self.do_assert(st, fr, t):
                    if r[0] == 'go':
                        work.append((r[1], t['t'], False))
                    else:
                        out.append(r)
            elif k == 'drop':
                for r in self.do_drop(st, fr, t):
                    if r[0] == 'ret':
                        work.append((r[1], t['t'], False))
                    else:
                        out.append(r)
            elif k in ('unreachable', 'cleanup'):
                pass
            else:
                raise Unknown('terminator ' + k)
            if len(out) + len(work) > self.max_paths:
                raise Budget('paths')
        return out

    def assign(self, st, fr, p, v, sp):
        obj, proj, ty = self.place(st, fr, p)
        self.typed(v, fr.prog, ty)
        self.write(st, obj, proj, v)
        h = self.hooks.get('write')
        if h and obj[0] == 'P':
            h(self, st, obj, proj, v, sp)

    def switch(self, st, fr, t):
        v = st.simp(self.operand(st, fr, t['d']))
        isb = fr.prog.t(t['ty'])['k'] == 'bool'
        if v.op == 'int':
            for c, b in t['v']:
                if int(c) == v.a[0]:
                    return [(st, b)]
            return [(st, t['o'])]
        out = []
        if isb:
            tb = fb = t['o']
            for c, b in t['v']:
                if int(c) == 0:
                    fb = b
                else:
                    tb = b
            c = v if is_cond(v) else EQ(v, I(1))
            if v.op == 'top':
                c = T('bvar', 'top', v, I(self.steps))
            return [(s, tb if d else fb) for s, d in self.fork(st, c)]
        # enumerate the declared discriminants where the type is known
        values = None
        if v.op == 'discr':
            ty = TERM_TY.get(v.a[0])
            if ty:
                a = ty[0].adt_of(ty[1])
                if a:
                    values = [int(x['discr']) for x in a['variants']]
        rest = st
        for c, b in t['v']:
            s = rest.copy()
            if s.assume(EQ(v, I(int(c)))):
                out.append((s, b))
            if not rest.assume(NOT(EQ(v, I(int(c))))):
                rest = None
                break
        if rest is not None:
            if values is not None:
                left = [x for x in values if x not in [int(c) for c, _ in t['v']]]
                if not left:
                    rest = None
                elif len(left) == 1:
                    if not rest.assume(EQ(v, I(left[0]))):
                        rest = None
            if rest is not None:
                out.append((rest, t['o']))
        return out

    def do_assert(self, st, fr, t):
        c = st.simp(self.operand(st, fr, t['c']))
        kind = t['m'][0]
        if kind == 'pointer':
            return [('go', st)]       # alignment and null checks of debug builds on pointers the compiler made
        good = c if t['e'] else NOT(c)
        d = st.decide(good)
        if d is True:
            return [('go', st)]
        if d is False:
            st.emit('assert-fail', kind, good, t['sp'])
            return [('panic', st, ('assert', kind, t['sp'], good))]
        if kind == 'overflow' and t['m'][1] in ('Add', 'Mul'):
            st.emit('oblig', kind, good, t['sp'])
            return [('go', st)]
        if kind == 'other' and (good.top or contains(good, lambda x: x.op == 'sym' and x.a[0] == '__uninit')):
            return [('go', st)]       # alignment and null checks on compiler-made pointers
        if good.top or contains(good, lambda x: x.op == 'bvar' and x.a[0] == 'overflow'):
            st.emit('oblig', kind, good, t['sp'])
            return [('go', st)]
        out = []
        for s, v in self.fork(st, good):
            if v:
                out.append(('go', s))
            else:
                s.emit('assert-fail', kind, good, t['sp'])
                out.append(('panic', s, ('assert', kind, t['sp'], good)))
        return out

    def do_drop(self, st, fr, t):
        ty = fr.prog.t(t['ty'])
        if ty['k'] != 'adt':
            return [('ret', st, UNIT)]
        name = last_seg(ty['def'])
        if name == 'MutexGuard':
            obj, proj, _ = self.place(st, fr, t['p'])
            v = self.read(st, obj, proj)
            self.unlock(st, v, t['sp'])
            return [('ret', st, UNIT)]
        return self.drop_ty(st, fr, t['p'], t['ty'])

    def drop_ty(self, st, fr, p, ty):
        prog = fr.prog
        t = prog.t(ty)
        h = self.hooks.get('drop')
        if h:
            obj, proj, _ = self.place(st, fr, p)
            r = h(self, st, fr, ref(obj, proj), t)
            if r is not None:
                return r
        for i in prog.impls:
            if i.get('trait', '').endswith('Drop') and prog.t(i['self']).get('def') == t['def']:
                for it in i['items']:
                    if it['name'] == 'drop' and it.get('body') in prog.bodies:
                        obj, proj, _ = self.place(st, fr, p)
                        return self.exec(st, prog.bodies[it['body']], [ref(obj, proj)], fr.depth + 1, fr.stack)
        a = prog.adts.get(t['def'])
        # a guard inside a struct
        obj, proj, _ = self.place(st, fr, p)
        v = self.read(st, obj, proj)
        if v.op in ('adt', 'guard'):
            for x in ([v] if v.op == 'guard' else v.a[2:]):
                if isinstance(x, Term) and x.op == 'guard':
                    self.unlock(st, x, None)
        return [('ret', st, UNIT)]

    def unlock(self, st, v, sp):
        if v.op == 'guard':
            st.emit('unlock', v.a[0], sp)

    # ---------------------------------------------------------------- calls
    def do_call(self, st, fr, t):
        self.calls += 1
        args = [self.operand(st, fr, a) for a in t['a']]
        atys = [self.operand_ty(st, fr, a) for a in t['a']]
        if 'f' not in t:
            fv = self.operand(st, fr, t['fo'])
            return self.call_value(st, fr, fv, args, t['dty'], t['sp'])
        return self.call_f(st, fr, t['f'], args, atys, t['dty'], t['sp'], fr.prog)

    def call_f(self, st, fr, f, args, atys, dty, sp, prog):
        c = Call()
        c.ip, c.st, c.fr, c.f, c.args, c.atys, c.dty, c.sp, c.prog = self, st, fr, f, args, atys, dty, sp, prog
        c.key = prog.key(f)
        if f.get('ctor'):
            t = prog.t(dty)
            if t['k'] == 'adt':
                ARITY[(t['def'], f['variant'])] = len(args)
                return c.ret(adt(t['def'], f['variant'], *args))
        h = self.hooks.get(c.key)
        if h:
            r = h(c)
            if r is not None:
                return r
        m = self.models.get(c.key)
        if m:
            r = m(c)
            if r is not None:
                return r
        if f.get('body') is not None and f['body'] in prog.bodies:
            b = prog.bodies[f['body']]
            if sum(x is b for x in fr.stack) > self.max_rec:
                return self.opaque(c, 'recursive')
            if c.key.startswith('Fn') and b.kind == 'Closure':
                return self.call_closure_body(st, fr, b, args[0], self.untuple(args[1]), prog)
            return self.exec(st, b, list(args), fr.depth + 1, fr.stack,
                             c.selfname() if fr.selfname and 'self' in f and prog.tname(f['self']) == 'Self' else None)
        if self.self_impl is not None and fr.selfname and 'self' in f and prog.tname(f['self']) == 'Self':
            b = self.self_impl(fr.selfname, c.key)
            if b is not None and not any(x is b for x in fr.stack):
                return self.exec(st, b, list(args), fr.depth + 1, fr.stack, fr.selfname if b.prog is prog and 'Self' in b.sig() else None)
        h = self.hooks.get('opaque')
        if h:
            r = h(c)
            if r is not None:
                return r
        b = self.provided(c)
        if b is not None:
            return self.exec(st, b, list(args), fr.depth + 1, fr.stack, c.selfname())
        return self.opaque(c)

    def provided(self, c):
        """the provided body of a method of a trait of this crate that has no meaning of its own here and that
        no implementation replaces"""
        if c.key in self.hooks or c.key in self.models or '::' not in c.key or not c.f.get('unresolved'):
            return None
        trait, name = c.key.rsplit('::', 1)
        b = c.prog.trait_default(trait, name)
        if b is None or any(x is b for x in c.fr.stack):
            return None
        for impl in c.prog.impl_items(trait):
            if any(it['name'] == name for it in impl['items']):
                return None
        return b

    def untuple(self, v):
        if v.op == 'tup':
            return list(v.a)
        return [v]

    def call_closure_body(self, st, fr, b, clo, args, prog):
        # the body takes its environment by reference or by value
        t1 = prog.t(b.locals[1])
        if t1['k'] == 'ref':
            if clo.op != 'ref':
                clo = self.heap(st, clo)
            return self.exec(st, b, [clo] + args, fr.depth + 1, fr.stack, self.clo_self(fr, b))
        if clo.op == 'ref':
            clo = self.load(st, clo)
        return self.exec(st, b, [clo] + args, fr.depth + 1, fr.stack, self.clo_self(fr, b))

    def clo_self(self, fr, b):
        """what Self is in a closure written in a provided trait method"""
        return fr.selfname if fr.selfname and fr.body.prog is b.prog and b.path[:len(fr.body.path)] == fr.body.path else None

    def call_value(self, st, fr, fv, args, dty=None, sp=None):
        """calls a function value: closure, function item, or something unknown"""
        v = fv
        n = 0
        while v.op == 'ref' and n < 4:
            inner = self.load(st, v)
            if inner.op in ('clo', 'fn'):
                break
            v = inner
            n += 1
        cv = self.load(st, v) if v.op == 'ref' else v
        if cv.op == 'clo':
            prog = self.progs[cv.a[0][0]]
            t = prog.t(cv.a[0][1])
            b = prog.bodies.get(t.get('body'))
            if b is not None:
                return self.call_closure_body(st, fr, b, v, args, prog)
        if cv.op == 'fn':
            prog = self.progs[cv.a[0]]
            f = prog.t(cv.a[1])['callee']
            b = prog.bodies.get(f.get('body'))
            d = b.locals[0] if b is not None else dty
            if f.get('ctor') and d is None:
                p = f['path'].rsplit('::', 1)[0]
                for dn in prog.adts:
                    if strip(dn) == strip(p) or strip(dn) == strip(f['path']):
                        ARITY[(dn, f['variant'])] = len(args)
                        return [('ret', st, adt(dn, f['variant'], *args))]
            return self.call_f(st, fr, f, args, [None] * len(args), d, sp, prog)
        h = self.hooks.get('callback')
        if h:
            r = h(self, st, cv, args, sp)
            if r is not None:
                return r
        vals = tuple(self.deep(st, a) for a in args)
        cid = st.fresh_id()
        st.emit('callback', cv, vals, sp)
        for a in args:
            if a.op == 'ref' and a.a[0][0] != 'C':
                pass
        return [('ret', st, T('res', 'callback', cv, cid) if True else None)]

    def opaque(self, c, why=None):
        """a function whose body is not analysed: pure in its inputs unless it takes something mutable"""
        st = c.st
        prog = c.prog
        vals = []
        muts = []
        held = set()      # what closures handed over may change
        for i, a in enumerate(c.args):
            ty = c.atys[i]
            t = prog.t(ty) if ty is not None else {'k': 'other'}
            if t['k'] == 'ref' and t.get('mut'):
                muts.append(i)
            vals.append(self.deep(st, a))
            for x in subterms(self.read(st, *a.a) if a.op == 'ref' else a):
                if x.op == 'clo':
                    held |= {y for y in subterms(x) if y.op == 'ref'}
        name = c.key
        if why is not None or not c.f.get('unresolved'):
            UNMODELLED.add(name)
        self.unknown_calls[name] = self.unknown_calls.get(name, 0) + 1
        selfn = prog.tname(c.f['self']) if 'self' in c.f else ''
        if not muts and not held:
            r = T('app', name, selfn, *vals)
            st.emit('pure', name, r, c.sp)
        else:
            cid = st.fresh_id()
            st.emit('opaque', name, selfn, tuple(vals), cid, c.sp)
            for i in muts:
                self.store(st, c.args[i], T('app', name + ':' + str(i), cid, *vals))
            for n, x in enumerate(sorted(held, key=lambda x: x.id)):
                self.store(st, x, T('app', name + ':held', cid, I(n)))
            r = T('res', name, cid)
        dt = prog.t(c.dty) if c.dty is not None else {'k': 'other'}
        if dt['k'] == 'never':
            return [('panic', st, ('call', name, c.sp))]
        if dt['k'] == 'tuple' and not dt['ts']:
            r = UNIT
        if dt['k'] == 'adt' and last_seg(dt['def']) == 'Result':
            return self.fork_result(st, r, prog, dt)
        self.typed(r, prog, c.dty)
        return [('ret', st, r)]

    def fork_result(self, st, r, prog=None, dt=None):
        okv = T('vf', r, 0, 0)
        if dt is not None and prog is not None:
            t = prog.t(dt['args'][0])
            if t['k'] == 'tuple' and not t['ts']:
                okv = UNIT
            else:
                self.typed(okv, prog, dt['args'][0])
        out = []
        for s, d in self.fork(st, EQ(T('discr', r), I(0))):
            out.append(('ret', s, ok(okv) if d else err(T('vf', r, 1, 0))))
        return out

    # ---------------------------------------------------------------- loops
    def loop(self, st, fr, head):
        inside = fr.body.loops()[head]

        def step(s):
            return self.region(s, fr, head, inside, head)
        return self.summarise(st, step, (fr.body.sig(), head))

    def summarise(self, st, step, tag):
        """results of a loop given its step function"""
        # 1. loops over something of known length are unrolled
        acc = []
        cur = st
        if self.concrete_iter(cur):
            for _ in range(80):
                res = step(cur.copy())
                backs = [r for r in res if r[0] == 'back']
                rest = [r for r in res if r[0] != 'back']
                if not backs:
                    return acc + rest
                if len(backs) == 1 and not any(r[0] == 'exit' for r in rest):
                    acc += rest
                    cur = backs[0][1]
                    continue
                break
        if self.unroll:
            # witness mode: the first few iterations, exactly; longer runs are left out
            front = [cur]
            for _ in range(self.unroll):
                nxt = []
                for s in front:
                    for r in step(s.copy()):
                        if r[0] == 'back':
                            nxt.append(r[1])
                        else:
                            acc.append(r)
                front = nxt[:64]
                if not front:
                    break
            if front and self.unroll_exact:
                raise Unknown('more than %d iterations' % self.unroll)
            return acc
        return acc + self.induct(cur, step, tag)

    def concrete_iter(self, st):
        for v in st.mem.values():
            if v.op == 'it' and v.a[0] in ('slice', 'own', 'range', 'enum', 'enumr', 'map', 'rev', 'copied', 'mapiter', 'mapown'):
                n = self.it_len(v)
                if n is not None and st.simp(n).op == 'int' and st.simp(n).a[0] <= 64:
                    return True
        return False

    def it_len(self, v):
        k = v.a[0]
        if k == 'slice' or k == 'mapiter':
            return sub(v.a[4], v.a[3])
        if k == 'own' or k == 'mapown':
            return sub(v.a[3], v.a[2])
        if k == 'range':
            return sub(v.a[2], v.a[1])
        if k in ('enum', 'enumr', 'map', 'rev', 'copied'):
            return self.it_len(v.a[1])
        return None

    def induct(self, st, step, tag):
        self.nloop += 1
        uid = self.nloop
        kap = T('kappa', uid)
        phis = {}          # phi term -> initial value
        keys = {}
        entry = st
        entry_ev, entry_conds = st.ev, st.conds
        objs = list(st.mem)

        def phi(key, init):
            p = keys.get(key)
            if p is None:
                p = T('phi', uid, len(keys))
                keys[key] = p
                phis[p] = init
                if init in TERM_TY:
                    TERM_TY[p] = TERM_TY[init]
            return p

        STRUCT = ('adt', 'tup', 'clo', 'it')

        def au(key, e, bs):
            """template of entry value e and the values bs at the end of an iteration"""
            if all(b is e for b in bs):
                return e
            if e.op in STRUCT and all(b.op == e.op and len(b.a) == len(e.a) for b in bs):
                nontermsame = all(
                    isinstance(x, Term) or all(b.a[i] == x for b in bs) or isinstance(x, tuple)
                    for i, x in enumerate(e.a))
                if nontermsame:
                    out = []
                    good = True
                    for i, x in enumerate(e.a):
                        if isinstance(x, Term):
                            out.append(au(key + (i,), x, [b.a[i] for b in bs]))
                        elif all(b.a[i] == x for b in bs):
                            out.append(x)
                        else:
                            good = False
                    if good:
                        return T(e.op, *out)
            if e.op == 'arr' and len(e.a) <= 16 and all(b.op == 'arr' and len(b.a) == len(e.a) for b in bs):
                return T('arr', *[au(key + (i,), x, [b.a[i] for b in bs]) for i, x in enumerate(e.a)])
            if e.op in ('sym', 'fld', 'deref', 'vf', 'app', 'mget') and all(b.op == 'adt' or b is e for b in bs) and e in TERM_TY:
                x = self.expand(entry, e)
                if x is not e and x.op == 'adt' and all(b is e or b.a[:2] == x.a[:2] for b in bs):
                    return au(key, x, [x if b is e else b for b in bs])
            return phi(key, e)

        resolved = {}

        def head_state():
            s = entry.copy()
            for o in objs:
                if o in template:
                    s.mem[o] = subst(template[o], resolved) if resolved else template[o]
            s.ev = None
            s.conds = None
            s.nev = 0
            s.loops = entry.loops + (kap,)
            return s

        template = {}
        res = None
        for rnd in range(12):
            hs = head_state()
            res = step(hs)
            backs = [r[1] for r in res if r[0] == 'back']
            if not backs:
                break
            changed = False
            for b in backs:
                for o in b.mem:
                    if o not in entry.mem and o[0] == 'P':
                        # first touched inside the loop: it has its original value on entry
                        if contains(o[1], lambda x: x is kap or (x.op == 'id' and kap in x.a)):
                            continue
                        entry.mem[o] = T('deref', o[1])
                        objs.append(o)
            for o in objs:
                e = entry.mem[o]
                bs = [b.mem.get(o, e) for b in backs]
                t = au((o,), e, bs + ([template[o]] if o in template else []))
                if template.get(o, e) is not t:
                    template[o] = t
                    changed = True
            if not changed:
                # try to express phis through the iteration number
                newres = self.solve(phis, resolved, keys, template, backs, entry, kap)
                if not newres:
                    break
                resolved.update(newres)
        else:
            raise Unknown('loop does not stabilise')
        # final: iteration paths, exits
        iters = []
        head = {o: subst(t, resolved) if resolved else t for o, t in template.items()}
        guards = self.guards(res, kap)
        for r in res:
            if r[0] == 'back':
                iters.append(Iteration(tuple(c for c in r[1].cond_list() if c not in guards), tuple(r[1].trace()), r[1], head))
        backs_ = [r[1] for r in res if r[0] == 'back']
        for key, p in keys.items():
            self.phis[p] = (phis[p], self.phi_updates(p, key, backs_, entry), backs_)
        out = []
        accs = self.accumulators(phis, resolved, keys, template, res, entry, kap)
        for r in res:
            if r[0] == 'back':
                continue
            s = r[1]
            conds = s.cond_list()
            tr = s.trace()
            N = self.exit_count(conds, kap, r[0]) if r[0] == 'exit' else None
            s2 = s
            m = {}
            if N is not None:
                m[kap] = N
            for p, fn in accs.items():
                v = fn(N)
                if v is not None:
                    m[p] = v
            # stitch the trace: before the loop, the loop, the last partial iteration
            s2.ev = entry_ev
            s2.nev = entry.nev + 1
            s2.loops = entry.loops
            rec = ('loop', uid, kap, N, tuple(iters), tag)
            if iters or True:
                s2.emit(*rec)
            for e in tr:
                s2.emit(*e)
            c = entry_conds
            for x in conds:
                if N is not None and contains(x, lambda y: y is kap):
                    continue
                c = (c, x)
            s2.conds = c
            if m:
                cache = {}
                for o in list(s2.mem):
                    s2.mem[o] = subst(s2.mem[o], m, cache)
                # facts about this iteration refer to it by number
                if N is not None:
                    s2.eqs = {subst(k, m, cache): subst(v, m, cache) for k, v in s2.eqs.items() if k is not kap}
                    s2.atoms = {subst(k, m, cache): v for k, v in s2.atoms.items()
                                if not contains(k, lambda y: y is kap)}
                    s2.bnd = {k: v for k, v in s2.bnd.items() if not contains(k, lambda y: y is kap)}
                    s2.neq = {k: v for k, v in s2.neq.items() if not contains(k, lambda y: y is kap)}
                s2.ev = self.subst_trace(s2.ev, entry_ev, m, cache)
            out.append((r[0], s2) + tuple(r[2:]))
        return out

    def subst_trace(self, ev, stop, m, cache):
        items = []
        x = ev
        while x is not stop:
            items.append(x[1])
            x = x[0]
        r = stop
        for e in reversed(items):
            if e[0] == 'loop':
                r = (r, e)
            else:
                r = (r, tuple(subst(x, m, cache) if isinstance(x, (Term, tuple)) else x for x in e))
        return r

    def guards(self, res, kap):
        """the conditions that only say that the loop has not ended yet"""
        out = set()
        for r in res:
            if r[0] == 'exit':
                n = self.exit_count(r[1].cond_list(), kap, 'exit')
                if n is not None:
                    out |= {LT(kap, n), NOT(EQ(kap, n)), NOT(LT(n, add(kap, I(1))))}
        return out

    def exit_count(self, conds, kap, kind):
        """the number of completed iterations at an exit by the loop condition, if it has that shape"""
        for c in conds:
            neg = False
            a = c
            if a.op == 'not':
                neg = True
                a = a.a[0]
            if a.op == 'neg':
                co, m = lin_parts(a.a[0])
                k = m.get(kap)
                if k in (1, -1):
                    # neg: co + m < 0 ; exit condition
                    rest = sub(a.a[0], mul(kap, I(k)))
                    if contains(rest, lambda y: y is kap):
                        continue
                    if k == 1 and neg:        # !(kap + rest < 0): kap >= -rest
                        return sub(I(0), rest)
                    if k == -1 and not neg:   # rest - kap < 0: kap > rest
                        return add(rest, I(1))
            if a.op == 'eq' and not neg and a.a[1].op == 'int':
                d = sub(a.a[0], a.a[1])
                co, m = lin_parts(d)
                k = m.get(kap)
                if k in (1, -1):
                    rest = sub(d, mul(kap, I(k)))
                    if contains(rest, lambda y: y is kap):
                        continue
                    return mul(rest, I(-k))
        return None

    def at(self, v, key):
        """subterm at a structural position"""
        for i in key[1:]:
            if not isinstance(v, Term) or i >= len(v.a):
                return None
            v = v.a[i]
        return v

    def phi_updates(self, p, key, backs, entry):
        out = []
        for b in backs:
            v = b.mem.get(key[0], entry.mem[key[0]])
            for i in key[1:]:
                if v.op not in ('adt', 'tup', 'clo', 'it') and v in TERM_TY:
                    v = self.expand(entry, v)
                if i >= len(v.a) or not isinstance(v.a[i], Term):
                    return None
                v = v.a[i]
            out.append(v)
        return out

    def live_phis(self, keys, template, resolved):
        used = set()
        for o, t in template.items():
            for x in subterms(t):
                if x.op == 'phi':
                    used.add(x)
        return {k: p for k, p in keys.items() if p in used and p not in resolved}

    def solve(self, phis, resolved, keys, template, backs, entry, kap):
        new = {}
        live = self.live_phis(keys, template, resolved)
        for key, p in live.items():
            ups = self.phi_updates(p, key, backs, entry)
            if not ups:
                continue
            ds = [sub(u, p) if u.op in ('int', 'lin', 'phi', 'sym', 'fld', 'len', 'app', 'vf') or True else None for u in ups]
            if all(d.op == 'int' for d in ds) and len({d.a[0] for d in ds}) == 1 and not any(u.op in ('adt', 'tup') for u in ups):
                c = ds[0].a[0]
                new[p] = add(phis[p], mul(kap, I(c))) if c else phis[p]
                continue
            if p in PHI_LEN:
                continue
            # collections: length as a function of the iteration number
            lens = []
            for u in ups:
                l = self.rel_len(u, p)
                lens.append(l)
            if lens and all(l is not None for l in lens) and len(set(lens)) == 1:
                PHI_LEN[p] = add(mk_len(phis[p]), mul(kap, I(lens[0])))
                if lens[0] == 0 and all(self.only_upd_at(u, p, kap) for u in ups):
                    init = phis[p]
                    PHI_ELEM[p] = (lambda init, kap: (lambda i: mk_elem(init, i) if i is kap else None))(init, kap)
                new[('len', p)] = True
        r = {k: v for k, v in new.items() if isinstance(k, Term)}
        if not r and any(not isinstance(k, Term) for k in new):
            return {T('sym', '__again%d' % len(PHI_LEN)): UNIT}
        return r

    def rel_len(self, u, p):
        if u is p:
            return 0
        if u.op == 'push':
            r = self.rel_len(u.a[0], p)
            return None if r is None else r + 1
        if u.op in ('upd', 'mapn'):
            return self.rel_len(u.a[0], p)
        if u.op == 'rmlast':
            r = self.rel_len(u.a[0], p)
            return None if r is None else r - 1
        return None

    def only_upd_at(self, u, p, kap):
        if u is p:
            return True
        return u.op == 'upd' and u.a[1] is kap and self.only_upd_at(u.a[0], p, kap)

    def accumulators(self, phis, resolved, keys, template, res, entry, kap):
        """phi -> function giving its final value for a number of iterations (None: not known)"""
        out = {}
        backs = [r[1] for r in res if r[0] == 'back']
        live = self.live_phis(keys, template, resolved)
        lp = set(live.values())
        lvl = len(entry.loops)
        b = BV(lvl)

        def closed(t, allow=()):
            return not contains(t, lambda x: x.op == 'phi' and x in lp and x not in allow)

        for key, p in live.items():
            ups = self.phi_updates(p, key, backs, entry)
            if not ups:
                continue
            init = phis[p]
            ds = [sub(u, p) for u in ups]
            if all(closed(d) for d in ds) and not any(u.op in ('push', 'upd', 'adt', 'tup', 'mins', 'arr') for u in ups):
                # running sum
                gs = self.guards(res, kap)
                cases = tuple(sorted(((self.case(bk, kap, b, gs), subst(d, {kap: b})) for bk, d in zip(backs, ds)),
                                     key=lambda x: (x[1].id, str(x[0]))))
                ts = {c[1] for c in cases}
                if len(ts) == 1:
                    body = ts.pop()
                else:
                    body = T('cases', *[T('case', c[0], c[1]) for c in cases])

                def fsum(N, init=init, body=body):
                    if N is None:
                        return None
                    return add(init, mk_sum(N, b, body))
                out[p] = fsum
                continue
            if all(u is p or (u.op == 'push' and u.a[0] is p and closed(u.a[1])) for u in ups):
                pushes = [u for u in ups if u is not p]
                if len(pushes) == len(ups) and len({u.a[1] for u in pushes}) == 1:
                    x = subst(pushes[0].a[1], {kap: b})

                    def fpush(N, init=init, x=x):
                        if N is None:
                            return T('pushn', init, kap, x, b)
                        return mk_pushn(init, N, x, b)
                    out[p] = fpush
                else:
                    xs = tuple(sorted({subst(u.a[1], {kap: b}) for u in pushes}, key=lambda t: t.id))
                    x = one_of(p, b, xs) if len(pushes) == len(ups) else None
                    if x is not None:
                        # one push in each iteration, of values that agree in part
                        out[p] = lambda N, init=init, x=x: T('pushn', init, kap if N is None else N, x, b)
                        continue
                    out[p] = lambda N, init=init, xs=xs: T('pushsome', init, *xs)
                continue
            if all(u is p or (u.op == 'upd' and u.a[0] is p and u.a[1] is kap) for u in ups) and len(set(ups)) == 1:
                f = ups[0].a[2]
                f = subst(f, {T('elem', p, kap): T('elem', init, kap)})
                if closed(f):
                    f = subst(f, {kap: b})

                    def fmap(N, init=init, f=f):
                        if N is None:
                            return T('mapn', init, kap, f, lvl)
                        return T('mapn', init, N, f, lvl)
                    out[p] = fmap
                continue
            if len(set(ups)) == 1 and ups[0].op == 'mupd' and ups[0].a[0] is p and ups[0].a[1] is kap:
                f = ups[0].a[2]
                f = subst(f, {T('mval', p, kap): T('mval', init, kap), T('mkey', p, kap): T('mkey', init, kap)})
                if closed(f):
                    f = subst(f, {kap: b})
                    out[p] = lambda N, init=init, f=f: T('mmapn', init, kap if N is None else N, f, lvl)
                continue
        return out

    def case(self, s, kap, b, guards=()):
        return tuple(subst(c, {kap: b}) for c in s.cond_list() if c not in guards)


def mk_sum(N, b, body):
    if body.op == 'int':
        return mul(N, body)
    if not contains(body, lambda x: x is b):
        return mul(N, body)
    # sums distribute over addition
    c, m = lin_parts(body)
    if len(m) > 1 or c or (len(m) == 1 and list(m.values())[0] != 1):
        r = mul(N, I(c))
        for k, v in m.items():
            r = add(r, mul(mk_sum(N, b, k), I(v)))
        return r
    return T('sum', N, b, body)


def one_of(p, b, xs):
    """a value built alike in every case: the parts that differ are an unspecified choice"""
    h = xs[0]
    if any(x.op != 'adt' or x.a[:2] != h.a[:2] or len(x.a) != len(h.a) for x in xs):
        return None
    parts = []
    for fs in zip(*[x.a[2:] for x in xs]):
        parts.append(fs[0] if len(set(fs)) == 1 else T('oneof', str(p), b, *sorted(set(fs), key=lambda t: t.id)))
    return T('adt', *h.a[:2], *parts)


def mk_pushn(init, N, x, b):
    # pushing the elements of a collection in order is concatenation with it
    if x.op == 'elem' and x.a[1] is b and not contains(x.a[0], lambda y: y is b) and mk_len(x.a[0]) is N:
        return mk_concat(init, x.a[0])
    return T('pushn', init, N, x, b)


def mk_concat(a, b):
    if a.op == 'arr' and not a.a:
        return b
    if b.op == 'arr' and not b.a:
        return a
    if a.op == 'arr' and b.op == 'arr':
        return T('arr', *(a.a + b.a))
    return T('concat', a, b)


TRANSPARENT = {'Box', 'Arc', 'Rc', 'Unique', 'NonNull', 'BoxRaw', 'Cell', 'ManuallyDrop', 'Wrapping'}


def last_seg(p):
    return p.rsplit('::', 1)[-1]


def strip(p):
    from prog import strip_generics
    return tuple(strip_generics(p)[-2:])


MODELS = {}
import models  # noqa: E402,F401
