"""Interned terms: the value-numbering domain of the analysis.

A term is an operator with arguments; equal terms are the same object.  Integers are treated as
mathematical integers (sums are kept in linear normal form); wrap-around is the business of the
bit-level domain in bits.py."""


class Term:
    __slots__ = ('op', 'a', 'id', 'top', '__weakref__')

    def __repr__(self):
        return show(self)


_tab = {}


def T(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op
        t.a = a
        t.id = len(_tab)
        t.top = op in ('top', 'phi') or any(isinstance(x, Term) and x.top for x in a) or (
            op == 'lin' and any(x.top for x, _ in a[1])) or (
            op == 'with' and any(v.top for _, v in a[1]))
        _tab[k] = t
    return t


def I(v):
    return T('int', int(v))


TRUE = I(1)
FALSE = I(0)
UNIT = T('tup')


def sym(name):
    return T('sym', name)


def top(why):
    return T('top', why)


def is_int(t):
    return t.op == 'int'


def tup(*a):
    return T('tup', *a)


BASE_ADT = {}       # values known to be of a type


def adt(d, v, *fields):
    # eta: a struct rebuilt from all the fields of one value is that value
    if fields:
        b = None
        ok = True
        for i, f in enumerate(fields):
            if f.op == 'fld' and f.a[1] == i and v == 0:
                base = f.a[0]
            elif f.op == 'vf' and f.a[2] == i and f.a[1] == v:
                base = f.a[0]
            else:
                ok = False
                break
            if b is None:
                b = (base, f.op)
            elif b != (base, f.op):
                ok = False
                break
        if ok and ARITY.get((d, v)) == len(fields) and BASE_ADT.get(b[0], d) == d:
            return b[0]
    return T('adt', d, v, *fields)


ARITY = {}


# ---------------------------------------------------------------- linear arithmetic

def lin_parts(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def lin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return T('lin', c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))


def add(a, b, s=1):
    c1, d1 = lin_parts(a)
    c2, d2 = lin_parts(b)
    for k, v in d2.items():
        d1[k] = d1.get(k, 0) + s * v
    return lin(c1 + s * c2, d1)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    if a.op == 'int':
        a, b = b, a
    if b.op == 'int':
        c, d = lin_parts(a)
        n = b.a[0]
        return lin(c * n, {k: v * n for k, v in d.items()})
    return T('app', 'Mul', *sorted((a, b), key=lambda x: x.id))


# ---------------------------------------------------------------- conditions

def NOT(c):
    if c.op == 'int':
        return I(1 - c.a[0])
    if c.op == 'not':
        return c.a[0]
    return T('not', c)


BOOLISH = ('eq', 'neg', 'not', 'band', 'bor', 'bvar')


BITS_CMP = []      # comparison of bit vectors (bits.py)


WIDTHS = {'u8': 1 << 8, 'u16': 1 << 16, 'u32': 1 << 32, 'u64': 1 << 64}


def EQ(a, b):
    if a is b:
        return TRUE
    if a.op == 'bits' or b.op == 'bits':
        r = BITS_CMP[0]('eq', a, b)
        if r is not None:
            return r
    if a.op == 'int' and b.op == 'int':
        return I(a.a[0] == b.a[0])
    for x, y in ((a, b), (b, a)):
        if y.op == 'int' and is_cond(x) and y.a[0] in (0, 1):
            return x if y.a[0] else NOT(x)
    if a.op in ('adt', 'tup', 'clo', 'ref', 'str') or b.op in ('adt', 'tup', 'clo', 'ref', 'str'):
        if a.op == b.op == 'adt' and a.a[0] == b.a[0] and a.a[1] != b.a[1]:
            return FALSE
        if a.op == b.op == 'adt' and a.a[:2] == b.a[:2]:
            r = TRUE
            for x, y in zip(a.a[2:], b.a[2:]):
                r = AND(r, EQ(x, y))
            return r
        if a.op == b.op == 'str':
            return FALSE
        x, y = sorted((a, b), key=lambda x: x.id)
        return T('eq', x, y)
    for x, y in ((a, b), (b, a)):
        # an unsigned number is equal to what is left of it exactly when it fits
        if x.op == 'app' and x.a[0] == 'trunc' and len(x.a) == 3 and x.a[2] is y and x.a[1] in WIDTHS:
            return LT(y, I(WIDTHS[x.a[1]]))
        # a wire type is one of two: keep a single spelling of the test
        if y.op == 'int' and x.op == 'discr' and x.a[0].op == 'app' and (
                x.a[0].a[0] == 'WT' or x.a[0].a[:2] == ('const', 'HasWireType::WIRE_TYPE')):
            if y.a[0] == 2:
                return NOT(EQ(x, I(0)))
            if y.a[0] != 0:
                return FALSE
    d = sub(a, b)
    if d.op == 'int':
        return I(d.a[0] == 0)
    c, m = lin_parts(d)
    lead = min(m, key=lambda k: k.id)
    if m[lead] < 0:
        d = sub(I(0), d)
        c, m = lin_parts(d)
    if len(m) == 1 and m[lead] == 1:
        if c > 0 and nonneg(lead):
            return FALSE
        return T('eq', lead, I(-c))
    if c > 0 and all(v > 0 and nonneg(k) for k, v in m.items()):
        return FALSE
    return T('eq', d, I(0))


def nonneg(t):
    return t.op in ('len', 'kappa', 'usz', 'sum') or (t.op == 'app' and t.a[0] in ('SZ', 'SIZE', 'Mod', 'VARINT')) or (
        t.op == 'lin' and t.a[0] >= 0 and all(v > 0 and nonneg(k) for k, v in t.a[1])) or (
        t.op == 'app' and t.a[0] == 'BitAnd' and any(isinstance(x, Term) and x.op == 'int' and x.a[0] >= 0 for x in t.a[1:])
    ) or (
        t.op == 'int' and t.a[0] >= 0) or t in UNSIGNED


UNSIGNED = set()


def LT(a, b):
    if a.op == 'bits' or b.op == 'bits':
        r = BITS_CMP[0]('lt', a, b)
        if r is not None:
            return r
    d = sub(a, b)
    if d.op == 'int':
        return I(d.a[0] < 0)
    c, m = lin_parts(d)
    if c >= 0 and all(v > 0 and nonneg(k) for k, v in m.items()):
        return FALSE
    if c < 0 and all(v < 0 and nonneg(k) for k, v in m.items()):
        return TRUE
    if len(m) == 1:
        (k, v), = m.items()
        if nonneg(k):
            # 0 < k  is  k != 0 ;  k < 1  is  k == 0
            if v == -1 and c == 0:
                return NOT(EQ(k, I(0)))
            if v == 1 and c == -1:
                return EQ(k, I(0))
    # canonical orientation: lead coefficient positive; a<b otherwise not(b<a+1)
    lead = min(m, key=lambda k: k.id)
    if m[lead] < 0:
        # d < 0  <=>  not (-d - 1 < 0)
        return NOT(T('neg', sub(I(-1), d)))
    return T('neg', d)


def LE(a, b):
    return NOT(LT(b, a))


def AND(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return T('band', *sorted((a, b), key=lambda x: x.id))


def OR(a, b):
    return NOT(AND(NOT(a), NOT(b)))


def is_cond(t):
    return t.op in BOOLISH


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 12:
        return '…'
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == 'int':
        return str(a[0])
    if o == 'sym':
        return a[0]
    if o == 'str':
        return repr(a[0])
    if o == 'deref':
        return '*' + s(a[0])
    if o == 'fld':
        return '%s.%s' % (s(a[0]), a[1])
    if o == 'vf':
        return '%s#%s.%s' % (s(a[0]), a[1], a[2])
    if o == 'dc':
        return '%s#%s' % (s(a[0]), a[1])
    if o == 'lin':
        r = []
        for k, v in a[1]:
            r.append(('' if v == 1 else '-' if v == -1 else '%d*' % v) + s(k))
        if a[0] or not r:
            r.append(str(a[0]))
        return '(' + ' + '.join(r) + ')'
    if o == 'adt':
        n = a[0].split('::')[-1]
        return '%s:%d{%s}' % (n, a[1], ', '.join(s(x) for x in a[2:]))
    if o == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'app':
        return '%s(%s)' % (a[0], ', '.join(s(x) for x in a[1:]))
    if o == 'eq':
        return '%s==%s' % (s(a[0]), s(a[1]))
    if o == 'neg':
        return '%s<0' % s(a[0])
    if o == 'not':
        return '!(%s)' % s(a[0])
    if o == 'ref':
        return '&%s' % show_place(a[0], a[1], d + 1)
    if o == 'with':
        return '%s{%s}' % (s(a[0]), ', '.join('%s:=%s' % (show(k, d + 1), s(v)) for k, v in a[1]))
    if o == 'elem':
        return '%s[%s]' % (s(a[0]), s(a[1]))
    return '%s(%s)' % (o, ', '.join(s(x) for x in a))


def show_place(obj, proj, d=0):
    if obj[0] == 'P':
        r = '*' + show(obj[1], d)
    elif obj[0] == 'L':
        r = 'local_%s_%s' % (obj[1], obj[2])
    else:
        r = 'heap%s' % (obj[1],)
    for e in proj:
        if e[0] == 'f':
            r += '.%d' % e[1]
        elif e[0] == 'v':
            r += '#%d' % e[1]
        elif e[0] == 'i':
            r += '[%s]' % show(e[1], d)
        else:
            r += '.' + str(e)
    return r


def subterms(t, seen=None):
    """All subterms, each once."""
    out = []
    stack = [t]
    seen = set() if seen is None else seen
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, Term) or x in seen:
            continue
        seen.add(x)
        out.append(x)
        stack.extend(x.a)
    return out


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def subst(t, m, cache=None):
    """Replace subterms (rebuilding normal forms)."""
    if cache is None:
        cache = {}
    if isinstance(t, tuple):
        return tuple(subst(x, m, cache) for x in t)
    if not isinstance(t, Term):
        return t
    if t in m:
        return m[t]
    r = cache.get(t)
    if r is not None:
        return r
    o, a = t.op, t.a
    if o in ('int', 'sym', 'str', 'top', 'phi', 'kappa'):
        r = t
    elif o == 'lin':
        r = I(a[0])
        for k, v in a[1]:
            r = add(r, mul(subst(k, m, cache), I(v)))
    else:
        na = tuple(subst(x, m, cache) for x in a)
        if all(x is y for x, y in zip(na, a)):
            r = t
        elif o == 'eq':
            r = EQ(*na)
        elif o == 'neg':
            r = LT(na[0], I(0))
        elif o == 'not':
            r = NOT(na[0])
        elif o == 'band':
            r = AND(*na)
        elif o == 'adt':
            r = adt(*na)
        else:
            r = T(o, *na)
    cache[t] = r
    return r
