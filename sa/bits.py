"""An abstract domain of machine integers as vectors of affine bits.

Every bit is a constant or the exclusive or of some unknown bits of the input (and a constant).  A value whose bits are
all constant is an ordinary integer.  With the input split by the position of its highest significant bit (and by its
sign) the varint code is evaluated exactly for all values of a class at once."""
import terms
from terms import *
from terms import T, I, Term
import engine as E
from engine import Unknown, ok, err, UNIT, some, NONE
import models

INTS = E.Interp.INTS


class Imprecise(Unknown):
    """the domain cannot represent a result; splitting on the unknown `var` would help"""

    def __init__(self, msg, *bits):
        Unknown.__init__(self, msg)
        self.var = None
        for b in bits:
            for v in b[1]:
                if self.var is None or v > self.var:
                    self.var = v


SPLIT = [False]


# a bit: (constant, frozenset of unknowns); constants 0 and 1 are (c, {})
B0, B1 = 0, 1
Z = (0, frozenset())
O = (1, frozenset())


def bx(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1])


def bnot(a):
    return (a[0] ^ 1, a[1])


def band(a, b):
    if a is b or a == b:
        return a
    for x, y in ((a, b), (b, a)):
        if not x[1]:
            return y if x[0] else Z
    if a == bnot(b):
        return Z
    raise Imprecise('and of two unknown bits', a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def enc(v, w):
    """bits of a constant, least significant first"""
    return [O if (v >> i) & 1 else Z for i in range(w)]


def pack(bits, signed):
    """term of a bit vector"""
    if all(not b[1] for b in bits):
        v = sum(b[0] << i for i, b in enumerate(bits))
        if signed and bits[-1][0]:
            v -= 1 << len(bits)
        return I(v)
    return T('bits', signed, tuple((b[0], tuple(sorted(b[1]))) for b in bits))


def unpack(t, w=None, signed=None):
    """bits of a term at width w"""
    if t.op == 'int':
        return enc(t.a[0], w)
    if t.op == 'bits':
        bs = [(c, frozenset(v)) for c, v in t.a[1]]
        s = t.a[0]
    elif is_cond(t):
        raise Imprecise('condition as a number')
    else:
        raise Imprecise('not a bit vector: %s' % t)
    if w is None:
        return bs
    if len(bs) > w:
        return bs[:w]
    return bs + [bs[-1] if s else Z] * (w - len(bs))


def rng(t):
    if t.op == 'int':
        return t.a[0], t.a[0]
    bs = unpack(t)
    w = len(bs)
    lo = hi = 0
    for i, b in enumerate(bs):
        wt = -(1 << i) if (t.a[0] and i == w - 1) else 1 << i
        if not b[1]:
            lo += wt * b[0]
            hi += wt * b[0]
        elif wt > 0:
            hi += wt
        else:
            lo += wt
    return lo, hi


def isb(t):
    return t.op == 'bits'


def eq(a, b):
    if a is b:
        return True
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb or hb < la:
        return False
    w = max(len(unpack(x)) if isb(x) else 1 + max(1, x.a[0].bit_length()) for x in (a, b)) + 1
    for x, y in zip(unpack(a, w), unpack(b, w)):
        d = bx(x, y)
        if not d[1] and d[0]:
            return False
    return None


def lt(a, b):
    la, ha = rng(a)
    lb, hb = rng(b)
    if ha < lb:
        return True
    if la >= hb:
        return False
    return None


def compare(kind, a, b):
    if not all(x.op in ('bits', 'int') for x in (a, b)):
        return None
    d = eq(a, b) if kind == 'eq' else lt(a, b)
    if d is None and SPLIT[0]:
        raise Imprecise('comparison', *[x for t in (a, b) if t.op == 'bits' for x in unpack(t)])
    return None if d is None else I(d)


def split(free, fn, budget=48):
    """evaluate fn(free), a list of bits, splitting on unknown bits as far as the domain requires"""
    work = [list(free)]
    n = 0
    while work:
        f = work.pop()
        n += 1
        try:
            SPLIT[0] = True
            try:
                fn(f)
            finally:
                SPLIT[0] = False
        except Imprecise as e:
            if e.var is None:
                raise
            if n + len(work) >= budget:
                raise Unknown('too many cases: %s' % e)
            for c in (B1, B0):
                work.append([(x[0] ^ c, x[1] - {e.var}) if e.var in x[1] else x for x in f])


terms.BITS_CMP.append(compare)


def addv(x, y, w):
    """sum of two vectors; None for a bit that is not affine"""
    out = []
    c = Z
    for a, b in zip(x, y):
        out.append(bx(bx(a, b), c))
        # carry: majority
        if a == b:
            c = a
        elif a == bnot(b):
            c = c
        elif a == c:
            c = a
        elif b == c:
            c = b
        elif a == bnot(c):
            c = b
        elif b == bnot(c):
            c = a
        else:
            raise Imprecise('carry of unknown bits', a, b, c)
    return out, c


def shift_amount(b):
    if b.op != 'int':
        raise Imprecise('shift by an unknown amount', *(unpack(b) if b.op == 'bits' else ()))
    return b.a[0]


def arith(op, a, b, ty):
    w, signed = INTS[ty]
    x = unpack(a, w)
    if op in ('Shl', 'Shr'):
        n = shift_amount(b)
        if op == 'Shl':
            n %= w
            return pack([Z] * n + x[:w - n], signed)
        n %= w
        return pack(x[n:] + [x[-1] if signed else Z] * n, signed)
    if op in ('BitAnd', 'BitOr', 'BitXor'):
        y = unpack(b, w)
        f = {'BitAnd': band, 'BitOr': bor, 'BitXor': bx}[op]
        return pack([f(p, q) for p, q in zip(x, y)], signed)
    if op == 'Add':
        return pack(addv(x, unpack(b, w), w)[0], signed)
    if op == 'Sub':
        y = [bnot(q) for q in unpack(b, w)]
        r, _ = addv(x, y, w)
        r, _ = addv(r, enc(1, w), w)
        return pack(r, signed)
    if b.op == 'int' and b.a[0] > 0 and b.a[0] & (b.a[0] - 1) == 0 and not signed:
        n = b.a[0].bit_length() - 1
        if op == 'Mul':
            return pack([Z] * n + x[:w - n], signed)
        if op == 'Div':
            return pack(x[n:] + [Z] * n, signed)
        if op == 'Rem':
            return pack(x[:n] + [Z] * (w - n), signed)
    raise Imprecise('%s of bit vectors' % op)


def binop(op, a, b, ty):
    """term of a checked or unchecked operation, or None if it is not about bit vectors"""
    base = op.replace('WithOverflow', '').replace('Unchecked', '')
    if base in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Cmp', 'Offset'):
        return None
    if ty not in INTS:
        return None
    w, signed = INTS[ty]
    r = arith(base, a, b, ty)
    if not op.endswith('WithOverflow'):
        return r
    la, ha = rng(a)
    lb, hb = rng(b)
    lo, hi = {'Add': (la + lb, ha + hb), 'Sub': (la - hb, ha - lb), 'Mul': (min(la * lb, la * hb, ha * lb, ha * hb), max(
        la * lb, la * hb, ha * lb, ha * hb))}[base]
    mn, mx = (-(1 << w - 1), (1 << w - 1) - 1) if signed else (0, (1 << w) - 1)
    if mn <= lo and hi <= mx:
        return T('tup', r, FALSE)
    if hi < mn or lo > mx:
        return T('tup', r, TRUE)
    return T('tup', r, T('bvar', 'overflow', base, ty, a, b))


def unop(op, a, ty):
    if ty not in INTS:
        return None
    w, signed = INTS[ty]
    x = unpack(a, w)
    if op == 'Not':
        return pack([bnot(b) for b in x], signed)
    if op == 'Neg':
        if all(b == Z for b in x[1:]):
            return pack([x[0]] * w, signed)
        r, _ = addv([bnot(b) for b in x], enc(1, w), w)
        return pack(r, signed)
    raise Imprecise(op)


def cast(v, to):
    if to not in INTS:
        return None
    w, signed = INTS[to]
    return pack(unpack(v, w), signed)


E.BITS.update(binop=binop, unop=unop, cast=cast)


# ------------------------------------------------------------------ methods of integers

def _reg(n):
    w, signed = INTS[n]

    def arg(c, i=0):
        v = c.st.simp(c.args[i])
        if v.op == 'ref':
            v = c.st.simp(c.ip.load(c.st, v))
        return v

    def num(f):
        def h(c):
            v = arg(c)
            if v.op not in ('int', 'bits'):
                return c.ip.opaque(c) if n in ('?',) else c.ret(T('app', c.key, *[c.st.simp(x) for x in c.args]))
            return c.ret(f(c, v, unpack(v, w)))
        return h

    def lz(c, v, x):
        for i, b in enumerate(reversed(x)):
            if b[1]:
                raise Imprecise('leading zeros', b)
            if b[0]:
                return I(i)
        return I(w)

    def tz(c, v, x):
        for i, b in enumerate(x):
            if b[1]:
                raise Imprecise('trailing zeros', b)
            if b[0]:
                return I(i)
        return I(w)

    def shl(c, v, x):
        return arith('Shl', v, arg(c, 1), n)

    def shr(c, v, x):
        return arith('Shr', v, arg(c, 1), n)

    def wneg(c, v, x):
        return unop('Neg', v, n)

    def wabs(c, v, x):
        if x[-1][1]:
            raise Imprecise('sign', x[-1])
        return v if not x[-1][0] else unop('Neg', v, n)

    def rotl(c, v, x):
        k = shift_amount(arg(c, 1)) % w
        return pack(x[w - k:] + x[:w - k], signed)

    def rotr(c, v, x):
        k = shift_amount(arg(c, 1)) % w
        return pack(x[k:] + x[:k], signed)

    def lead1(c, v, x):
        return lz(c, v, [bnot(b) for b in x])

    def pop(c, v, x):
        if any(b[1] for b in x):
            raise Imprecise('count of ones', *x)
        return I(sum(b[0] for b in x))

    def neg(c, v, x):
        return I(1) if rng(v)[1] < 0 else I(0) if rng(v)[0] >= 0 else T('bvar', 'neg', v)

    def sat(c, op):
        return None
    for k, f in (('leading_zeros', lz), ('trailing_zeros', tz), ('wrapping_shl', shl), ('wrapping_shr', shr),
                 ('wrapping_neg', wneg), ('wrapping_abs', wabs), ('unsigned_abs', wabs), ('rotate_left', rotl),
                 ('rotate_right', rotr), ('leading_ones', lead1), ('count_ones', pop), ('is_negative', neg)):
        models.MODELS.setdefault('%s::%s' % (n, k), num(f))

    def checked_shift(op):
        def h(c):
            v, k = arg(c), arg(c, 1)
            if k.op == 'int':
                if not 0 <= k.a[0] < w:
                    return c.ret(NONE)
                if v.op in ('int', 'bits'):
                    return c.ret(some(arith(op, v, k, n)))
            return c.ret(T('app', c.key, v, k))
        return h
    models.MODELS.setdefault('%s::checked_shl' % n, checked_shift('Shl'))
    models.MODELS.setdefault('%s::checked_shr' % n, checked_shift('Shr'))


for _n in INTS:
    _reg(_n)
