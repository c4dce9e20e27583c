"""C10: equality and hashing see exactly the user's fields."""
import terms
from lab import *
from r_log import events
from r_replay import split
from terms import EQ, LT, I, NOT

BOOK = ('SizeCache', 'Runtime', 'PhantomData')
DATA = ('Hash::hash', 'PartialEq::eq', 'PartialEq::ne')


def c10(chk):
    chk.rule('for every PartialEq of a type with itself, every pair of variants and every path of eq: it answers yes exactly '
             'when both are the same variant and every field that is neither bookkeeping (size cache, runtime, marker) nor '
             'opted out (no_eq_hash) is equal')
    chk.rule('for every Hash and every path of hash: what is fed to the hasher, and the choice of the path, depends only on the '
             'variant and on fields eq compares; a no_hash field is not fed')
    w = World.get()
    for prog in [w.steit] + ([w.corpus] if w.corpus else []):
        for impl, own in ser_impls(prog, 'PartialEq'):
            b = item(prog, impl, 'eq')
            if b is None:
                continue
            guarded(chk, '<%s as PartialEq>::eq' % own, equality, chk, prog, impl, own, b)
            n = item(prog, impl, 'ne')
            if n is not None:
                guarded(chk, '<%s as PartialEq>::ne' % own, equality, chk, prog, impl, own, n, True)
        for impl, own in ser_impls(prog, 'Hash'):
            b = item(prog, impl, 'hash')
            if b is not None:
                guarded(chk, '<%s as Hash>::hash' % own, hashing, chk, prog, impl, own, b)
    chk.floor('equalities', 20)
    chk.floor('hashes', 18)
    chk.floor('variant pairs', 40)


def info_of(prog, impl):
    t = prog.t(impl['self'])
    if t['k'] == 'adt' and t['def'] in prog.adts:
        return t['def'], prog.adts[t['def']]
    return None, None


def attrs_of(prog, own, var, field):
    """schema attributes of a field, for types generated from the corpus"""
    if prog.crate != 'corpus':
        return []
    for o in World.get().oracle:
        if o['name'] == own.split('<')[0]:
            vs = o.get('variants') or [{'name': None, 'fields': o.get('fields') or []}]
            for v in vs:
                if v['name'] in (None, var):
                    for i, f in enumerate(v['fields']):
                        if field == (str(i) if f['name'] is None else f['name']):
                            return f['attrs']
    return []


def compared(prog, own, a, i):
    """[(index, hashed)] of the fields that count"""
    if own.split('<')[0] in ('SizeCache', 'Runtime'):
        return []
    v = a['variants'][i]
    tys = v.get('ftys') or [None] * len(v['fields'])
    out = []
    for k, (f, t) in enumerate(zip(v['fields'], tys)):
        tn = prog.tname(t) if t is not None else ''
        if tn.split('<')[0] in BOOK:
            continue
        at = attrs_of(prog, own, v['name'], f)
        if any(x.split(' ')[0] == 'no_eq_hash' for x in at):
            continue
        out.append((k, not any(x.split(' ')[0] == 'no_hash' for x in at)))
    return out


def value(ip, prog, adtid, a, i, who):
    v = a['variants'][i]
    E.ARITY[(adtid, i)] = len(v['fields'])
    out = []
    for k, t in enumerate(v.get('ftys') or [None] * len(v['fields'])):
        x = sym('%s.%s' % (who, v['fields'][k]))
        if t is not None:
            ip.typed(x, prog, t)
        out.append(x)
    return adt(adtid, i, *out), out


def fresh_ip():
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    ip = E.Interp(hooks=dict(LogVoc('?').hooks))
    ip.progs = World.get().progs
    return ip


def equality(chk, prog, impl, own, b, negated=False):
    what = '<%s as PartialEq>::%s' % (own, 'ne' if negated else 'eq')
    adtid, a = info_of(prog, impl)
    if a is None:
        return chk.unknown(what, 'not an ordinary type')
    other = prog.tname(b.locals[2]).lstrip('&')
    mixed = other not in (own, 'Self')
    if mixed and other.split('<')[0] != 'Option':
        return chk.unknown(what, 'compares with ' + other)
    chk.count('equalities')
    from models import NONE, some as SOME
    for i, vi in enumerate(a['variants']):
        rights = [('None', NONE, []), ('Some', None, None)] if mixed else [(v['name'], None, None) for v in a['variants']]
        for j, (vj, given, fs) in enumerate(rights):
            chk.count('variant pairs')
            ip = fresh_ip()
            st = E.State()
            x, xs = value(ip, prog, adtid, a, i, 'self')
            if mixed:
                ys = None
                y = given
                if vj == 'Some':
                    y = SOME(sym('other.value'))
            else:
                y, ys = value(ip, prog, adtid, a, j, 'other')
            P, Q = ('P', sym('self')), ('P', sym('other'))
            st.mem[P], st.mem[Q] = x, y
            outs = ip.run(b, [ref(P), ref(Q)], st)
            chk.saw(ip, outs)
            used = compared(prog, own, a, i)
            if mixed:
                samev = vi['name'] == vj
                pairs_ = [(xs[k], sym('other.value')) for k, h in used] if samev else []
            else:
                samev = i == j
                pairs_ = [(xs[k], ys[k]) for k, h in used] if samev else []
            label = what if len(a['variants']) == 1 else '%s of %s and %s' % (what, vi['name'], vj)
            for k, s, v in outs:
                if k == 'panic':
                    if not (v and v[0] == 'assert'):
                        chk.bad(what + ':panic', '%s can panic (%s)' % (label, v), b.sig())
                    continue
                v = ip.deep(s, v)
                if v.op == 'int':
                    ws = [(v.a[0] != 0, s)]
                elif terms.is_cond(v):
                    ws = split(s, v)
                else:
                    ws = split(s, NOT(EQ(v, I(0))))
                for yes, z in ws:
                    judge(chk, what, label, b, z, yes != negated, samev, pairs_, v)


def judge(chk, what, label, b, s, yes, samev, pairs_, v):
    unsure = not definite(v) or any(not definite(c) for c in s.cond_list()) or any(
        e[0] in ('opaque', 'loop') for e in s.trace())
    if not samev:
        if not yes:
            return chk.ok()
        return unsure and chk.unknown(what, 'condition') or unsure or chk.bad(
            what + ':variants', '%s: values of different variants can compare equal' % label, b.sig())
    if yes:
        for x, y in pairs_:
            if s.decide(EQ(x, y)) is not True:
                if unsure:
                    return chk.unknown(what, 'is %s compared' % x)
                return chk.bad(what + ':ignores:' + str(x), '%s can answer yes when %s differs from %s' % (label, x, y), b.sig())
        return chk.ok()
    z = s.copy()
    for x, y in pairs_:
        if z.assume(EQ(x, y)) is False:
            return chk.ok()
    for c in s.cond_list():
        if z.decide(c) is False:
            return chk.ok()
    if unsure:
        return chk.unknown(what, 'when it answers no')
    cs = [str(c) for c in s.cond_list()]
    return chk.bad(what + ':more', '%s can answer no though every compared field is equal (when %s)' % (
        label, ' and '.join(cs)[:300] or 'always'), b.sig())


def hashing(chk, prog, impl, own, b):
    what = '<%s as Hash>::hash' % own
    adtid, a = info_of(prog, impl)
    if a is None:
        return chk.unknown(what, 'not an ordinary type')
    chk.count('hashes')
    for i, v in enumerate(a['variants']):
        ip = fresh_ip()
        st = E.State()
        x, xs = value(ip, prog, adtid, a, i, 'self')
        P = ('P', sym('self'))
        st.mem[P] = x
        outs = ip.run(b, [ref(P), sym('state')], st)
        chk.saw(ip, outs)
        used = compared(prog, own, a, i)
        cmp_ = {xs[k] for k, h in used}
        hsh = {xs[k] for k, h in used if h}
        rest = set(xs) - cmp_
        for k, s, r in outs:
            if k == 'panic':
                if not (r and r[0] == 'assert'):
                    chk.bad(what + ':panic', '%s can panic (%s)' % (what, r), b.sig())
                continue
            fed = []
            for e in events(s.trace()):
                if e[0] == 'opaque' and (str(e[1]).startswith('Hash::') or str(e[1]).startswith('Hasher::')):
                    fed += [y for y in e[3][:1] if isinstance(y, Term)] if str(e[1]).startswith('Hash::') else [
                        y for y in e[3][1:] if isinstance(y, Term)]
            chk.count('values fed to a hasher', len(fed))
            bad = False
            for t in fed:
                for y in terms.subterms(t):
                    if y in rest:
                        bad = True
                        chk.bad(what + ':' + str(y), '%s feeds %s, which equality does not compare, to the hasher' % (what, y), b.sig())
                    elif y in cmp_ and y not in hsh:
                        bad = True
                        chk.bad(what + ':' + str(y), '%s feeds %s, which is marked no_hash, to the hasher' % (what, y), b.sig())
            for c in s.cond_list():
                if any(y in rest for y in terms.subterms(c)):
                    bad = True
                    chk.bad(what + ':path', '%s depends on %s' % (what, str(c)[:100]), b.sig())
            if not bad:
                chk.ok()
