"""L14: what the operations of the collections and of Maybe do and answer."""
from lab import *
import lab as L
import terms
from r_log import is_logfail, runs, snake, sp_of, setter_of
from terms import EQ, LT, I
from r_replay import discr

def some(x):
    return ('some', x)


NONE = ('none',)


class Case:
    """on paths where `cond` may hold: what is answered and what the contents become"""

    def __init__(self, label, conds, ret=None, main=None, panics=False):
        self.label, self.conds, self.ret, self.main, self.panics = label, conds, ret, main, panics


def has(m, k):
    return T('bvar', 'has', m, k)


def yes(c):
    return (c, True)


def no(c):
    return (c, False)


def inside(xs, i):
    return LT(i, mk_len(xs))


def at(xs, i):
    """the element as a term, without looking at it"""
    return lambda s: elem_at(xs, i, s)


# ------------------------------------------------------------------ what List and Map operations do

def list_cases(r, name, xs):
    n = mk_len(xs)
    a = r.args
    if name in ('push', 'push_with'):
        return [Case('', [], ('val', n), ('appended', a[1], name == 'push_with'))]
    if name == 'pop':
        return [Case('on an empty list', [yes(EQ(n, I(0)))], NONE, xs),
                Case('', [no(EQ(n, I(0)))], some(at(xs, sub(n, I(1)))), T('rmlast', xs))]
    if name == 'swap_remove':
        i = a[1]
        z = sub(n, I(1))
        return [Case('with an index past the end', [no(inside(xs, i))], NONE, xs),
                Case('of the last item', [yes(EQ(add(i, I(1)), n))], some(at(xs, i)), T('rmlast', xs)),
                Case('', [yes(LT(add(i, I(1)), n))], some(at(xs, i)),
                     lambda s: T('upd', T('rmlast', xs), i, elem_at(xs, z, s)))]
    if name == 'get_mut':
        i = a[1]
        return [Case('with an index past the end', [no(inside(xs, i))], NONE, xs),
                Case('', [yes(inside(xs, i))], some(at(xs, i)), xs)]
    if name in ('index', 'index_mut'):
        i = a[1]
        return [Case('with an index past the end', [no(inside(xs, i))], None, xs, panics=True),
                Case('', [yes(inside(xs, i))], ('val', at(xs, i)), xs)]
    if name == 'deref':
        return [Case('', [], ('val', xs), xs)]
    if name in ('iter', 'iter_mut', 'into_iter'):
        return [Case('', [], ('iter', xs), xs)]
    return None


def map_cases(r, name, m):
    a = r.args
    k = key_term(r, a[1]) if len(a) > 1 else None
    if name in ('contains', 'get', 'get_mut', 'index', 'index_mut', 'insert', 'insert_with', 'remove') and k is None:
        raise Unknown('key')
    if name == 'contains':
        return [Case('of a key that is there', [yes(has(m, k))], ('val', I(1)), m),
                Case('of a key that is not there', [no(has(m, k))], ('val', I(0)), m)]
    if name in ('get', 'get_mut'):
        return [Case('of a key that is not there', [no(has(m, k))], NONE, m),
                Case('', [yes(has(m, k))], some(T('mget', m, k)), m)]
    if name in ('index', 'index_mut'):
        return [Case('of a key that is not there', [no(has(m, k))], None, m, panics=True),
                Case('', [yes(has(m, k))], ('val', T('mget', m, k)), m)]
    if name in ('insert', 'insert_with'):
        new = ('stored', k, a[2], name == 'insert_with')
        ok = yes(LT(k, I(MAXKEY)))
        return [Case('under a key that is no field number', [no(LT(k, I(MAXKEY)))], None, m, panics=True),
                Case('under a new key', [ok, no(has(m, k))], NONE, new),
                Case('under a key that is there', [ok, yes(has(m, k))], some(T('mget', m, k)), new)]
    if name == 'remove':
        return [Case('of a key that is not there', [no(has(m, k))], NONE, m),
                Case('', [yes(has(m, k))], some(T('mget', m, k)), T('mrm', m, k))]
    if name == 'len':
        return [Case('', [], ('val', T('len', m)), m)]
    if name in ('iter', 'iter_mut', 'into_iter'):
        return [Case('', [], ('iter', m), m)]
    return None


MAXKEY = 1 << 29


def key_term(r, k):
    """the field number of a key argument"""
    best = None
    for kind, s, v in r.outs:
        for c in s.cond_list() + [r.ip.deep(s, x) for x in (v,) if isinstance(x, Term)] + (
                [final_self(r, s)] if r.self_mode == 'mut' else []):
            for x in terms.subterms(c):
                if x.op == 'app' and str(x.a[0]).endswith('as_field_number'):
                    y = x.a[-1]
                    if isinstance(y, Term) and (y is k or 'a1' in str(y) and str(y).lstrip('*&') == str(k).lstrip('*&')):
                        return x
                    best = best or x
    return None


def expected_main(r, case, xs, after, s):
    m = case.main
    if callable(m):
        m = m(s)
    if isinstance(m, tuple):
        if m[0] == 'appended':
            n = mk_len(xs)
            x = m[1]
            if m[2]:
                x = elem_at(after, n, s) if s.decide(LT(n, mk_len(after))) is True else None
                if x is None or not made_by(x, m[1]):
                    if x is not None and not definite(x):
                        raise Unknown('appended item')
                    return None, 'does not append the value its function gives'
            return T('push', xs, x), None
        if m[0] == 'stored':
            k, x = m[1], m[2]
            if m[3]:
                x = map_get(after, k, s)
                if not isinstance(x, Term) or not made_by(x, m[2]):
                    if x is None or isinstance(x, Term) and not definite(x):
                        raise Unknown('stored value')
                    return None, 'does not store the value its function gives'
            return T('mins', xs, k, x), None
    return m, None


def made_by(x, f):
    while x.op == 'app' and x.a[0] == 'AT':
        x = x.a[1]
    return x.op == 'app' and x.a[0] == 'CB' and x.a[1] is f


def option(v, s):
    """(True/False, payload)"""
    v = s.simp(v)
    if v.op == 'adt' and last(v.a[0]) == 'Option':
        return bool(v.a[1]), v.a[2] if v.a[1] else None
    return None, None


def pay(r, s, x):
    return content(r.ip.deep(s, r.ip.load(s, x) if x.op == 'ref' else x))


def answer(chk, r, what, case, s, v, where):
    e = case.ret
    if e is None:
        return chk.ok()
    v = r.ip.load(s, v) if v.op == 'ref' else v
    if e[0] in ('none', 'some'):
        o, p = option(r.ip.deep(s, v) if v.op != 'adt' else v, s)
        if o is None:
            return chk.unknown(what, 'answer %s' % str(v)[:120])
        if o != (e[0] == 'some'):
            return chk.bad(what + ':answer', '%s answers %s' % (what, 'an item' if o else 'None'), where)
        if e[0] == 'none':
            return chk.ok()
        got, want = pay(r, s, p), e[1]
    elif e[0] == 'iter':
        return iterates(chk, r, what, s, r.ip.deep(s, v) if v.op != 'adt' else v, e[1], where)
    else:
        got, want = pay(r, s, v), e[1]
    want = want(s) if callable(want) else want
    if want is None:
        return chk.unknown(what, 'wanted answer')
    d = same(got, content(want), s)
    if d is not True and got.op in ('eq', 'bvar', 'lt', 'not') and want.op == 'int':
        b = s.decide(got)
        d = b == bool(want.a[0]) if b is not None else None if contains(got, lambda x: x.op == 'bvar') else False
    if d is not True and len(str(got)) < 2000 and contents_eq(got, content(want), s):
        d = True
    if d is True:
        return chk.ok()
    if d is False and definite(got):
        return chk.bad(what + ':answer', '%s answers %s instead of %s' % (what, str(got)[:120], str(want)[:120]), where)
    return chk.unknown(what, 'answer %s' % str(got)[:120])


def contents_eq(a, b, s):
    try:
        return list_same(a, b, s) is True
    except Exception:  # noqa
        return False


def iterates(chk, r, what, s, v, m, where):
    """an iterator over everything, in order"""
    if v.op == 'adt' and last(v.a[0]).startswith('MapIter'):
        v = v.a[2]
    while v.op == 'ref':
        v = r.ip.load(s, v)
    if v.op != 'it':
        return chk.unknown(what, 'iterator %s' % str(v)[:100])
    k = v.a[0]
    if k in ('slice', 'mapiter'):
        at_ = r.ip.load(s, T('ref', v.a[1], v.a[2]))
        whole = content(at_) is m or same(content(at_), m, s) is True
        full = v.a[3] is I(0) and same(v.a[4], mk_len(m) if m.op != 'len' else m, s) is True
        if whole and full:
            return chk.ok()
        if definite(v.a[3], v.a[4]) and whole:
            return chk.bad(what + ':iter', '%s goes over %s..%s only' % (what, v.a[3], v.a[4]), where)
        if definite(at_) and same(content(at_), m, s) is False:
            return chk.bad(what + ':iter', '%s goes over %s' % (what, str(at_)[:80]), where)
        return chk.unknown(what, 'iterator %s' % str(v)[:100])
    if k in ('rev', 'skip', 'take', 'stepby', 'filter', 'skipwhile', 'takewhile'):
        return chk.bad(what + ':iter', '%s goes over the items with %s' % (what, k), where)
    return chk.unknown(what, 'iterator %s' % str(v)[:100])


def operation(chk, r, cases, effects=True):
    before = Contents(r.ty, r.init).main() if effects else None
    for k, s, v in r.outs:
        if is_logfail(s):
            continue
        for c in cases:
            n = s.copy()
            for j, x in enumerate(r.args):
                if r.body.prog.tname(r.body.locals[j + 1]) in ('usize', 'u32', 'u64'):
                    n.assume(LT(x, I(0)), False)
            if not all(n.assume(t, want) for t, want in c.conds) or not feasible(n):
                continue
            what = r.what + (' ' + c.label if c.label else '')
            chk.count('cases')
            if k == 'panic':
                if c.panics or v is not None and v[0] == 'assert':
                    chk.ok()
                elif all(s.decide(t) is want for t, want in c.conds):
                    chk.bad(what + ':panic', '%s can panic (%s)' % (what, v[1] if v else ''), v[2] if v and len(v) > 2 else sp_of(r))
                else:
                    chk.unknown(what, 'panics %s' % (v,))
                continue
            if c.panics:
                if all(s.decide(t) is want for t, want in c.conds):
                    chk.bad(what + ':panic', '%s completes' % what, sp_of(r))
                else:
                    chk.unknown(what, 'completes')
                continue
            guarded(chk, what, answer, chk, r, what, c, n, v, sp_of(r))
            if effects and r.self_mode == 'mut':
                guarded(chk, what, effect, chk, r, what, c, n, before)
    return None


def feasible(n):
    """re-checks the path's conditions against each other"""
    x = E.State()
    x.eqs = dict(n.eqs)
    return all(x.assume(c) for c in n.cond_list()) and all(x.assume(c) for c in reversed(n.cond_list()))


def effect(chk, r, what, case, s, xs):
    after = Contents(r.ty, final_self(r, s)).main()
    want, wrong = expected_main(r, case, xs, after, s)
    if wrong:
        return chk.bad(what + ':effect', '%s %s' % (what, wrong), sp_of(r))
    want = content(want)
    d = list_same(after, want, s) if r.ty.kind == 'list' else map_same(after, want, s)
    if d is True:
        return chk.ok()
    if d is False and definite(after):
        return chk.bad(what + ':effect', '%s: the contents become %s instead of %s' % (
            what, str(after)[:140], str(want)[:140]), sp_of(r))
    return chk.unknown(what, 'contents %s' % str(after)[:140])


# ------------------------------------------------------------------ constructors

def fresh_value(x):
    """the value of a field nothing was put in: True / False / None"""
    if x.op == 'app' and x.a[0] == 'NEW':
        return True
    if x.op == 'app' and ('default' in str(x.a[0]).lower() or str(x.a[0]) == 'const' or 'with_runtime' in str(x.a[0])):
        return True
    if x.op == 'str':
        return x.a[0] == ''
    if x.op == 'int':
        return x.a[0] == 0
    if x.op in ('arr', 'bytes', 'tup', 'mempty'):
        return not x.a or all(isinstance(y, Term) and fresh_value(y) for y in x.a) if x.op == 'tup' else not (x.a and x.a[0])
    if x.op == 'adt' and last(x.a[0]) in ('Runtime', 'SizeCache', 'PhantomData'):
        return True
    if x.op == 'adt' and last(x.a[0]) == 'Option':
        return x.a[1] == 0
    if x.op == 'adt' and x.a[1] == 0:
        return True if all(fresh_value(y) is True for y in x.a[2:]) else None
    return None


def empty_contents(c):
    res = True
    for i, x in c.d.items():
        d = fresh_value(x)
        if d is not True:
            if d is False or definite(x) and x.op in ('sym', 'fld', 'vf', 'elem'):
                return False, x
            res = None
    return res, None


def made(chk, ty, what, b, variant, want=None):
    """a constructor: the named variant, with fresh fields, or with the contents `want` says"""
    r = guarded(chk, what, L.run, ty, b)
    if r is None:
        return
    chk.saw(r.ip, r.outs)
    chk.count('constructors')
    for k, s, v in r.outs:
        if k == 'panic':
            if v is None or v[0] == 'assert':
                continue
            chk.unknown(what, 'panics %s' % (v,))
            continue
        guarded(chk, what, made_path, chk, ty, what, b, variant, want, r, s, v)


def made_path(chk, ty, what, b, variant, want, r, s, v):
    c = Contents(ty, r.ip.deep(s, v))
    if want is not None:
        for conds, var, vals in want(r):
            n = s.copy()
            if not all(n.assume(t, w) for t, w in conds):
                continue
            if c.variant != var:
                chk.bad(what + ':variant', '%s makes variant %s instead of %s' % (
                    what, ty.variants[c.variant]['name'], ty.variants[var]['name']), b.sig())
                continue
            for x, y in zip(c.d.values(), vals):
                d = list_same(x, content(y), n) if ty.kind == 'list' else same(x, content(y), n)
                if d is True:
                    chk.ok()
                elif d is False and definite(x):
                    chk.bad(what + ':value', '%s holds %s instead of %s' % (what, str(x)[:120], str(y)[:80]), b.sig())
                else:
                    chk.unknown(what, 'value %s' % str(x)[:120])
        return None
    if c.variant != variant:
        return chk.bad(what + ':variant', '%s makes variant %s instead of %s' % (
            what, ty.variants[c.variant]['name'], ty.variants[variant]['name']), b.sig())
    d, x = empty_contents(c)
    if d is True:
        return chk.ok()
    if d is False:
        return chk.bad(what + ':fresh', '%s makes a value that holds %s' % (what, str(x)[:120]), b.sig())
    return chk.unknown(what, 'contents %s' % c.text())


def default_variant(ty):
    if ty.kind != 'enum':
        return 0
    for n, v in enumerate(ty.variants):
        if v['tag'] == 0:
            return n
    return None


def ctors(chk, ty):
    dv = default_variant(ty)
    pre = None
    names = [n for n, b, vis in methods(ty)]
    for n in names:     # the prefix of the variants' constructors
        for v in ty.variants:
            if ty.kind == 'enum' and n.endswith('_' + snake(v['name'])) and not n.startswith('set_') and n[:-len(snake(v['name'])) - 1] in names:
                pre = n[:-len(snake(v['name'])) - 1]
    for n, b, vis in methods(ty):
        what = '%s::%s' % (ty.head, n)
        if takes_self(ty, b) is not None or b.argc > 2:
            continue
        if b.argc == 1 and (n == 'new' or n == pre):
            if dv is not None:
                made(chk, ty, what, b, dv)
        elif b.argc == 1 and pre and n.startswith(pre + '_'):
            for i, v in enumerate(ty.variants):
                if n == pre + '_' + snake(v['name']):
                    made(chk, ty, what, b, i)
        elif n == 'from_iter' and ty.kind == 'list':
            made(chk, ty, what, b, 0, lambda r: [([], 0, [r.args[1]])])
        elif n == 'from_iter' and ty.kind == 'map':
            collected(chk, ty, what, b, 1)
    for tr, n, b in trait_fns(ty, {('Default', 'default'), ('FromIterator', 'from_iter'), ('State', 'with_runtime')}):
        what = '<%s as %s>::%s' % (ty.own, tr, n)
        if n == 'from_iter':
            if ty.kind == 'list':
                made(chk, ty, what, b, 0, lambda r: [([], 0, [r.args[0]])])
            elif ty.kind == 'map':
                collected(chk, ty, what, b, 0)
        elif dv is not None:
            made(chk, ty, what, b, dv)


# ------------------------------------------------------------------ Maybe

def named(ty, name):
    for i, v in enumerate(ty.variants):
        if v['name'] == name:
            return i
    raise Unknown('variant ' + name)


def maybe(chk, ty):
    none, some_ = named(ty, 'None'), named(ty, 'Some')
    for n, b, vis in methods(ty):
        what = '%s::%s' % (ty.head, n)
        if n == 'none' and b.argc == 1:
            made(chk, ty, what, b, none)
        elif n == 'some' and b.argc == 2:
            made(chk, ty, what, b, 0, lambda r: [([], some_, [r.args[1]])])
        elif n == 'from_option' and b.argc == 2:
            made(chk, ty, what, b, 0, lambda r: [
                ([yes(EQ(discr(r.args[1]), I(0)))], none, []),
                ([yes(EQ(discr(r.args[1]), I(1)))], some_, [T('vf', r.args[1], 1, 0)])])
        elif n in ('is_some', 'is_none', 'to_option') and b.argc == 1:
            for v in range(len(ty.variants)):
                w = '%s on %s' % (what, ty.variants[v]['name'])
                r = guarded(chk, w, L.run, ty, b, v)
                if r is None:
                    continue
                r.what = w
                chk.saw(r.ip, r.outs)
                if n == 'to_option':
                    x = list(Contents(ty, r.init).d.values())
                    e = some(x[0]) if v == some_ else NONE
                else:
                    e = ('val', I(int((v == some_) == (n == 'is_some'))))
                chk.count('queries')
                guarded(chk, w, operation, chk, r, [Case('', [], e)], False)
    for i in ty.prog.impls:
        if 'trait' not in i or last(i['trait']) != 'PartialEq' or ty.prog.tname(i['self']) != ty.own:
            continue
        for it in i['items']:
            b = ty.prog.bodies.get(it.get('body'))
            if b is None or it['name'] not in ('eq', 'ne') or 'Option<' not in ty.prog.tname(b.locals[2]):
                continue
            for v in range(len(ty.variants)):
                w = '<%s as PartialEq<Option<T>>>::%s on %s' % (ty.own, it['name'], ty.variants[v]['name'])
                r = guarded(chk, w, L.run, ty, b, v)
                if r is None:
                    continue
                r.what = w
                chk.saw(r.ip, r.outs)
                chk.count('queries')
                guarded(chk, w, against_option, chk, ty, r, v, some_, it['name'] == 'ne', w)


def against_option(chk, ty, r, v, some_, neg, what):
    for k, s, x in r.outs:
        if k == 'panic':
            chk.bad(what + ':panic', '%s can panic' % what, sp_of(r))
            continue
        o = r.args[1]
        o = r.ip.load(s, o) if o.op == 'ref' else T('deref', o)
        tags = [y for c in s.cond_list() + [x] for y in terms.subterms(c) if y.op == 'discr']
        if tags:
            o = tags[0].a[0]
        for d in (0, 1):
            n = s.copy()
            if not n.assume(EQ(discr(o), I(d)), True):
                continue
            mine = list(Contents(ty, r.init).d.values())
            truth = I(0) if (d == 1) != (v == some_) else I(1) if d == 0 else EQ(mine[0], T('vf', o, 1, 0))
            for b in (True, False):
                w = n.copy()
                if not w.assume(truth, b):
                    continue
                got = w.decide(x)
                if got is None:
                    chk.unknown(what, 'answer %s' % str(x)[:100])
                elif got == (b != neg):
                    chk.ok()
                else:
                    chk.bad(what + ':answer', '%s answers %s for %s' % (
                        what, got, 'None' if d == 0 else 'Some of %s value' % ('an equal' if b else 'a different')), sp_of(r))


# ------------------------------------------------------------------ setters are chainable

def chain(chk, ty):
    for r in runs(chk, ty, ('mut',)):
        if not setter_of(ty, r.name):
            continue
        chk.count('setters')
        tn = ty.prog.tname(r.body.locals[0])
        if tn not in ('&mut ' + ty.own, '&mut Self'):
            continue
        for k, s, v in r.outs:
            if k != 'ret':
                continue
            if v is r.args[0] or v.op == 'ref' and v.a[0] == SELF and not v.a[1]:
                chk.ok()
            elif v.op == 'ref' and definite(v):
                chk.bad(r.what + ':answer', '%s does not answer the value it was called on' % r.what, sp_of(r))
            else:
                chk.unknown(r.what, 'answer %s' % str(v)[:100])


# ------------------------------------------------------------------ Map from an iterator

def collected(chk, ty, what, b, argn):
    r = guarded(chk, what, L.run, ty, b)
    if r is None:
        return
    chk.saw(r.ip, r.outs)
    chk.count('constructors')
    for k, s, v in r.outs:
        if k == 'ret':
            guarded(chk, what, collected_path, chk, ty, what, b, r, s, v, r.args[argn])


def collected_path(chk, ty, what, b, r, s, v, src):
    m = Contents(ty, r.ip.deep(s, v)).main()
    if m.op != 'phi' or m not in r.ip.phis:
        if m.op == 'mempty':
            return chk.bad(what + ':dropped', '%s makes an empty map' % what, b.sig())
        return chk.unknown(what, 'entries %s' % str(m)[:120])
    init, ups, backs = r.ip.phis[m]
    if init.op != 'mempty' or ups is None:
        return chk.unknown(what, 'entries start as %s' % str(init)[:80])
    for u, st in zip(ups, backs):
        u = content(u)
        if u is m:
            chk.bad(what + ':dropped', '%s can leave out an entry' % what, b.sig())
            continue
        ok = u.op == 'mins' and u.a[0] is m
        x = u.a[2] if ok else None
        k = u.a[1] if ok else None
        if ok and x.op == 'fld' and x.a[1] == 1 and x.a[0].op == 'elem' and x.a[0].a[0] is src and x.a[0].a[1].op == 'kappa' and \
                k.op == 'app' and str(k.a[0]).endswith('as_field_number') and k.a[-1] is T('fld', x.a[0], 0):
            chk.ok()
        elif ok and definite(k, x):
            chk.bad(what + ':entry', '%s stores %s under %s' % (what, str(x)[:80], str(k)[:80]), b.sig())
        else:
            chk.unknown(what, 'entry %s' % str(u)[:120])


def l14(chk):
    chk.rule('for every operation and query of List and Map, every path and every case of its meaning (key or index there or '
             'not): what it answers and what the contents become is what the operation of that name does on a sequence / a '
             'key-value map; nothing else panics; iteration covers all items in order')
    chk.rule('Maybe: constructors, is_some / is_none / to_option / from_option and comparison with an Option agree with the '
             'variant and value held')
    chk.rule('constructors and Default of state types make the variant they name (the one with tag 0 by default) with fresh '
             'fields; setters answer the value they were called on')
    types, rest = state_types()
    for ty in types:
        if ty.kind in ('list', 'map'):
            chk.count(ty.head)
            guarded(chk, ty.own, collection, chk, ty)
        elif ty.head == 'Maybe' and ty.prog is World.get().steit:
            chk.count('Maybe')
            guarded(chk, ty.own, maybe, chk, ty)
        guarded(chk, ty.own, ctors, chk, ty)
        if ty.kind in ('struct', 'enum'):
            guarded(chk, ty.own, chain, chk, ty)
    chk.floor('List', 1)
    chk.floor('Map', 1)
    chk.floor('Maybe', 1)
    chk.floor('operations', 24)
    chk.floor('cases', 40)
    chk.floor('queries', 8)
    chk.floor('constructors', 60)
    chk.floor('setters', 55)


def collection(chk, ty):
    cases_of = list_cases if ty.kind == 'list' else map_cases
    fns = [(n, b, '%s::%s' % (ty.head, n)) for n, b, vis in methods(ty) if takes_self(ty, b)]
    fns += [(n, b, '<%s as %s>::%s' % (ty.prog.tname(b.locals[1]) if tr == 'IntoIterator' else ty.own, tr, n))
            for tr, n, b in trait_fns(ty) if tr in ('Index', 'IndexMut', 'Deref', 'IntoIterator') and takes_self(ty, b)]
    for n, b, what in fns:
        r = guarded(chk, what, L.run, ty, b)
        if r is None:
            continue
        r.what, r.name = what, n
        chk.saw(r.ip, r.outs)
        cases = guarded(chk, what, cases_of, r, n, Contents(ty, r.init).main())
        if cases is None:
            continue
        chk.count('operations')
        guarded(chk, what, operation, chk, r, cases)
