"""C09: no stale cached size reaches the output."""
from core import *
from vocab import *
from terms import *
from terms import T, I
import engine as E
from engine import BV
from r_ser import merge_states, all_progs, own_wire, run_pair, PRIMS

NOCACHE = PRIMS | {'str', 'String', '&str', '&u32'}
INNER = {'compute_size', 'serialize_cached', 'serialize_nested', 'compute_size_nested', 'cached_size', 'is_omissible',
         'cache_size', 'size_cache'}
SERKEYS = {'Serialize::serialize_cached', 'Serialize::serialize_nested', 'Serialize::cached_size',
           'Serialize::steit_serialize', 'Serialize::to_bytes', 'Serialize::is_omissible'}


def plain(e):
    return len(e) > 3 and e[3] in NOCACHE


def needs(trace, lvl=0, ctx=()):
    """(kind, value, loop context, path conditions inside loops, site)"""
    out = []
    for e in trace:
        if e[0] in ('uses', 'needs-children') and not plain(e):
            out.append((e[0], e[1], ctx, e[2]))
        elif e[0] == 'loop':
            _, uid, kap, N, iters, tag = e
            b = BV(100 + lvl)
            for conds, tr in iters:
                for k, x, c, sp in needs(tr, lvl + 1, ctx + (N,)):
                    out.append((k, subst(x, {kap: b}), c, sp))
    return out


def provides(trace, lvl=0, ctx=()):
    """what is certain to have been cached on this path: in every iteration, for loops"""
    out = set()
    for e in trace:
        if e[0] == 'cached':
            out.add(('uses', e[1], ctx))
            out.add(('needs-children', e[1], ctx))
        elif e[0] == 'children':
            out.add(('needs-children', e[1], ctx))
        elif e[0] == 'loop':
            _, uid, kap, N, iters, tag = e
            b = BV(100 + lvl)
            s = None
            for conds, tr in iters:
                if failed(tr):
                    continue
                p = {(k, subst(x, {kap: b}), c) for k, x, c in provides(tr, lvl + 1, ctx + (N,))}
                s = p if s is None else s & p
            out |= s or set()
    return out


def once(m, k, x, cx):
    """normal form of an item: loops of one iteration are no loops"""
    cx = [m.simp(z) if z is not None else None for z in cx]
    for i, z in enumerate(cx):
        if z is I(1):
            x = subst(x, {BV(100 + i): I(0)})
    return k, m.simp(x), tuple(z for z in cx if z is not I(1))


def child_rule(chk, prog, what, c, s, own):
    res = None
    for expand in (0, 1, 2):
        oc, os_ = run_pair(chk, prog, c, s, own, expand)
        problems, undec, n = [], [], 0
        for k2, s2, v2 in os_:
            if k2 != 'ret' or failed(s2.trace()):
                continue
            nd = needs(s2.trace())
            for k1, s1, v1 in oc:
                if k1 != 'ret' or failed(s1.trace()):
                    continue
                m = merge_states(s1, s2)
                if m is None:
                    continue
                n += 1
                pr = {once(m, k, x, cx) for k, x, cx in provides(s1.trace())}
                for k, x, cx, sp in nd:
                    if once(m, k, x, cx) in pr:
                        continue
                    (problems if definite(x) else undec).append((k, x, sp))
        if res is None or problems or not res[0]:
            res = (problems, undec, n)
        if n and not problems and not undec:
            chk.ok()
            chk.count('compute_size/serialize_cached pairs')
            return
    problems, undec, n = res
    if problems:
        k, x, sp = problems[0]
        chk.bad(what, '%s: serialize_cached relies on the cached size of %s%s, which compute_size does not refresh' % (
            what, 'the parts of ' if k == 'needs-children' else '', x), sp)
    elif undec:
        chk.unknown(what, 'needs %s' % (undec[0],))
    else:
        chk.unknown(what, 'no pair of successful paths')


def order_rule(chk, what, trace, ctx=None, kaps=()):
    """every use of a cached size is preceded by its computation; returns (problem, undecided)"""
    have = set() if ctx is None else set(ctx)
    bad, undec = None, None
    for e in trace:
        if e[0] == 'cached':
            have.add(('uses', e[1]))
            have.add(('needs-children', e[1]))
        elif e[0] == 'children':
            have.add(('needs-children', e[1]))
        elif e[0] in ('uses', 'needs-children') and not plain(e):
            if (e[0], e[1]) not in have:
                if definite(e[1]):
                    bad = bad or (e[0], e[1], e[2])
                else:
                    undec = undec or (e[0], e[1], e[2])
        elif e[0] == 'bad-hint':
            bad = bad or ('bad-hint', e[1], e[-1])
        elif e[0] == 'loop':
            _, uid, kap, N, iters, tag = e
            # what an earlier full loop over the same elements cached
            inh = set()
            for k, x in have:
                if k.startswith('all:') and x[1] is N:
                    inh.add((k[4:], subst(x[0], {BV(200): kap})))
            every = None
            for conds, tr in iters:
                b, u, h = order_rule(chk, what, tr, have | inh)
                bad, undec = bad or b, undec or u
                if failed(tr):
                    continue
                h = {('all:' + k, (subst(x, {kap: BV(200)}), N)) for k, x in h
                     if not isinstance(x, tuple) and contains(x, lambda t: t is kap)}
                every = h if every is None else every & h
            have |= every or set()
    return bad, undec, have


def reaches(prog, progs, b, seen=None):
    """the function, or a helper it calls, uses a cached size directly"""
    seen = set() if seen is None else seen
    if b.id in seen:
        return False
    seen.add(b.id)
    for blk in b.blocks:
        t = blk['term']
        if t['k'] != 'call':
            continue
        f = t.get('f')
        if not isinstance(f, dict):
            continue
        f = f.get('fn', f)
        if not isinstance(f, dict) or 'path' not in f:
            continue
        k = prog.key(f)
        if k in SERKEYS:
            return True
        if f.get('body') in prog.bodies and not k.startswith('Serialize::'):
            if reaches(prog, progs, prog.bodies[f['body']], seen):
                return True
    return False


def called(prog, key):
    for b in prog.bodies.values():
        for blk in b.blocks:
            t = blk['term']
            f = t.get('f') if t['k'] == 'call' else None
            if isinstance(f, dict) and 'path' in f.get('fn', f) and prog.key(f.get('fn', f)) == key:
                return True
    return False


def c09(chk):
    w = World.get()
    chk.rule('a value whose cached size a serialize_cached uses is (re)cached by the compute_size of the same '
             'implementation on every compatible path')
    chk.rule('cache_size leaves in the cache what compute_size returns, and cached_size then returns it')
    chk.rule('every public function that writes a value computes its size first, on every path, per iteration in loops')
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Serialize'):
            if own in PRIMS and prog.crate == 'steit':
                continue
            c, s = item(prog, impl, 'compute_size'), item(prog, impl, 'serialize_cached')
            what = '<%s as Serialize>' % own
            if c is None or s is None:
                continue
            guarded(chk, what, child_rule, chk, prog, what, c, s, own)
            b = item(prog, impl, 'steit_serialize')
            if b is not None:
                guarded(chk, what + '::steit_serialize', entry_rule, chk, prog, b, own)
            if item(prog, impl, 'cache_size') or item(prog, impl, 'cached_size'):
                guarded(chk, what + '::cache_size', cache_rule, chk, prog, what,
                        item(prog, impl, 'cache_size') or w.steit.trait_default('Serialize', 'cache_size'),
                        item(prog, impl, 'cached_size') or w.steit.trait_default('Serialize', 'cached_size'), own)
            ov = item(prog, impl, 'is_omissible')
            if ov is not None:
                guarded(chk, what + '::is_omissible', hint_rule, chk, prog, what, ov, own)
    p = w.steit
    guarded(chk, 'Serialize::cache_size', cache_rule, chk, p, 'Serialize', p.trait_default('Serialize', 'cache_size'),
            p.trait_default('Serialize', 'cached_size'), None)
    guarded(chk, 'Serialize::is_omissible', hint_rule, chk, p, 'Serialize', p.trait_default('Serialize', 'is_omissible'), None)
    guarded(chk, 'SizeCache', roundtrip_rule, chk, p)
    for prog in all_progs(w):
        for bid in sorted(prog.public):
            b = prog.bodies.get(bid)
            if b is None or b.kind == 'Closure' or (b.impl_trait or b.trait) == 'Serialize' and b.name in INNER:
                continue
            if b.crate != prog.crate or (b.impl_trait == 'Serialize' and b.name == 'steit_serialize'):
                continue
            if (b.impl_trait or b.trait) == 'Serialize' and b.name not in ('steit_serialize', 'to_bytes') and \
                    called(prog, 'Serialize::' + b.name):
                continue    # a step of another method of the trait, analysed there
            if reaches(prog, w.progs, b):
                guarded(chk, b.sig(), entry_rule, chk, prog, b, None)
    d = p.trait_default('Serialize', 'compute_size_nested')
    if d is not None:
        guarded(chk, 'Serialize::compute_size_nested', nested_caches_rule, chk, p, 'Serialize', d, None)
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Serialize'):
            b = item(prog, impl, 'compute_size_nested')
            if b is not None:
                guarded(chk, '<%s as Serialize>::compute_size_nested' % own, nested_caches_rule, chk, prog,
                        '<%s as Serialize>' % own, b, own)
    chk.floor('entry points that write values', 5)
    chk.floor('compute_size/serialize_cached pairs', 30)
    chk.floor('cache_size/cached_size pairs', 1)


def entry_rule(chk, prog, b, own):
    w = World.get()
    voc = Vocab(own=own)
    k = 'Serialize::' + b.name
    if k in voc.hooks and own is None:
        voc = Vocab(own=own, atoms_off=(k,))
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)
    bad = undec = None
    n = 0
    for kk, s, v in outs:
        if kk == 'ret' or kk == 'panic':
            n += 1
            x, u, _ = order_rule(chk, b.sig(), s.trace())
            bad, undec = bad or x, undec or u
    chk.count('entry points that write values')
    if bad:
        chk.bad(b.sig(), '%s writes %s without having computed its size (%s)' % (b.sig(), bad[1], bad[0]), bad[2])
    elif undec or not n:
        chk.unknown(b.sig(), 'value not identified: %s' % (undec,))
    else:
        chk.ok()


def nested_caches_rule(chk, prog, what, b, own):
    """compute_size_nested leaves the size of the value in its cache, as serialize_nested expects"""
    w = World.get()
    voc = Vocab(own=own, atoms_off=('Serialize::compute_size_nested',))
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)
    x = T('deref', args[0])
    n = 0
    for k, s, v in outs:
        if k != 'ret' or is_ok(v) is not True:
            continue
        n += 1
        if ('uses', x, ()) not in provides(s.trace()):
            if own is None:
                chk.bad(what + '::compute_size_nested', '%s::compute_size_nested can succeed without caching the size '
                        'of the value, which serialize_nested writes as the length prefix' % what)
            else:
                chk.unknown(what + '::compute_size_nested', 'overridden without caching')
            return
    if n:
        chk.ok()
    else:
        chk.unknown(what + '::compute_size_nested', 'no successful path')


def cache_rule(chk, prog, what, b1, b2, own):
    w = World.get()
    if b1 is None or b2 is None:
        chk.bad(what + '::cache_size', '%s: cache_size or cached_size is gone' % what)
        return
    off = ('Serialize::cache_size', 'Serialize::cached_size') if own is None else ()
    voc = Vocab(own=own, atoms_off=off)
    if own is not None:
        # the size of the value itself is what compute_size says
        sz = voc_self_size
        voc.hooks['Serialize::compute_size'] = sz
    ip, args, outs = analyse(b1.prog, b1, voc, progs=w.progs)
    chk.saw(ip, outs)
    x = T('deref', args[0])
    want = T('app', 'SZ', x)
    n = 0
    for k, s, v in outs:
        if k != 'ret':
            continue
        if s.simp(v) is not want:
            if definite(v):
                chk.bad(what + '::cache_size', '%s::cache_size returns %s, not the computed size' % (what, v))
            else:
                chk.unknown(what + '::cache_size', v)
            return
        ip2, _, outs2 = analyse(b2.prog, b2, voc, args=args, st=s, progs=w.progs)
        for k2, s2, v2 in outs2:
            if k2 != 'ret':
                continue
            n += 1
            if s2.simp(v2) is want:
                continue
            if definite(v2):
                chk.bad(what + '::cached_size', '%s: after cache_size, cached_size returns %s instead of the size' % (what, v2))
            else:
                chk.unknown(what + '::cached_size', v2)
            return
    if n:
        chk.ok()
        chk.count('cache_size/cached_size pairs')
    else:
        chk.unknown(what, 'no path')


def voc_self_size(c):
    x = Vocab.val(c)
    return c.ret(T('app', 'SZ', x))


def hint_rule(chk, prog, what, b, own):
    """is_omissible(None) and is_omissible(Some(size)) agree"""
    w = World.get()
    voc = Vocab(own=None, atoms_off=('Serialize::is_omissible',))
    res = []
    for hint in ('none', 'some'):
        x = T('deref', sym('self'))
        a = E.NONE if hint == 'none' else E.some(T('app', 'SZ', x))
        ip, args, outs = analyse(b.prog, b, voc, args=[sym('self'), a], progs=w.progs)
        chk.saw(ip, outs)
        res.append(outs)
    n = 0
    for k1, s1, v1 in res[0]:
        for k2, s2, v2 in res[1]:
            if k1 != 'ret' or k2 != 'ret':
                continue
            m = merge_states(s1, s2)
            if m is None:
                continue
            a, b_ = m.decide_t(v1), m.decide_t(v2)
            a, b_ = m.simp(a), m.simp(b_)
            n += 1
            if a is b_ or not definite(a, b_):
                if a is not b_:
                    chk.unknown(what + '::is_omissible', '%s vs %s' % (a, b_))
                    return
                continue
            chk.bad(what + '::is_omissible', '%s::is_omissible answers %s without and %s with the size as a hint: the '
                    'announced and the written bytes disagree' % (what, a, b_))
            return
    if n:
        chk.ok()
    else:
        chk.unknown(what + '::is_omissible', 'no path')


def roundtrip_rule(chk, p):
    """SizeCache::get returns what SizeCache::set stored"""
    w = World.get()
    a, b = p.find1('SizeCache', 'set'), p.find1('SizeCache', 'get')
    if a is None or b is None:
        chk.bad('SizeCache', 'SizeCache::set/get are gone')
        return
    ip, args, outs = analyse(p, a, Vocab(), progs=w.progs)
    chk.saw(ip, outs)
    n = 0
    for k, s, v in outs:
        if k != 'ret':
            continue
        ip2, _, o2 = analyse(p, b, Vocab(), args=[args[0]], st=s, progs=w.progs)
        for k2, s2, v2 in o2:
            if k2 != 'ret':
                continue
            n += 1
            if s2.simp(v2) is args[1]:
                continue
            if definite(v2):
                chk.bad('SizeCache', 'SizeCache::get returns %s after set(%s)' % (v2, args[1]))
            else:
                chk.unknown('SizeCache', v2)
            return
    if n:
        chk.ok()
    else:
        chk.unknown('SizeCache', 'no path')
