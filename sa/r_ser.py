"""C01 (announced size = bytes written) and C09 (no stale cached size)."""
from core import *
from vocab import *
from terms import *
from terms import T, I
import engine as E
from engine import mk_sum, BV, mk_len

PRIMS = {'u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool'}


def data_len(d):
    if d.op == 'app' and d.a[0] == 'NB':
        return T('app', 'NS', *d.a[1:])
    if d.op == 'app' and d.a[0] == 'SER':
        return T('app', 'SZ', d.a[1])
    if d.op == 'concat':
        return add(data_len(d.a[0]), data_len(d.a[1]))
    return mk_len(d)


_pl = mk_len


def trace_len(trace, lvl=0):
    """symbolic number of bytes written along a trace"""
    n = I(0)
    for e in trace:
        if e[0] == 'write':
            n = add(n, data_len(e[2]))
        elif e[0] == 'write-partial':
            return None
        elif e[0] == 'opaque' and e[1].startswith('Serialize::'):
            return None
        elif e[0] == 'loop':
            _, uid, kap, N, iters, tag = e
            lens = []
            for conds, tr in iters:
                l = trace_len(tr, lvl + 1)
                if l is None:
                    return None
                lens.append((conds, l))
            if all(l.op == 'int' and l.a[0] == 0 for _, l in lens):
                continue
            if N is None:
                return None
            b = BV(lvl)
            ls = {l for _, l in lens}
            if len(ls) == 1:
                n = add(n, mk_sum(N, b, subst(ls.pop(), {kap: b})))
            else:
                cases = tuple(sorted(((tuple(subst(c, {kap: b}) for c in conds), subst(l, {kap: b}))
                                      for conds, l in lens), key=lambda x: (x[1].id, str(x[0]))))
                n = add(n, mk_sum(N, b, T('cases', *[T('case', c[0], c[1]) for c in cases])))
    return n


def merge_states(s1, s2):
    """facts of both paths, or None if they contradict each other"""
    s = s1.copy()
    for c in s2.cond_list():
        d = s.decide(c)
        if d is False:
            return None
        if d is None:
            s.assume(c)
    return s


def all_progs(w):
    out = [w.steit]
    if w.corpus:
        out.append(w.corpus)
    return out


def run_pair(chk, prog, body_c, body_s, own, expand=False):
    w = World.get()
    voc = Vocab(own=own)
    voc.own_wt = own_wire(prog, own)
    if expand:
        for k in ('compute_size_nested', 'serialize_nested', 'steit_serialize', 'to_bytes'):
            if 'Serialize::' + k in voc.hooks:
                voc.hooks['Serialize::' + k] = inline_default(w.steit, 'Serialize', k)
    if expand == 2:
        for k in ('compute_size', 'serialize_cached'):
            voc.hooks['Serialize::' + k] = inline_container(voc.hooks['Serialize::' + k], own)
    ip1, a1, oc = analyse(prog, body_c, voc, progs=w.progs)
    ip2, a2, os_ = analyse(prog, body_s, voc, progs=w.progs)
    t = prog.t(body_c.self_ty) if body_c.self_ty is not None else {'k': '?'}
    if t['k'] == 'array' and t.get('n') is not None:
        for a, outs in ((a1, oc), (a2, os_)):
            for _, s, _ in outs:
                s.assume(EQ(T('len', T('deref', a[0])), I(int(t['n']))))
    chk.saw(ip1, oc)
    chk.saw(ip2, os_)
    return oc, os_


def inline_container(old, own):
    """interpret the containers of the library an implementation delegates to"""
    def h(c):
        n = c.selfname()
        if n != own and n.split('<')[0] in ('Vec', 'Box', 'Option', 'HashMap', 'List', 'Map', 'Maybe') and \
                c.f.get('body') in c.prog.bodies:
            return None
        return old(c)
    return h


def sizes_agree(chk, what, prog, oc, os_, result=False, key=None):
    """compare every pair of compatible successful paths; returns list of problems or None if undecided"""
    problems, undecided, pairs = [], [], 0
    for k2, s2, v2 in os_:
        if k2 != 'ret' or failed(s2.trace()):
            continue
        okv = is_ok(v2)
        if okv is False:
            continue
        L = trace_len(s2.trace())
        if L is None or okv is None:
            undecided.append('bytes written on a path are not expressible')
            continue
        for k1, s1, v1 in oc:
            if k1 != 'ret' or failed(s1.trace()):
                continue
            if result:
                if is_ok(v1) is False:
                    continue
                v1 = v1.a[2] if is_ok(v1) else None
                if v1 is None:
                    undecided.append('size result not expressible')
                    continue
            s = merge_states(s1, s2)
            if s is None:
                continue
            pairs += 1
            d = s.simp(sub(s.simp(v1), s.simp(L)))
            if d is I(0) or s.decide(EQ(d, I(0))) is True:
                continue
            if not definite(v1, L):
                undecided.append('size %s vs written %s' % (v1, L))
                continue
            problems.append((v1, L, s))
    return problems, undecided, pairs


def first_write_site(os_):
    for k, s, v in os_:
        for e in s.trace():
            if e[0] == 'write':
                return e[-1]
    return None


def c01(chk):
    w = World.get()
    chk.rule('for every implementation of Serialize: on every pair of compatible successful paths, the value '
             'returned by compute_size equals the sum of the lengths of what serialize_cached writes')
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Serialize'):
            if own in PRIMS and prog.crate == 'steit':
                continue
            chk.count('Serialize implementations')
            c = item(prog, impl, 'compute_size')
            s = item(prog, impl, 'serialize_cached')
            what = '<%s as Serialize>' % own
            if c is None or s is None:
                chk.unknown(what, 'no body')
                continue
            guarded(chk, what, pair_rule, chk, prog, what, c, s, own)
            # overridden nested/entry methods have to keep their contract
            for n in ('steit_serialize',):
                b = item(prog, impl, n)
                if b is not None:
                    guarded(chk, what + '::' + n, pair_rule, chk, prog, what + '::' + n, c, b, own)
            cn, sn = item(prog, impl, 'compute_size_nested'), item(prog, impl, 'serialize_nested')
            if cn is not None or sn is not None:
                cn = cn or prog.trait_default('Serialize', 'compute_size_nested') or \
                    w.steit.trait_default('Serialize', 'compute_size_nested')
                sn = sn or w.steit.trait_default('Serialize', 'serialize_nested')
                if cn.prog is sn.prog:
                    guarded(chk, what + '::nested', nested_rule, chk, prog, what + '::nested', cn, sn, own)
            for n in ('cache_size', 'cached_size'):
                b = item(prog, impl, n)
                if b is not None:
                    guarded(chk, what + '::' + n, same_size_rule, chk, prog, what + '::' + n, c, b, own)
    import r_num
    r_num.size_cases(chk)
    p = w.steit
    cn, sn = p.trait_default('Serialize', 'compute_size_nested'), p.trait_default('Serialize', 'serialize_nested')
    if cn is None or sn is None:
        chk.bad('Serialize defaults', 'trait Serialize no longer provides compute_size_nested/serialize_nested')
    else:
        guarded(chk, 'Serialize::compute_size_nested', nested_rule, chk, p, 'Serialize (nested framing)', cn, sn, 'Self')
        chk.count('framing pairs')
    for n in ('steit_serialize',):
        b = p.trait_default('Serialize', n)
        if b is not None:
            guarded(chk, 'Serialize::' + n, entry_len_rule, chk, p, b)
    chk.floor('Serialize implementations', 35)


def pair_rule(chk, prog, what, c, s, own):
    res = None
    for expand in (0, 1, 2):
        oc, os_ = run_pair(chk, prog, c, s, own, expand)
        problems, undec, pairs = sizes_agree(chk, what, prog, oc, os_)
        if res is None or problems or not res[0]:
            res = (problems, undec, pairs, os_)
        if not problems and not undec and pairs:
            chk.ok()
            return
    problems, undec, pairs, os_ = res
    if problems:
        v, L, st = problems[0]
        chk.bad(what, '%s: compute_size returns %s but serialize_cached writes %s' % (what, v, L),
                first_write_site(os_), {'conditions': [str(x) for x in st.cond_list()][:20], 'compute_size': c.sig(),
                                        'serialize_cached': s.sig()})
    elif undec:
        chk.unknown(what, undec[0])
    elif not pairs:
        chk.unknown(what, 'no pair of successful paths')


def nested_rule(chk, prog, what, cn, sn, own):
    w = World.get()
    voc = Vocab(own=None, atoms_off=('Serialize::compute_size_nested', 'Serialize::serialize_nested'))
    ip1, _, oc = analyse(cn.prog, cn, voc, progs=w.progs)
    ip2, _, os_ = analyse(sn.prog, sn, voc, progs=w.progs)
    chk.saw(ip1, oc)
    chk.saw(ip2, os_)
    problems, undec, pairs = sizes_agree(chk, what, prog, oc, os_, result=True)
    if problems:
        v, L, st = problems[0]
        chk.bad(what, '%s: compute_size_nested returns %s but serialize_nested writes %s' % (what, v, L),
                first_write_site(os_), {'conditions': [str(x) for x in st.cond_list()][:20]})
    elif undec or pairs < 4:
        chk.unknown(what, undec[0] if undec else 'only %d pairs of paths' % pairs)
    else:
        chk.ok()


def same_size_rule(chk, prog, what, c, b, own):
    w = World.get()
    voc = Vocab(own=own)
    _, _, oc = analyse(prog, c, voc, progs=w.progs)
    ip, _, ob = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, ob)
    for k, s, v in ob:
        if k != 'ret':
            continue
        for k1, s1, v1 in oc:
            if k1 != 'ret':
                continue
            m = merge_states(s, s1)
            if m is None:
                continue
            d = m.simp(sub(v, v1))
            if d is I(0):
                chk.ok()
            elif definite(v, v1):
                chk.bad(what, '%s returns %s, compute_size %s' % (what, v, v1))
            else:
                chk.unknown(what, '%s vs %s' % (v, v1))


def entry_len_rule(chk, prog, b):
    """steit_serialize writes exactly the serialization of self"""
    w = World.get()
    voc = Vocab(own=None, atoms_off=('Serialize::steit_serialize',))
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)
    n = 0
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v) is False:
            continue
        n += 1
        L = trace_len(s.trace())
        x = T('deref', args[0])
        if L is T('app', 'SZ', x):
            chk.ok()
        elif L is None or not definite(L):
            chk.unknown(b.sig(), 'length %s' % L)
        else:
            chk.bad(b.sig(), '%s writes %s bytes for a value of size %s' % (b.sig(), L, T('app', 'SZ', x)))
    if not n:
        chk.unknown(b.sig(), 'no successful path')
