"""D03: client generation reaches every message and reports failures."""
import terms
from lab import *
from r_log import events
from r_replay import split
from terms import EQ, LT, I, sub


def d03(chk):
    chk.rule('the visit of a link: its message is collected under the name the setting gives it; unless its type was visited before, '
             'every one of its links is visited, after its type has been marked')
    chk.rule('each collected message that is neither a skipped builtin nor a skipped name is generated, in its own form, into one '
             'file named after it, with the complete text written and flushed; and no other is')
    chk.rule('every path on which creating, writing or flushing fails returns the error')
    chk.rule('a setting method changes its own setting and no other')
    w = World.get()
    p = w.steit
    for b in p.bodies.values():
        if b.name == 'collect_meta' and b.kind != 'closure':
            guarded(chk, b.sig(), collecting, chk, p, b)
            break
    else:
        chk.unknown('collect_meta', 'not found')
    gens = [b for b in p.bodies.values() if b.name == 'generate' and b.trait and last(b.trait) == 'Generator']
    for b in gens:
        guarded(chk, b.sig(), generating, chk, p, b)
    if not gens:
        chk.unknown('Generator::generate', 'not found')
    for i in p.impls:
        if 'trait' not in i and p.tname(i['self']).split('<')[0] == 'Setting':
            for it in i['items']:
                b = p.bodies.get(it.get('body'))
                if b is not None:
                    guarded(chk, b.sig(), setting, chk, p, b)
    chk.floor('visits', 2)
    chk.floor('generated', 2)
    chk.floor('failures', 6)


def new_ip():
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    ip = E.Interp(hooks=dict(LogVoc('?').hooks))
    ip.progs = World.get().progs
    return ip


def adt_named(p, name):
    for k, a in p.adts.items():
        if last(k) == name:
            return a
    return None


def fidx(p, ty, field, variant=0):
    a = adt_named(p, ty)
    return a['variants'][variant]['fields'].index(field)


def has_top(t):
    return any(x.op == 'top' for x in terms.subterms(t))


def sure(s):
    """every condition of the path is understood"""
    return not any(has_top(c) for c in s.cond_list())


# ------------------------------------------------------------------ traversal

def collecting(chk, p, b):
    ip = new_ip()
    outs = ip.run(b, [sym('get_name')][:b.argc], E.State())
    chk.saw(ip, outs)
    roots = set()
    recs = {}
    for k, s, v in outs:
        for e in events(s.trace()):
            if e[0] == 'opaque' and any(is_link(p, x) for x in e[3]):
                recs[e[1]] = e
        for t in s.cond_list():
            for x in terms.subterms(t):
                if x.op == 'app' and x.a[0] == 'const' and str(x.a[1]).endswith('LINK'):
                    roots.add(x)
    if len(roots) != 1:
        return chk.unknown(b.sig(), 'the root link')
    if len(recs) != 1:
        # no recursion left to look at: decide the visit of the root alone
        if not recs:
            return visit(chk, p, ip, outs, b, next(iter(roots)), sym('get_name'), None)
        return chk.unknown(b.sig(), 'recursion through %s' % sorted(recs))
    name = next(iter(recs))
    visit(chk, p, ip, outs, b, next(iter(roots)), sym('get_name'), name)
    f = None
    for x in p.bodies.values():
        if x.sig().endswith(name.split('::')[-1]) and x.name == last(name) and x.kind != 'closure':
            f = x
    if f is None:
        return chk.unknown(name, 'no body')
    ip = new_ip()
    args = [sym('arg%d' % i) for i in range(f.argc)]
    link = getn = None
    for a, t in zip(args, f.locals[1:f.argc + 1]):
        tn = p.tname(t)
        ip.typed(a, p, t)
        if tn.lstrip('&') == 'MetaLink':
            link = a
        elif 'fn(' in tn:
            getn = a
    if link is None:
        return chk.unknown(name, 'which argument is the link')
    outs = ip.run(f, args, E.State())
    chk.saw(ip, outs)
    visit(chk, p, ip, outs, f, link, getn, name)


def is_link(p, x):
    return isinstance(x, Term) and any(y.op == 'app' and y.a[0] == 'CB' or y.op == 'res' for y in terms.subterms(x))


def strip(t):
    while t.op == 'deref':
        t = t.a[0]
    return t


def visit(chk, p, ip, outs, b, link, getn, rec):
    L = T('deref', link)
    ty = T('fld', L, fidx(p, 'MetaLink', 'type'))
    msg = T('fld', L, fidx(p, 'MetaLink', 'msg'))
    fn = T('fld', L, fidx(p, 'MetaLink', 'links'))
    what = b.sig()
    chk.count('visits')
    for k, s, v in outs:
        if k == 'panic':
            if not (v and v[0] == 'assert'):
                chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
            continue
        if not sure(s):
            chk.unknown(what, 'conditions')
            continue
        visited = None
        for c in s.cond_list():
            if c.op == 'bvar' and c.a[0] == 'has' and strip(c.a[2]) is ty:
                visited = True
            elif c.op == 'not' and c.a[0].op == 'bvar' and c.a[0].a[0] == 'has' and strip(c.a[0].a[2]) is ty:
                visited = visited or False
        follow(chk, p, ip, s, b, what, ty, fn, visited, rec)
        collects(chk, p, ip, s, b, what, msg, getn, visited, v)


def link_loop(s, fn, rec):
    """the loop over the links of the entry, if the path has one"""
    out = []
    for e in s.trace():
        if e[0] == 'loop':
            src = None
            hit = False
            for it in e[4]:
                for x in events(it[1]):
                    if x[0] == 'opaque' and (rec is None or x[1] == rec):
                        for a in x[3]:
                            if isinstance(a, Term):
                                for y in terms.subterms(a):
                                    if y.op == 'app' and y.a[0] == 'CB' and y.a[1] is fn or y.op == 'res' and fn in y.a:
                                        hit = True
            if hit:
                out.append(e)
    return out


def follow(chk, p, ip, s, b, what, ty, fn, visited, rec):
    loops = link_loop(s, fn, rec)
    if not loops:
        if visited is True:
            return chk.ok()
        odd = [e for e in events(s.trace()) if e[0] in ('opaque', 'loop')]
        if odd and rec and all(e[0] == 'opaque' and e[1] == rec for e in odd) and not any(
                c.op == 'eq' and any(y.op == 'len' for y in terms.subterms(c)) for c in s.cond_list()):
            return chk.bad(what + ':some', '%s visits only %d of the links of a type' % (what, len(odd)), odd[0][5])
        if odd and any(e[0] == 'opaque' for e in odd) or any(e[0] == 'loop' for e in odd):
            return chk.unknown(what, 'how the links are followed')
        # an empty list of links needs no visit
        for c in s.cond_list():
            if any(y.op == 'app' and y.a[0] == 'CB' and y.a[1] is fn for y in terms.subterms(c)) and c.op == 'eq':
                return chk.ok()
        cs = ' and '.join(str(c)[:80] for c in s.cond_list())
        return chk.bad(what + ':follow', '%s does not visit the links of a type it has not visited before (when %s)' % (what, cs), b.sig())
    if len(loops) != 1:
        return chk.unknown(what, 'more than one loop over the links')
    e = loops[0]
    kap, bound = e[2], e[3]
    xs = None
    for it in e[4]:
        rs = [x for x in events(it[1]) if x[0] == 'opaque' and (rec is None or x[1] == rec)]
        if not rs:
            # a link may be left out only if it was visited
            if any(c.op == 'bvar' and c.a[0] == 'has' for c in it[0]):
                chk.ok()
                continue
            if any(has_top(c) for c in it[0]):
                chk.unknown(what, 'a link left out')
                continue
            chk.bad(what + ':leaves-out', '%s leaves out a link (when %s)' % (what, ' and '.join(str(c)[:80] for c in it[0][1:])), b.sig())
            continue
        for x in rs:
            el = None
            for a in x[3]:
                if isinstance(a, Term):
                    for y in terms.subterms(a):
                        if y.op == 'elem' or y.op == 'idx':
                            el = y
            marked(chk, p, ip, s, b, what, ty, visited, x)
            if el is None:
                chk.unknown(what, 'which link is visited')
                continue
            xs, ix = el.a[0], el.a[1]
            n = T('len', xs)
            if bound is n and (ix is kap or ix is sub(sub(n, I(1)), kap)):
                chk.ok()
            elif bound is None or not definite(bound) or not definite(ix):
                chk.unknown(what, 'range of the links visited')
            else:
                chk.bad(what + ':range', '%s visits link %s for each value below %s, not every link' % (what, ix, bound), b.sig())


def marked(chk, p, ip, s, b, what, ty, visited, x):
    """the visited set given to the nested visit contains the type of this link"""
    for a in x[3]:
        if not isinstance(a, Term):
            continue
        t = a
        n = 0
        while t.op == 'phi' and n < 5:
            t = ip.phis[t][0]
            n += 1
        u = t
        while u.op in ('mins', 'mrm'):
            if u.op == 'mins' and strip(u.a[1]) is ty:
                return chk.ok()
            u = u.a[0]
        if s.decide(T('bvar', 'has', u, ty)) is True:
            return chk.ok()
    if any(isinstance(a, Term) and has_top(a) for a in x[3]):
        return chk.unknown(what, 'the set of visited types')
    return chk.bad(what + ':mark', '%s visits the links of a type before marking the type as visited: it does not end on a '
                   'cyclic schema' % what, x[5])


def collects(chk, p, ip, s, b, what, msg, getn, visited, v):
    some_ = s.decide(EQ(T('discr', msg), I(1)))
    ins = []
    seen = set()

    def scan(t):
        n = 0
        while t.op == 'phi' and n < 5 and t in ip.phis:
            t = ip.phis[t][0]
            n += 1
        while t.op in ('mins', 'mrm') and t not in seen:
            seen.add(t)
            if t.op == 'mins' and t.a[2].op != 'tup':
                ins.append(t)
            t = t.a[0]
    for e in events(s.trace()):
        if e[0] == 'opaque':
            for a in e[3]:
                if isinstance(a, Term):
                    scan(a)
    for m in list(s.mem.values()):
        if isinstance(m, Term):
            scan(m)
    if isinstance(v, Term):
        scan(ip.deep(s, v))
    present = []
    for c in s.cond_list():
        if c.op == 'bvar' and c.a[0] == 'has' and any(y is msg or y.op in ('vf', 'fld') and msg in terms.subterms(y)
                                                       for y in terms.subterms(c.a[2])):
            present.append(c.a[2])
    if some_ is False:
        if ins:
            chk.bad(what + ':collect-none', '%s collects %s for a link without a message' % (what, ins[0].a[1]), b.sig())
        else:
            chk.ok()
        return
    if visited is True and some_ is not True:
        return chk.ok()
    keys = [t.a[1] for t in ins] + present
    if not keys:
        if visited is True:
            return chk.ok()
        if any(e[0] == 'opaque' and not any(is_link(p, x) for x in e[3]) for e in events(s.trace())):
            return chk.unknown(what, 'how messages are collected')
        return chk.bad(what + ':collect', '%s does not collect the message of a type it has not visited before (when %s)' % (
            what, ' and '.join(str(c)[:80] for c in s.cond_list())), b.sig())
    for t in keys:
        cb = [y for y in terms.subterms(t) if y.op == 'app' and y.a[0] == 'CB' or y.op == 'res']
        if t.op == 'app' and t.a[0] == 'CB' and getn is not None and t.a[1] is getn and any(
                y is msg for z in t.a if isinstance(z, Term) for y in terms.subterms(z)):
            chk.ok()
        elif t.op == 'app' and t.a[0] == 'CB':
            chk.unknown(what, 'name of a collected message')
        elif has_top(t) or cb:
            chk.unknown(what, 'name of a collected message')
        else:
            chk.bad(what + ':name', '%s collects a message under %s, not under the name the setting gives it' % (what, t), b.sig())
    for t in ins:
        val = ip.deep(s, t.a[2])
        if any(y is msg for y in terms.subterms(val)):
            chk.ok()
        elif has_top(val):
            chk.unknown(what, 'the message collected')
        else:
            chk.bad(what + ':message', '%s collects %s, not the message of the link' % (what, val), b.sig())


# ------------------------------------------------------------------ output

def generating(chk, p, b):
    what = b.sig()
    ip = new_ip()
    args = [sym('arg%d' % i) for i in range(b.argc)]
    S = None
    for a, t in zip(args, b.locals[1:b.argc + 1]):
        ip.typed(a, p, t)
        if p.tname(t).lstrip('&').split('<')[0] == 'Setting':
            S = T('deref', a)
    if S is None:
        return chk.unknown(what, 'the setting')
    outs = ip.run(b, args, E.State())
    chk.saw(ip, outs)
    sf = adt_named(p, 'Setting')['variants'][0]['fields']
    cfg = {n: T('fld', S, i) for i, n in enumerate(sf)}
    for k, s, v in outs:
        fs = [e for e in s.trace() if e[0] == 'io-fail']
        inner = [e for e in events(s.trace()) if e[0] == 'io-fail']
        if k == 'panic':
            if v and v[0] == 'assert':
                continue
            if inner:
                chk.bad(what + ':panic', '%s panics when %s fails' % (what, inner[0][1]), b.sig())
            elif v and v[0] in ('unwrap', 'expect'):
                chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
            else:
                chk.unknown(what, 'panic %s' % (v,))
            continue
        ok = is_ok_(ip.deep(s, v), s)
        for e in fs:
            chk.count('failures')
            if ok is None:
                chk.unknown(what, 'result after a failure')
            elif ok:
                chk.bad(what + ':swallow:' + e[1], '%s returns Ok although %s failed' % (what, e[1]), e[-1])
            else:
                chk.ok()
        for e in s.trace():
            if e[0] == 'loop':
                for it in e[4]:
                    for x in events(it[1]):
                        if x[0] == 'io-fail':
                            chk.bad(what + ':swallow:' + x[1], '%s goes on although %s failed' % (what, x[1]), x[-1])
        if not fs and ok is not False:
            emissions(chk, p, ip, s, what, b, cfg, ip.deep(s, v))
        # what is done before a failure is an instance of what the loop does otherwise


def is_ok_(v, s):
    from core import is_ok
    return is_ok(v, s)


def emissions(chk, p, ip, s, what, b, cfg, v):
    loops = []
    for e in s.trace():
        if e[0] == 'loop' and any(x[0] in ('create', 'write', 'flush') or x[0] == 'opaque' and last(str(x[1])).startswith('gen_')
                                  for it in e[4] for x in events(it[1])):
            loops.append(e)
    if len(loops) != 1:
        if not loops and not any(e[0] in ('create', 'loop') for e in events(s.trace())):
            for c in s.cond_list():
                if c.op == 'eq' and any(y.op == 'len' for y in terms.subterms(c)):
                    return chk.ok()
        return chk.unknown(what, 'the loop over messages')
    e = loops[0]
    n = None
    for c in s.cond_list():
        ys = list(terms.subterms(c))
        if e[2] in ys:
            for y in ys:
                if y.op == 'len':
                    n = y
    if n is not None and s.decide(LT(e[2], n)) is True and e[2] not in list(terms.subterms(n)):
        if sure(s):
            chk.bad(what + ':stops', '%s returns Ok while messages remain (when %s)' % (what, ' and '.join(
                str(c)[:90] for c in s.cond_list() if e[2] in list(terms.subterms(c)))), b.sig())
        else:
            chk.unknown(what, 'an early end')
    for it in e[4]:
        one(chk, p, ip, s, what, b, cfg, e, it)


def one(chk, p, ip, s, what, b, cfg, loop, it):
    conds, tr = it[0], it[1]
    kap = loop[2]
    if any(has_top(c) for c in conds):
        return chk.unknown(what, 'conditions of an iteration')
    subs = {y for c in conds for y in terms.subterms(c)} | {y for x in tr for z in x if isinstance(z, Term) for y in terms.subterms(z)}
    for x in tr:
        for z in x:
            if isinstance(z, tuple):
                for q in z:
                    if isinstance(q, Term):
                        subs |= set(terms.subterms(q))
    names = {y for y in subs if y.op == 'mkey' and kap in terms.subterms(y.a[1])}
    metas = {y for y in subs if y.op == 'mval' and kap in terms.subterms(y.a[1])}
    if len(names) > 1 or len(metas) > 1 or len({y.a for y in names | metas}) > 1:
        return chk.unknown(what, 'more than one collection of messages')
    if not metas or any(y.op == 'top' for y in subs):
        return chk.unknown(what, 'which message an iteration is about')
    name = next(iter(names)) if names else None
    st = E.State()
    for c in conds:
        st.assume(c)
    meta = next(iter(metas)) if metas else None
    M = T('deref', meta) if meta is not None else None
    var = None
    if M is not None:
        for i in (0, 1):
            if st.decide(EQ(T('discr', M), I(i))) is True:
                var = i
    builtin = None
    if var is not None:
        bf = T('fld', T('vf', M, var, 0), fidx(p, ('StructMeta', 'EnumMeta')[var], 'builtin'))
        builtin = st.decide(EQ(bf, I(1)))
        if builtin is None and st.decide(EQ(bf, I(0))) is False:
            builtin = True
    skipb = st.decide(EQ(cfg['skip_builtins'], I(1)))
    skipn = st.decide(T('bvar', 'has', cfg['skip_names'], name)) if name is not None else None
    if skipn is None:
        for c in conds:
            neg = c.op == 'not'
            d = c.a[0] if neg else c
            if d.op == 'bvar' and d.a[0] == 'has' and d.a[1] is cfg['skip_names']:
                if name is None or strip(d.a[2]) is strip(name):
                    skipn = not neg
    justified = builtin is True and skipb is True or skipn is True
    acts = [x for x in tr if x[0] in ('create', 'write', 'flush', 'opaque', 'loop', 'write-partial')]
    files = [x for x in acts if x[0] == 'create']
    desc = ' and '.join(str(c)[:90] for c in conds[1:])
    if not files:
        if any(x[0] == 'opaque' and not last(str(x[1])).startswith('gen_') for x in acts) or any(x[0] == 'loop' for x in acts):
            return chk.unknown(what, 'an iteration')
        if justified:
            return chk.ok()
        return chk.bad(what + ':omits', '%s omits a message the settings do not skip (when %s)' % (what, desc), b.sig())
    if justified:
        return chk.bad(what + ':skipped', '%s generates a message the settings skip (when %s)' % (what, desc), b.sig())
    chk.count('generated')
    # skipped messages must not reach this point: each reason has to be excluded on the path
    if not (builtin is False or skipb is False):
        return chk.bad(what + ':builtins', '%s generates a builtin although builtins are skipped (when %s)' % (what, desc), b.sig())
    if skipn is not False:
        return chk.bad(what + ':names', '%s generates a message whose name is skipped (when %s)' % (what, desc), b.sig())
    gens = [x for x in acts if x[0] == 'opaque' and last(str(x[1])) in ('gen_struct', 'gen_enum')]
    if len(gens) != 1 or var is None:
        if len(gens) > 1:
            return chk.bad(what + ':twice', '%s generates a message more than once' % what, b.sig())
        return chk.unknown(what, 'how a message is generated')
    g = gens[0]
    chk.that(last(str(g[1])) == ('gen_struct', 'gen_enum')[var] and any(
        isinstance(x, Term) and x in (T('vf', M, var, 0), ) or isinstance(x, Term) and T('vf', M, var, 0) in terms.subterms(x)
        for x in g[3]), what + ':form', '%s generates %s with %s' % (what, ('a struct', 'an enum')[var], last(str(g[1]))), b.sig())
    if len(files) != 1:
        return chk.bad(what + ':files', '%s creates %d files for one message' % (what, len(files)), b.sig())
    path = files[0][1]
    pt = list(terms.subterms(path))
    if name is None:
        return chk.unknown(what, 'name of a message')
    if name not in pt:
        if has_top(path):
            return chk.unknown(what, 'name of the file')
        return chk.bad(what + ':path', '%s creates %s, which is not named after the message' % (what, path), files[0][2])
    if cfg['out_dir'] not in pt:
        return chk.bad(what + ':dir', '%s creates %s, outside the output directory' % (what, path), files[0][2])
    chk.ok()
    order = [x[0] for x in acts if x[0] in ('create', 'write', 'flush', 'write-partial', 'opaque')]
    ws = [x for x in acts if x[0] in ('write', 'write-partial')]
    if not ws:
        if any(x[0] == 'opaque' for x in acts[acts.index(files[0]) + 1:]):
            return chk.unknown(what, 'how the file is written')
        return chk.bad(what + ':nothing', '%s writes nothing into the file it creates' % what, files[0][2])
    if any(x[0] == 'write-partial' for x in ws):
        return chk.bad(what + ':partial', '%s may write only a part of the text' % what, ws[0][-1])
    for x in ws:
        if T('app', 'File', path) not in terms.subterms(x[1]):
            return chk.unknown(what, 'which file is written')
    if len(ws) != 1:
        return chk.unknown(what, 'the text is written in parts')
    text = ws[0][2]
    if not any(last(str(z)).startswith('gen_') for y in [text] + list(terms.subterms(text)) for z in [y.op] + list(y.a)):
        if has_top(text):
            return chk.unknown(what, 'the text written')
        return chk.bad(what + ':text', '%s writes %s, which is not what was generated' % (what, text), ws[0][-1])
    chk.ok()
    buffered = ws[0][1].op == 'app' and ws[0][1].a[0] == 'BufWriter'
    if buffered and not any(x[0] == 'flush' and x[1] is ws[0][1] for x in acts[acts.index(ws[0]) + 1:]):
        return chk.bad(what + ':flush', '%s does not flush the buffered file: a failed final write is lost' % what, ws[0][-1])
    chk.ok()


# ------------------------------------------------------------------ settings

def setting(chk, p, b):
    """a method that takes and returns a setting changes the field it is named after"""
    if b.argc < 1 or p.tname(b.locals[1]).split('<')[0] != 'Setting' or p.tname(b.locals[0]).split('<')[0] not in ('Setting', 'Self'):
        return
    a = adt_named(p, 'Setting')
    fields = a['variants'][0]['fields']
    own = [f for f in fields if b.name == f or b.name.startswith(f + '_')]
    if len(own) != 1:
        return chk.unknown(b.sig(), 'which setting it is about')
    ip = new_ip()
    adtid = next(k for k in p.adts if last(k) == 'Setting')
    E.ARITY[(adtid, 0)] = len(fields)
    xs = [sym('old.' + f) for f in fields]
    args = [adt(adtid, 0, *xs)] + [sym('new%d' % i) for i in range(1, b.argc)]
    for x, t in zip(args[1:], b.locals[2:b.argc + 1]):
        ip.typed(x, p, t)
    outs = ip.run(b, args, E.State())
    chk.saw(ip, outs)
    chk.count('settings')
    for k, s, v in outs:
        if k != 'ret':
            chk.unknown(b.sig(), 'panic')
            continue
        v = ip.deep(s, v)
        if v.op != 'adt':
            chk.unknown(b.sig(), 'result')
            continue
        for f, x, y in zip(fields, xs, v.a[2:]):
            if f == own[0]:
                if y is x:
                    chk.bad(b.sig() + ':unset', '%s does not change %s' % (b.sig(), f), b.sig())
                elif b.argc == 2 and definite(y) and y.op in ('int', 'sym', 'not', 'bvar', 'eq') and y is not args[1]:
                    chk.bad(b.sig() + ':value', '%s sets %s to %s' % (b.sig(), f, y), b.sig())
                else:
                    chk.ok()
            elif y is x:
                chk.ok()
            elif definite(y):
                chk.bad(b.sig() + ':other', '%s changes %s' % (b.sig(), f), b.sig())
            else:
                chk.unknown(b.sig(), f)
