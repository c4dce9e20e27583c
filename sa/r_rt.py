"""C04: what a type writes, it reads back into place.

The writes of serialize_cached along one path (tokens: the encoding of a value, framed or not) are made the
content of the reader, and merge is interpreted on it over a fresh value.  A nested value read under its own type
and wire type comes back as itself, which is the same property one level down."""
from core import *
from vocab import *
from terms import *
from terms import T, I, Term
import engine as E
from engine import mk_len, NONE, ok, err, cref
from r_ser import all_progs, PRIMS, failed, writes
import r_de
from r_de import norm, site

SELF = T('deref', sym('self'))
IGNORE = {'SizeCache', 'Runtime'}
MAXN = 16


def tk(*a):
    return T('tk', *a)


class Tokens(Vocab):
    """a reader whose content is a list of tokens"""

    def __init__(self, own, types):
        self.types = types
        self.wrong = []
        Vocab.__init__(self, own=own)
        self.tokens()

    def get(self, st, r):
        t = st.mem.get(('TOK', norm(r)))
        if t is None:
            raise Unknown('unknown reader %s' % r)
        return list(t.a)

    def put(self, st, r, l):
        st.mem[('TOK', norm(r))] = T('toks', *l)

    def wire(self, x, tyname):
        return E.WIRE_OF[0](tyname)

    def type_of(self, x):
        return self.types.get(x)

    def back(self, name, x0, x, tx):
        """the value a place holding x0 has after reading the encoding of x into it"""
        if tx is not None and not same_type(name, tx):
            return T('app', 'MISREAD', name, x)
        if name in PRIMS or name == 'String':
            return x if x.op in ('int', 'str') else T('app', 'RB', x)
        if contains(x0, lambda t: t.op == 'app' and t.a[0] in ('RB', 'MI', 'MISREAD')):
            return T('app', 'MI', x0, x)
        return T('app', 'RB', x)

    def tokens(self):
        rd = self.reader

        def eof(c):
            return c.ret(ok(I(not self.get(c.st, rd(c, 0)))))

        def error(c, why):
            c.st.emit('misread', why, c.sp)
            return c.ret(err(T('app', 'ioerr', c.st.fresh_id())))

        def read_one(c, name, x0, r):
            """the value read by an unframed read of type `name`; None: cannot"""
            l = self.get(c.st, r)
            if not l:
                return 'nothing left to read'
            h = l[0]
            if h.a[0] == 'NB' and name in ('u32', 'u64') and h.a[2] is not NONE:
                x, tag = h.a[1], h.a[2]
                w = self.wire(x, self.type_of(x))
                self.put(c.st, r, [tk('PAY', x)] + l[1:])
                return T('app', 'TAGV', tag, w)
            if h.a[0] == 'TAGTOK' and name in ('u32', 'u64'):
                self.put(c.st, r, l[1:])
                return T('app', 'TAGV', h.a[1], h.a[2])
            if h.a[0] in ('NB', 'PAY') and (h.a[0] == 'PAY' or h.a[2] is NONE):
                x = h.a[1]
                tx = self.type_of(x)
                w = self.wire(x, tx)
                d = c.st.decide(EQ(T('discr', w), I(0)))
                if d is True:
                    self.put(c.st, r, l[1:])
                    return self.back(name, x0, x, tx)
                raise Unknown('reading %s out of the frame of %s' % (name, x))
            if h.a[0] == 'SER':
                x = h.a[1]
                tx = self.type_of(x)
                if name in PRIMS and tx in PRIMS:
                    self.put(c.st, r, l[1:])
                    return self.back(name, x0, x, name if x.op == 'int' else tx)
                if len(l) == 1:
                    self.put(c.st, r, [])
                    return self.back(name, x0, x, tx)
                raise Unknown('reading %s from %s' % (name, l))
            raise Unknown('reading %s from %s' % (name, l))

        def merge(c):
            r = rd(c, 1)
            x0 = c.ip.load(c.st, c.args[0])
            c.st.emit('merge', c.selfname(), x0, r, c.st.fresh_id(), c.sp, c.args[0])
            v = read_one(c, c.selfname(), x0, r)
            if isinstance(v, str):
                return error(c, v)
            c.ip.store(c.st, c.args[0], v)
            return c.ret(ok(UNIT))
        self.on('Deserialize::merge', merge)

        def deserialize(c):
            r = rd(c, 0)
            c.st.emit('merge', c.selfname(), NONE, r, c.st.fresh_id(), c.sp, NONE)
            v = read_one(c, c.selfname(), T('app', 'DEF', c.selfname()), r)
            if isinstance(v, str):
                return error(c, v)
            return c.ret(ok(c.ip.typed(v, c.prog, c.f.get('self'))))
        self.on('Deserialize::deserialize', deserialize)

        def framed(c, name, x0, wt, r):
            l = self.get(c.st, r)
            c.st.emit('merge_nested', name, x0, wt, r, c.st.fresh_id(), c.sp, NONE)
            if not l:
                return 'nothing left to read'
            h = l[0]
            if h.a[0] in ('NB', 'PAY') and (h.a[0] == 'PAY' or h.a[2] is NONE):
                x = h.a[1]
                tx = self.type_of(x)
                w = self.wire(x, tx)
                if tx != name and is_param(tx) and is_param(name):
                    # one unconstrained type read where another was written
                    self.put(c.st, r, l[1:])
                    return T('app', 'MISREAD', name, x)
                d = c.st.decide(EQ(T('discr', wt), T('discr', w)))
                if d is not True and wt is not w:
                    raise Unknown('wire type %s for %s' % (wt, w))
                mine = E.WIRE_OF[0](name)
                d = c.st.decide(EQ(T('discr', wt), T('discr', mine)))
                self.put(c.st, r, l[1:])
                if d is True or wt is mine:
                    return self.back(name, x0, x, tx)
                if d is False:
                    return x0
                raise Unknown('wire type %s for %s' % (wt, mine))
            raise Unknown('reading a frame from %s' % (l,))

        def merge_nested(c):
            x0 = c.ip.load(c.st, c.args[0])
            v = framed(c, c.selfname(), x0, c.ip.deep(c.st, c.args[1]), rd(c, 2))
            if isinstance(v, str):
                return error(c, v)
            c.ip.store(c.st, c.args[0], v)
            return c.ret(ok(UNIT))
        self.on('Deserialize::merge_nested', merge_nested)

        def deserialize_nested(c):
            v = framed(c, c.selfname(), T('app', 'DEF', c.selfname()), c.ip.deep(c.st, c.args[0]), rd(c, 1))
            if isinstance(v, str):
                return error(c, v)
            return c.ret(ok(c.ip.typed(v, c.prog, c.f.get('self'))))
        self.on('Deserialize::deserialize_nested', deserialize_nested)

        def skip(c):
            r = rd(c, 0)
            l = self.get(c.st, r)
            if not l or l[0].a[0] not in ('PAY', 'NB'):
                raise Unknown('skip in %s' % (l,))
            c.st.emit('skipped', l[0].a[1], c.sp)
            self.put(c.st, r, l[1:])
            return c.ret(ok(UNIT))

        def nested(c):
            r = rd(c, 0)
            l = self.get(c.st, r)
            if not l or not (l[0].a[0] == 'PAY' or l[0].a[0] == 'NB' and l[0].a[2] is NONE):
                raise Unknown('nested reader in %s' % (l,))
            x = l[0].a[1]
            if c.st.decide(EQ(T('discr', self.wire(x, self.type_of(x))), I(0))) is not False:
                raise Unknown('nested reader of %s' % x)
            self.put(c.st, r, l[1:])
            n = T('app', 'NESTED', norm(r), c.st.fresh_id())
            self.put(c.st, n, [tk('SER', x)])
            return c.ret(ok(n))

        def parse_tag(c):
            v = c.ip.deep(c.st, c.args[0])
            if v.op == 'app' and v.a[0] == 'TAGV':
                return c.ret(ok(tup(v.a[1], v.a[2])))
            raise Unknown('tag %s' % v)

        def read_to_end(c):
            r = rd(c, 0)
            l = self.get(c.st, r)
            v = c.ip.load(c.st, c.args[1])
            self.put(c.st, r, [])
            data = T('app', 'ALL', *l)
            if l and all(t.a[0] == 'RAW' for t in l):
                data = l[0].a[1]
                for t in l[1:]:
                    data = E.mk_concat(data, t.a[1])
            if not l:
                data = T('arr')
            c.ip.store(c.st, c.args[1], E.mk_concat(v, data))
            return c.ret(ok(mk_len(data)))

        def io_copy(c):
            ty = c.atys[1]
            while ty is not None and c.prog.t(ty)['k'] == 'ref':
                ty = c.prog.t(ty)['t']
            n = last_seg(c.prog.tname(ty).split('<')[0]) if ty is not None else '?'
            if n == 'Vec':
                return read_to_end(c)
            if n != 'Sink':
                raise Unknown('copying to ' + n)
            l = self.get(c.st, rd(c, 0))
            self.put(c.st, rd(c, 0), [])
            return c.ret(ok(mk_len(T('app', 'ALL', *l))))

        def partial(c):
            raise Unknown('reading a part: ' + c.key)

        for k in ('Read::read_exact', 'Read::read', 'Read::take', 'Take::limit'):
            self.hooks[k] = partial
        self.hooks['io::copy'] = self.hooks['copy::copy'] = io_copy

        def key(c):
            v = c.ip.deep(c.st, c.args[0])
            return c.ret(ok(T('app', 'KEYOF', v)))

        for k, f in (('Reader::eof', eof), ('Reader::skip_field', skip), ('Reader::nested', nested),
                     ('wire_fmt::parse_tag', parse_tag), ('Read::read_to_end', read_to_end),
                     ('MapKey::try_from_field_number', key)):
            self.hooks[k] = f


def same_type(a, b):
    return a == b


def is_param(n):
    return bool(n) and n.isalnum() and n[0].isupper() and len(n) == 1


# ------------------------------------------------------------------ writer side

def inline_ser(own, types):
    """vocabulary for the writing side: as usual, but with containers the analysed type delegates to interpreted"""
    voc = Vocab(own=own)
    for n in ('serialize_cached', 'steit_serialize'):
        old = voc.hooks['Serialize::' + n]

        def h(c, old=old):
            b = c.f.get('body')
            sn = c.selfname()
            if sn.split('<')[0] in ('Vec', 'Box', 'Option', 'HashMap') and b in c.prog.bodies and sn != own:
                return None
            return old(c)
        voc.hooks['Serialize::' + n] = h
    return voc


def raw_of(own):
    return own in ('String', 'Bytes', '&str')


def shapes(chk, prog, own, b):
    """the token lists a type can write: (conditions state, tokens, value type map)"""
    w = World.get()
    types = {}
    voc = inline_ser(own, types)
    voc.own_wt = own_wire(prog, own)
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)

    def scan(tr):
        for e in tr:
            if e[0] == 'needs-children':
                types[e[1]] = e[3]
            elif e[0] == 'loop':
                for it in e[4]:
                    scan(it[1])
    res = []
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not True:
            continue
        scan(s.trace())
        ns = [0]
        if any(e[0] == 'loop' for e in s.trace()):
            ns = [0, 1, 2, 5]
        for n in ns:
            toks = tokens_of(s.trace(), n, types)
            if toks is not None:
                res.append((s, n if len(ns) > 1 else None, toks))
            else:
                chk.unknown('<%s as Serialize>' % own, 'writes not expressible as tokens')
    return res, types, args


def tokens_of(tr, n, types):
    out = []
    for e in tr:
        if e[0] == 'write':
            for d in parts(e[2]):
                if d.op == 'app' and d.a[0] == 'NB':
                    om = d.a[3] if len(d.a) > 3 else FALSE
                    out.append(tk('NB', d.a[1], d.a[2], om))
                elif d.op == 'app' and d.a[0] == 'SER':
                    if d.a[1].op == 'app' and d.a[1].a[0] == 'TAG':
                        out.append(tk('TAGTOK', d.a[1].a[1], d.a[1].a[2]))
                    else:
                        out.append(tk('SER', d.a[1]))
                else:
                    out.append(tk('RAW', d))
        elif e[0] == 'write-partial':
            return None
        elif e[0] == 'loop':
            its = [it for it in e[4] if any(x[0] in ('write', 'loop', 'write-partial') for x in it[1])]
            if not its:
                continue
            if len(its) != 1 or e[3] is None or len(e[4]) != 1:
                return None
            sub_ = tokens_of(its[0][1], n, types)
            if sub_ is None:
                return None
            for k in range(n):
                m = {e[2]: I(k)}
                for t in sub_:
                    t2 = subst(t, m)
                    for x, y in zip(t.a, t2.a):
                        if isinstance(x, Term) and x in types:
                            types[y] = types[x]
                    out.append(t2)
    return out


def parts(d):
    if d.op == 'concat':
        return parts(d.a[0]) + parts(d.a[1])
    return [d]


# ------------------------------------------------------------------ fresh values

def fresh(prog, own, voc, how):
    """a value nothing has been read into, and the state it lives in"""
    w = World.get()
    st = E.State()
    if how == 'default':
        for i in prog.impls:
            if last(i.get('trait', '')) == 'Default' and prog.tname(i['self']) == own:
                b = item(prog, i, 'default')
                if b is not None:
                    _, _, outs = analyse(prog, b, voc, progs=w.progs, args=[], st=st)
                    r = [(s, v) for k, s, v in outs if k == 'ret']
                    return r[0] if len(r) == 1 else None
        return None
    for impl, o in ser_impls(prog, 'State'):
        if o == own:
            b = item(prog, impl, 'with_runtime')
            if b is not None:
                _, _, outs = analyse(prog, b, voc, progs=w.progs, args=[sym('rt')], st=st)
                r = [(s, v) for k, s, v in outs if k == 'ret']
                return r[0] if len(r) == 1 else None
    return None


def std_fresh(own, nfields=None):
    if own.startswith('Vec<'):
        return T('arr')
    if own.startswith('Option<'):
        return NONE
    if own.startswith('HashMap<'):
        return T('mempty')
    if own == 'String':
        return T('str', '')
    if own.startswith('('):
        return tup(*[T('app', 'DEF', x) for x in own[1:-1].split(', ')])
    if own.startswith('[') and '; ' in own:
        t, n = own[1:-1].split('; ')
        return T('arr', *[T('app', 'DEF', t)] * int(n))
    if own.startswith('Box<'):
        return T('app', 'DEF', own[4:-1])
    return None


# ------------------------------------------------------------------ the rule

def c04(chk):
    w = World.get()
    chk.rule('for every type that is both written and read, and every path of its serialize_cached: merge, interpreted on '
             'exactly those writes, succeeds, consumes everything, and leaves every value in the field, position, key or '
             'variant it was written from; a field left out keeps its fresh value')
    chk.rule('serialize_nested writes tag, then (for sized types) the length, then the value, in this order, and leaves a '
             'value out only if asked to and is_omissible says so')
    chk.rule('is_omissible answers yes only for an empty encoding or the default value')
    for prog in all_progs(w):
        des = {o: i for i, o in ser_impls(prog, 'Deserialize')}
        for impl, own in ser_impls(prog, 'Serialize'):
            if own in PRIMS or own not in des:
                continue
            chk.count('types written and read')
            sb = item(prog, impl, 'serialize_cached')
            if own == 'String':
                continue
            mb = item(prog, des[own], 'merge')
            if sb is None or mb is None:
                chk.unknown('<%s>' % own, 'no body')
                continue
            guarded(chk, '<%s> round trip' % own, round_trip, chk, prog, own, sb, mb)
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Serialize'):
            b = item(prog, impl, 'is_omissible')
            if b is not None:
                chk.count('is_omissible')
                guarded(chk, '<%s as Serialize>::is_omissible' % own, omissible, chk, prog, own, b)
            b = item(prog, impl, 'serialize_nested')
            if b is not None:
                guarded(chk, '<%s as Serialize>::serialize_nested' % own, framing, chk, prog, b, own)
    p = w.steit
    b = p.trait_default('Serialize', 'is_omissible')
    chk.count('is_omissible')
    guarded(chk, 'Serialize::is_omissible', omissible, chk, p, 'Self', b)
    b = p.trait_default('Serialize', 'serialize_nested')
    guarded(chk, 'Serialize::serialize_nested', framing, chk, p, b, None)
    for impl, own in ser_impls(p, 'Deserialize'):
        if own == 'String':
            guarded(chk, '<String> round trip', raw_rule, chk, p, impl, own)
    chk.floor('types written and read', 30)
    chk.floor('is_omissible', 9)


def round_trip(chk, prog, own, sb, mb):
    w = World.get()
    res, types, _ = shapes(chk, prog, own, sb)
    if not res:
        chk.unknown('<%s> round trip' % own, 'no successful way of writing')
        return
    for s, n, toks in res:
        for leave in ((), None):
            opt = [i for i, t in enumerate(toks) if t.a[0] == 'NB' and t.a[2] is not NONE and t.a[3] is not FALSE]
            if leave is None:
                if not opt:
                    continue
                use = [t for i, t in enumerate(toks) if i not in opt]
                gone = [toks[i].a[1] for i in opt]
            else:
                use, gone = toks, []
            for how in ('default', 'with_runtime'):
                one_way(chk, prog, own, mb, s, n, use, gone, types, how)


def relevant(prog, own):
    """[(variant, index, type name)] of the fields that hold user data"""
    for i in prog.impls:
        if prog.tname(i['self']) == own:
            t = prog.t(i['self'])
            if t['k'] == 'adt' and t['def'] in prog.adts:
                return prog.adts[t['def']]
    return None


def one_way(chk, prog, own, mb, s0, n, toks, gone, types, how):
    w = World.get()
    voc = Tokens(own, types)
    voc.own_wt = own_wire(prog, own)
    fv = fresh(prog, own, Vocab(own=own), how)
    if fv is None:
        if how == 'with_runtime':
            return
        v = std_fresh(own)
        if v is None:
            chk.unknown('<%s> round trip' % own, 'no fresh value')
            return
        fv = (E.State(), v)
    st, v0 = fv
    st = st.copy()
    st.ev = None
    st.conds = None
    ip = E.Interp(hooks=voc.hooks, unroll=MAXN, unroll_exact=True)
    ip.nheap = 1000
    ip.nfid = 1000
    ip.progs = w.progs
    R = sym('rd')
    # the writer's side of the facts: map keys that were written are distinct and valid
    keys = [t.a[2] for t in toks if t.a[0] == 'NB' and t.a[2].op == 'mkey']
    for k in keys:
        UNSIGNED.add(k)
        st.assume(LE(k, I(FN_MAX)))
    for i, a in enumerate(keys):
        for b in keys[:i]:
            st.assume(NOT(EQ(a, b)))
    base_conds = st.conds
    me = ip.heap(st, v0)
    st.mem[('TOK', norm(T('deref', R)))] = T('toks', *toks)
    E.TERM_TY[R] = (prog, mb.locals[2])
    outs = ip.run(mb, [me, R], st)
    chk.saw(ip, outs)
    chk.count('token runs')
    what = '<%s> round trip' % own
    case = ''
    var = variant_of(s0)
    if var is not None:
        case = ' variant %d' % var
    if n is not None:
        case += ' with %d entries' % n
    if gone:
        case += ' with its fields omitted'
    key = what + (':%s' % var if var is not None else '') + (':omitted' if gone else '')
    if not outs:
        chk.unknown(what, 'no outcome')
        return
    for k, s, v in outs:
        sure = s.conds is base_conds
        if k == 'panic':
            if sure:
                chk.bad(key, '%s%s: merge panics on what serialize_cached writes' % (what, case), v[2] if len(v) > 2 else mb.span)
            else:
                chk.unknown(what + case, 'panic on a path with conditions %s' % [str(c) for c in s.cond_list(base_conds)])
            continue
        okv = is_ok(v, s)
        if okv is not True:
            if okv is False and sure:
                m = [e for e in s.trace() if e[0] == 'misread']
                chk.bad(key, '%s%s: merge rejects what serialize_cached writes%s' % (
                    what, case, ' (%s)' % m[-1][1] if m else ''), site(m[-1]) if m else mb.span,
                    {'tokens': [str(t) for t in toks]})
            else:
                chk.unknown(what + case, 'outcome %s under %s' % (v, [str(c) for c in s.cond_list(base_conds)]))
            continue
        left = s.mem.get(('TOK', norm(T('deref', R))))
        if left.a:
            if sure:
                chk.bad(key, '%s%s: merge stops before the end of what serialize_cached writes' % (what, case), mb.span)
            else:
                chk.unknown(what + case, 'stops early')
            continue
        final = ip.load(s, me)
        for pl, want, got in compare(prog, own, var, n, final, v0, toks, gone, st=s, types=types):
            if got is want:
                chk.ok()
            elif definite_rb(got) and sure:
                chk.bad(key + ':' + pl, '%s%s: %s comes back as %s' % (what, case, pl, describe(got)), mb.span,
                        {'tokens': [str(t) for t in toks], 'value': str(got), 'expected': str(want), 'start': how})
            else:
                chk.unknown(what + case, '%s is %s, expected %s' % (pl, got, want))


def definite_rb(t):
    return definite(t) and not contains(t, lambda x: x.op in ('elem', 'mget') and contains(x.a[0], lambda y: y.op in (
        'pushn', 'mapn', 'concat')))


def describe(t):
    s = str(t)
    return s if len(s) < 200 else s[:200] + '…'


def variant_of(s):
    for c in s.cond_list():
        if c.op == 'eq' and c.a[0].op == 'discr' and c.a[0].a[0] is SELF and c.a[1].op == 'int':
            return c.a[1].a[0]
    return None


def rb(x):
    return x if x.op in ('int', 'str') else T('app', 'RB', x)


def compare(prog, own, var, n, final, v0, toks, gone, st, types):
    """(place, expected, found) for every place that holds user data"""
    head = own.split('<')[0]
    if own.startswith('Box<'):
        yield 'the value', rb(SELF), final
        return
    if own.startswith('Option<'):
        if toks or var == 1:
            yield 'the value', E.some(rb(T('vf', SELF, 1, 0))), final
        else:
            yield 'the value', NONE, final
        return
    if own.startswith('('):
        k = len(own[1:-1].split(', '))
        for i in range(k):
            yield 'element %d' % i, rb(T('fld', SELF, i)), st_proj(final, i)
        return
    if own.startswith('['):
        t, cnt = own[1:-1].split('; ')
        for i in range(min(int(cnt), n if n is not None else int(cnt))):
            x = [t.a[1] for t in toks if t.a[0] == 'NB'][i]
            if x is not E.mk_elem(SELF, I(i)):
                raise Unknown('element %s' % x)
            yield 'element %d' % i, rb(x), E.mk_elem(final, I(i), st)
        return
    if head == 'Vec':
        yield 'the sequence', T('arr', *[rb(E.mk_elem(SELF, I(i))) for i in range(n)]), final
        return
    if head == 'HashMap':
        m = T('mempty')
        for i in range(n):
            m = E.mk_mins(m, rb(T('mkey', SELF, I(i))), rb(T('mval', SELF, I(i))))
        yield 'the map', m, final
        return
    if own == 'Bytes':
        got = st_proj(final, 0)
        if n is not None:
            want = T('arr', *[E.mk_elem(T('fld', SELF, 0), I(i)) for i in range(n)])
            if got is not want and not (got.op == 'arr' and len(got.a) != n):
                raise Unknown('bytes %s' % got)
            yield 'the bytes', want, got
            return
        yield 'the bytes', T('fld', SELF, 0), got
        return
    a = relevant(prog, own)
    if a is None:
        raise Unknown('type %s' % own)
    if head == 'List' and prog.crate == 'steit':
        for i, (f, ty) in enumerate(zip(a['variants'][0]['fields'], a['variants'][0]['ftys'])):
            if prog.tname(ty).startswith('Vec<'):
                yield 'the items', T('arr', *[rb(E.mk_elem(T('fld', SELF, i), I(j))) for j in range(n)]), st_proj(final, i)
        return
    if head == 'Map' and prog.crate == 'steit':
        for i, (f, ty) in enumerate(zip(a['variants'][0]['fields'], a['variants'][0]['ftys'])):
            if prog.tname(ty).startswith('IndexMap<'):
                m = T('mempty')
                for j in range(n):
                    m = E.mk_mins(m, T('mkey', T('fld', SELF, i), I(j)), rb(T('mval', T('fld', SELF, i), I(j))))
                yield 'the entries', m, st_proj(final, i)
        return
    vi = 0
    if a['kind'] != 'struct':
        ds = [int(v['discr']) for v in a['variants']]
        vi = ds.index(var) if var is not None else 0
        if final.op != 'adt':
            raise Unknown('variant of %s' % final)
        yield 'the variant', I(vi), I(final.a[1])
        if final.a[1] != vi:
            return
    for i, (f, ty) in enumerate(zip(a['variants'][vi]['fields'], a['variants'][vi]['ftys'])):
        tn = prog.tname(ty)
        if tn in IGNORE or tn.startswith('PhantomData'):
            continue
        x = T('fld', SELF, i) if a['kind'] == 'struct' else T('vf', SELF, vi, i)
        got = st_proj(final, i)
        if x in gone:
            if contains(got, lambda t: t.op == 'app' and t.a[0] in ('RB', 'MI', 'MISREAD')) or not freshish(got, tn):
                yield 'field %s' % f, T('app', 'fresh', tn), got
            else:
                yield 'field %s' % f, got, got
        else:
            yield 'field %s' % f, rb(x), got


ZERO = {'int', 'str', 'arr', 'mempty'}


def freshish(v, tn):
    if v.op == 'app' and v.a[0] in ('DEF', 'NEW', 'default'):
        return v.a[1] == tn
    if v.op == 'int':
        return v.a[0] == 0
    if v.op == 'str':
        return v.a[0] == ''
    if v.op == 'arr':
        return not v.a
    return True


def st_proj(v, i):
    if v.op in ('tup',):
        return v.a[i]
    if v.op == 'adt':
        return v.a[2 + i]
    if v.op == 'setf':
        return v.a[2] if v.a[1] == i else st_proj(v.a[0], i)
    return T('fld', v, i)


# ------------------------------------------------------------------ strings

def raw_rule(chk, p, impl, own):
    """a string is written as its bytes and read as everything left, checked to be UTF-8"""
    w = World.get()
    mb = item(p, impl, 'merge')
    sb = item(p, [i for i, o in ser_impls(p, 'Serialize') if o == own][0], 'serialize_cached')
    ip, a, outs = analyse(p, sb, Vocab(own=own), progs=w.progs)
    chk.saw(ip, outs)
    good = [s for k, s, v in outs if k == 'ret' and not failed(s.trace()) and is_ok(v, s)]
    for s in good:
        ds = [d for e in writes(s.trace()) for d in parts(e[2])]
        if len(ds) == 1 and ds[0] in (SELF, T('app', 'bytes_of', SELF)):
            chk.ok()
        elif len(ds) == 1 and contains(ds[0], lambda t: t is SELF):
            chk.unknown('<String> writes', ds)
        elif definite(*ds):
            chk.bad('<String> writes', '<String as Serialize>::serialize_cached writes %s' % ds, sb.span)
        else:
            chk.unknown('<String> writes', ds)
    chk.count('types written and read')
    ip, a, outs = r_de.run(p, mb, own)
    chk.saw(ip, outs)
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not True:
            continue
        fin = s.mem.get(('P', a[0]), T('deref', a[0]))
        rs = [e for e in s.trace() if e[0] == 'read_to_end']
        if len(rs) == 1 and contains(fin, lambda t: t is T('app', 'REST', rs[0][2])) and not contains(fin, lambda t: t is SELF):
            chk.ok()
        elif definite(fin) and not contains(fin, lambda t: t.op == 'app' and t.a[0] in ('REST', 'READ')):
            chk.bad('<String> reads', '<String as Deserialize>::merge stores %s' % fin, mb.span)
        else:
            chk.unknown('<String> reads', fin)


# ------------------------------------------------------------------ framing

def framing(chk, prog, b, own):
    w = World.get()
    voc = Vocab(own=own, atoms_off=('Serialize::serialize_nested',) if own is None else ())
    if own is not None:
        voc.own_wt = own_wire(prog, own)
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)
    what = 'Serialize::serialize_nested' if own is None else '<%s as Serialize>::serialize_nested' % own
    wt = voc.own_wt if own is not None else T('app', 'const', 'HasWireType::WIRE_TYPE', 'Self')
    X = T('deref', args[0])
    n = 0
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not True:
            continue
        n += 1
        # the field number, as the code sees it
        ds = [d for e in writes(s.trace()) for d in parts(e[2])]
        opt = next((c for c in subterms(tuple(s.cond_list())) if c.op == 'discr' and contains(
            c, lambda t: t is args[1])), None)
        has = None if opt is None else s.decide(EQ(opt, I(0)))
        has = None if has is None else not has
        sized = s.decide(EQ(T('discr', wt), I(0)))
        if not ds:
            om = s.decide(args[2]) if E.is_cond(args[2]) else s.decide(EQ(args[2], I(1)))
            asked = T('bvar', 'OM', X)
            yes = s.decide(asked)
            cs = s.cond_list()
            if yes is None:
                # the default answer, interpreted in place
                if s.decide(EQ(T('app', 'SZ', X), I(0))) is True:
                    yes = True
            if has and om and yes:
                chk.ok()
            elif definite(*cs):
                chk.bad(what, '%s writes nothing for a value that %s' % (
                    what, 'is not omissible' if not yes else 'must not be omitted'), b.span, [str(c) for c in cs])
            else:
                chk.unknown(what, 'nothing written under %s' % [str(c) for c in cs])
            continue
        if has is None or sized is None:
            # never asked: it treats both alike; the encodings differ, so this is only right if they cannot occur
            if own is None:
                chk.unknown(what, 'path independent of tag or wire type')
                continue
        fn = next((d.a[1].a[1] for d in ds if d.op == 'app' and d.a[0] == 'SER' and d.a[1].op == 'app' and
                   d.a[1].a[0] == 'TAG'), None)
        want = []
        if has:
            want.append('TAG')
        if sized is False:
            want.append('LEN')
        want.append('VAL')
        got = []
        for d in ds:
            if d.op == 'app' and d.a[0] == 'SER':
                x = d.a[1]
                if x is X:
                    got.append('VAL')
                elif x is T('app', 'SZ', X):
                    got.append('LEN')
                elif x.op == 'app' and x.a[0] == 'TAG' and x.a[2] is wt and opt is not None and x.a[1] is T(
                        'vf', opt.a[0], 1, 0):
                    got.append('TAG')
                else:
                    got.append('? ' + str(x))
            else:
                got.append('? ' + str(d))
        if got == want:
            chk.ok()
        elif all(definite(d) for d in ds):
            chk.bad(what, '%s writes %s where %s is expected' % (what, ' '.join(got), ' '.join(want)), site(writes(s.trace())[0]),
                    [str(c) for c in s.cond_list()])
        else:
            chk.unknown(what, got)
    if n < 3 and own is None:
        chk.unknown(what, 'only %d successful paths' % n)


def omissible(chk, prog, own, b):
    w = World.get()
    voc = Vocab(own=own if own != 'Self' else None, atoms_off=('Serialize::is_omissible',))
    voc.own_wt = own_wire(prog, own) if own != 'Self' else None
    ip, args, outs = analyse(prog, b, voc, progs=w.progs)
    chk.saw(ip, outs)
    X = T('deref', args[0])
    what = '<%s as Serialize>::is_omissible' % own if own != 'Self' else 'Serialize::is_omissible'
    sz = T('app', 'SZ', X)
    hint = T('vf', args[1], 1, 0)
    for k, s, v in outs:
        if k != 'ret':
            continue
        s = s.copy()
        # the hint, when given, is the size
        s.eqs[hint] = sz
        if not all(s.assume(s.simp(x)) for x in s.cond_list()):
            chk.ok()
            continue
        v = s.simp(v)
        c = v if v.op == 'int' or E.is_cond(v) else EQ(v, I(1))
        if c is FALSE:
            chk.ok()
            continue
        if not s.assume(c):
            chk.ok()
            continue
        if s.decide(EQ(sz, I(0))) is True:
            chk.ok()
            continue
        if own in PRIMS:
            if own == 'bool':
                d = s.decide(EQ(X, I(0)))
            else:
                d = s.decide(EQ(X, I(0)))
            if d is True:
                chk.ok()
                continue
            if c is TRUE and not s.conds or witness(c, X):
                chk.bad(what, '%s accepts values other than the default: %s' % (what, c), b.span)
            else:
                chk.unknown(what, c)
            continue
        if own in ('String', '&str') and s.decide(EQ(mk_len(X), I(0))) is True or contains(
                c, lambda t: t.op == 'eq' and T('str', '') in t.a and X in t.a):
            chk.ok()
            continue
        if c is TRUE and all(only_about(x, args[1]) for x in s.cond_list()):
            chk.bad(what, '%s accepts every value' % what, b.span)
        elif definite(c) and c.op in ('neg', 'not', 'eq') and contains(c, lambda t: t is sz) and witness(c, sz):
            chk.bad(what, '%s accepts values with a non-empty encoding: %s' % (what, c), b.span)
        else:
            chk.unknown(what, c)


def only_about(c, a):
    return all(t is a for t in subterms(c) if t.op == 'sym')


def witness(c, x):
    """a nonzero value of x makes the condition true whatever else holds"""
    for n in (1, 2, 3, 127, 128, 255, -1, -128):
        if subst(c, {x: I(n)}) is TRUE:
            return True
    return False
