"""L10, L11, L13: log entries, loggers, map keys."""
from types import SimpleNamespace

from lab import *
import lab as L
from r_log import events, sp_of
from r_replay import result, split, discr

MAXKEY = 1 << 29
OBJ = ('P', sym('self'))


def steit():
    return World.get().steit


def adt_named(name):
    for n, a in steit().adts.items():
        if last(n) == name:
            return n, a
    raise Unknown('no type ' + name)


def interp(voc=None, unroll=0, own=None):
    voc = voc or LogVoc('?')
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    ip = E.Interp(hooks=dict(voc.hooks), unroll=unroll)
    ip.progs = World.get().progs
    if own:
        ip.self_impl = self_impl(SimpleNamespace(own=own, prog=steit()))
    return ip


def ran(chk, body, **k):
    ip, args, outs = analyse(steit(), body, k.pop('voc', None) or LogVoc('?'), progs=World.get().progs, **k)
    chk.saw(ip, outs)
    return ip, args, outs


def real(outs):
    return [(k, s, v) for k, s, v in outs if not (k == 'panic' and (v is None or v[0] == 'assert'))]


# ------------------------------------------------------------------ L10

SHAPE = {'update': ('Update', 'value'), 'list_push': ('ListPush', 'item'), 'list_pop': ('ListPop', None),
         'map_remove': ('MapRemove', 'key')}


def l10(chk):
    chk.rule('every constructor of LogEntry and every entry_*/log_* of Runtime yields the variant of its name, whose path is '
             'exactly the values of the node (for the *_child form: and the child\'s number), and whose value is the complete '
             'encoding of the argument, sized before it is written, or the key argument itself')
    chk.rule('Node::collect_values on a node at any depth up to the bound is the values from the root to the node; nested, '
             'parent and sibling of Runtime change the path by exactly one step and keep the logger')
    chk.rule('LogEntry::kind names the variant; unpacking an encoded entry gives back variant, path, value and key (round trip '
             'of LogEntry, Bytes and Vec, and State::replay hands exactly these to State::handle)')
    p = steit()
    for short in SHAPE:
        for ty, name in (('LogEntry', 'new_' + short), ('Runtime', 'entry_' + short), ('Runtime', 'log_' + short)):
            guarded(chk, '%s::%s' % (ty, name), constructor, chk, p, ty, name, short)
    for name in ('entry_update_child', 'log_update_child'):
        guarded(chk, 'Runtime::' + name, constructor, chk, p, 'Runtime', name, 'update')
    guarded(chk, 'LogEntry::kind', kind_of, chk, p)
    for depth in list(range(0, 13 if chk.thorough else 7)) + ([17, 33, 65, 129, 257] if chk.thorough else [17, 33]):
        guarded(chk, 'Node::collect_values', collects, chk, p, depth)
    for f in ('nested', 'parent', 'sibling'):
        for where in ('root', 'child'):
            guarded(chk, 'Runtime::' + f, moves, chk, p, f, where)
    guarded(chk, 'Bytes', raw_bytes, chk, p)
    import r_rt
    for own in ('LogEntry', 'Bytes', 'Vec<T>'):
        des = {o: i for i, o in ser_impls(p, 'Deserialize')}
        for impl, o in ser_impls(p, 'Serialize'):
            if o == own and o in des:
                sb, mb = item(p, impl, 'serialize_cached'), item(p, des[o], 'merge')
                chk.count('round trips')
                guarded(chk, '<%s> round trip' % o, r_rt.round_trip, chk, p, o, sb, mb)
    import r_replay
    types, rest = state_types()
    for ty in types[:1]:
        guarded(chk, ty.own, r_replay.l07_type, chk, ty)
    chk.floor('ways of making an entry', 14)
    chk.floor('round trips', 2)


def constructor(chk, p, ty, name, short):
    b = p.find1(ty, name)
    if b is None:
        return chk.unknown('%s::%s' % (ty, name), 'not found')
    chk.count('ways of making an entry')
    what = '%s::%s' % (ty, name)
    st = E.State()
    ip0 = interp()
    args = [sym('self')] + [sym('a%d' % i) for i in range(1, b.argc)]
    if ty == 'Runtime':
        R = ip0.typed(sym('R'), p, rtty(p))
        Rx = ip0.expand(st, R)
        st.mem[OBJ] = Rx
        args[0] = ref(OBJ)
        path = path_of(dict(zip(World_fields(), Rx.a[2:]))['path'])
    else:
        path = None
    ip, a, outs = ran(chk, b, args=args, st=st)
    kind, field = SHAPE[short]
    child = name.endswith('_child')
    data = a[2] if child else a[1] if b.argc > 1 else None
    for k, s, v in real(outs):
        if k == 'panic':
            chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
            continue
        if name.startswith('log_'):
            lg = [e for e in events(s.trace()) if e[0] == 'logger']
            if len(lg) != 1 or lg[0][1] != 'log':
                chk.bad(what + ':once', '%s hands %d entries to the logger instead of one' % (what, len(lg)), b.sig())
                continue
            en = lg[0][3][0]
        else:
            en = ip.deep(s, v)
        node = None
        if path is None:
            node = T('app', 'PATH', ip.deep(s, T('deref', a[0]))) if False else None
        try:
            n, ad = adt_named('LogEntry')
            if en.op != 'adt' or last(en.a[0]) != 'LogEntry':
                chk.unknown(what, 'entry ' + str(en)[:100])
                continue
            var = ad['variants'][en.a[1]]
            if var['name'] != kind:
                chk.bad(what + ':kind', '%s makes an entry of kind %s' % (what, var['name']), b.sig())
                continue
            d = dict(zip(var['fields'], en.a[2:]))
            got = d.get('path')
            want = path if path is not None else T('app', 'PATH', ip.deep(s, ip.load(s, a[0]) if a[0].op == 'ref' else T('deref', a[0])))
            if path is None:
                ok_path = got.op == 'app' and got.a[0] == 'PATH' and str(got.a[1]) == '*self'
                want = got if ok_path else T('app', 'PATH', sym('self'))
            else:
                if child:
                    want = push_(want, a[1])
                ok_path = got is want
            if not ok_path:
                if definite(got):
                    chk.bad(what + ':path', '%s: the entry\'s path is %s instead of %s' % (what, got, want), b.sig())
                else:
                    chk.unknown(what, 'path ' + str(got)[:120])
                continue
            if field in ('value', 'item'):
                x = d.get(field)
                while x.op == 'adt' and len(x.a) == 3:
                    x = x.a[2]
                tgt = x.a[1] if x.op == 'app' and x.a[0] == 'SER' else None
                tn = str(tgt) if tgt is not None else None
                if tn != '*' + str(data):
                    if definite(x):
                        chk.bad(what + ':value', '%s: the entry carries %s, not the encoding of its argument' % (what, x), b.sig())
                    else:
                        chk.unknown(what, 'value ' + str(x)[:120])
                    continue
                seen = False
                for e in events(s.trace()):
                    if e[0] == 'cached' and e[1] is tgt:
                        seen = True
                    if e[0] in ('uses', 'needs-children') and e[1] is tgt and not seen:
                        chk.bad(what + ':stale', '%s writes the value by sizes that were not brought up to date' % what, e[2])
                        seen = True
                if not seen:
                    chk.bad(what + ':stale', '%s writes the value by sizes that were not brought up to date' % what, b.sig())
                    continue
            elif field == 'key':
                x = d.get(field)
                if same(x, data, s) is not True:
                    if definite(x):
                        chk.bad(what + ':key', '%s: the entry carries key %s' % (what, x), b.sig())
                    else:
                        chk.unknown(what, 'key ' + str(x)[:120])
                    continue
            chk.ok()
        except Unknown as e:
            chk.unknown(what, e)


def rtty(p):
    types, _ = state_types()
    for t in types:
        if t.prog is p:
            return t.rtty
    raise Unknown('no state type')


def World_fields():
    n, a = adt_named('Runtime')
    return a['variants'][0]['fields']


def kind_of(chk, p):
    b = p.find1('LogEntry', 'kind')
    if b is None:
        return chk.unknown('LogEntry::kind', 'not found')
    n, a = adt_named('LogEntry')
    kn, ka = adt_named('LogEntryKind')
    for i, var in enumerate(a['variants']):
        st = E.State()
        st.mem[OBJ] = adt(n, i, *[sym('f%d' % j) for j in range(len(var['fields']))])
        ip, args, outs = ran(chk, b, args=[ref(OBJ)], st=st)
        for k, s, v in real(outs):
            if k == 'ret' and v.op == 'adt' and v.a[0] == kn:
                got = ka['variants'][v.a[1]]['name']
                if got == var['name']:
                    chk.ok()
                else:
                    chk.bad('kind:' + var['name'], 'LogEntry::kind calls an entry of kind %s %s' % (var['name'], got), b.sig())
            elif k == 'panic':
                chk.bad('kind:' + var['name'], 'LogEntry::kind panics on an entry of kind %s' % var['name'], b.sig())
            else:
                chk.unknown('LogEntry::kind', str(v)[:100])


def collects(chk, p, depth):
    b = p.find1('Node', 'collect_values')
    if b is None:
        return chk.unknown('Node::collect_values', 'not found')
    chk.count('node depths')
    n, a = adt_named('Node')
    node = None
    for d in range(depth + 1):
        if d == 0:
            node = place_node('root')
        else:
            i = [i for i, v in enumerate(a['variants']) if v['name'] == 'Child'][0]
            m = {'parent': node, 'value': sym('n%d' % (d - 1))}
            node = adt(n, i, *[m[f] for f in a['variants'][i]['fields']])
    st = E.State()
    st.mem[OBJ] = node
    voc = LogVoc('?', off=('Node::collect_values',))
    ip = interp(voc, unroll=depth + 3)
    ip.max_rec = depth + 2
    outs = ip.run(b, [ref(OBJ)], st)
    chk.saw(ip, outs)
    want = T('arr', *[sym('n%d' % i) for i in range(depth)])
    for k, s, v in real(outs):
        if k == 'panic':
            chk.bad('collect:panic', 'Node::collect_values panics on a node at depth %d' % depth, b.sig())
            continue
        got = flat(ip.deep(s, v))
        if got is want:
            chk.ok()
        elif definite(got) and got.op == 'arr':
            chk.bad('collect:%d' % min(depth, 3), 'Node::collect_values of the node /%s gives %s' % (
                '/'.join('n%d' % i for i in range(depth)), got), b.sig())
        else:
            chk.unknown('Node::collect_values', 'at depth %d: %s' % (depth, str(got)[:150]))


def flat(v):
    base, xs = unpush(v)
    if base.op == 'arr' and not base.a:
        return T('arr', *xs)
    return v


def moves(chk, p, f, where):
    b = p.find1('Runtime', f)
    if b is None:
        return chk.unknown('Runtime::' + f, 'not found')
    if f in ('parent', 'sibling') and where == 'root':
        return
    st = E.State()
    ip0 = interp()
    Rx = ip0.expand(st, ip0.typed(sym('R'), p, rtty(p)))
    fs = World_fields()
    vals = list(Rx.a)
    node = place_node(where)
    vals[2 + fs.index('path')] = node
    Rx = T('adt', *vals)
    st.mem[OBJ] = Rx
    ip, a, outs = ran(chk, b, args=[ref(OBJ)] + [sym('n')] * (b.argc - 1), st=st)
    own = path_of(node)
    up = path_of(node_parts(node)[1]) if where == 'child' else None
    want = {'nested': lambda: push_(own, sym('n')), 'parent': lambda: up, 'sibling': lambda: push_(up, sym('n'))}[f]()
    chk.count('path steps')
    for k, s, v in real(outs):
        if k == 'panic':
            chk.bad('Runtime::%s:panic' % f, 'Runtime::%s panics on a %s' % (f, where), b.sig())
            continue
        v = ip.deep(s, v)
        if v.op != 'adt' or last(v.a[0]) != 'Runtime':
            chk.unknown('Runtime::' + f, str(v)[:120])
            continue
        d = dict(zip(fs, v.a[2:]))
        got = path_of(d['path'])
        if got is None:
            chk.unknown('Runtime::' + f, 'path %s' % str(d['path'])[:120])
            continue
        if got is not want:
            if definite(got):
                chk.bad('Runtime::%s:path' % f, 'Runtime::%s(n) of %s is at %s instead of %s' % (f, own, got, want), b.sig())
            else:
                chk.unknown('Runtime::' + f, 'path %s' % str(got)[:120])
            continue
        rest = [(x, y) for g, x, y in zip(fs, v.a[2:], Rx.a[2:]) if g != 'path']
        if any(x is not y for x, y in rest):
            if definite(*[x for x, y in rest]):
                chk.bad('Runtime::%s:logger' % f, 'Runtime::%s does not keep the logger of the tree' % f, b.sig())
            else:
                chk.unknown('Runtime::' + f, 'logger')
            continue
        chk.ok()


def raw_bytes(chk, p):
    """Bytes carries exactly the bytes it is made from"""
    fb, ib = p.find1('Bytes', 'from_raw'), p.find1('Bytes', 'into_raw')
    if fb is None or ib is None:
        return chk.unknown('Bytes', 'from_raw/into_raw not found')
    ip = interp()
    x = sym('raw')
    for k, s, v in real(ip.run(fb, [x], E.State())):
        for k2, s2, v2 in real(ip.run(ib, [v], s)):
            g = ip.deep(s2, v2)
            if g is x:
                chk.ok()
            elif definite(g):
                chk.bad('Bytes:raw', 'Bytes::into_raw gives %s for what was made from raw bytes' % g, ib.sig())
            else:
                chk.unknown('Bytes', str(g)[:120])
    chk.saw(ip)


# ------------------------------------------------------------------ L11

QUIET = ('cached', 'uses', 'needs-children', 'pure', 'oblig', 'assert', 'parse', 'lock', 'unlock')


def l11(chk):
    chk.rule('BufferLogger, over every sequence of log, log_multi, pluck, pluck_bytes, bytes and clear up to the bound, from a new '
             'one, and for every one step on an arbitrary one: agrees with a list of entries; its bytes are the entries\' full '
             'encodings in order')
    chk.rule('log_multi of every Logger, on batches up to the bound, has exactly the outcomes of logging the entries one by one '
             'until the first failure')
    chk.rule('Box, RuntimeLogger (not paused) and Runtime forward exactly the entry they are given, once, to the logger they '
             'wrap, and return its result; WriterLogger writes the entry to its own writer and returns a failed write')
    p = steit()
    guarded(chk, 'BufferLogger histories', histories, chk, p)
    guarded(chk, 'BufferLogger steps', steps, chk, p)
    for impl, own in ser_impls(p, 'Logger'):
        chk.count('loggers')
        guarded(chk, '<%s as Logger>::log_multi' % own, multi, chk, p, impl, own)
        guarded(chk, '<%s as Logger>::log' % own, forwards, chk, p, impl, own)
    for n in ('log', 'log_multi'):
        guarded(chk, 'Runtime::' + n, runtime_log, chk, p, n)
    guarded(chk, 'Runtime::with_logger', wraps, chk, p)
    chk.floor('loggers', 5)
    chk.floor('histories', 100)
    chk.floor('batches', 15)


class Buf:
    """one BufferLogger under a sequence of operations"""

    OPS = ('log', 'log_multi', 'pluck', 'pluck_bytes', 'bytes', 'clear')

    def __init__(self, chk, p, unroll=8):
        self.chk, self.p = chk, p
        self.body = {}
        for n in ('new', 'pluck', 'pluck_bytes', 'bytes', 'clear'):
            self.body[n] = p.find1('BufferLogger', n)
        impl = [i for i, o in ser_impls(p, 'Logger') if o == 'BufferLogger']
        if not impl:
            raise Unknown('BufferLogger is no Logger')
        self.body['log'] = item(p, impl[0], 'log')
        m = item(p, impl[0], 'log_multi')
        self.own_multi = m is not None
        self.body['log_multi'] = m or p.trait_default('Logger', 'log_multi')
        for n, b in self.body.items():
            if b is None:
                raise Unknown('no BufferLogger::' + n)
        self.ip = interp(unroll=unroll, own='BufferLogger')

    def call(self, st, name, args):
        b = self.body[name]
        return real(self.ip.run(b, args, st, None if name != 'log_multi' or self.own_multi else 'BufferLogger'))


def encoding(entries):
    """the encodings of entries as they follow each other in a log"""
    return [T('app', 'NB', e, NONE_, FALSE_) for e in entries]


NONE_ = None
FALSE_ = I(0)


def bytes_ok(got, entries):
    """True | False | None: is this the entries' encodings, in order"""
    parts = pieces(got)
    if parts is None:
        return None
    if len(parts) != len(entries):
        return False
    for x, e in zip(parts, entries):
        if x.op == 'app' and x.a[0] == 'NB' and x.a[1] is e and is_none(x.a[2]) and x.a[3] is I(0):
            continue
        if x.op == 'app' and x.a[0] == 'NB' and definite(x):
            return False
        return None if not definite(x) else False
    return True


def is_none(x):
    return x.op == 'adt' and last(x.a[0]) == 'Option' and x.a[1] == 0


def pieces(v):
    """the atoms a byte string is made of"""
    if v.op == 'arr':
        return list(v.a)
    if v.op == 'concat':
        out = []
        for x in v.a:
            q = pieces(x)
            if q is None:
                return None
            out += q
        return out
    if v.op == 'app' and v.a[0] in ('NB', 'SER'):
        return [v]
    if v.op == 'push':
        q = pieces(v.a[0])
        return None if q is None else q + [v.a[1]]
    return None


def histories(chk, p):
    """breadth-first over operation sequences, sharing prefixes"""
    bound = 5 if chk.thorough else 4
    B = Buf(chk, p)
    obj = OBJ
    start = B.call(E.State(), 'new', [])
    if len(start) != 1 or start[0][0] != 'ret':
        raise Unknown('BufferLogger::new')
    s0 = start[0][1].copy()
    s0.mem[obj] = B.ip.deep(s0, start[0][2])
    chk.functions |= B.ip.functions
    level = [((), s0, (), 0)]
    for depth in range(bound):
        nxt = []
        for ops, st, model, fresh in level:
            for op in B.OPS:
                chk.count('histories')
                nxt += one(chk, B, ops, st, model, fresh, op)
        level = nxt[:1500 if not chk.thorough else 12000]
    chk.saw(B.ip)


def one(chk, B, ops, st, model, fresh, op):
    name = '/'.join(ops + (op,))
    st = st.copy()
    st.ev = None
    args = [ref(OBJ)]
    new = []
    if op == 'log':
        new = [sym('e%d' % fresh)]
        args.append(new[0])
    elif op == 'log_multi':
        new = [sym('e%d' % fresh), sym('e%d' % (fresh + 1))]
        args.append(T('arr', *new))
    B.ip.steps = 0
    outs = B.call(st, op, args)
    if len(outs) > 6:
        chk.unknown('history ' + name, '%d outcomes' % len(outs))
        return []
    nxt = []
    for k, s, v in outs:
        r = outcome(chk, B, ops, op, k, s, v, model, new)
        if r:
            nxt.append((ops + (op,), s, r[0], fresh + len(new)))
    return nxt


def outcome(chk, B, ops, op, k, s, v, model, new):
    """checks one way an operation can go; (entries held afterwards,) if it went well"""
    name = '/'.join(ops + (op,))
    sp = B.body[op].sig()
    what = 'a BufferLogger after %s' % (', '.join(ops) or 'nothing')
    if not definite(*s.cond_list()) if s.cond_list() else False:
        chk.unknown('history ' + name, 'a condition')
        return None
    if k == 'panic':
        chk.bad('history:panic:' + op, '%s: %s panics (%s)' % (what, op, v), sp)
        return None
    v = B.ip.deep(s, v)
    after = {'log': model + tuple(new), 'log_multi': model + tuple(new), 'bytes': model}.get(op, ())
    if op in ('log', 'log_multi'):
        if result(s, v) != 'ok':
            chk.bad('history:result:' + op, '%s: %s fails' % (what, op), sp) if result(s, v) == 'err' else \
                chk.unknown('history ' + name, str(v)[:100])
            return None
    elif op == 'pluck':
        got = flat(v)
        want = T('arr', *model)
        if got is not want:
            if definite(got) and got.op == 'arr':
                chk.bad('history:pluck', '%s: pluck returns %s instead of %s' % (what, got, want), sp)
            else:
                chk.unknown('history ' + name, str(got)[:100])
            return None
    elif op in ('bytes', 'pluck_bytes'):
        d = bytes_ok(v, model)
        if not d:
            if d is False:
                chk.bad('history:' + op, '%s: %s returns %s, which is not the encodings of the entries %s in order' % (
                    what, op, str(v)[:200], T('arr', *model)), sp)
            else:
                chk.unknown('history ' + name, str(v)[:100])
            return None
    chk.ok()
    return (after,)


def steps(chk, p):
    """one operation on an arbitrary buffer, when all a buffer holds is its entries"""
    n, a = adt_named('BufferLogger')
    f = a['variants'][0]
    if len(f['fields']) != 1:
        return chk.unknown('BufferLogger steps', 'a buffer holds more than its entries')
    B = Buf(chk, p, unroll=0)
    Ls = sym('L')
    B.ip.typed(Ls, p, f['ftys'][0])
    chk.count('steps', 6)

    def go(op, args):
        st = E.State()
        st.mem[OBJ] = adt(n, 0, Ls)
        B.ip.steps = 0
        for k, s, v in B.call(st, op, [ref(OBJ)] + args):
            if k == 'panic':
                chk.bad('step:panic:' + op, 'BufferLogger::%s can panic (%s)' % (op, v), B.body[op].sig())
                continue
            held = B.ip.deep(s, s.mem[OBJ])
            yield s, B.ip.deep(s, v), held.a[2] if held.op == 'adt' and len(held.a) == 3 else held

    def is_(op, got, want, text, s=None):
        if got is want or s is not None and want is T('arr') and s.decide(EQ(mk_len(Ls), I(0))) is True and got is Ls:
            return chk.ok()
        if definite(got):
            return chk.bad('step:' + op, 'BufferLogger::%s on a buffer holding L: %s %s instead of %s' % (op, text, got, want),
                           B.body[op].sig())
        chk.unknown('BufferLogger::' + op, '%s %s' % (text, str(got)[:120]))
    e = sym('e')
    for s, v, held in go('log', [e]):
        is_('log', held, T('push', Ls, e), 'it then holds', s)
    for s, v, held in go('pluck', []):
        is_('pluck', v if v is not T('arr') or s.decide(EQ(mk_len(Ls), I(0))) is not True else Ls, Ls, 'it returns')
        is_('pluck', held, T('arr'), 'it then holds', s)
    for s, v, held in go('clear', []):
        is_('clear', held, T('arr'), 'it then holds', s)
    for s, v, held in go('bytes', []):
        is_('bytes', held, Ls, 'it then holds')
    for s, v, held in go('pluck_bytes', []):
        is_('pluck_bytes', held, T('arr'), 'it then holds', s)
    chk.saw(B.ip)


def logger_self(p, impl, own):
    """an arbitrary logger of the type"""
    ip = interp()
    st = E.State()
    t = p.t(impl['self'])
    v = sym('self')
    if t['k'] == 'adt' and t['def'] in p.adts:
        a = p.adts[t['def']]
        if a['kind'] if 'kind' in a else True:
            if len(a['variants']) == 1 and 'ftys' in a['variants'][0]:
                vals = []
                for i, (f, ft) in enumerate(zip(a['variants'][0]['fields'], a['variants'][0]['ftys'])):
                    x = T('fld', sym('self'), i)
                    vals.append(ip.typed(x, p, ft))
                v = adt(t['def'], 0, *vals)
    st.mem[OBJ] = v
    return st


def signature(ip, k, s, v, skip=0):
    """what an outcome looks like from outside: (events, final self, result) with failures numbered in order"""
    ids = {}

    def num(t):
        return subst(t, {i: sym('failure%d' % n) for i, n in ids.items()}) if ids else t
    ev = []
    fails = 0
    for e in events(s.trace()):
        if e[0] in QUIET:
            continue
        if e[0] == 'io-fail':
            ids[e[2]] = len(ids)
            ev.append(('fail', e[1] if e[1] != 'log_multi' else 'log'))
        elif e[0] == 'loop':
            raise Unknown('loop')
        elif e[0] == 'opaque':
            raise Unknown('call of %s' % str(e[1])[:60])
        elif e[0] == 'logger' and e[1] == 'log_multi':
            if e[3][0].op != 'arr':
                raise Unknown('batch %s' % str(e[3][0])[:60])
            ev.append(('batch', e[2], tuple(e[3][0].a)))
        elif e[0] == 'logger':
            ev.append((e[1], e[2]) + tuple(e[3]))
        else:
            ev.append(tuple(x for x in e[:-1]))
    fin = num(ip.deep(s, s.mem[OBJ]))
    if k == 'panic':
        return ev, None, ('panic',)
    v = ip.deep(s, v)
    r = result(s, v)
    if r is None:
        raise Unknown('result %s' % str(v)[:80])
    return ev, fin, ('ok',) if r == 'ok' else ('err', num(v))


def expand_batches(sig):
    """every way a forwarded batch can go, in terms of single entries"""
    ev, fin, res = sig
    for i, e in enumerate(ev):
        if e[0] == 'batch':
            logs = [('log', e[1], x) for x in e[2]]
            if i + 1 < len(ev) and ev[i + 1] == ('fail', 'log'):
                out = []
                for n in range(len(logs)):
                    out += expand_batches((ev[:i] + logs[:n + 1] + ev[i + 1:], fin, res))
                return out
            return expand_batches((ev[:i] + logs + ev[i + 1:], fin, res))
    return [sig]


def multi(chk, p, impl, own):
    lb = item(p, impl, 'log')
    mb = item(p, impl, 'log_multi')
    provided_ = mb is None
    if provided_:
        mb = p.trait_default('Logger', 'log_multi')
    if lb is None or mb is None:
        return chk.unknown('<%s as Logger>::log_multi' % own, 'no body')
    what = '<%s as Logger>::log_multi' % own
    for n in range(0, 5 if chk.thorough else 4):
        chk.count('batches')
        es = [sym('e%d' % i) for i in range(n)]
        ip = interp(unroll=n + 2, own=own)
        ip.max_paths = 6000
        st = logger_self(p, impl, own)
        whole = real(ip.run(mb, [ref(OBJ), T('arr', *es)], st.copy(), own if provided_ else None))
        chk.saw(ip, whole)
        ip2 = interp(unroll=n + 2, own=own)
        front = [(st.copy(), None)]
        seq = []
        for e in es:
            nf = []
            for s, _ in front:
                for k, s2, v in real(ip2.run(lb, [ref(OBJ), e], s)):
                    if k == 'panic' or result(s2, ip2.deep(s2, v)) == 'err':
                        seq.append((k, s2, v))
                    elif result(s2, ip2.deep(s2, v)) == 'ok':
                        nf.append((s2, v))
                    else:
                        raise Unknown('result of log')
            front = nf
        ok = v_ok(p)
        seq += [('ret', s, v if v is not None else ok) for s, v in front]
        A = [(s, x) for k, s, v in whole for x in expand_batches(signature(ip, k, s, v))]
        Bs = [(s, x) for k, s, v in seq for x in expand_batches(signature(ip2, k, s, v))]
        bad = None
        for xs, ys, text in ((A, Bs, 'handles a batch of %d as %s, which logging them one by one cannot do'),
                             (Bs, A, 'logging %d entries one by one can do %s, which the batch cannot')):
            for s, x in xs:
                if any(x == y and agree(s, t) for t, y in ys):
                    continue
                if uncertain(x) or any(uncertain(y) for t, y in ys):
                    raise Unknown('outcome %s' % str(x)[:150])
                bad = '%s: %s' % (what, text % (n, shown(x)))
                break
            if bad:
                break
        if bad:
            chk.bad(what + ':batch', bad, mb.sig())
            return
        chk.ok()


def v_ok(p):
    for n in list(E.ARITY):
        if last(n[0]) == 'Result' and n[1] == 0:
            return adt(n[0], 0, T('tup'))
    from models import OK, UNIT
    return OK(UNIT)


def uncertain(x):
    ev, fin, res = x
    ts = [t for e in ev for t in e if isinstance(t, Term)] + ([fin] if fin is not None else [])
    return not definite(*ts) if ts else False


def agree(a, b):
    """do the facts two paths assume about the logger go together"""
    n = a.copy()
    for c in b.cond_list():
        if n.decide(c) is False:
            return False
    return True


def shown(x):
    ev, fin, res = x
    return '[%s] then %s' % ('; '.join(' '.join(str(t)[:40] for t in e) for e in ev)[:300], res[0])


def mentions(t, e):
    return contains(t, lambda x: x is e)


def forwards(chk, p, impl, own):
    b = item(p, impl, 'log')
    what = '<%s as Logger>::log' % own
    if b is None:
        return chk.unknown(what, 'no body')
    st = logger_self(p, impl, own)
    e = sym('e0')
    ip = interp(own=own)
    if own.startswith('RuntimeLogger'):
        runs_ = []
        nb = p.find1('RuntimeLogger', 'new')
        for k, s, v in real(ip.run(nb, [sym('inner')], E.State())) if nb is not None else []:
            s = s.copy()
            s.mem[OBJ] = ip.deep(s, v)
            runs_.append(('a new %s' % own, s, True))
        runs_.append(('any', st, False))
    else:
        runs_ = [('any', st, True)]
    for label, s0, must in runs_:
        outs = real(ip.run(b, [ref(OBJ), e], s0.copy()))
        chk.saw(ip, outs)
        for k, s, v in outs:
            if own == 'BufferLogger':
                continue    # histories and steps
            if own == 'PanicLogger':
                if k == 'panic':
                    chk.ok()
                else:
                    chk.bad(what + ':panic', '%s: returns' % what, b.sig())
                continue
            if k == 'panic':
                chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
                continue
            forwarded(chk, ip, what, own, b, s, v, e, must)


def forwarded(chk, ip, what, own, b, s, v, e, must):
    lg, fail, writes = [], None, []
    for x in events(s.trace()):
        if x[0] == 'logger' and x[1] in ('log', 'log_multi'):
            lg.append(x)
        elif x[0] == 'io-fail':
            fail = x
        elif x[0] in ('write', 'write_partial'):
            writes.append(x)
        elif x[0] == 'opaque':
            return chk.unknown(what, 'call of %s' % str(x[1])[:80])
        elif x[0] == 'loop':
            return chk.unknown(what, 'loop')
    r = result(s, ip.deep(s, v))
    if r is None:
        return chk.unknown(what, 'result %s' % str(v)[:80])
    if fail is not None and r == 'ok':
        return chk.bad(what + ':error', '%s returns Ok though %s failed' % (what, fail[1]), b.sig())
    if fail is None and r == 'err':
        return chk.bad(what + ':error', '%s returns an error though nothing failed' % what, b.sig())
    if own == 'NoopLogger':
        return chk.ok()
    if own == 'WriterLogger':
        if fail is None and not any(mentions(T('tup', *[y for y in w if isinstance(y, Term)]), e) for w in writes):
            if all(definite(*[y for y in w if isinstance(y, Term)]) for w in writes):
                return chk.bad(what + ':lost', '%s returns Ok without writing the entry' % what, b.sig())
            return chk.unknown(what, 'writes')
        if any(not mentions(T('tup', w[1]), sym('self')) for w in writes if isinstance(w[1], Term)):
            return chk.unknown(what, 'writes to %s' % str(writes[0][1])[:80])
        return chk.ok()
    if not lg:
        if not must:
            return chk.ok()
        return chk.bad(what + ':lost', '%s returns without handing the entry on' % what, b.sig())
    if len(lg) != 1:
        return chk.bad(what + ':twice', '%s hands the entry on %d times' % (what, len(lg)), b.sig())
    x = lg[0]
    got = x[3][0]
    want = e if x[1] == 'log' else T('arr', e)
    if got is not want:
        if definite(got):
            return chk.bad(what + ':entry', '%s hands on %s instead of the entry it is given' % (what, got), b.sig())
        return chk.unknown(what, str(got)[:100])
    if not (mentions(T('tup', x[2]), sym('self')) or mentions(T('tup', x[2]), sym('inner'))):
        return chk.unknown(what, 'hands on to %s' % str(x[2])[:80])
    return chk.ok()


def runtime_log(chk, p, name):
    b = p.find1('Runtime', name)
    if b is None:
        return chk.unknown('Runtime::' + name, 'not found')
    what = 'Runtime::' + name
    a = sym('e0') if name == 'log' else T('arr', sym('e0'), sym('e1'))
    ip = interp(unroll=4)
    st = E.State()
    Rx = ip.expand(st, ip.typed(sym('R'), p, rtty(p)))
    st.mem[OBJ] = Rx
    outs = real(ip.run(b, [ref(OBJ), a], st))
    chk.saw(ip, outs)
    for k, s, v in outs:
        if k == 'panic':
            chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
            continue
        got, fail = [], None
        unsure = False
        for x in events(s.trace()):
            if x[0] == 'logger' and x[1] == 'log':
                got.append(x[3][0])
            elif x[0] == 'logger' and x[1] == 'log_multi':
                if x[3][0].op == 'arr':
                    got += list(x[3][0].a)
                else:
                    unsure = True
            elif x[0] == 'io-fail':
                fail = x
            elif x[0] in ('opaque', 'loop'):
                unsure = True
        want = [a] if name == 'log' else list(a.a)
        r = result(s, ip.deep(s, v))
        if unsure or r is None:
            chk.unknown(what, 'forwarding')
        elif (fail is not None) != (r == 'err'):
            chk.bad(what + ':error', '%s returns %s though the logger %s' % (what, r, 'failed' if fail else 'did not fail'), b.sig())
        elif fail is None and got != want or fail is not None and got != want[:len(got)]:
            if definite(*got) if got else True:
                chk.bad(what + ':entry', '%s hands %s to the logger instead of %s' % (what, [str(x)[:60] for x in got], a), b.sig())
            else:
                chk.unknown(what, 'entries')
        else:
            chk.ok()


def wraps(chk, p):
    """the logger given to a runtime is the one its entries reach, unpaused, from the root"""
    lb = p.find1('Runtime', 'log')
    for name in ('with_logger', 'with_logger_returned', 'new'):
        b = p.find1('Runtime', name)
        if b is None or lb is None:
            chk.unknown('Runtime::' + name, 'not found')
            continue
        what = 'Runtime::' + name
        ip = interp()
        outs = real(ip.run(b, [sym('inner')][:b.argc], E.State()))
        chk.saw(ip, outs)
        for k, s, v in outs:
            v = ip.deep(s, v)
            if v.op == 'tup':
                v = v.a[0]
            if v.op != 'adt' or last(v.a[0]) != 'Runtime':
                chk.unknown(what, str(v)[:100])
                continue
            d = dict(zip(World_fields(), v.a[2:]))
            q = path_of(d['path'])
            if q is None:
                chk.unknown(what, 'path')
                continue
            if q is not T('arr'):
                chk.bad(what + ':root', '%s does not start at the root' % what, b.sig())
                continue
            if name == 'new':
                chk.ok()
                continue
            s2 = s.copy()
            s2.ev = None
            s2.mem[OBJ] = v
            for k3, s3, v3 in real(ip.run(lb, [ref(OBJ), sym('e0')], s2)):
                lg = [e for e in events(s3.trace()) if e[0] == 'logger']
                if any(e[0] == 'opaque' for e in events(s3.trace())):
                    chk.unknown(what, 'opaque')
                elif len(lg) == 1 and lg[0][1] == 'log' and lg[0][3][0] is sym('e0') and mentions(T('tup', lg[0][2]), sym('inner')):
                    chk.ok()
                elif k3 == 'panic':
                    chk.bad(what + ':panic', 'logging to a runtime from %s panics' % what, b.sig())
                else:
                    chk.bad(what + ':lost', 'an entry logged to a runtime from %s reaches the logger %d times' % (what, len(lg)), b.sig())


# ------------------------------------------------------------------ L13

def l13(chk):
    chk.rule('on every path of every function of Map, panicking and failing paths included: a key that becomes stored was there '
             'before, or is below 2^29 and either came from the key type or was accepted by its try_from_field_number')
    chk.rule('for the provided key types: as_field_number is the number itself, and try_from_field_number is its exact inverse: '
             'it succeeds for exactly the numbers in range, with that number')
    chk.rule('the map iterators pair every value with the key converted from its own field number')
    types, rest = state_types()
    for ty in types:
        if ty.kind == 'map':
            guarded(chk, ty.own, l13_type, chk, ty)
    p = steit()
    for impl, own in ser_impls(p, 'MapKey'):
        chk.count('key types')
        guarded(chk, '<%s as MapKey>' % own, key_type, chk, p, impl, own)
    for impl, own in ser_impls(p, 'Iterator'):
        if 'Map' in own:
            chk.count('map iterators')
            guarded(chk, '<%s as Iterator>::next' % own, pairs, chk, p, impl, own)
    chk.floor('maps', 1)
    chk.floor('stored keys', 6)
    chk.floor('key types', 3)
    chk.floor('map iterators', 2)


def l13_type(chk, ty):
    chk.count('maps')
    for name, b, vis in methods(ty):
        r = guarded(chk, '%s::%s' % (ty.head, name), L.run, ty, b)
        if r is not None:
            guarded(chk, '%s::%s' % (ty.head, name), stores, chk, ty, r, '%s::%s' % (ty.head, name))
    force = ('Deserialize::merge', 'State::handle', 'State::handle_update')
    for tr, name, b in trait_fns(ty):
        if tr in ('Hash', 'Debug', 'JsonSerialize') or name in ('fmt', 'hash'):
            continue
        what = '<%s as %s>::%s' % (ty.own, tr, name)
        r = guarded(chk, what, L.run, ty, b)
        if r is not None:
            guarded(chk, what, stores, chk, ty, r, what)


def map_values(t, own, seen=None, out=None):
    """the parts of a term that are values of the map type"""
    out = [] if out is None else out
    seen = set() if seen is None else seen
    if not isinstance(t, Term) or t.id in seen:
        return out
    seen.add(t.id)
    if t.op == 'adt' and t.a[0] == own:
        out.append(t)
    for x in t.a:
        map_values(x, own, seen, out)
    return out


def stores(chk, ty, r, what):
    chk.saw(r.ip, r.outs)
    for k, s, v in r.outs:
        roots = []
        if r.self_mode == 'mut' and SELF in s.mem:
            roots.append(r.ip.deep(s, s.mem[SELF]))
        if k == 'ret' and isinstance(v, Term):
            roots.append(r.ip.deep(s, v))
        for x in roots:
            for m in map_values(x, ty.adt):
                for f in m.a[2:]:
                    keys_ok(chk, ty, r, s, f, what, set())
    return chk.ok()


def keys_ok(chk, ty, r, s, v, what, seen):
    while True:
        if v.op == 'mins':
            key_ok(chk, ty, r, s, v.a[0], v.a[1], what)
            v = v.a[0]
        elif v.op in ('mrm', 'mmapn', 'mset'):
            v = v.a[0]
        elif v.op == 'phi' and v in r.ip.phis and v not in seen:
            seen.add(v)
            init, ups, backs = r.ip.phis[v]
            if ups is None:
                return chk.unknown(what, 'loop-carried entries')
            for u, b in zip(ups, backs):
                keys_ok(chk, ty, r, b, u, what, seen)
            v = init
        else:
            break
    if v.op in ('arr', 'push', 'concat') and contains(v, lambda x: x.op == 'tup'):
        return chk.unknown(what, 'entries %s' % str(v)[:100])


def key_ok(chk, ty, r, s, base, k, what):
    chk.count('stored keys')
    if s.decide(T('bvar', 'has', base, k)) is True:
        return chk.ok()
    # the map a key was found in may have had other entries put in since
    while base.op in ('mins', 'mset', 'mmapn'):
        if base.op == 'mins' and base.a[1] is k:
            return chk.ok()
        base = base.a[0]
        if s.decide(T('bvar', 'has', base, k)) is True:
            return chk.ok()
    sure = definite(k)
    d = s.decide(LT(k, I(MAXKEY)))
    if d is not True:
        if d is False or sure:
            return chk.bad(what + ':range', '%s can store the key %s without its being known to fit a field number' % (
                what, str(k)[:120]), r.body.sig())
        return chk.unknown(what, 'range of key %s' % str(k)[:100])
    if k.op == 'app' and str(k.a[0]).endswith('as_field_number'):
        return chk.ok()
    tests = conversions(s, k)
    for t in tests:
        if s.decide(EQ(discr(t), I(0))) is True:
            return chk.ok()
    if sure:
        return chk.bad(what + ':convert', '%s can store the key %s without its being known to convert to the key type' % (
            what, str(k)[:120]), r.body.sig())
    return chk.unknown(what, 'key %s' % str(k)[:100])


def conversions(s, k):
    import terms
    out = []
    for c in s.cond_list():
        for x in terms.subterms(c):
            if x.op == 'app' and str(x.a[0]).endswith('try_from_field_number') and x.a[-1] is k:
                out.append(x)
    return out


INTS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}


def key_type(chk, p, impl, own):
    fb, ab = item(p, impl, 'try_from_field_number'), item(p, impl, 'as_field_number')
    if own not in INTS:
        return chk.unknown('<%s as MapKey>' % own, 'not a number')
    top = 1 << INTS[own]
    n = sym('n')
    st = E.State()
    st.mem[OBJ] = n
    ip = interp()
    ip.typed(n, p, p.t(ab.locals[1])['of'] if 'of' in p.t(ab.locals[1]) else impl['self'])
    what = '<%s as MapKey>::as_field_number' % own
    outs = real(ip.run(ab, [ref(OBJ)], st))
    chk.saw(ip, outs)
    for k, s, v in outs:
        v = ip.deep(s, v) if k == 'ret' else v
        if k == 'ret' and (v is n or s.decide(EQ(v, n)) is True):
            chk.ok()
        elif k == 'panic' or definite(v):
            chk.bad(what, '%s of n is %s' % (what, v), ab.sig())
        else:
            chk.unknown(what, str(v)[:100])
    what = '<%s as MapKey>::try_from_field_number' % own
    ip, a, outs = ran(chk, fb)
    x = a[0]
    for k, s, v in real(outs):
        if k == 'panic':
            chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), fb.sig())
            continue
        v = ip.deep(s, v)
        res = result(s, v)
        inr = s.decide(LT(x, I(top))) if top < 1 << 32 else True
        if res is None:
            chk.unknown(what, str(v)[:100])
        elif res == 'ok':
            if inr is not True:
                t = s.copy()
                if inr is False or t.assume(NOT(LT(x, I(top)))) is not False:
                    chk.bad(what + ':range', '%s accepts numbers outside the range of %s' % (what, own), fb.sig())
                    continue
            y = v.a[2] if v.op == 'adt' else None
            if y is not None and (y is x or y.op == 'app' and y.a[0] == 'trunc' and y.a[-1] is x or s.decide(EQ(y, x)) is True):
                chk.ok()
            elif y is not None and definite(y):
                chk.bad(what + ':value', '%s of n is %s' % (what, y), fb.sig())
            else:
                chk.unknown(what, str(v)[:100])
        else:
            if inr is False:
                chk.ok()
                continue
            t = s.copy()
            lim = LT(x, I(min(top, MAXKEY)))
            if s.decide(lim) is False:
                chk.ok()
            elif t.assume(lim) is not False and all(c_about(c, x) for c in s.cond_list()):
                chk.bad(what + ':reject', '%s rejects numbers that fit %s' % (what, own), fb.sig())
            else:
                chk.unknown(what, 'when it fails')


def c_about(c, x):
    """a comparison of the number with constants"""
    while c.op == 'not':
        c = c.a[0]
    ok = [True]
    import terms
    for y in terms.subterms(c):
        if y.op in ('sym',) and y is not x or y.top or y.op in ('app', 'bvar'):
            ok[0] = False
    return ok[0]


def pairs(chk, p, impl, own):
    b = item(p, impl, 'next')
    what = '<%s as Iterator>::next' % own
    if b is None:
        return chk.unknown(what, 'no body')
    ip, a, outs = ran(chk, b)
    for k, s, v in real(outs):
        if k == 'panic':
            cs = [x for c in s.cond_list() for x in conv_terms(c)]
            if cs and any(s.decide(EQ(discr(x), I(0))) is False for x in cs):
                chk.ok()    # unreachable as long as only valid keys are stored
                continue
            if any(v and v[0] == 'unwrap' for x in cs):
                chk.ok()
                continue
            chk.bad(what + ':panic', '%s can panic (%s)' % (what, v), b.sig())
            continue
        v = ip.deep(s, v)
        if is_none(v):
            chk.ok()
            continue
        if v.op == 'adt' and last(v.a[0]) == 'Option' and v.a[1] == 1 and v.a[2].op == 'tup' and len(v.a[2].a) == 2:
            key, val = v.a[2].a
            cv = [x for x in conv_terms(key)]
            kk = cv[0].a[-1] if cv else None
            if kk is None:
                (chk.bad if definite(key) else lambda *q: chk.unknown(what, 'key'))(what + ':key', '%s gives the key %s' % (what, str(key)[:80]), b.sig())
                continue
            d = belongs(kk, val)
            if d is True:
                chk.ok()
            elif d is False:
                chk.bad(what + ':pair', '%s pairs the value %s with the key %s' % (what, str(val)[:80], str(key)[:80]), b.sig())
            else:
                chk.unknown(what, 'pair %s / %s' % (str(key)[:80], str(val)[:80]))
        else:
            chk.unknown(what, str(v)[:100])


def conv_terms(t):
    import terms
    return [x for x in terms.subterms(t) if x.op == 'app' and str(x.a[0]).endswith('try_from_field_number')]


def belongs(k, v):
    """the key and the value of one entry"""
    while k.op in ('deref', 'ref*'):
        k = k.a[0]
    while v.op in ('deref', 'ref*'):
        v = v.a[0]
    if k.op == 'mkey' and v.op == 'mval':
        return k.a == v.a
    if v.op == 'fld' and v.a[1] == 1:
        if k.op == 'fld' and k.a[1] == 0:
            return k.a[0] is v.a[0]
        if definite(k, v) and k.op in ('app', 'lin', 'int') and (k.op != 'app' or k.a[0] in ARITH):
            return False
    return None


ARITH = ('BitXor', 'BitOr', 'BitAnd', 'Shl', 'Shr', 'trunc', 'Rem', 'Div')
