"""C02, C03: numbers on the wire, decided in the bit-vector domain."""
from core import *
from vocab import *
from terms import *
from terms import T, I, Term
import engine as E
import bits as B
from r_ser import all_progs

UNS = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64}
SGN = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}
POS = ('B', 'position')


class Fed:
    """hooks of a reader that supplies known bytes and of a writer that records them"""

    def __init__(self, data):
        self.data = data
        self.hooks = {}
        v = Vocab(own=None, ser=False, de=True, state=False, atoms_off=(
            'Deserialize::merge', 'Deserialize::merge_nested', 'Deserialize::deserialize',
            'Deserialize::deserialize_nested', 'wire_fmt::parse_tag', 'Reader::skip_field', 'Reader::nested', 'Reader::eof',
            'Default::default', 'Eof::new', 'Eof::get_mut', 'Eof::get_ref', 'Eof::into_inner'))
        self.hooks.update(v.hooks)

        def pos(st):
            p = st.mem.get(POS)
            return p.a[0] if p is not None else 0

        def read_exact(c):
            n = mk_len(c.ip.load(c.st, c.args[1]))
            if n.op != 'int':
                raise Unknown('read of an unknown amount')
            p = pos(c.st)
            f = v.fail(c, c.st, 'read_exact')
            if p + n.a[0] > len(self.data):
                c.st.emit('short', c.sp)
                f[1].emit('short', c.sp)
                return [f]
            c.ip.store(c.st, c.args[1], T('arr', *self.data[p:p + n.a[0]]))
            c.st.mem[POS] = I(p + n.a[0])
            return [('ret', c.st, ok(UNIT)), f]

        def read(c):
            n = mk_len(c.ip.load(c.st, c.args[1]))
            if n.op != 'int' or n.a[0] != 1:
                raise Unknown('read of an unknown amount')
            p = pos(c.st)
            f = v.fail(c, c.st, 'read')
            if p >= len(self.data):
                return [('ret', c.st, ok(I(0))), f]
            c.ip.store(c.st, c.args[1], T('arr', self.data[p]))
            c.st.mem[POS] = I(p + 1)
            return [('ret', c.st, ok(I(1))), f]

        def eof(c):
            return [('ret', c.st, ok(I(pos(c.st) >= len(self.data)))), v.fail(c, c.st, 'eof')]
        self.hooks.update({'Read::read_exact': read_exact, 'Read::read': read, 'Reader::eof': eof})


def evaluate(prog, b, args, mem=None, data=()):
    """outcomes of a function on bit vectors, I/O failures left out"""
    w = World.get()
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    ip = E.Interp(hooks=Fed(list(data)).hooks, unroll=24, unroll_exact=True)
    ip.progs = w.progs
    st = E.State()
    for o, v in (mem or {}).items():
        st.mem[o] = v
    outs = ip.run(b, args, st)
    return ip, [o for o in outs if not failed(o[1].trace()) or any(e[0] == 'short' for e in o[1].trace())]


def classes(w, signed):
    """the values of a type, split by sign and by the highest significant bit: (name, significant bits, value, encoding);
    value and encoding are functions of the significant bits"""
    for neg in ((0, 1) if signed else (0,)):
        for n in range(0, w if signed else w + 1):
            free = [(0, frozenset([i])) for i in range(n - 1)] + ([B.O] if n else [])

            # the significant bits of a negative number are those of its complement
            def val(f, neg=neg):
                x = f + [B.Z] * (w - len(f))
                return [B.bnot(b) for b in x] if neg else x

            def enc(f, neg=neg):
                if signed:
                    # zigzag: 2v, or -2v-1 for a negative number
                    return [B.O if neg else B.Z] + f + [B.Z] * (w - 1 - len(f))
                return val(f)
            yield ('%s%d significant bits' % ('negative, ' if neg else '', n)), free, (
                lambda f, v=val: B.pack(v(f), signed)), enc


def varint(e):
    """the minimal base-128 encoding of a bit vector whose highest significant bit is known"""
    n = len(e)
    while n > 0 and e[n - 1] == B.Z:
        n -= 1
    e = e[:n] if n else [B.Z]
    out = []
    while True:
        low = e[:7] + [B.Z] * (7 - len(e[:7]))
        e = e[7:]
        out.append(B.pack(low + [B.O if e else B.Z], False))
        if not e:
            return out


def fmt(x):
    if isinstance(x, (list, tuple)):
        return '[%s]' % ', '.join(fmt(y) for y in x)
    if isinstance(x, Term) and x.op == 'bits':
        def one(b):
            c, v = b
            s = '^'.join('b%d' % i for i in v)
            return ('~' if c and s else '') + (s or str(c))
        return '.'.join(one(b) for b in reversed(x.a[1]))
    return str(x)


def same(a, b):
    """a and b are the same number for every input: True, False, or None"""
    if a is b:
        return True
    if all(t.op in ('int', 'bits') for t in (a, b)):
        w = max(len(B.unpack(t)) if t.op == 'bits' else max(8, t.a[0].bit_length() + 1) for t in (a, b)) + 1
        x, y = B.unpack(a, w), B.unpack(b, w)
        # two affine forms differ for some input as soon as they are not the same form
        return all(p == q for p, q in zip(x, y))
    return None


def written(st):
    """bytes written on a path, or None"""
    out = []
    for e in st.trace():
        if e[0] != 'write':
            continue
        d = st.simp(e[2])
        if d.op == 'arr':
            out += list(d.a)
        elif d.op == 'bytes':
            out += [I(x) for x in d.a[0]]
        elif d.op == 'concat':
            return None
        else:
            return None
    return out


def prim_body(prog, name, trait, fn):
    for impl, own in ser_impls(prog, trait):
        if own == name:
            b = item(prog, impl, fn)
            if b is not None:
                return b, own
            return prog.trait_default(trait, fn), own
    return None, None


def size_cases(chk):
    """C01 for numbers: compute_size is the number of bytes of the minimal varint that serialize writes"""
    p = World.get().steit
    for name, w, signed in [(n, w, False) for n, w in UNS.items()] + [(n, w, True) for n, w in SGN.items()]:
        guarded(chk, '<%s as Serialize>::compute_size' % name, size_rule, chk, p, name, w, signed)


def encode(prog, name, v):
    b, _ = prim_body(prog, name, 'Serialize', 'serialize_cached')
    if b is None:
        raise Unknown('no serialize_cached')
    o = ('B', 'value')
    ip, outs = evaluate(prog, b, [E.ref(o), sym('w')], {o: v})
    return ip, b, outs


def size_rule(chk, p, name, w, signed):
    b, _ = prim_body(p, name, 'Serialize', 'compute_size')
    what = '<%s as Serialize>::compute_size' % name
    if b is None:
        chk.unknown(what, 'not found')
        return
    o = ('B', 'value')
    for cls, free, val, enc in classes(w, signed):
        chk.count('classes of numbers')
        guarded(chk, what, B.split, free, lambda f: size_class(chk, p, b, name, what, cls, val(f), o))


def size_class(chk, p, b, name, what, cls, v, o):
    if True:
        ip, outs = evaluate(p, b, [E.ref(o)], {o: v})
        ip2, b2, enc = encode(p, name, v)
        chk.saw(ip, outs)
        chk.saw(ip2, enc)
        if len(outs) != 1 or len(enc) != 1 or outs[0][0] != 'ret' or enc[0][0] != 'ret':
            chk.unknown(what, 'several outcomes')
            return
        n = outs[0][2]
        got = written(enc[0][1])
        if n.op != 'int' or got is None:
            chk.unknown(what, 'size %s' % n)
        elif n.a[0] != len(got):
            chk.bad(what, '%s reports %d for a number with %s, but %d bytes are written' % (what, n.a[0], cls, len(got)), b.span)
        else:
            chk.ok()


def c02(chk):
    w = World.get()
    p = w.steit
    chk.rule('for every class of numbers (sign and highest significant bit) the encoder writes exactly the minimal varint, '
             'zigzag first for signed types')
    chk.rule('decoding these bytes, with anything after them, consumes them all and stores the number again')
    for name, wd, signed in [(n, x, False) for n, x in UNS.items()] + [(n, x, True) for n, x in SGN.items()]:
        guarded(chk, name, number_rule, chk, p, name, wd, signed)
    guarded(chk, 'bool', bool_rule, chk, p)
    chk.floor('classes of numbers', 364)


def decode(p, name, data):
    b, _ = prim_body(p, name, 'Deserialize', 'merge')
    if b is None:
        raise Unknown('no merge')
    o = ('B', 'target')
    ip, outs = evaluate(p, b, [E.ref(o), sym('r')], {o: sym('before')}, data)
    return ip, b, outs, o


def number_rule(chk, p, name, w, signed):
    for cls, free, val, enc in classes(w, signed):
        chk.count('classes of numbers')
        guarded(chk, name, B.split, free, lambda f: class_rule(chk, p, name, cls, val(f), varint(enc(f))))


def class_rule(chk, p, name, cls, v, want):
    ip, b, outs = encode(p, name, v)
    chk.saw(ip, outs)
    what = '<%s as Serialize>::serialize_cached' % name
    good = [o for o in outs if o[0] == 'ret' and is_ok(o[2], o[1]) is True]
    if any(o[0] != 'ret' for o in outs) and not any(o[1].cond_list() for o in outs):
        chk.bad(what, '%s panics for a number with %s: %s' % (what, cls, [o[2] for o in outs if o[0] != 'ret'][0]), b.span)
        return
    if len(good) != 1 or len(outs) != 1:
        chk.unknown(what, '%d outcomes for %s' % (len(outs), cls))
        return
    got = written(good[0][1])
    if got is None:
        chk.unknown(what, 'bytes not understood')
        return
    r = len(got) == len(want) and all_same(got, want)
    if r is None:
        chk.unknown(what, 'bytes not understood')
        return
    if not r:
        chk.bad(what, '%s writes %s for a number with %s; its varint is %s' % (what, fmt(got), cls, fmt(want)), b.span)
        return
    chk.ok()
    follow(chk, p, name, cls, want, v)


def all_same(xs, ys):
    rs = [same(x, y) for x, y in zip(xs, ys)]
    return False if False in rs else None if None in rs else True


def follow(chk, p, name, cls, data, v):
    """reading data followed by another byte gives v and stops after data"""
    what = '<%s as Deserialize>::merge' % name
    ip, b, outs, o = decode(p, name, data + [T('app', 'NEXT')])
    chk.saw(ip, outs)
    if len(outs) != 1:
        if any(x[1].cond_list() for x in outs):
            chk.unknown(what, '%d outcomes for %s' % (len(outs), cls))
        else:
            chk.bad(what, '%s does not read the encoding of a number with %s back: %s' % (
                what, cls, [(x[0], str(x[2])) for x in outs]), b.span)
        return
    k, s, r = outs[0]
    if s.cond_list():
        chk.unknown(what, 'undecided condition %s for %s' % (s.cond_list()[0], cls))
        return
    if k != 'ret':
        chk.bad(what, '%s panics on the encoding of a number with %s: %s' % (what, cls, r), b.span)
        return
    if is_ok(r, s) is False:
        chk.bad(what, '%s rejects the encoding of a number with %s' % (what, cls), b.span)
        return
    n = s.mem.get(POS)
    n = n.a[0] if n is not None else 0
    if n != len(data):
        chk.bad(what, '%s consumes %d of the %d bytes of a number with %s' % (what, n, len(data), cls), b.span)
        return
    x = s.simp(s.mem[o])
    d = same(x, v)
    if d is True:
        chk.ok()
    elif d is False:
        chk.bad(what, '%s reads a number with %s back as %s instead of %s' % (what, cls, fmt(x), fmt(v)), b.span)
    else:
        chk.unknown(what, 'value %s' % x)


def bool_rule(chk, p):
    for v, want in ((FALSE, 0), (TRUE, 1)):
        ip, b, outs = encode(p, 'bool', v)
        chk.saw(ip, outs)
        what = '<bool as Serialize>::serialize_cached'
        got = written(outs[0][1]) if len(outs) == 1 and outs[0][0] == 'ret' else None
        if got is None or not all(x.op == 'int' for x in got):
            chk.unknown(what, got)
            continue
        if [x.a[0] for x in got] != [want]:
            chk.bad(what, '%s writes %s for %s' % (what, fmt(got), bool(want)), b.span)
            continue
        chk.ok()
        follow(chk, p, 'bool', str(bool(want)), [I(want)], v)
        b, _ = prim_body(p, 'bool', 'Serialize', 'compute_size')
        o = ('B', 'value')
        ip, outs = evaluate(p, b, [E.ref(o)], {o: v})
        if len(outs) == 1 and outs[0][0] == 'ret' and outs[0][2].op == 'int':
            if outs[0][2].a[0] != 1:
                chk.bad('<bool as Serialize>::compute_size', 'a bool is reported as %s bytes' % outs[0][2], b.span)
            else:
                chk.ok()


# ------------------------------------------------------------------ C03

def c03(chk):
    p = World.get().steit
    chk.rule('tag: for every number up to 2^29-1 and both wire types the result is number*8+code; larger numbers fail')
    chk.rule('parse_tag: the inverse for codes 0 and 2; the other six codes fail')
    wt = wire_codes(chk, p)
    if wt is None:
        return
    for b in tag_fns(p):
        guarded(chk, b.sig(), tag_rule, chk, p, b, wt)
    b = fn(p, 'parse_tag')
    if b is None:
        chk.bad('parse_tag', 'wire_fmt::parse_tag is gone')
    else:
        guarded(chk, 'parse_tag', parse_rule, chk, p, b, wt)
    b = p.find1('Reader', 'read_tag')
    chk.floor('classes of tags', 60)
    chk.floor('classes of packed tags', 8)


def fn(p, name):
    for b in p.bodies.values():
        if b.name == name and b.path.startswith('wire_fmt::') and b.kind == 'Fn':
            return b
    return None


def tag_fns(p):
    """every function that packs a tag, with how its arguments are arranged"""
    for b in p.bodies.values():
        if b.name == 'tag' and b.path.startswith('wire_fmt::') and b.kind in ('Fn', 'AssocFn'):
            yield b


def wire_codes(chk, p):
    """variant index -> code"""
    a = None
    for d, x in p.adts.items():
        if d.endswith('wire_fmt::WireType'):
            a = (d, x)
    if a is None:
        chk.bad('WireType', 'the WireType enum is gone')
        return None
    names = {v['name']: (i, int(v['discr'])) for i, v in enumerate(a[1]['variants'])}
    for n, code in (('Varint', 0), ('Sized', 2)):
        if n not in names:
            chk.bad('WireType', 'wire type %s is gone' % n)
            return None
        chk.count('wire types')
        # the code written is that of WireType::value
        b = None
        for x in p.bodies.values():
            if x.name == 'value' and x.path.startswith('wire_fmt::WireType::'):
                b = x
        if b is not None:
            o = ('B', 'wt')
            ip, outs = evaluate(p, b, [E.ref(o)], {o: T('adt', a[0], names[n][0])})
            chk.saw(ip, outs)
            v = outs[0][2] if len(outs) == 1 and outs[0][0] == 'ret' else None
            if v is None or v.op != 'int':
                chk.unknown('WireType::value', v)
            elif v.a[0] != code:
                chk.bad('WireType::value', 'wire type %s is written as %s; its code is %d' % (n, v, code), b.span)
            else:
                chk.ok()
    return {n: T('adt', a[0], names[n][0]) for n in ('Varint', 'Sized')}


def numbers():
    """field numbers by highest significant bit"""
    for n in range(0, 33):
        bs = [(0, frozenset([i])) for i in range(n - 1)] + ([B.O] if n else [])
        yield n, bs + [B.Z] * (32 - len(bs))


def tag_rule(chk, p, b, wts):
    what = b.sig()
    kinds = [p.tname(b.locals[i + 1]) for i in range(b.argc)]
    for name, wt in wts.items():
        code = {'Varint': 0, 'Sized': 2}[name]
        for n, bs in numbers():
            chk.count('classes of tags')
            guarded(chk, what, B.split, bs, lambda f: tag_class(chk, p, b, what, kinds, name, wt, code, n, f))


def tag_class(chk, p, b, what, kinds, name, wt, code, n, bs):
    if True:
        if True:
            v = B.pack(bs, False)
            args = []
            mem = {}
            for i, k in enumerate(kinds):
                if k == 'u32':
                    args.append(v)
                elif 'WireType' in k and not k.startswith('&'):
                    args.append(wt)
                elif 'WireType' in k:
                    mem[('B', 'wt')] = wt
                    args.append(E.ref(('B', 'wt')))
                else:
                    args.append(None)
            if None in args:
                # a method of a type with its own constant wire type: delegates
                return
            ip, outs = evaluate(p, b, args, mem)
            chk.saw(ip, outs)
            if len(outs) != 1 or outs[0][0] != 'ret' or outs[0][1].cond_list():
                if any(k == 'panic' for k, _, _ in outs) and not any(o[1].cond_list() for o in outs):
                    chk.bad(what, '%s panics for a field number with %d significant bits' % (what, n), b.span)
                else:
                    chk.unknown(what, '%d outcomes' % len(outs))
                return
            k, s, r = outs[0]
            okr = is_ok(r, s)
            if okr is None:
                chk.unknown(what, r)
                return
            if n > 29:
                if okr:
                    chk.bad(what, '%s accepts a field number with %d significant bits' % (what, n), b.span)
                else:
                    chk.ok()
                return
            if not okr:
                chk.bad(what, '%s rejects a field number with %d significant bits' % (what, n), b.span)
                return
            want = B.pack([B.O if code >> i & 1 else B.Z for i in range(3)] + bs[:29], False)
            d = same(s.simp(r.a[2]), want)
            if d is None:
                chk.unknown(what, r)
            elif d:
                chk.ok()
            else:
                chk.bad(what, '%s packs a field number with %d significant bits and wire type %s as %s instead of %s' % (
                    what, n, name, fmt(r.a[2]), fmt(want)), b.span)


def parse_rule(chk, p, b, wts):
    what = 'wire_fmt::parse_tag'
    for code in range(8):
        low = [B.O if code >> i & 1 else B.Z for i in range(3)]
        num = [(0, frozenset([i])) for i in range(29)]
        chk.count('classes of packed tags')
        guarded(chk, what, B.split, num, lambda f: parse_class(chk, p, b, wts, what, code, low, f))


def parse_class(chk, p, b, wts, what, code, low, num):
    if True:
        ip, outs = evaluate(p, b, [B.pack(low + num, False)])
        chk.saw(ip, outs)
        if len(outs) != 1 or outs[0][0] != 'ret' or outs[0][1].cond_list():
            if any(k == 'panic' for k, _, _ in outs) and not any(o[1].cond_list() for o in outs):
                chk.bad(what, '%s panics for wire type code %d' % (what, code), b.span)
            else:
                chk.unknown(what, '%d outcomes for code %d' % (len(outs), code))
            return
        k, s, r = outs[0]
        okr = is_ok(r, s)
        wt = {0: wts['Varint'], 2: wts['Sized']}.get(code)
        if okr is None:
            chk.unknown(what, r)
        elif wt is None:
            if okr:
                chk.bad(what, '%s accepts the undefined wire type code %d' % (what, code), b.span)
            else:
                chk.ok()
        elif not okr:
            chk.bad(what, '%s rejects wire type code %d' % (what, code), b.span)
        else:
            v = s.simp(r.a[2])
            if v.op != 'tup' or len(v.a) != 2:
                chk.unknown(what, v)
                return
            d = same(s.simp(v.a[0]), B.pack(num + [B.Z] * 3, False))
            if v.a[1] is wt and d:
                chk.ok()
            elif d is False or (v.a[1].op == 'adt' and v.a[1] is not wt):
                chk.bad(what, '%s unpacks code %d as (%s, %s)' % (what, code, fmt(v.a[0]), v.a[1]), b.span)
            else:
                chk.unknown(what, v)
