"""D06: the C# client reads numbers, tags, wire types, texts and framed messages the way the Rust side writes them."""
import os

import cs
import csi
import facts
import r_meta
import r_num
from core import *
from csi import Type, NULL, FALSE, TRUE, Z, O, const, num

ROOT = '/steit-csharp/src'
SIGNED = {'i8', 'i16', 'i32', 'i64'}
WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64}


class Client:
    """the client runtime"""
    _inst = None

    def __init__(self):
        self.root = facts.REPO + ROOT
        self.classes, self.bad = cs.load(self.root)

    @classmethod
    def get(cls):
        if cls._inst is None:
            cls._inst = cls()
        return cls._inst


def client(chk):
    c = Client.get()
    for p, m in c.bad:
        chk.unknown(os.path.basename(p), 'not readable: ' + m)
    return c.classes


def where(c, m):
    return '%s:%d (%s.%s)' % (os.path.relpath(c.file or m.cls.file, facts.REPO), m.line, c.name, m.name)


def saw(chk, ip, outs):
    chk.functions |= {'C#:%s/%d' % (m.sig(), len(m.params)) for m in ip.visited}
    chk.paths += len(outs)


def octets(n, name='o'):
    """n octets of a varint: the continuation bit known, the seven others not"""
    return [csi.unknown_bits('%s%d.' % (name, i), 'byte', {7: int(i < n - 1)}) for i in range(n)]


def payload(data, w):
    bits = [b for v in data for b in v[2][:7]][:w]
    return tuple(bits + [Z] * (w - len(bits)))


def feed(data):
    """a reader that hands out the given octets, one at a time"""
    def hook(ip, o, name, vs, st, e):
        if o[0] == 's' and o[1] == 'reader':
            i = st.heap.setdefault(0, {'#': Type('stream'), 'i': 0})['i']
            if name == 'Read' and not vs:
                if i >= len(data):
                    return [(('!', 'EndOfStreamException'), st)]
                st.heap[0]['i'] = i + 1
                return [(data[i], st)]
            if name == 'Remaining' and not vs:
                return [(num(len(data) - i), st)]
        return None
    return hook


def reader():
    return ('s', 'reader', Type('IReader'))


def run(classes, c, m, args, call=None, unroll=0, this=NULL, tenv=None, st=None, **hooks):
    h = dict(hooks)
    if call:
        h['call'] = call
    ip = csi.Interp(classes, h, unroll)
    st = st or csi.State()
    outs = ip.invoke(m, this, c, tuple(args), (), st, tenv or {})
    return ip, outs


def read(chk, classes, name, data):
    """[(value or ('!', e), octets consumed, state)]"""
    c, m = csi.method(classes, 'Reader', name, 1)
    if m is None:
        return None, None, None
    ip, outs = run(classes, c, m, [reader()], feed(data), 24)
    saw(chk, ip, outs)
    return c, m, [(v, s.heap.get(0, {'i': 0})['i'], s) for v, s in outs]


def lost(chk, name, why='is gone'):
    chk.bad('Reader.' + name, 'Reader.%s, which generated code and the runtime call, %s' % (name, why), ROOT[1:] + '/Codec/Reader.cs')


def d06(chk):
    chk.rule('Reader.ReadUnsignedVarint and ReadSignedVarint, evaluated on every number of octets with all payload bits unknown, return '
             'the bits the Rust encoders write (little-endian groups of seven, zigzag) and consume exactly those octets')
    chk.rule('for every primitive whose metadata names a C# type, Read<Type> returns the value the Rust side wrote and StateFactory reads it '
             'with that method; it is taken to be framed exactly when its wire type is Sized')
    chk.rule('ReadKey splits a key into field number and wire type as Rust packs them, accepts exactly the wire types Rust writes, under the '
             'same codes; a framed message is its size and then that many bytes; a skipped field is consumed whole')
    classes = client(chk)
    guarded(chk, 'ReadUnsignedVarint', unsigned, chk, classes)
    guarded(chk, 'ReadSignedVarint', signed, chk, classes)
    guarded(chk, 'ReadBoolean', boolean, chk, classes)
    guarded(chk, 'primitives', primitives, chk, classes)
    guarded(chk, 'ReadKey', key, chk, classes)
    guarded(chk, 'ReadSize', size, chk, classes)
    guarded(chk, 'GetNested', nested, chk, classes)
    guarded(chk, 'SkipField', skip, chk, classes)
    guarded(chk, 'ReadString', string, chk, classes)
    guarded(chk, 'ByteReader', bytereader, chk, classes)
    chk.floor('number classes', 60)
    chk.floor('primitives', 10)
    chk.floor('wire types', 2)
    chk.floor('byte reader operations', 4)


def expect(chk, what, got, want, n, taken, c, m):
    """one result against the bits expected of it"""
    if got[0] == '!':
        return chk.bad(what, '%s throws %s on a number of %d octets' % (what, got[1], n), where(c, m))
    if got[0] != 'n':
        return chk.unknown(what, csi.show(got))
    if got[2] != want[2] or csi.INT[got[1]] != csi.INT[want[1]]:
        return chk.bad(what, '%s of %d octets is %s; %s was written' % (what, n, csi.show(got), csi.show(want)), where(c, m))
    if taken != n:
        return chk.bad(what + ':octets', '%s consumes %d of %d octets' % (what, taken, n), where(c, m))
    chk.ok()


def unsigned(chk, classes, name='ReadUnsignedVarint', w=64, t='ulong', top=10):
    for n in range(1, top + 1):
        data = octets(n)
        c, m, outs = read(chk, classes, name, data)
        if m is None:
            return lost(chk, name)
        chk.count('number classes')
        for v, i, s in outs:
            expect(chk, 'Reader.' + name, v, ('n', t, payload(data, w)), n, i, c, m)
    # cut short
    c, m, outs = read(chk, classes, name, [csi.unknown_bits('o', 'byte', {7: 1})])
    for v, i, s in outs:
        if v[0] != '!':
            chk.bad('Reader.%s:eof' % name, 'Reader.%s returns %s though the number is cut short' % (name, csi.show(v)), where(c, m))
        else:
            chk.ok()


def zigzag(data, w):
    """the signed number whose zigzag form the octets hold; its lowest bit is known"""
    bits = payload(data, 64)
    s = bits[0]
    v = [csi.bxor(b, s) for b in bits[1:]] + [s]
    return tuple(v[:w])


def signed(chk, classes, name='ReadSignedVarint', w=64, t='long', top=10):
    for n in range(1, top + 1):
        for low in (0, 1):
            data = octets(n)
            data[0] = csi.unknown_bits('o0.', 'byte', {7: int(n > 1), 0: low})
            try:
                c, m, outs = read(chk, classes, name, data)
            except csi.Unknown:
                refine(chk, classes, name, n, low, w, t)
                raise
            if m is None:
                return lost(chk, name)
            chk.count('number classes')
            for v, i, s in outs:
                expect(chk, 'Reader.' + name, v, ('n', t, zigzag(data, w)), n, i, c, m)


def refine(chk, classes, name, n, low, w, t):
    """the same with all bits but a few known, where the operations used are too much for unknown bits: enough to refute"""
    for rest in (0, 1, 2, 0x15, 0x3f):
        data = [num((rest << 1 & 0x7e | (low if i == 0 else rest & 1)) | (0x80 if i < n - 1 else 0), 'byte') for i in range(n)]
        c, m, outs = read(chk, classes, name, data)
        for v, i, s in outs:
            expect(chk, 'Reader.' + name, v, ('n', t, zigzag(data, w)), n, i, c, m)


def boolean(chk, classes, name='ReadBoolean'):
    for n in (1, 2, 3):
        for value in (0, 1) if n == 1 else (None,):
            data = octets(n)
            if value is not None:
                data = [num(value, 'byte')]
            c, m, outs = read(chk, classes, name, data)
            if m is None:
                return lost(chk, name)
            chk.count('number classes')
            for v, i, s in outs:
                if v[0] == '!':
                    chk.bad('Reader.' + name, 'Reader.%s throws %s on a flag of %d octets' % (name, v[1], n), where(c, m))
                elif i != n:
                    chk.bad('Reader.%s:octets' % name, 'Reader.%s consumes %d of %d octets' % (name, i, n), where(c, m))
                elif value is None:
                    chk.ok()
                elif v[0] != 'b':
                    chk.unknown(name, csi.show(v))
                else:
                    chk.that(v[1] == bool(value), 'Reader.' + name, 'Reader.%s of %d is %s' % (name, value, csi.show(v)), where(c, m))


def prims(chk):
    """(rust name, c# name, wire type) of every primitive the metadata names"""
    out = []
    for m in r_meta.Meta(chk).all:
        if m['TYPE'] is None:
            continue
        try:
            t = r_meta.type_tree(m['TYPE'])
        except r_meta.Odd:
            continue
        if t[0] == 'prim' and t[2] is not None and t not in out:
            out.append(t)
    return [t[1:] for t in out]


def primitives(chk, classes):
    ps = prims(chk)
    sf = [c for c in classes if c.name == 'StateFactory']
    if not sf:
        return chk.bad('StateFactory', 'the StateFactory class is gone', ROOT[1:] + '/State/StateFactory.cs')
    sf = sf[0]
    table, sized = tables(chk, classes, sf)
    for rust, csharp, wire in ps:
        chk.count('primitives')
        name = 'Read' + csharp
        if rust in WIDTH:
            w = WIDTH[rust]
            top = (w + 6) // 7
            t = {v: k for k, v in csi.INT.items() if k[0].islower()}
            tn = csi.NAMES[(w, int(rust in SIGNED))]
            (signed if rust in SIGNED else unsigned)(chk, classes, name, w, tn, top)
        # how a value of this type is read where its type is only known at run time
        if table is None:
            chk.unknown('StateFactory:' + csharp, 'its tables')
            continue
        full = 'System.' + csharp
        at = ROOT[1:] + '/State/StateFactory.cs'
        if full not in table:
            chk.bad('StateFactory:' + csharp, 'StateFactory has no reader for %s, the C# type of %s' % (full, rust), at)
        elif table[full] != name:
            if table[full] is None:
                chk.unknown('StateFactory:' + csharp, 'its reader')
            else:
                chk.bad('StateFactory:' + csharp, 'StateFactory reads %s, the C# type of %s, with %s' % (full, rust, table[full]), at)
        else:
            chk.ok()
        if wire in ('Varint', 'Sized'):
            chk.that((full in sized) == (wire == 'Sized'), 'StateFactory:sized:' + csharp,
                     'StateFactory takes %s to be %s; Rust writes %s as %s' % (
                         full, 'framed' if full in sized else 'not framed', rust, wire), at)
        else:
            chk.unknown('wire type of ' + rust, str(wire))


def tables(chk, classes, sf):
    """what the static constructor puts in the tables: type name -> reader method; names of framed types"""
    ctor = [m for m in sf.members if getattr(m, 'kind', '') == 'ctor' and 'static' in m.mods]
    if not ctor:
        return None, None
    ip = csi.Interp(classes)
    st = csi.State()
    outs = ip.invoke(ctor[0], NULL, sf, (), (), st, {})
    saw(chk, ip, outs)
    if len(outs) != 1 or outs[0][0][0] == '!':
        return None, None
    table, sized = {}, set()
    for e in outs[0][1].trace:
        if e[0] == 'setindex' and e[2][0] == 'str':
            v = e[3]
            if v[0] == 'lam':
                table[e[2][1]] = called(v)
            elif v == TRUE:
                sized.add(e[2][1])
            elif v != FALSE:
                return None, None
        elif e[0] not in ('set',):
            return None, None
    return table, sized


def called(lam):
    """the method a lambda  reader => reader.M()  calls"""
    b = lam[2][2]
    if len(lam[1]) == 1 and len(b) == 1 and b[0][0] == 'return':
        e = b[0][2]
        while e[0] == 'cast':
            e = e[3]
        if e[0] == 'call' and e[2][0] == 'member':
            o = e[2][2]
            if o[0] == 'name' and o[2] == lam[1][0] and not e[3]:
                return e[2][3]
            if o[0] == 'name' and o[2] == 'Reader' and len(e[3]) == 1 and e[3][0][2][:1] == ('name',):
                return e[2][3]
    return None


def codes(chk):
    """name -> code of the wire types, as Rust writes them"""
    p = World.get().steit
    for d, a in p.adts.items():
        if d.endswith('wire_fmt::WireType'):
            return {v['name']: int(v['discr']) for v in a['variants']}
    return {}


def key(chk, classes):
    rust = codes(chk)
    enum = [c for c in classes if c.name == 'WireType' and c.kind == 'enum']
    if not enum:
        return chk.bad('WireType', 'the client has no WireType', ROOT[1:] + '/Codec/WireType.cs')
    ip = csi.Interp(classes)
    mine = {n: const(ip.enum_value(enum[0], n)) for n, _ in enum[0].values}
    at = '%s:%d' % (os.path.relpath(enum[0].file, facts.REPO), enum[0].line)
    for n, k in rust.items():
        chk.count('wire types')
        chk.that(mine.get(n) == k, 'WireType.' + n, 'WireType.%s is %s for the client; Rust writes %d' % (n, mine.get(n, 'missing'), k), at)
    for n in mine:
        chk.that(n in rust, 'WireType.' + n, 'WireType.%s is unknown to Rust' % n, at)
    for n in range(1, 6):
        for code in range(8):
            data = octets(n)
            known = {i: code >> i & 1 for i in range(3)}
            known[7] = int(n > 1)
            data[0] = csi.unknown_bits('o0.', 'byte', known)
            c, m, outs = read(chk, classes, 'ReadKey', data)
            if m is None:
                return lost(chk, 'ReadKey')
            chk.count('number classes')
            bits = payload(data, 32)
            for v, i, s in outs:
                what = 'a key of %d octets with wire type code %d' % (n, code)
                if code not in rust.values():
                    chk.that(v[0] == '!', 'ReadKey:code', '%s is read as %s' % (what, csi.show(v)), where(c, m))
                    continue
                if v[0] == '!':
                    chk.bad('ReadKey', '%s is refused (%s)' % (what, v[1]), where(c, m))
                elif v[0] != 'tup' or len(v[1]) != 2:
                    chk.unknown('ReadKey', csi.show(v))
                else:
                    tag, wt = v[1]
                    tag = csi.convert(tag, 'uint') if tag[0] == 'n' else tag
                    want = ('n', 'uint', bits[3:] + (Z, Z, Z))
                    if tag[0] != 'n' or wt[0] != 'n':
                        chk.unknown('ReadKey', csi.show(v))
                    elif tag[2] != want[2]:
                        chk.bad('ReadKey:tag', 'the field number in %s is read as %s' % (what, csi.show(tag)), where(c, m))
                    elif const(wt) != code:
                        chk.bad('ReadKey:wire', '%s is read as wire type %s' % (what, csi.show(wt)), where(c, m))
                    elif i != n:
                        chk.bad('ReadKey:octets', 'ReadKey consumes %d of %d octets' % (i, n), where(c, m))
                    else:
                        chk.ok()


def size(chk, classes):
    for n in range(1, 6):
        data = octets(n)
        c, m, outs = read(chk, classes, 'ReadSize', data)
        if m is None:
            return lost(chk, 'ReadSize')
        chk.count('number classes')
        for v, i, s in outs:
            if v[0] == 'n':
                v = ('n', 'uint', v[2][:32])
            expect(chk, 'Reader.ReadSize', v, ('n', 'uint', payload(data, 32)), n, i, c, m)


def opaque_reader(known):
    """events instead of reading: the named methods of the reader are taken as given"""
    def hook(ip, m, o, cls, vs, names, st, targs):
        if cls.name == 'Reader' and m.name in known and vs and vs[0][0] == 's':
            return ip.opaque(vs[0], m.name, vs[1:], st, m.type)
        return None
    return hook


def calls(trace):
    return [e for e in trace if e[0] == 'call']


def taking(es):
    """only whole runs of bytes are taken, none of them one by one"""
    return bool(es) and all(e[2] in ('ReadSize', 'Remaining') or e[2] in ('Read', 'Skip') and len(e[3]) == 1 for e in es)


def all_left(es, e):
    """the number of bytes a Read or Skip is given has to do with how many are left"""
    return any(csi.mentions(e[3][0][1], x[4][1]) for x in es if x[2] == 'Remaining')


def nested(chk, classes):
    c, m = csi.method(classes, 'Reader', 'GetNested', 1)
    if m is None:
        return lost(chk, 'GetNested')
    ip, outs = run(classes, c, m, [reader()], enter=opaque_reader({'ReadSize'}), new=made)
    saw(chk, ip, outs)
    for v, s in outs:
        es = calls(s.trace)
        names = [e[2] for e in es]
        if v[0] == '!':
            chk.bad('Reader.GetNested', 'Reader.GetNested throws ' + v[1], where(c, m))
        elif any(e[0] not in ('call', 'set') for e in s.trace) or any(n not in ('ReadSize', 'Read') for n in names):
            if taking(es) and 'ReadSize' not in names:
                chk.bad('Reader.GetNested', 'a framed message is not its size and then that many bytes (%s)' % ', '.join(names), where(c, m))
            else:
                chk.unknown('Reader.GetNested', names)
        elif names != ['ReadSize', 'Read']:
            chk.bad('Reader.GetNested', 'a framed message is not its size and then that many bytes (%s)' % ', '.join(names), where(c, m))
        elif es[1][3] != (es[0][4],) and es[1][3][0][1] != es[0][4][1]:
            chk.bad('Reader.GetNested:size', 'a framed message is read as %s bytes, not as its size' % csi.show(es[1][3][0]), where(c, m))
        elif v[0] != 'o' or s.heap[v[1]]['#'].name != 'ByteReader':
            chk.unknown('Reader.GetNested', csi.show(v))
        elif s.heap[v[1]]['args'] != (es[1][4],):
            chk.bad('Reader.GetNested:bytes', 'the nested reader is not over the bytes read', where(c, m))
        else:
            chk.ok()


def made(ip, ty, vs, st):
    """constructed objects as they are, without running their constructors"""
    if ty.name in ('ByteReader',):
        return [(ip.new(st, ty, args=tuple(vs)), st)]
    return None


def skip(chk, classes):
    c, m = csi.method(classes, 'Reader', 'SkipField', 2)
    if m is None:
        return lost(chk, 'SkipField')
    rust = codes(chk)
    for n in (1, 2, 10):
        data = octets(n) + [csi.unknown_bits('next', 'byte')]
        ip, outs = run(classes, c, m, [reader(), num(rust.get('Varint', 0))], feed(data), 24)
        saw(chk, ip, outs)
        for v, s in outs:
            i = s.heap.get(0, {'i': 0})['i']
            chk.that(v[0] != '!' and i == n, 'Reader.SkipField:varint',
                     'skipping a number of %d octets %s' % (n, 'throws ' + v[1] if v[0] == '!' else 'consumes %d' % i), where(c, m))
    ip, outs = run(classes, c, m, [reader(), num(rust.get('Sized', 2))])
    saw(chk, ip, outs)
    for v, s in outs:
        es = calls(s.trace)
        if v[0] == '!':
            chk.bad('Reader.SkipField:sized', 'skipping a framed field throws ' + v[1], where(c, m))
        elif not es:
            chk.bad('Reader.SkipField:sized', 'skipping a framed field consumes nothing', where(c, m))
        elif [e[2] for e in es] == ['Remaining', 'Skip'] or [e[2] for e in es] == ['Remaining', 'Read']:
            chk.that(es[1][3] and es[1][3][0][1] == es[0][4][1], 'Reader.SkipField:sized',
                     'skipping a framed field skips %s bytes of what remains' % csi.show(es[1][3][0]), where(c, m))
        elif all(e[2] in ('Remaining', 'ReadSize', 'Read', 'Skip') for e in es) and not any(
                e[2] in ('Read', 'Skip') and e[3] and all_left(es, e) for e in es):
            chk.bad('Reader.SkipField:sized', 'skipping a framed field consumes %s, not what remains' % ', '.join(e[2] for e in es), where(c, m))
        else:
            chk.unknown('Reader.SkipField', [e[2] for e in es])
    # the end of the stream
    c, m = csi.method(classes, 'Reader', 'EndOfStream', 1)
    if m is None:
        return lost(chk, 'EndOfStream')
    for left, want in ((0, True), (1, False), (3, False)):
        data = octets(left) if left else []
        ip, outs = run(classes, c, m, [reader()], feed(data))
        for v, s in outs:
            if v[0] == 'b':
                chk.that(v[1] == want, 'Reader.EndOfStream', 'Reader.EndOfStream is %s with %d bytes left' % (v[1], left), where(c, m))
            else:
                chk.unknown('EndOfStream', csi.show(v))


def string(chk, classes):
    c, m = csi.method(classes, 'Reader', 'ReadString', 1)
    if m is None:
        return lost(chk, 'ReadString')
    ip, outs = run(classes, c, m, [reader()])
    saw(chk, ip, outs)
    for v, s in outs:
        es = calls(s.trace)
        names = [e[2] for e in es]
        if v[0] == '!':
            chk.bad('Reader.ReadString', 'Reader.ReadString throws ' + v[1], where(c, m))
        elif names == ['Remaining', 'Read', 'GetString'] and es[1][3][0][1] == es[0][4][1] and es[2][3] == (es[1][4],) and v[1] == es[2][4][1]:
            enc = csi.show(es[2][1])
            chk.that('UTF8' in enc, 'Reader.ReadString', 'a text is decoded as %s; Rust writes UTF-8' % enc, where(c, m))
        elif names.count('GetString') == 1 and 'Read' in names and all(n in ('Remaining', 'ReadSize', 'Read', 'GetString') for n in names) and \
                not any(e[2] == 'Read' and e[3] and all_left(es, e) for e in es):
            chk.bad('Reader.ReadString', 'a text is read as %s, not as all the bytes that remain' % ', '.join(names), where(c, m))
        else:
            chk.unknown('Reader.ReadString', names)


# ------------------------------------------------------------- the byte reader

def bytereader(chk, classes):
    c = [k for k in classes if k.name == 'ByteReader']
    if not c:
        return chk.bad('ByteReader', 'the ByteReader class is gone', ROOT[1:] + '/Codec/ByteReader.cs')
    c = c[0]
    data = [csi.unknown_bits('d%d.' % i, 'byte') for i in range(4)]

    def index(ip, o, i, st):
        if o[0] == 's' and o[1] == 'data':
            k = const(i) if i[0] == 'n' else None
            if k is None:
                raise csi.Unknown('index')
            if not 0 <= k < 4:
                return [(('!', 'IndexOutOfRange'), st)]
            return [(data[k], st)]
        return None

    def get(ip, o, name, st):
        if o[0] == 's' and o[1] == 'data' and name in ('Count', 'Length'):
            return [(num(4), st)]
        return None

    def call(ip, o, name, vs, st, e):
        if o[0] == 'type' and o[1].name == 'Array' and name == 'AsReadOnly' and len(vs) == 1:
            return [(vs[0], st)]
        return None

    def fresh():
        """a reader over four bytes, made by the constructor itself"""
        ip = csi.Interp([x for x in classes], {'index': index, 'get': get, 'call': call}, 24)
        st = csi.State()
        st.conds[('isnull', 'data')] = False
        outs = ip.construct(c, Type('ByteReader'), (('s', 'data', Type('byte', (), '[]')),), st)
        if len(outs) != 1 or outs[0][0][0] != 'o':
            raise csi.Unknown('the constructor')
        s = outs[0][1]
        s.trace = ()
        return ip, outs[0][0], s

    def op(ip, o, st, name, *args):
        vs = tuple(num(a) for a in args)
        m = ip.choose(ip.member(c, name, ('method',)), vs, (), st)
        if m is None:
            return None, None
        st = st.copy()
        st.trace = ()
        outs = ip.invoke(m, o, c, vs, (), st, {})
        saw(chk, ip, outs)
        return m, outs

    # Remaining after k single reads, and the byte each returns
    ip, o, st = fresh()
    for k in range(5):
        chk.count('byte reader operations')
        m, outs = op(ip, o, st, 'Remaining')
        if m is None:
            return chk.bad('ByteReader.Remaining', 'ByteReader.Remaining is gone', ROOT)
        for v, s in outs:
            if v[0] == 'n' and const(v) is not None:
                chk.that(const(v) == 4 - k, 'ByteReader.Remaining', 'after %d of 4 bytes, ByteReader.Remaining is %s' % (k, csi.show(v)),
                         where(c, m))
            else:
                chk.unknown('ByteReader.Remaining', csi.show(v))
        m, outs = op(ip, o, st, 'Read')
        if m is None:
            return chk.bad('ByteReader.Read', 'ByteReader.Read is gone', ROOT)
        if len(outs) != 1:
            raise csi.Unknown('Read')
        v, st2 = outs[0]
        if k == 4:
            chk.that(v[0] == '!', 'ByteReader.Read:eof', 'ByteReader.Read returns %s past the end' % csi.show(v) if v[0] != '!' else '',
                     where(c, m))
        elif v[0] == '!':
            chk.bad('ByteReader.Read', 'ByteReader.Read throws %s with %d bytes left' % (v[1], 4 - k), where(c, m))
        elif v[0] != 'n':
            chk.unknown('ByteReader.Read', csi.show(v))
        else:
            chk.that(v[2] == data[k][2], 'ByteReader.Read', 'byte %d of the stream is read as %s' % (k, csi.show(v)), where(c, m))
        st = st2
    # several bytes at once, and skipping
    for start in (0, 1):
        for n in range(0, 6):
            for name in ('Read', 'Skip'):
                ip, o, st = fresh()
                if start:
                    st = op(ip, o, st, 'Read')[1][0][1]
                m, outs = op(ip, o, st, name, n)
                if m is None:
                    return chk.bad('ByteReader.' + name, 'ByteReader.%s is gone' % name, ROOT)
                chk.count('byte reader operations')
                for v, s in outs:
                    what = 'ByteReader.%s(%d) with %d bytes left' % (name, n, 4 - start)
                    if n > 4 - start:
                        chk.that(v[0] == '!', 'ByteReader.%s:short' % name, what + ' does not fail', where(c, m))
                        continue
                    if v[0] == '!':
                        chk.bad('ByteReader.' + name, '%s throws %s' % (what, v[1]), where(c, m))
                        continue
                    left = op(ip, o, s, 'Remaining')[1]
                    if len(left) != 1 or left[0][0][0] != 'n':
                        chk.unknown(what, 'what is left')
                    elif const(left[0][0]) != 4 - start - n:
                        chk.bad('ByteReader.%s:left' % name, '%s leaves %s' % (what, csi.show(left[0][0])), where(c, m))
                    else:
                        chk.ok()
                    if name == 'Read':
                        got = {}
                        odd = False
                        for e in s.trace:
                            if e[0] == 'setindex' and e[1] == v and e[2][0] == 'n':
                                got[const(e[2])] = e[3]
                            elif e[0] != 'set':
                                odd = True
                        if odd or v[0] != 's' or v[1][0] != 'array':
                            chk.unknown(what, 'the bytes returned')
                        else:
                            bad = [i for i in range(n) if i not in got or got[i][2] != data[start + i][2]]
                            chk.that(not bad and len(got) == n and v[1][2] == num(n), 'ByteReader.Read:bytes',
                                     '%s does not return the next %d bytes' % (what, n), where(c, m))
