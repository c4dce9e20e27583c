"""D02: what a type publishes for client generation is what it really writes."""
import re

import models
import r_rt
import terms
from lab import *
from core import own_wire
from terms import I

CSHARP = {'u8': 'Byte', 'u16': 'UInt16', 'u32': 'UInt32', 'u64': 'UInt64', 'i8': 'SByte', 'i16': 'Int16', 'i32': 'Int32',
          'i64': 'Int64', 'bool': 'Boolean', 'String': 'String'}


class Odd(Exception):
    """a shape of metadata this analysis does not read"""


# ------------------------------------------------------------------ reading values

class Meta:
    """the evaluated metadata constants of every implementation"""

    def __init__(self, chk):
        self.by_name = {}
        self.all = []
        w = World.get()
        for prog in [w.steit] + ([w.corpus] if w.corpus else []):
            for impl, own in ser_impls(prog, 'HasMeta'):
                m = {'prog': prog, 'impl': impl, 'own': own, 'head': head(own)}
                for name in ('NAME', 'TYPE', 'LINK'):
                    b = item(prog, impl, name)
                    m[name] = evaluate(chk, b) if b is not None else None
                    m[name + '.at'] = b.sig() if b is not None else own
                m['ip'] = None
                self.all.append(m)
                self.by_name.setdefault(m['head'], m)

    def of(self, tyname):
        return self.by_name.get(head(tyname))


def head(own):
    while own.startswith('&'):
        own = own[1:]
    if own.startswith('['):
        return '['
    return last(own.partition('<')[0])


def evaluate(chk, b):
    ip = E.Interp(hooks=dict(LogVoc('?').hooks))
    ip.progs = World.get().progs
    outs = ip.run(b, [], E.State())
    chk.saw(ip, outs)
    if len(outs) != 1 or outs[0][0] != 'ret':
        raise Odd('constant %s' % b.sig())
    return models.freeze_all(ip, outs[0][1], outs[0][2])


def links_of(chk, link):
    """the values a MetaLink's function returns"""
    f = parts(link, 'MetaLink', 3)[2]
    if f.op == 'clo':
        prog = World.get().progs[f.a[0][0]]
        body = prog.t(f.a[0][1]).get('body')
    elif f.op == 'fn':
        prog = World.get().progs[f.a[0]]
        body = prog.t(f.a[1])['callee'].get('body')
    else:
        raise Odd('links: ' + str(f)[:60])
    b = prog.bodies.get(body)
    if b is None:
        raise Odd('links')
    ip = E.Interp(hooks=dict(LogVoc('?').hooks))
    ip.progs = World.get().progs
    outs = ip.run(b, [sym('closure')][:b.argc], E.State())
    chk.saw(ip, outs)
    if len(outs) != 1 or outs[0][0] != 'ret':
        raise Odd('links')
    v = models.freeze_all(ip, outs[0][1], outs[0][2])
    if v.op != 'arr':
        raise Odd('links: ' + str(v)[:60])
    return list(v.a)


def parts(v, name, n=None):
    if v.op != 'adt' or last(str(v.a[0])) != name or (n is not None and len(v.a) - 2 != n):
        raise Odd('%s expected, found %s' % (name, str(v)[:80]))
    return v.a[2:]


def text(v):
    if v.op != 'str':
        raise Odd('a name: ' + str(v)[:60])
    return v.a[0]


def option(v):
    if v.op != 'adt' or last(str(v.a[0])) != 'Option':
        raise Odd('an option: ' + str(v)[:60])
    return v.a[2] if v.a[1] == 1 else None


def name_of(v):
    r, c = parts(v, 'NameMeta', 2)
    c = option(c)
    return text(r), (text(c) if c is not None else None)


def number(v):
    if v.op != 'int':
        raise Odd('a number: ' + str(v)[:60])
    return v.a[0]


def arr(v):
    if v.op != 'arr':
        raise Odd('a list: ' + str(v)[:60])
    return v.a


def type_tree(v):
    """TypeMeta -> ('prim', rust, csharp, wire) | ('ref', rust, csharp, [tree]) | ('param', name)"""
    if v.op == 'app' and v.a[0] == 'const' and str(v.a[1]).endswith('TYPE'):
        return ('param', v.a[2])
    if v.op != 'adt' or last(str(v.a[0])) != 'TypeMeta':
        raise Odd('TypeMeta expected, found ' + str(v)[:80])
    if v.a[1] == 0:
        n = name_of(v.a[2])
        return ('prim',) + n + (wire(v.a[3]),)
    n = name_of(v.a[2])
    return norm(('ref',) + n + (tuple(field_tree(x) for x in arr(v.a[3])),))


def norm(t):
    """a box is its content, on the wire and for a client; the key of a map is not part of its type"""
    if t[0] == 'ref' and t[1] == 'Box' and len(t[3]) == 1:
        return t[3][0]
    if t[0] == 'ref' and t[1] == 'Map' and len(t[3]) == 2:
        return t[:3] + (t[3][1:],)
    return t


def wire(v):
    if v.op == 'adt' and last(str(v.a[0])) == 'WireType' and len(v.a) == 2:
        return ('Varint', 'Sized')[v.a[1]]
    return v


def field_tree(v):
    if v.op != 'adt' or last(str(v.a[0])) != 'FieldTypeMeta':
        raise Odd('FieldTypeMeta expected, found ' + str(v)[:80])
    if v.a[1] == 1:
        return ('param', text(v.a[2]))
    return type_tree(v.a[2])


def show(t):
    if t[0] == 'param':
        return t[1]
    if t[0] == 'prim':
        return '%s (%s)' % (t[1], t[3])
    return t[1] + ('<%s>' % ', '.join(show(x) for x in t[3]) if t[3] else '')


def struct_meta(v):
    n, ps, fs, builtin = parts(v, 'StructMeta', 4)
    out = []
    for f in arr(fs):
        fn, ty, tag = parts(f, 'FieldMeta', 3)
        out.append({'name': name_of(fn), 'ty': field_tree(ty), 'tag': number(tag)})
    return {'name': name_of(n), 'params': [text(x) for x in arr(ps)], 'fields': out, 'builtin': number(builtin)}


def message(v):
    if v.op != 'adt' or last(str(v.a[0])) != 'MessageMeta':
        raise Odd('MessageMeta expected, found ' + str(v)[:80])
    if v.a[1] == 0:
        return 'struct', struct_meta(v.a[2])
    n, ps, vs, builtin = parts(v.a[2], 'EnumMeta', 4)
    out = []
    for x in arr(vs):
        ty, tag = parts(x, 'VariantMeta', 2)
        out.append((struct_meta(ty), number(tag)))
    return 'enum', {'name': name_of(n), 'params': [text(x) for x in arr(ps)], 'variants': out, 'builtin': number(builtin)}


# ------------------------------------------------------------------ expectations from the type itself

def expected(meta, prog, tid):
    t = prog.t(tid)
    k = t['k']
    if k == 'param':
        return ('param', t['n'])
    if k == 'ref':
        return expected(meta, prog, t['t'])
    if k == 'array':
        m = meta.of('[')
        n = name_of(m['NAME'])
        e = t['t']
        return ('ref',) + n + ((expected(meta, prog, e),),)
    s = prog.tname(tid)
    m = meta.of(s)
    if m is None:
        raise Odd('type ' + s)
    if k == 'adt' and t['args']:
        n = len(generics(m))
        return norm(('ref',) + name_of(m['NAME']) + (tuple(expected(meta, prog, a) for a in t['args'][:n]),))
    return type_tree(m['TYPE'])


def generics(m):
    """the type parameters of an implementation, in order"""
    own = m['own']
    if own.startswith('['):
        return [own[1:].partition(';')[0].strip()]
    if '<' not in own:
        return []
    return [x.strip() for x in split_args(own[own.index('<') + 1:own.rindex('>')]) if not x.strip().startswith("'")]


def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
            continue
        d += c in '<[(' and 1 or (c in '>])' and -1 or 0)
        cur += c
    return out + [cur] if cur.strip() else out


def oracle(own):
    for o in World.get().oracle or []:
        if o['name'] == own.split('<')[0]:
            return o
    return None


def csharp_attr(attrs):
    for a in attrs:
        m = re.match(r'csharp_name = "(.*)"', a)
        if m:
            return m.group(1)
    return None


# ------------------------------------------------------------------ the rule

def d02(chk):
    chk.rule('the published fields of every message are exactly those its serializer writes, each with the tag under which it is '
             'written, its own name (and declared C# name) and a type tree that follows its Rust type')
    chk.rule('the published variants of every enum are exactly its variants, each with the tag its serializer writes first')
    chk.rule('every primitive is published with the wire type it has, and every other type has wire type Sized')
    chk.rule('TYPE is NAME applied to the parameters; LINK.type is TYPE; the message is named NAME and lists the parameters')
    chk.rule('the links of a type cover every field type (or the parameters, for a container), so that every message is reachable')
    w = World.get()
    meta = guarded(chk, 'HasMeta', Meta, chk)
    if meta is None:
        return
    for m in meta.all:
        chk.count('types')
        what = '<%s as HasMeta>' % m['own']
        for f in (plain, tables, linking):
            try:
                guarded_(chk, what, f, chk, meta, m, what)
            except Odd as e:
                chk.unknown(what, str(e))
    chk.floor('types', 40)
    chk.floor('fields', 40)
    chk.floor('links', 40)


def guarded_(chk, what, f, *a):
    try:
        return f(*a)
    except Odd:
        raise
    except Exception as e:  # noqa: BLE001 - undecided, never an alarm
        chk.unknown(what, 'analysis error: %r' % e)
        import os
        if os.environ.get('SA_DEBUG'):
            import traceback
            traceback.print_exc()


def message_of(m):
    v = m['LINK']
    if v.op == 'app':
        return None
    o = option(parts(v, 'MetaLink', 3)[1])
    return message(o) if o is not None else None


def plain(chk, meta, m, what):
    own, prog = m['own'], m['prog']
    ps = generics(m)
    name = name_of(m['NAME'])
    o = oracle(own) if prog.crate == 'corpus' else None
    h = m['head']
    plainname = 'Vec' if h == '[' else h
    chk.that(name[0] == plainname, what + ':NAME', '%s::NAME is %r' % (what, name[0]), m['NAME.at'])
    if o is not None:
        c = csharp_attr(o['attrs'])
        chk.that(name[1] == c, what + ':csharp', '%s::NAME says C# name %r, the schema %r' % (what, name[1], c), m['NAME.at'])
    t = type_tree(m['TYPE'])
    ow = own_wire_of(prog, own)
    if t[0] == 'prim':
        chk.count('primitives')
        chk.that(t[1:3] == name, what + ':TYPE', '%s::TYPE is named %s' % (what, t[1:3]), m['TYPE.at'])
        if isinstance(ow, str) and isinstance(t[3], str):
            chk.that(ow == t[3], what + ':wire', '%s::TYPE says it is encoded as %s; it is encoded as %s' % (what, t[3], ow),
                     m['TYPE.at'])
        else:
            chk.unknown(what + ':wire', 'wire type')
        if own in CSHARP:
            chk.that(t[2] == CSHARP[own], what + ':csharp', '%s is published as %s' % (own, t[2]), m['NAME.at'])
        chk.that(not ps and message_of(m) is None, what + ':msg', '%s: a primitive with parameters or a message' % what, m['LINK.at'])
    elif h == 'Box':
        chk.that(t == ('param', ps[0]), what + ':TYPE', '%s::TYPE is not that of its content' % what, m['TYPE.at'])
        lk = m['LINK']
        chk.that(lk.op == 'app' and lk.a[0] == 'const' and str(lk.a[1]).endswith('LINK') and lk.a[2] == ps[0] or
                 lk.op != 'app' and type_tree(parts(lk, 'MetaLink', 3)[0]) == t, what + ':LINK',
                 '%s::LINK is not that of its content' % what, m['LINK.at'])
        return
    else:
        want = norm(('ref',) + name + (tuple(('param', p) for p in ps),))
        chk.that(t == want, what + ':TYPE', '%s::TYPE is %s, not %s' % (what, show(t), show(want)), m['TYPE.at'])
        if isinstance(ow, str):
            chk.that(ow == 'Sized', what + ':wire', '%s is published as a type encoded as Sized; it is encoded as %s' % (what, ow),
                     m['TYPE.at'])
        else:
            chk.unknown(what + ':wire', 'wire type')
    lt = type_tree(parts(m['LINK'], 'MetaLink', 3)[0])
    chk.that(lt == t, what + ':LINK', '%s::LINK.type is %s, not %s' % (what, show(lt), show(t)), m['LINK.at'])


def own_wire_of(prog, own):
    v = own_wire(prog, own)
    return wire(v) if v is not None else None


def tables(chk, meta, m, what):
    own, prog = m['own'], m['prog']
    t = prog.t(m['impl']['self'])
    a = prog.adts.get(t.get('def')) if t['k'] == 'adt' else None
    o = oracle(own) if prog.crate == 'corpus' else None
    msg = message_of(m)
    if msg is None:
        if o is not None or m['head'] in ('Maybe', 'LogEntry'):
            chk.bad(what + ':msg', '%s::LINK publishes no message' % what, m['LINK.at'])
        return
    chk.count('messages')
    kind, g = msg
    at = m['LINK.at']
    chk.that(g['name'] == name_of(m['NAME']), what + ':name', '%s: the message is named %s' % (what, g['name']), at)
    chk.that(g['params'] == generics(m), what + ':params', '%s: the message has parameters %s, not %s' % (
        what, g['params'], generics(m)), at)
    chk.that(bool(g['builtin']) == (prog.crate == 'steit'), what + ':builtin', '%s: builtin is %s' % (what, g['builtin']), at)
    sb = item(prog, next((i for i, n in ser_impls(prog, 'Serialize') if n == own), {'items': []}), 'serialize_cached')
    if a is None:
        return chk.unknown(what, 'not an ordinary type')
    if sb is None:
        if kind != 'struct' or not o or not o.get('fields'):
            return chk.unknown(what, 'no serializer to compare with')
        return fields(chk, meta, m, what, a, 0, g, {k: f['tag'] for k, f in enumerate(o['fields'])}, o['fields'], at)
    shapes, types, args = r_rt.shapes(chk, prog, own, sb)
    if kind == 'struct':
        chk.that(a['kind'] == 'struct', what + ':kind', '%s: an enum published as a struct' % what, at)
        written = {tuple(w_) for w_ in (written_fields(toks) for s, n, toks in shapes)}
        if len(written) != 1 or None in written:
            return chk.unknown(what, 'fields written')
        ov = (o.get('fields') if o else None)
        fields(chk, meta, m, what, a, 0, g, dict(next(iter(written))), ov, at)
        return
    chk.that(a['kind'] == 'enum', what + ':kind', '%s: a struct published as an enum' % what, at)
    by = {}
    for s, n, toks in shapes:
        i = r_rt.variant_of(s)
        if i is None:
            neg = [c.a[0].a[1].a[0] for c in s.cond_list() if c.op == 'not' and c.a[0].op == 'eq' and c.a[0].a[0].op == 'discr'
                   and c.a[0].a[1].op == 'int']
            rest = [k for k in range(len(a['variants'])) if k not in neg]
            if len(rest) != 1:
                return chk.unknown(what, 'variants written')
            i = rest[0]
        ft = first_tag(toks)
        if ft is None:
            return chk.unknown(what, 'variant tag')
        by.setdefault(i, set()).add((ft, tuple(written_fields(toks[1:]))))
    if len(by) != len(a['variants']) or any(len(x) != 1 for x in by.values()):
        return chk.unknown(what, 'variants written')
    got = {}
    for vm, tag in g['variants']:
        if tag in got:
            chk.bad(what + ':variants', '%s: tag %d is published twice' % (what, tag), at)
        got[tag] = vm
    tags = {next(iter(x))[0] for x in by.values()}
    chk.that(set(got) == tags, what + ':variants', '%s: publishes variant tags %s, writes %s' % (what, sorted(got), sorted(tags)), at)
    for i, x in sorted(by.items()):
        tag, fs = next(iter(x))
        vm = got.get(tag)
        if vm is None:
            continue
        chk.count('variants')
        v = a['variants'][i]
        ov = next((y for y in (o or {}).get('variants', []) if y['name'] == v['name']), None)
        w2 = '%s variant %s' % (what, v['name'])
        chk.that(vm['name'][0] == v['name'], w2 + ':name', '%s is published as %s' % (w2, vm['name'][0]), at)
        if ov is not None:
            chk.that(vm['name'][1] == csharp_attr(ov['attrs']), w2 + ':csharp', '%s is published with C# name %s' % (
                w2, vm['name'][1]), at)
        fields(chk, meta, m, w2, a, i, vm, dict(fs), ov['fields'] if ov else None, at)


def first_tag(toks):
    if toks and toks[0].a[0] == 'SER' and toks[0].a[1].op == 'int':
        return toks[0].a[1].a[0]
    return None


def written_fields(toks):
    """[(field index, tag)] of a list of tokens"""
    out = []
    for t in toks:
        if t.a[0] != 'NB' or t.a[1].op not in ('fld', 'vf') or not isinstance(t.a[1].a[-1], int) or t.a[2].op != 'int':
            raise Odd('written: %s (%s)' % (str(t)[:80], t.a[1].op))
        out.append((t.a[1].a[-1], t.a[2].a[0]))
    return out


def fields(chk, meta, m, what, a, i, g, written, ofields, at):
    v = a['variants'][i]
    prog = m['prog']
    tags = [f['tag'] for f in g['fields']]
    chk.that(sorted(tags) == sorted(written.values()), what + ':tags', '%s: publishes the tags %s, writes %s' % (
        what, sorted(tags), sorted(written.values())), at)
    inv = {t: k for k, t in written.items()}
    for f in g['fields']:
        k = inv.get(f['tag'])
        if k is None:
            continue
        k = k if isinstance(k, int) else int(k)
        chk.count('fields')
        own = v['fields'][k]
        alias = 'f' + own if own.isdigit() else own
        w2 = '%s field %s' % (what, own)
        chk.that(f['name'][0] in (alias, own), w2 + ':name', '%s, written under tag %d, is published as %s' % (
            w2, f['tag'], f['name'][0]), at)
        if ofields is not None:
            of = next((x for n, x in enumerate(ofields) if (x['name'] or str(n)) == own), None)
            if of is not None:
                c = csharp_attr(of['attrs'])
                chk.that(f['name'][1] == c, w2 + ':csharp', '%s is published with C# name %s, not %s' % (w2, f['name'][1], c), at)
        try:
            want = expected(meta, prog, v['ftys'][k])
        except Odd as e:
            chk.unknown(w2, str(e))
            continue
        if not known(f['ty']):
            chk.unknown(w2, 'type')
            continue
        chk.that(f['ty'] == want, w2 + ':type', '%s has type %s; it is published as %s' % (w2, show(want), show(f['ty'])), at)


def known(t):
    return isinstance(t[3], str) if t[0] == 'prim' else all(known(x) for x in t[3]) if t[0] == 'ref' else True


def link_key(v):
    if v.op == 'app' and v.a[0] == 'const' and str(v.a[1]).endswith('LINK'):
        return ('param', v.a[2]) if '<' not in v.a[2] and not v.a[2].startswith('[') else ('name', head(v.a[2]))
    if v.op == 'adt':
        t = type_tree(parts(v, 'MetaLink', 3)[0])
        return ('param', t[1]) if t[0] == 'param' else ('name', t[1])
    raise Odd('link: ' + str(v)[:60])


def linking(chk, meta, m, what):
    if m['LINK'].op == 'app':
        return
    prog = m['prog']
    have = {link_key(x) for x in links_of(chk, m['LINK'])}
    chk.count('links')
    at = m['LINK.at']
    msg = message_of(m)
    t = prog.t(m['impl']['self'])
    if msg is None:
        tt = type_tree(m['TYPE'])
        for x in (tt[3] if tt[0] == 'ref' else ()):
            if x[0] == 'param':
                chk.that(('param', x[1]) in have, what + ':links', '%s: the links of a container leave out %s' % (what, x[1]), at)
        return
    a = prog.adts[t['def']]
    for v in a['variants']:
        for f, ty in zip(v['fields'], v.get('ftys') or []):
            tn = prog.tname(ty)
            if head(tn) in ('SizeCache', 'Runtime', 'PhantomData'):
                continue
            miss = need(meta, prog, ty, have)
            w2 = '%s: field %s' % (what, f)
            if miss is None:
                chk.unknown(w2, 'type ' + tn)
            else:
                chk.that(not miss, w2, '%s of type %s is not covered by the links (%s)' % (w2, tn, ', '.join(sorted(miss))), at)


def need(meta, prog, tid, have):
    """message types and parameters mentioned by a type that the links do not lead to"""
    t = prog.t(tid)
    k = t['k']
    if k == 'param':
        n = t['n']
        return set() if ('param', n) in have else {n}
    if k in ('ref', 'array'):
        if k == 'array' and ('name', 'Vec') in have:
            return set()
        return need(meta, prog, t['t'], have)
    if k != 'adt':
        return set()
    m = meta.of(prog.tname(tid))
    if m is None:
        return None
    tt = type_tree(m['TYPE'])
    if tt[0] == 'prim':
        return set()
    if m['head'] != 'Box':
        if ('name', name_of(m['NAME'])[0]) in have:
            return set()
        if message_of(m) is not None:
            return {prog.tname(tid)}
    out = set()
    args = t['args'][:len(generics(m))]
    if m['head'] == 'Map':
        args = args[1:]
    for x in args:
        r = need(meta, prog, x, have)
        if r is None:
            return None
        out |= r
    return out
