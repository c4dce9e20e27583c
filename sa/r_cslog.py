"""D07: the client's built-in classes carry the metadata of their Rust counterparts.
D08: the client applies a log entry to the state its path names, the way the Rust side does."""
import os

import cs
import csi
import facts
import r_meta
from core import *
from csi import Type, NULL, FALSE, TRUE, const, mentions, num, show
from r_cs import client, codes, opaque_reader, saw, where, ROOT

QUIET = {'WriteLine', 'Write', 'Format', 'ToString', 'AppendFormat'}


def S(term, ty=None):
    return ('s', term, Type(ty) if isinstance(ty, str) else ty)


NOTIFY = S('notify', 'bool')
READER = S('reader', 'IReader')
PATH = S('path', 'Path')
THIS = 'this'


# ------------------------------------------------------------- shared hooks

def listval(ip, v, st):
    """a list the code built, as the sequence it stands for"""
    if v[0] == 'o' and st.heap[v[1]]['#'].name == 'List':
        h = st.heap[v[1]]
        return S(('seq', h['base'], h['dropped'], h['items']), h['#'])
    return v


def hooks(opaque=()):
    """calls taken as given: the reader's methods, StateFactory's, paths, and whatever else is named"""
    def call(ip, o, name, vs, st, e):
        ty = st.heap[o[1]]['#'] if o[0] == 'o' else o[2] if o[0] == 's' else None
        if name == 'GetNested' and (ty is not None and ty.name == 'Path') and len(vs) == 1:
            if o[0] == 's':
                return [(S(('nest', o[1], vs[0] if vs[0][0] != 's' else vs[0][1]), 'Path'), st)]
        if name == 'ContainsKey' and len(vs) == 1 and o[0] == 's':
            return [(S(('has', o[1], ip.term(vs[0])), 'bool'), st)]
        if name == 'Equals' and len(vs) == 1:
            return [(ip.eq(st, o, vs[0]), st)]
        if name == 'IsAssignableFrom' and o[0] == 'type' and vs[0][0] == 'type':
            return [(S(('state type', str(o[1]), str(vs[0][1])), 'bool'), st)]
        if o[0] == 'type' and name in opaque:
            t = [ip.targ(a, st) for a in e[5]]
            full = '%s.%s%s' % (o[1], name, '<%s>' % ', '.join(map(str, t)) if t else '')
            r = S(('ret', st.fresh(), full), t[0] if t else o[1])
            st.event('call', NULL, full, tuple(vs), r)
            return [(r, st)]
        if ty is not None and ty.name == 'List' and o[0] == 's' and name in QUIET:
            return [(NULL, st)]
        if name in QUIET:
            return [(S(('ret', st.fresh(), name)), st)]
        return None

    def enter(ip, m, o, cls, vs, names, st, targs):
        if cls.name == 'Reader' and vs and vs[0][0] == 's' and 'this' in m.params[0].mods:
            full = m.name + ('<%s>' % ', '.join(map(str, targs)) if targs else '')
            ty = m.type
            if ty.name in m.tparams and targs:
                ty = targs[0]
            return ip.opaque(vs[0], full, vs[1:], st, ty)
        if cls.name + '.' + m.name in opaque:
            full = '%s.%s%s' % (cls.name, m.name, '<%s>' % ', '.join(map(str, targs)) if targs else '')
            r = S(('ret', st.fresh(), full), targs[0] if targs else m.type)
            st.event('call', NULL, full, tuple(listval(ip, v, st) for v in vs), r)
            return [(r, st)]
        return None

    def new(ip, ty, vs, st):
        if ty.name == 'ByteReader':
            return [(S(('over',) + tuple(ip.term(v) for v in vs), 'ByteReader'), st)]
        if ty.name.endswith('EventArgs'):
            return [(S(('args', ty.name) + tuple(ip.term(v) for v in vs), ty), st)]
        return None
    return {'call': call, 'enter': enter, 'new': new}


def go(chk, classes, c, m, args, this=NULL, opaque=(), tenv=None, refs=(), env=None, conds=None, **more):
    h = hooks(opaque)
    h.update(more)
    ip = csi.Interp(classes, h)
    st = csi.State()
    st.env = dict(env or {})
    st.conds.update(conds or {})
    outs = ip.invoke(m, this, c, tuple(args), (), st, tenv or {p: Type(p) for p in c.tparams}, refs)
    saw(chk, ip, outs)
    return ip, outs


def acts(trace):
    """what a path does, apart from building objects of its own and telling listeners"""
    out = []
    for e in trace:
        if e[0] == 'set' and e[1][0] == 'o':
            continue
        if e[0] == 'call' and (e[2] in QUIET or e[2] == 'Invoke'):
            continue
        out.append(e)
    return out


def at_end(e, conds):
    """whether a path knows, by the test e, that the reader is at its end: True, False, 'either' (the test does not tell), None"""
    if e[0] != 'call' or e[1] != READER or e[3]:
        return None
    r = e[4][1]
    if e[2] == 'EndOfStream':
        return conds.get(r)
    if e[2] != 'Remaining':
        return None
    about = {k: d for k, d in conds.items() if mentions(k, r)}
    res = 'either' if about else None
    for k, d in about.items():
        if k[0] == 'lt' and k[1] == r and isinstance(k[2], int):
            if d and k[2] <= 1:
                return True
            if not d and k[2] >= 1:
                return False
        elif k[0] == 'eq' and len(k) == 3 and num(0) in k:
            return d
        else:
            res = None
    return res


def testing(names):
    return ['EndOfStream' if n == 'Remaining' and i == 0 else n for i, n in enumerate(names)]


def loop_ends(chk, what, k, a, conds, at):
    """a reading loop is left exactly at the end; whether this path of it is read"""
    t = at_end(a[0], conds) if a else None
    if t is None:
        chk.unknown(what + ':end', 'when the loop ends')
        return False
    if k == 'exit':
        if len(a) != 1:
            chk.bad(what + ':end', '%s reads on at the end' % what, at)
        else:
            chk.that(t is True, what + ':end', '%s can stop before the end' % what, at)
        return False
    if t is not False:
        chk.bad(what + ':end', '%s can read on at the end' % what, at)
        return False
    return True


def told(trace):
    return [e for e in trace if e[0] == 'call' and e[2] == 'Invoke']


def klass(classes, name):
    return next((c for c in classes if c.name == name), None)


def meth(c, name, n=None):
    for m in c.all(name):
        if getattr(m, 'kind', '') == 'method' and (n is None or len(m.params) == n):
            return m
    return None


def find(chk, classes, cls, name, n=None):
    c = klass(classes, cls)
    m = c and meth(c, name, n)
    if m is None:
        chk.bad('%s.%s' % (cls, name), '%s.%s, which the client needs, is gone' % (cls, name), ROOT[1:])
    return c, m


# ============================================================= D07

def upper(name):
    return ''.join(x[:1].upper() + x[1:] for x in name.split('_') if x)


def ctype(t):
    if t[0] == 'param':
        return Type(t[1])
    if t[0] == 'prim':
        return Type(t[2])
    return Type(t[2] or t[1], [ctype(a) for a in t[3]])


def d07(chk):
    chk.rule('every type of the runtime whose metadata is published to clients without being generated has a hand-written class of that name '
             'and arity in the client')
    chk.rule('for LogEntry and Maybe, evaluated tag by tag: the class has a property of the right name and type for every field, returns '
             'its wire type, its nested state, and replaces it from the right reader; every variant has its tag; unknown tags are skipped')
    classes = client(chk)
    metas = r_meta.Meta(chk)
    for m in metas.all:
        if m['prog'].crate != 'steit' or m['TYPE'] is None or '::test' in str(m.get('TYPE.at')):
            continue
        guarded(chk, m['own'], published, chk, classes, m)
    chk.floor('built-in types', 7)
    chk.floor('fields', 8)
    chk.floor('variants', 6)


def published(chk, classes, m):
    t = r_meta.type_tree(m['TYPE'])
    if t[0] != 'ref' or t[2] is None and not builtin(m):
        return
    name = t[2] or t[1]
    if name == 'Box':
        return
    msg = message_of(m)
    if msg is not None and not msg[1]['builtin']:
        return
    c = klass(classes, name)
    n = len(t[3])
    chk.count('built-in types')
    if c is None:
        if not classes:
            return chk.unknown(name, 'no classes')
        return chk.bad('class ' + name, '%s is published to clients as %s; the client has no such class' % (m['own'], name), ROOT[1:])
    chk.that(len(c.tparams) == n, 'arity of ' + name, '%s is published to clients as %s with %d type arguments; the class takes %d' % (
        m['own'], name, n, len(c.tparams)), '%s:%d' % (os.path.relpath(c.file, facts.REPO), c.line))
    # what generated code and the runtime rely on
    ds = [x for x in c.all('Deserialize') if x.kind == 'method' and 'static' in x.mods and len(x.params) == 2 and
          [p.type.name for p in x.params] == ['IReader', 'Path']]
    chk.that(len(ds) == 1, 'Deserialize of ' + name, '%s has no static Deserialize(IReader, Path)' % name, c.file)
    for i in need_interface(classes, 'IState'):
        chk.that(bool(c.all(i)), '%s.%s' % (name, i), '%s does not implement IState.%s' % (name, i), c.file)
    if msg is None:
        return
    kind, v = msg
    if kind == 'enum':
        variants(chk, classes, c, v)
    else:
        fields(chk, classes, c, v)


def builtin(m):
    msg = message_of(m)
    return msg is not None and msg[1]['builtin']


def message_of(m):
    try:
        r = r_meta.message_of(m)
    except r_meta.Odd:
        return None
    return r


def need_interface(classes, name):
    c = klass(classes, name)
    return [m.name for m in c.members] if c else []


def sized(classes):
    c = klass(classes, 'WireType')
    ip = csi.Interp(classes)
    return {n: const(ip.enum_value(c, n)) for n, _ in c.values}


def one_value(outs):
    vs = [v for v, s in outs]
    return vs[0] if len(vs) == 1 else None


def unused_tag(tags):
    return next(i for i in range(0, 100) if i not in tags)


def fields(chk, classes, c, meta):
    tags = [f['tag'] for f in meta['fields']]
    wt = sized(classes)
    this = S(THIS, Type(c.name, [Type(p) for p in c.tparams]))
    gw, gn, ra = meth(c, 'GetWireType', 1), meth(c, 'GetNested', 1), meth(c, 'ReplaceAt', 4)
    for n, m in (('GetWireType', gw), ('GetNested', gn), ('ReplaceAt', ra)):
        if m is None:
            return chk.bad('%s.%s' % (c.name, n), '%s.%s is gone' % (c.name, n), c.file)
    seen = {}
    for f in meta['fields']:
        chk.count('fields')
        # the property that holds the field: the one it is replaced in, whatever its name
        prop = replaced(chk, classes, c, ra, f, this)
        ty = ctype(f['ty'])
        ps = [x for x in c.all(prop) if x.kind == 'property'] if prop else []
        what = '%s.%s' % (c.name, prop)
        if not ps:
            chk.bad('%s.%s' % (c.name, f['name'][0]), 'no property of %s holds field %s, tag %d' % (c.name, f['name'][0], f['tag']), c.file)
            continue
        if prop in seen:
            chk.bad(what + ':shared', 'tags %d and %d of %s share the property %s' % (seen[prop], f['tag'], c.name, prop), c.file)
        seen[prop] = f['tag']
        chk.that(str(ps[0].type) == str(ty), what + ':type', '%s is %s in the client; its type is %s' % (what, ps[0].type, ty), where(c, ps[0]))
        tag = num(f['tag'], 'uint')
        # wire type
        wire = f['ty'][3] if f['ty'][0] == 'prim' else 'Sized'
        ip, outs = go(chk, classes, c, gw, [tag], this)
        for v, s in outs:
            if f['ty'][0] == 'param':
                state, frame = type_facts(s.conds)
                if v[0] == 'n' and (state is not None or frame is not None):
                    # what is neither a state nor framed is a number; a parameter that must be a State is no text
                    chk.that(const(v) == wt.get('Sized' if state or frame else 'Varint'), what + ':wire',
                             '%s of a type that is %s is expected as wire type %s' % (
                                 what, 'a state' if state else 'framed' if frame else 'a number', show(v)), where(c, gw))
                else:
                    chk.unknown(what + ':wire', show(v))
            elif v == NULL or v[0] == 'n':
                chk.that(v != NULL and const(v) == wt.get(wire), what + ':wire', '%s is expected as wire type %s; Rust writes %s' % (
                    what, show(v), wire), where(c, gw))
            else:
                chk.unknown(what + ':wire', show(v))
        # nested state
        ip, outs = go(chk, classes, c, gn, [tag], this)
        for v, s in outs:
            own = v[0] == 's' and mentions(v[1], ('field', THIS, prop))
            if f['ty'][0] == 'prim':
                chk.that(v == NULL, what + ':nested', '%s, a primitive, is navigated into as %s' % (what, show(v)), where(c, gn))
            elif v == NULL or v[0] == 's':
                chk.that(own, what + ':nested', 'tag %d of %s leads to %s, not to %s' % (f['tag'], c.name, show(v), prop), where(c, gn))
            else:
                chk.unknown(what + ':nested', show(v))
        replace_field(chk, classes, c, ra, this, f, prop, ty, what)
        placed(chk, classes, c, f, prop, what)
    # a tag nobody has
    t = num(unused_tag(tags), 'uint')
    v = one_value(go(chk, classes, c, gw, [t], this)[1])
    chk.that(v == NULL, c.name + ':unknown:wire', '%s expects a wire type for tag %d, which no field has' % (c.name, const(t)), where(c, gw))
    v = one_value(go(chk, classes, c, gn, [t], this)[1])
    chk.that(v == NULL, c.name + ':unknown:nested', 'tag %d of %s, which no field has, leads to %s' % (const(t), c.name, show(v)), where(c, gn))
    ip, outs = go(chk, classes, c, ra, [t, S('wt', 'WireType'), READER, NOTIFY], this)
    for v, s in outs:
        a = acts(s.trace)
        if v[0] == '!':
            chk.bad(c.name + ':unknown:replace', 'replacing a tag %s does not have throws %s' % (c.name, v[1]), where(c, ra))
        elif any(e[0] == 'set' and e[1] == this for e in a):
            chk.bad(c.name + ':unknown:replace', 'replacing a tag %s does not have changes it' % c.name, where(c, ra))
        elif [e[2] for e in a] == ['SkipField'] and a[0][1] == READER and a[0][3] == (S('wt', 'WireType'),):
            chk.ok()
        elif not a:
            chk.bad(c.name + ':unknown:replace', 'a field %s does not have is not skipped' % c.name, where(c, ra))
        else:
            chk.unknown(c.name + ':unknown:replace', [e[2] for e in a])


def type_facts(conds):
    """what a path assumes of type parameters: is it a state, is its encoding framed"""
    state = [d for k, d in conds.items() if isinstance(k, tuple) and k[0] == 'state type']
    frame = [d for k, d in conds.items() if 'IsSized' in repr(k) and 'isnull' not in repr(k)]
    return (state[0] if state and len(set(state)) == 1 else None), (frame[0] if frame and len(set(frame)) == 1 else None)


def sized_test(chk, name):
    """whether StateFactory.<name>(typeof(T)) tells framed types apart: '' if so, None if unclear, or what is wrong"""
    classes = client(chk)
    c = klass(classes, 'StateFactory')
    m = c and meth(c, name, 1)
    if m is None:
        return 'StateFactory.%s does not exist' % name if c else None
    ip, outs = go(chk, classes, c, m, [('type', Type('T'))], tenv={})
    both = []
    for v, s in outs:
        if v[0] == 's' and isinstance(v[1], tuple) and v[1][0] == 'state type' and v[1] not in s.conds:
            for d in (True, False):             # the answer is the test itself
                z = s.copy()
                z.conds[v[1]] = d
                both.append((('b', d), z))
        else:
            both.append((v, s))
    for v, s in both:
        state, frame = type_facts(s.conds)
        if v[0] == '!':
            continue
        yes = True if v == TRUE else False if v == FALSE else None
        if yes is None and 'IsSized' in repr(v):        # the table's own answer
            if state is False:
                continue
            return None
        if yes is None or state is None and frame is None:
            return None
        if state is True and not yes:
            return 'StateFactory.%s takes the encoding of a state for a number' % name
        if state is False and frame is None:
            return 'StateFactory.%s does not look at whether a type that is no state, such as String, is framed: its values are skipped' % name
        if state is False and frame is not yes:
            return 'StateFactory.%s is %s for a primitive that is %sframed' % (name, yes, '' if frame else 'not ')
    return ''


def replaced(chk, classes, c, ra, f, this):
    sets = set()
    for v, s in go(chk, classes, c, ra, [num(f['tag'], 'uint'), S('wt', 'WireType'), READER, NOTIFY], this,
                   opaque={'Deserialize', 'StateFactory.Deserialize'})[1]:
        sets |= {e[2] for e in acts(s.trace) if e[0] == 'set' and e[1] == this}
    return next(iter(sets)) if len(sets) == 1 else None


def path_of(v, base, tag):
    """is this the path base.GetNested(tag)"""
    return v[0] == 's' and isinstance(v[1], tuple) and v[1][:2] == ('nest', base) and len(v[1]) == 3 and const(v[1][2]) == tag


def replace_field(chk, classes, c, ra, this, f, prop, ty, what):
    tag = num(f['tag'], 'uint')
    ip, outs = go(chk, classes, c, ra, [tag, S('wt', 'WireType'), READER, NOTIFY], this,
                  opaque={'Deserialize', 'StateFactory.Deserialize'})
    for v, s in outs:
        if v[0] == '!':
            chk.bad(what + ':replace', 'replacing %s throws %s' % (what, v[1]), where(c, ra))
            continue
        a = acts(s.trace)
        sets = [e for e in a if e[0] == 'set' and e[1] == this]
        reads = [e for e in a if e[0] == 'call']
        if len(sets) != 1 or sets[0][2] != prop:
            chk.bad(what + ':replace', 'replacing tag %d of %s sets %s' % (f['tag'], c.name, ', '.join(e[2] for e in sets) or 'nothing'), where(c, ra))
            continue
        if len(reads) != 1 or sets[0][3][1] != reads[0][4][1]:
            chk.unknown(what + ':replace', [e[2] for e in reads])
            continue
        e = reads[0]
        if f['ty'][0] == 'prim':
            good = e[1] == READER and e[2] == 'Read' + f['ty'][2] and not e[3]
        elif f['ty'][0] == 'param':
            good = e[2] == 'StateFactory.Deserialize<%s>' % ty and e[3] and e[3][0] == READER and (
                len(e[3]) == 3 and e[3][1][1] == ('field', THIS, 'Path') and const(e[3][2]) == f['tag'] or
                len(e[3]) == 2 and path_of(e[3][1], ('field', THIS, 'Path'), f['tag']))
        else:
            good = e[2] == '%s.Deserialize' % ty and len(e[3]) == 2 and e[3][0] == READER and \
                path_of(e[3][1], ('field', THIS, 'Path'), f['tag'])
        chk.that(good, what + ':replace', '%s, a %s, is replaced with %s(%s)' % (what, ty, e[2], ', '.join(map(show, e[3]))), where(c, ra))
        notice(chk, what, c, ra, s, (tag, sets[0][3][1], ('field', THIS, prop), THIS))


def notice(chk, what, c, m, s, want_):
    """listeners hear of a change when, and only when, they are meant to, and of the right one"""
    t = told(s.trace)
    want = s.conds.get('notify')
    heard = [d for k, d in s.conds.items() if isinstance(k, tuple) and k[0] == 'isnull' and 'On' in str(k)]
    if want is False:
        return chk.that(not t, what + ':quiet', 'listeners are told of a change of %s although they should not be' % what, where(c, m))
    if want is True and heard == [False]:
        if len(t) != 1:
            return chk.bad(what + ':told', 'listeners are told %d times of a change of %s' % (len(t), what), where(c, m))
        args = t[0][3][-1]
        if args[0] != 's' or args[1][0] != 'args':
            return chk.unknown(what + ':told', show(args))
        got = args[1][2:]
        if len(got) == len(want_):
            chk.that(got == want_, what + ':told', 'listeners are told of %s when %s changes' % (
                ', '.join(csi.showt(x) for x in got), what), where(c, m))
        i = next(n for n, e in enumerate(s.trace) if e[0] == 'call' and e[2] == 'Invoke')
        return chk.that(not any(e[0] == 'set' and e[1] == S(THIS)[:2] + e[1][2:] for e in s.trace[:i]), what + ':late',
                        'listeners are told of a change of %s that is already made' % what, where(c, m))
    handed = any(e[0] == 'call' and e[2] != 'Invoke' and mentions(e[3], 'notify') for e in s.trace)
    if want is None and heard == [False] and not handed:
        return chk.bad(what + ':told', 'listeners are %stold of a change of %s whether or not they should be' % ('' if t else 'not ', what), where(c, m))
    if want is True and not heard and not t and not handed:
        return chk.bad(what + ':told', 'listeners are never told of a change of %s' % what, where(c, m))
    chk.ok()


def variants(chk, classes, c, meta):
    wt = sized(classes)
    this = S(THIS, Type(c.name, [Type(p) for p in c.tparams]))
    gw, gn, ra = meth(c, 'GetWireType', 1), meth(c, 'GetNested', 1), meth(c, 'ReplaceAt', 4)
    for n, m in (('GetWireType', gw), ('GetNested', gn), ('ReplaceAt', ra)):
        if m is None:
            return chk.bad('%s.%s' % (c.name, n), '%s.%s is gone' % (c.name, n), c.file)
    tags = [t for v, t in meta['variants']]
    for v, tag in meta['variants']:
        chk.count('variants')
        name = v['name'][1] or v['name'][0]
        what = '%s.%s' % (c.name, name)
        inner = next((k for k in c.nested() if k.name == name), None)
        if inner is None:
            chk.bad(what, 'variant %s of %s has no class in the client' % (name, c.name), c.file)
            continue
        t = num(tag, 'uint')
        k = [x for x in c.all(upper(name) + 'Tag') if x.kind == 'const']
        if not k:
            chk.bad(what + ':constant', '%s has no constant %sTag' % (c.name, upper(name)), c.file)
        else:
            ip = csi.Interp(classes)
            st = csi.State()
            st.cls = c
            val = ip.get(k[0], None, st, c)[0][0]
            chk.that(const(val) == tag, what + ':constant', '%s.%sTag is %s; variant %s is tagged %d' % (c.name, upper(name), show(val), name, tag),
                     where(c, k[0]))
        for x, y in go(chk, classes, c, gw, [t], this)[1]:
            chk.that(x[0] == 'n' and const(x) == wt.get('Sized'), what + ':wire', 'variant %s of %s is expected as wire type %s' % (
                name, c.name, show(x)), where(c, gw))
        # navigation: into the current variant only
        for current in (tag, unused_tag(tags)):
            def get(ip, o, n, st, current=current):
                if o == this and n == 'Tag':
                    return [(num(current, 'uint'), st)]
                return None
            for x, y in go(chk, classes, c, gn, [t], this, get=get)[1]:
                if current == tag:
                    chk.that(x[0] == 's' and x[1] == ('field', THIS, 'Variant'), what + ':nested', 'tag %d of %s, its current variant, '
                             'leads to %s' % (tag, c.name, show(x)), where(c, gn))
                else:
                    chk.that(x == NULL, what + ':nested:other', 'tag %d of %s, which is not its current variant, leads to %s' % (
                        tag, c.name, show(x)), where(c, gn))
        # replacing
        ip, outs = go(chk, classes, c, ra, [t, S('wt', 'WireType'), READER, NOTIFY], this, opaque={'Deserialize', 'StateFactory.Deserialize'})
        for x, s in outs:
            if x[0] == '!':
                chk.bad(what + ':replace', 'switching %s to %s throws %s' % (c.name, name, x[1]), where(c, ra))
                continue
            a = acts(s.trace)
            sets = {e[2]: e[3] for e in a if e[0] == 'set' and e[1] == this}
            calls = [e for e in a if e[0] == 'call']
            if len(calls) != 1:
                chk.unknown(what + ':replace', [e[2] for e in calls])
                continue
            e = calls[0]
            good = e[2] == '%s.Deserialize' % name and len(e[3]) == 2 and e[3][0] == READER and \
                path_of(e[3][1], ('field', THIS, 'Path'), tag)
            chk.that(good, what + ':replace', 'variant %d of %s is read with %s(%s)' % (tag, c.name, e[2], ', '.join(map(show, e[3]))), where(c, ra))
            chk.that(set(sets) == {'Tag', 'Variant'} and csi.const(sets['Tag']) == tag and sets['Variant'][1] == e[4][1], what + ':switch',
                     'switching %s to variant %d sets %s' % (c.name, tag, ', '.join('%s to %s' % (n, show(q)) for n, q in sets.items()) or
                                                            'nothing'), where(c, ra))
            if 'Variant' in sets:
                notice(chk, what, c, ra, s, (t, sets['Variant'][1], ('field', THIS, 'Tag'), ('field', THIS, 'Variant'), THIS))
        construction(chk, classes, c, name, tag, what)
        fields(chk, classes, inner, v)
    t = num(unused_tag(tags), 'uint')
    v = one_value(go(chk, classes, c, gw, [t], this)[1])
    chk.that(v == NULL, c.name + ':unknown:wire', '%s expects a wire type for tag %d, which no variant has' % (c.name, const(t)), where(c, gw))


def no_type(conds):
    """the path of a type argument that is neither a state nor a primitive, which no published type has"""
    return any(isinstance(k, tuple) and k[0] == 'isnull' and 'Deserializers' in repr(k) and d for k, d in conds.items())


def construction(chk, classes, c, name, tag, what):
    """a value made for a variant is of it, and its parts know where they are"""
    t = num(tag, 'uint')
    makers = [(m, (PATH, t)) for m in c.members if getattr(m, 'kind', '') == 'ctor' and len(m.params) == 2]
    makers += [(m, (PATH,)) for m in c.all('New' + upper(name)) if m.kind == 'method' and len(m.params) == 1]
    if len(makers) < 2:
        chk.bad(what + ':factory', '%s has no factory New%s' % (c.name, upper(name)), c.file)
    for m, args in makers:
        ip = csi.Interp(classes, hooks({'StateFactory.Construct'}))
        st = csi.State()
        st.conds[('isnull', 'path')] = False
        st.tenv = {p: Type(p) for p in c.tparams}
        if m.kind == 'ctor':
            outs = ip.construct(c, Type(c.name, [Type(p) for p in c.tparams]), args, st)
        else:
            outs = ip.invoke(m, NULL, c, args, (), st, {p: Type(p) for p in c.tparams}, ())
        saw(chk, ip, outs)
        for o, s in outs:
            if o[0] == '!' and no_type(s.conds):
                continue
            if o[0] != 'o':
                if o[0] == '!':
                    chk.bad(what + ':construct', 'constructing variant %d of %s throws %s' % (tag, c.name, o[1]), where(c, m))
                else:
                    chk.unknown(what + ':construct', show(o))
                continue
            h = s.heap[o[1]]
            var = h.get('Variant')
            chk.that(const(h.get('Tag', num(-1))) == tag and var is not None and var[0] == 'o' and s.heap[var[1]]['#'].name == name,
                     what + ':construct', 'constructing %s for variant %d makes one with tag %s and a %s' % (
                         c.name, tag, show(h.get('Tag', NULL)), s.heap[var[1]]['#'] if var and var[0] == 'o' else show(var or NULL)), where(c, m))
            chk.that(h.get('Path') == PATH, what + ':construct:path', 'a %s made at a path is at %s' % (c.name, show(h.get('Path', NULL))), where(c, m))
            if var and var[0] == 'o':
                p = s.heap[var[1]].get('Path', NULL)
                chk.that(path_of(p, 'path', tag), what + ':construct:path', 'variant %d of a new %s is at %s' % (tag, c.name, show(p)), where(c, m))


def placed(chk, classes, c, f, prop, what):
    """a new value's state field is at the field's tag"""
    for m in c.members:
        if getattr(m, 'kind', '') != 'ctor' or len(m.params) != 1 or 'static' in m.mods:
            continue
        ip = csi.Interp(classes, hooks({'StateFactory.Construct'}))
        st = csi.State()
        st.conds[('isnull', 'path')] = False
        st.tenv = {p: Type(p) for p in c.tparams}
        outs = ip.construct(c, Type(c.name, [Type(p) for p in c.tparams]), (PATH,), st)
        saw(chk, ip, outs)
        for o, s in outs:
            if o[0] != 'o':
                if not no_type(s.conds):
                    chk.bad(what + ':new', 'constructing %s throws %s' % (c.name, o[1]), where(c, m))
                continue
            v = s.heap[o[1]].get(prop)
            if f['ty'][0] == 'prim':
                continue
            if v is None or v == NULL:
                chk.bad(what + ':new', 'a new %s has no %s, which is a state' % (c.name, prop), where(c, m))
            elif v[0] == 'o':
                p = s.heap[v[1]].get('Path', NULL)
                chk.that(path_of(p, 'path', f['tag']), what + ':new', '%s of a new %s is at %s' % (prop, c.name, show(p)), where(c, m))
            else:
                made = [e for e in s.trace if e[0] == 'call' and e[4][1] == v[1]]
                if len(made) == 1 and made[0][3]:
                    p = made[0][3][-1]
                    chk.that(path_of(p, 'path', f['tag']), what + ':new', '%s of a new %s is at %s' % (prop, c.name, show(p)), where(c, m))
                else:
                    chk.unknown(what + ':new', show(v))


# ============================================================= D08

def d08(chk):
    chk.rule('State.Replace: an enum reads its variant tag and replaces that variant from the rest; anything else reads fields until the end, '
             'each one either replaced exactly once, under its own tag and from its own bytes, or - if its wire type is not the expected one '
             '- skipped whole')
    chk.rule('StateReplayer: every entry of a log is applied once, in order, to the state its path names: an update replaces the last element '
             'of the path in the state the rest leads to, or the root when the path is empty; pushes, pops and removals go to that state')
    chk.rule('StateList, StateMap, Vector, Option, Bytes and StateFactory: on every path, exactly the change asked for, at the tag asked for, '
             'with the value read from the given bytes at the nested path; or an exception')
    classes = client(chk)
    for f in (replace, navigate, replay_all, replay_one, lists, maps, readers, factory, paths):
        guarded(chk, f.__name__, f, chk, classes)
    chk.floor('field paths', 4)
    chk.floor('log entries', 4)
    chk.floor('container operations', 10)


def replace(chk, classes):
    c, m = find(chk, classes, 'State', 'Replace', 3)
    if m is None:
        return
    wt = sized(classes)
    state = S('state', 'IState')
    ip, outs = go(chk, classes, c, m, [state, READER, NOTIFY])
    enum = ('is', 'state', 'IEnumState')
    for v, s in outs:
        if enum not in s.conds:
            chk.unknown('State.Replace', 'is it an enum')
            continue
        if not s.conds[enum]:
            continue
        chk.count('field paths')
        a = acts(s.trace)
        if v[0] == '!':
            chk.bad('State.Replace:enum', 'replacing an enum throws ' + v[1], where(c, m))
        elif [e[2] for e in a] != ['ReadUInt32', 'ReplaceAt']:
            if all(e[0] == 'call' and e[2] in ('ReadUInt32', 'ReplaceAt') for e in a):
                chk.bad('State.Replace:enum', 'replacing an enum is %s' % (', '.join(e[2] for e in a) or 'nothing'), where(c, m))
            else:
                chk.unknown('State.Replace:enum', [e[2] for e in a if e[0] == 'call'])
        else:
            x = a[1]
            chk.that(a[0][1] == READER and x[1] == state and x[3][0][1] == a[0][4][1] and const(x[3][1]) == wt.get('Sized') and
                     x[3][2] == READER and x[3][3] == NOTIFY, 'State.Replace:enum',
                     'replacing an enum calls ReplaceAt(%s)' % ', '.join(map(show, x[3])), where(c, m))
    loops = [e for v, s in outs for e in s.trace if e[0] == 'loop' and s.conds.get(enum) is False]
    if not loops:
        for v, s in outs:
            a = [e[2] for e in s.trace if e[0] == 'call']
            if s.conds.get(enum) is False and 'ReadKey' in a and set(a) <= {
                    'EndOfStream', 'Remaining', 'ReadKey', 'GetWireType', 'GetNested', 'ReplaceAt', 'SkipField'}:
                return chk.bad('State.Replace:all', 'only as many fields are read as the code names (%s)' % ', '.join(a), where(c, m))
        return chk.unknown('State.Replace', 'no loop over the fields')
    seen = set()
    for lp in loops:
        for k, v, conds, tr, fin in lp[3]:
            sig = repr((k, sorted(map(repr, conds.items())), tr))
            if sig in seen:
                continue
            seen.add(sig)
            field_path(chk, c, m, state, wt, k, v, conds, tr)


def field_path(chk, c, m, state, wt, k, v, conds, tr):
    chk.count('field paths')
    a = acts(tr)
    names = [e[2] if e[0] == 'call' else e[0] for e in a]
    at = where(c, m)
    if k not in ('exit', 'next'):
        return chk.bad('State.Replace:early', 'reading a field can end with %s' % (v or k), at)
    if not loop_ends(chk, 'State.Replace', k, a, conds, at):
        return
    names = testing(names)
    if names[:2] != ['EndOfStream', 'ReadKey']:
        return chk.unknown('State.Replace', names)
    key = a[1][4]
    tag, w = ('item', key[1], 0), ('item', key[1], 1)
    framed = None
    for q, d in conds.items():
        if q == ('eq',) + tuple(sorted([w, num(wt.get('Sized', 2))], key=repr)):
            framed = d
        if q == ('eq',) + tuple(sorted([w, num(wt.get('Varint', 0))], key=repr)):
            framed = not d
    if framed is None:
        return chk.unknown('State.Replace', 'which wire type')
    rest = a[2:]
    gw = [e for e in rest if e[2] == 'GetWireType']
    nest = [e for e in rest if e[2] == 'GetNested' and e[1] == READER]
    put = [e for e in rest if e[2] == 'ReplaceAt']
    skips = [e for e in rest if e[2] in ('SkipField', 'SkipToEnd', 'ReadBoolean', 'ReadUnsignedVarint')]
    if len(gw) + len(nest) + len(put) + len(skips) != len(rest):
        return chk.unknown('State.Replace', names)
    mismatch = None
    for e in gw:
        if e[1] != state or e[3][0][1] != tag:
            return chk.bad('State.Replace:expected', 'the wire type expected is that of %s, not of the field' % show(e[3][0]), at)
        x = e[4][1]
        null = conds.get(('isnull', x))
        same = conds.get(('eq',) + tuple(sorted([w, x], key=repr)))
        mismatch = False if null else (None if same is None else not same)
    what = 'a %s field' % ('framed' if framed else 'number')
    if len(nest) != int(framed):
        return chk.bad('State.Replace:frame', '%s is %sread as a framed message' % (what, '' if nest else 'not '), at)
    fr = nest[0][4][1] if nest else 'reader'
    if mismatch:
        if not put and any(conds.get(('isnull', e[4][1])) is None and sum(mentions(q, e[4][1]) for q in conds) == 1 for e in gw):
            return chk.bad('State.Replace:unasked', '%s is skipped where no wire type is expected' % what, at)
        if framed and any(x[1][1] == 'reader' for x in skips):
            return chk.bad('State.Replace:skip', 'bytes after %s of a wire type other than the expected one are skipped' % what, at)
        if put:
            return chk.bad('State.Replace:mismatch', '%s of a wire type other than the expected one is taken' % what, at)
        if not framed and (len(skips) != 1 or skips[0][1][1] != 'reader' or skips[0][2] == 'SkipToEnd' or
                           skips[0][2] == 'SkipField' and skips[0][3][0][1] != w):
            return chk.bad('State.Replace:skip', '%s of a wire type other than the expected one is not skipped' % what, at)
        return chk.ok()
    if skips:
        if mismatch is None:
            return chk.unknown('State.Replace', 'whether the wire type is the expected one')
        return chk.bad('State.Replace:skipped', '%s of the expected wire type is skipped' % what, at)
    if len(put) != 1:
        return chk.bad('State.Replace:once', '%s is replaced %d times' % (what, len(put)), at)
    e = put[0]
    chk.that(e[1] == state and e[3][0][1] == tag and e[3][1][1] == w and e[3][2][1] == fr and e[3][3] == NOTIFY, 'State.Replace:field',
             '%s is replaced with ReplaceAt(%s)' % (what, ', '.join(map(show, e[3]))), at)


def navigate(chk, classes):
    c, m = find(chk, classes, 'State', 'GetNested', 2)
    if m is None:
        return
    path = S('tags', Type('IEnumerable', [Type('UInt32')]))
    root = S('root', 'IState')
    ip, outs = go(chk, classes, c, m, [root, path])
    for v, s in outs:
        each = [e for e in s.trace if e[0] == 'each']
        if v[0] == '!' or len(each) != 1 or each[0][2] != path:
            chk.unknown('State.GetNested', show(v) if v[0] != '!' else v[1])
            continue
        e = each[0]
        var = [n for n, x in e[3].items() if x == root]
        if len(var) != 1 or v[1] != ('after', var[0], e[1]):
            chk.unknown('State.GetNested', show(v))
            continue
        for k, w, conds, tr, fin in e[4]:
            cur = ('var', var[0], e[1])
            null = conds.get(('isnull', cur))
            a = acts(tr)
            end = fin[var[0]]
            if k != 'next':
                chk.bad('State.GetNested', 'following a path can end early (%s)' % (w or k), where(c, m))
            elif null:
                chk.that(end == NULL or end[0] == 's' and end[1] == cur, 'State.GetNested:null', 'a path through nothing leads to %s' % show(end), where(c, m))
            else:
                good = len(a) == 1 and a[0][2] == 'GetNested' and a[0][1][1] == cur and a[0][3][0][1] == ('elem', 'tags', e[1]) and end[1] == a[0][4][1]
                if not good and len(a) == 1 and a[0][2] == 'GetNested':
                    chk.bad('State.GetNested', 'a step of a path leads to %s' % show(end), where(c, m))
                elif not good:
                    chk.unknown('State.GetNested', show(end))
                else:
                    chk.ok()


def replay_all(chk, classes):
    c = klass(classes, 'StateReplayer')
    m = c and next((x for x in c.all('Replay') if len(x.params) == 2 and x.params[1].type.name == 'IReader'), None)
    if m is None:
        return chk.bad('StateReplayer.Replay', 'StateReplayer.Replay(ref T, IReader) is gone', ROOT[1:])
    ip, outs = go(chk, classes, c, m, [S('root', 'T'), READER], tenv={'T': Type('T')},
                  opaque={'Deserialize', 'StateReplayer.Replay'})
    lps = [e for v, s in outs for e in s.trace if e[0] == 'loop']
    if not lps:
        return chk.unknown('StateReplayer.Replay', 'no loop over the entries')
    for k, v, conds, tr, fin in lps[0][3]:
        a = acts(tr)
        names = [e[2] for e in a]
        if k not in ('exit', 'next'):
            chk.bad('StateReplayer.Replay:early', 'replaying can end before the log does (%s)' % (v or k), where(c, m))
            continue
        if not loop_ends(chk, 'StateReplayer.Replay', k, a, conds, where(c, m)):
            continue
        names = testing(names)
        if [n.partition('<')[0] for n in names] != ['EndOfStream', 'GetNested', 'LogEntry.Deserialize', 'StateReplayer.Replay']:
            known = {'EndOfStream', 'GetNested', 'LogEntry.Deserialize', 'StateReplayer.Replay'}
            if {n.partition('<')[0] for n in names} <= known:
                chk.bad('StateReplayer.Replay', 'an entry of a log is read and applied as %s' % ', '.join(names[1:]), where(c, m))
            else:
                chk.unknown('StateReplayer.Replay', names)
            continue
        good = a[1][1] == READER and a[2][3][0][1] == a[1][4][1] and a[3][3][1][1] == a[2][4][1]
        chk.that(good, 'StateReplayer.Replay', 'the entry applied is not the one read', where(c, m))


def log_variants():
    m = [x for x in r_meta.Meta(Check('-')).all if x['head'] == 'LogEntry' and x['prog'].crate == 'steit']
    return {v['name'][1] or v['name'][0]: (t, v) for v, t in message_of(m[0])[1]['variants']} if m else {}


def replay_one(chk, classes):
    c = klass(classes, 'StateReplayer')
    m = c and next((x for x in c.all('Replay') if len(x.params) == 2 and x.params[1].type.name == 'LogEntry'), None)
    if m is None:
        return chk.bad('StateReplayer.Replay', 'StateReplayer.Replay(ref T, LogEntry) is gone', ROOT[1:])
    vs = log_variants()
    known = {'Update', 'ListPush', 'ListPop', 'MapRemove'}
    for name in sorted(set(vs) | known):
        if name not in vs or name not in known:
            chk.bad('LogEntry.' + name, 'log entries of kind %s are %s' % (name, 'not written any more' if name not in vs else 'not known to this analysis'),
                    'steit/src/log/entry.rs')
            continue
        guarded(chk, 'replay of ' + name, replay_kind, chk, classes, c, m, name, vs[name][0])


def replay_kind(chk, classes, c, m, name, tag):
    chk.count('log entries')
    entry = S('entry', 'LogEntry')
    root = S('root', 'T')
    at = where(c, m)
    flat = ('field', ('as', ('field', 'entry', 'Variant'), name), 'FlattenPath')

    def get(ip, o, n, st):
        if o == entry and n == 'Tag':
            return [(num(tag, 'uint'), st)]
        return None
    ip, outs = go(chk, classes, c, m, [root, entry], tenv={'T': Type('T')}, refs=((0, ('name', 0, 'out')),), env={'out': root}, get=get,
                  opaque={'State.GetNested', 'StateFactory.Deserialize'})
    for v, s in outs:
        a = acts(s.trace)
        names = [e[2] for e in a]
        if v[0] == '!':
            if v[1] == 'NullReferenceException' or any(k[0] == 'isnull' and d for k, d in s.conds.items() if isinstance(k, tuple)):
                continue
            chk.bad('replay:' + name, 'replaying a %s throws %s' % (name, v[1]), at)
            continue
        val = s.env['out']
        more = s.conds.get(('lt', ('count', flat), 1))
        if name == 'Update' and more is None:
            chk.unknown('replay:Update', 'whether the path is empty')
            continue
        field = lambda f: ('field', ('as', ('field', 'entry', 'Variant'), name), f)  # noqa
        if name == 'Update' and more:
            # the root
            if names != ['StateFactory.Deserialize<T>']:
                if names and any(n not in ('State.GetNested', 'ReplaceAt', 'GetWireType') for n in names):
                    chk.unknown('replay:Update:root', names)
                else:
                    chk.bad('replay:Update:root', 'an update with an empty path does not replace the root', at)
                continue
            e = a[0]
            chk.that(e[3][0][1] == ('over', field('Value')) and val[1] == e[4][1], 'replay:Update:root',
                     'an update with an empty path sets the root to %s from %s' % (show(val), show(e[3][0])), at)
            chk.that(len(e[3]) == 2 and e[3][1][1] == ('field', 'root', 'Path'), 'replay:Update:root:path', 'the new root does not keep the path', at)
            continue
        if val != root:
            chk.bad('replay:%s:root' % name, 'replaying a %s with a path replaces the root' % name, at)
            continue
        if not names or names[0] != 'State.GetNested':
            chk.unknown('replay:' + name, names)
            continue
        e = a[0]
        cont = e[4][1]
        drop = 1 if name == 'Update' else 0
        seq = e[3][1][1] if e[3][1][0] == 's' else None
        if seq == flat:
            seq = ('seq', flat, 0, ())
        if not (e[3][0][1] == 'root' and isinstance(seq, tuple) and seq[0] == 'seq'):
            chk.unknown('replay:' + name, 'the path followed: ' + show(e[3][1]))
            continue
        if seq != ('seq', flat, drop, ()):
            chk.bad('replay:%s:path' % name, 'a %s is applied to the state at %s' % (name, show(e[3][1])), at)
            continue
        if s.conds.get(('isnull', cont)):
            chk.that(len(a) == 1, 'replay:%s:nothing' % name, 'a %s of a path that leads nowhere is applied' % name, at)
            continue
        rest = a[1:]
        if name == 'Update':
            last = ('at', flat, ('add', ('count', flat), -1))
            if rest and rest[0][2] == 'GetWireType':
                g = rest.pop(0)
                if g[3][0][1] != last:
                    chk.bad('replay:Update:wire', 'the wire type asked for is that of %s' % show(g[3][0]), at)
                    continue
                if s.conds.get(('isnull', g[4][1])):
                    chk.that(not rest, 'replay:Update:unknown', 'an update of an unknown field is applied', at)
                    continue
            want = ('ReplaceAt', last, ('over', field('Value')))
            if len(rest) != 1 or rest[0][2] != 'ReplaceAt':
                done(chk, name, rest, at)
                continue
            x = rest[0]
            chk.that(x[1][1] == cont and x[3][0][1] == last and x[3][2][1] == want[2], 'replay:Update',
                     'an update replaces %s from %s' % (show(x[3][0]), show(x[3][2])), at)
            chk.that(x[3][3] == TRUE, 'replay:Update:told', 'listeners are not told of an update that is replayed', at)
            continue
        want = {'ListPush': ('ReplayListPush', [('over', field('Item'))]), 'ListPop': ('ReplayListPop', []),
                'MapRemove': ('ReplayMapRemove', [field('Key')])}[name]
        if len(rest) != 1 or rest[0][2] != want[0]:
            done(chk, name, rest, at)
            continue
        chk.that(rest[0][1][1] == cont and [x[1] for x in rest[0][3]] == want[1], 'replay:' + name, 'a %s is applied as %s(%s)' % (
            name, want[0], ', '.join(map(show, rest[0][3]))), at)


def done(chk, name, rest, at):
    names = [e[2] for e in rest]
    if set(names) <= {'ReplaceAt', 'ReplayListPush', 'ReplayListPop', 'ReplayMapRemove', 'GetWireType'}:
        chk.bad('replay:' + name, 'a %s is applied as %s' % (name, ', '.join(names) or 'nothing'), at)
    else:
        chk.unknown('replay:' + name, names)


TAG = S('tag', 'UInt32')
ITEMS = ('field', THIS, 'Items')
DICT = ('field', THIS, 'Dictionary')
FACTORY = {'StateFactory.Deserialize', 'StateFactory.ValidateType', 'StateFactory.DeserializeNested', 'StateFactory.IsStateType'}


def container(chk, classes, cls, name, n, args, opaque=FACTORY):
    c, m = find(chk, classes, cls, name, n)
    if m is None:
        return None
    this = S(THIS, Type(cls, [Type(p) for p in c.tparams]))
    ip, outs = go(chk, classes, c, m, args, this, opaque=opaque)
    for v, s in outs:
        s.conds = {own(k): d for k, d in s.conds.items()}
        s.trace = own(s.trace)
    outs = [(own(v), s) for v, s in outs]
    chk.count('container operations')
    return c, m, outs


def own(t):
    """elements of this.Items and this.Dictionary are those of this"""
    if not isinstance(t, tuple):
        return t
    if len(t) == 3 and t[0] in ('at', 'has') and t[1] in (ITEMS, DICT):
        return (t[0], THIS, own(t[2]))
    if t in (('count', ITEMS), ('count', DICT), ('field', ITEMS, 'Count'), ('field', DICT, 'Count')):
        return ('field', THIS, 'Count')
    return tuple(own(x) for x in t)


def changes(trace):
    """what a path does to the contents: setindex on, and calls of, Items or Dictionary"""
    out, other = [], []
    for e in acts(trace):
        if e[0] == 'setindex' and e[1][0] == 's' and e[1][1] in (ITEMS, DICT, THIS):
            out.append(('put', csi_t(e[2]), csi_t(e[3])))
        elif e[0] == 'call' and e[1][0] == 's' and e[1][1] in (ITEMS, DICT):
            out.append((e[2],) + tuple(csi_t(x) for x in e[3]))
        elif e[0] == 'call' and e[2].startswith('StateFactory.'):
            other.append(e)
        else:
            out.append(('?', e[0] if e[0] != 'call' else e[2]))
    return out, other


def csi_t(v):
    return v[1] if v[0] == 's' else v


def value_read(e, tag):
    """the call reads T from the given bytes at the nested path of `tag`"""
    if not e[2].startswith('StateFactory.Deserialize<T>') or e[3][0] != READER:
        return False
    p = ('field', THIS, 'Path')
    return len(e[3]) == 3 and e[3][1][1] == p and csi_t(e[3][2]) == tag or len(e[3]) == 2 and e[3][1][1] == ('nest', p, tag)


def operate(chk, what, c, m, outs, want, fails, tag=None):
    """want(value) -> the one change expected; fails(conds) -> must throw (True), must not (False), or None"""
    some = False
    for v, s in outs:
        f = fails(s.conds)
        ch, other = changes(s.trace)
        if v[0] == '!':
            if f is False:
                chk.bad(what + ':throws', '%s throws %s' % (what, v[1]), where(c, m))
            elif ch and ch[0][0] != '?':
                chk.bad(what + ':partly', '%s changes the contents and then throws' % what, where(c, m))
            else:
                chk.ok()
            continue
        if f is True:
            chk.bad(what + ':refuse', '%s does not refuse what is not there' % what, where(c, m))
            continue
        if any(x[0] == '?' for x in ch):
            chk.unknown(what, ch)
            continue
        val = None
        if tag is not None:
            if len(other) != 1:
                chk.unknown(what, [e[2] for e in other])
                continue
            if not value_read(other[0], tag):
                chk.bad(what + ':value', '%s reads its value as %s(%s)' % (what, other[0][2], ', '.join(map(show, other[0][3]))), where(c, m))
                continue
            val = other[0][4][1]
        w = want(val)
        some = True
        chk.that(ch == [w], what, '%s does %s' % (what, '; '.join('%s(%s)' % (x[0], ', '.join(csi.showt(y) for y in x[1:])) for x in ch) or
                                              'nothing'), where(c, m))
    if not some:
        chk.unknown(what, 'no path that succeeds')


def listen(chk, what, c, m, outs, want):
    """what listeners are told: want(conds, state) -> (event, arguments)"""
    for v, s in outs:
        if v[0] == '!':
            continue
        t = told(s.trace)
        silent = s.conds.get('notify') is False
        heard = [k for k, d in s.conds.items() if isinstance(k, tuple) and k[0] == 'isnull' and k[1][0] == 'field' and
                 str(k[1][2]).startswith('On') and not d]
        if silent or not heard:
            chk.that(not t, what + ':quiet', '%s tells listeners although it should not' % what, where(c, m))
            continue
        ev, args = want(s)
        if len(t) != 1:
            chk.bad(what + ':told', '%s tells listeners %d times' % (what, len(t)), where(c, m))
            continue
        got = t[0][3][-1]
        if got[0] != 's' or got[1][0] != 'args':
            chk.unknown(what + ':told', show(got))
            continue
        name = t[0][1][1][2] if t[0][1][0] == 's' and t[0][1][1][0] == 'field' else '?'
        chk.that(name == ev and got[1][2:] == args, what + ':told', '%s tells %s of %s' % (
            what, name, ', '.join(csi.showt(x) for x in got[1][2:])), where(c, m))


def element_wire(chk, classes, cls):
    """the wire type a collection expects of an element"""
    r = container(chk, classes, cls, 'GetWireType', 1, [TAG], ())
    if r is None:
        return
    c, m, outs = r
    wt = sized(classes)
    for v, s in outs:
        state, frame = type_facts(s.conds)
        got = const(v) if v[0] == 'n' else None
        if v[0] == '!' or v == NULL:
            chk.bad(cls + '.GetWireType', '%s.GetWireType is %s: updates of its elements are not applied' % (cls, 'null' if v == NULL else v[1]), where(c, m))
        elif got is None or state is None and not frame:
            chk.unknown(cls + '.GetWireType', show(v))
        else:
            want = 'Sized' if state or frame else 'Varint'
            chk.that(got == wt.get(want), cls + '.GetWireType', '%s.GetWireType is %s for elements that are %sframed' % (
                cls, show(v), '' if want == 'Sized' else 'not '), where(c, m))


def lists(chk, classes):
    element_wire(chk, classes, 'StateList')
    cnt = ('field', THIS, 'Count')
    r = container(chk, classes, 'StateList', 'GetNested', 1, [TAG])
    if r:
        c, m, outs = r
        getter(chk, 'StateList.GetNested', c, m, outs, lambda cs: cs.get(('lt', 'tag', cnt)))
    r = container(chk, classes, 'StateList', 'ReplaceAt', 4, [TAG, S('wt', 'WireType'), READER, NOTIFY])
    if r:
        c, m, outs = r
        operate(chk, 'StateList.ReplaceAt', c, m, outs, lambda v: ('put', 'tag', v),
                lambda cs: None if cs.get(('lt', 'tag', cnt)) is None else not cs[('lt', 'tag', cnt)], 'tag')
        listen(chk, 'StateList.ReplaceAt', c, m, outs, lambda s: ('OnUpdate', ('tag', value_of(s), ('at', THIS, 'tag'), THIS)))
    r = container(chk, classes, 'StateList', 'ReplayListPush', 1, [READER])
    if r:
        c, m, outs = r
        operate(chk, 'StateList.ReplayListPush', c, m, outs, lambda v: ('Add', v), lambda cs: False, cnt)
        listen(chk, 'StateList.ReplayListPush', c, m, outs, lambda s: ('OnPush', (cnt, value_of(s), THIS)))
    r = container(chk, classes, 'StateList', 'ReplayListPop', 0, [])
    if r:
        c, m, outs = r
        last_ = ('add', cnt, -1)
        operate(chk, 'StateList.ReplayListPop', c, m, outs, lambda v: ('RemoveAt', last_), lambda cs: cs.get(('lt', cnt, 1)))
        listen(chk, 'StateList.ReplayListPop', c, m, outs, lambda s: ('OnPop', (last_, ('at', THIS, last_), THIS)))
    for cls, names in (('StateList', [('ReplayMapRemove', [TAG])]), ('StateMap', [('ReplayListPush', [READER]), ('ReplayListPop', [])])):
        for name, args in names:
            r = container(chk, classes, cls, name, len(args), args)
            if r:
                c, m, outs = r
                for v, s in outs:
                    chk.that(v[0] == '!', '%s.%s' % (cls, name), '%s.%s does not refuse' % (cls, name), where(c, m))


def value_of(s):
    e = [x for x in s.trace if x[0] == 'call' and x[2].startswith('StateFactory.Deserialize<')]
    return e[0][4][1] if e else None


def getter(chk, what, c, m, outs, inside):
    for v, s in outs:
        i = inside(s.conds)
        if v[0] == '!':
            chk.bad(what, '%s throws %s' % (what, v[1]), where(c, m))
        elif i is None:
            if v[0] == 's' and v[1] in (('as', ('at', THIS, 'tag'), 'IState'), ('at', THIS, 'tag')) and beyond(s.conds):
                chk.bad(what, '%s looks at the element after the last' % what, where(c, m))
            else:
                chk.unknown(what, 'whether the element exists')
        elif i:
            good = v[0] == 's' and v[1] in (('as', ('at', THIS, 'tag'), 'IState'), ('at', THIS, 'tag'))
            if good:
                chk.ok()
            elif v == NULL or v[0] == 's' and definite_(v[1]):
                chk.bad(what, '%s of an element leads to %s' % (what, show(v)), where(c, m))
            else:
                chk.unknown(what, show(v))
        else:
            chk.that(v == NULL, what + ':missing', '%s of what is not there leads to %s' % (what, show(v)), where(c, m))


def beyond(conds):
    """all that is known of the tag is an upper bound that lets the number of elements through"""
    cnt = ('field', THIS, 'Count')
    about = [(k, d) for k, d in conds.items() if mentions(k, 'tag')]
    for k, d in about:
        low, high = (('lt', 'tag', cnt), ('lt', cnt, 'tag'))
        if not (k == high and not d or k[0] == 'lt' and k[1] == 'tag' and d and isinstance(k[2], tuple) and k[2][:2] == ('add', cnt) and k[2][2] > 0):
            return False
    return bool(about)


def definite_(t):
    return not mentions(t, 'ret')


def maps(chk, classes):
    element_wire(chk, classes, 'StateMap')
    has = ('has', THIS, 'tag')
    r = container(chk, classes, 'StateMap', 'GetNested', 1, [TAG])
    if r:
        c, m, outs = r
        getter(chk, 'StateMap.GetNested', c, m, outs, lambda cs: cs.get(has))
    r = container(chk, classes, 'StateMap', 'ReplaceAt', 4, [TAG, S('wt', 'WireType'), READER, NOTIFY])
    if r:
        c, m, outs = r
        operate(chk, 'StateMap.ReplaceAt', c, m, outs, lambda v: ('put', 'tag', v), lambda cs: False, 'tag')
        listen(chk, 'StateMap.ReplaceAt', c, m, outs, lambda s: (
            ('OnUpdate', ('tag', value_of(s), ('at', THIS, 'tag'), THIS)) if s.conds.get(has) else ('OnInsert', ('tag', value_of(s), THIS))))
    r = container(chk, classes, 'StateMap', 'ReplayMapRemove', 1, [TAG])
    if r:
        c, m, outs = r
        operate(chk, 'StateMap.ReplayMapRemove', c, m, outs, lambda v: ('Remove', 'tag'),
                lambda cs: None if has not in cs else not cs[has])
        listen(chk, 'StateMap.ReplayMapRemove', c, m, outs, lambda s: ('OnRemove', ('tag', ('at', THIS, 'tag'), THIS)))


def made_container(ip, ty, vs, st):
    r = hooks()['new'](ip, ty, vs, st)
    if r is not None:
        return r
    if ty.name in ('StateList', 'Vector', 'StateMap', 'Bytes', 'Dictionary'):
        return [(ip.new(st, ty, args=tuple(vs)), st)]
    return None


def readers(chk, classes):
    """Deserialize of the collections"""
    for cls in ('StateList', 'Vector', 'StateMap'):
        guarded(chk, cls + '.Deserialize', collection, chk, classes, cls)
    c, m = find(chk, classes, 'Bytes', 'Deserialize', 2)
    if m:
        ip, outs = go(chk, classes, c, m, [READER, PATH], new=made_container)
        chk.count('container operations')
        for v, s in outs:
            a = acts(s.trace)
            if v[0] == '!' or v[0] != 'o' or [e[2] for e in a] not in (['ReadToEnd'],):
                names = [e[2] if e[0] == 'call' else e[0] for e in a]
                if v[0] == 'o' and set(names) <= {'ReadSize', 'Read', 'GetNested', 'SkipToEnd'}:
                    chk.bad('Bytes.Deserialize', 'bytes are read as %s, not as all that remain' % (', '.join(names) or 'nothing'), where(c, m))
                else:
                    chk.unknown('Bytes.Deserialize', names)
            else:
                got = s.heap[v[1]]['args']
                chk.that(len(got) == 2 and got[0] == PATH and got[1][1] == a[0][4][1], 'Bytes.Deserialize',
                         'bytes are made from %s' % ', '.join(map(show, got)), where(c, m))
    c, m = find(chk, classes, 'Option', 'Deserialize', 2)
    if m:
        ip, outs = go(chk, classes, c, m, [READER, PATH], opaque={'StateFactory.DeserializeNested', 'StateFactory.Deserialize'},
                      conds={('isnull', 'path'): False})
        chk.count('container operations')
        for v, s in outs:
            a = acts(s.trace)
            end = at_end(a[0], s.conds) if a else None
            if v[0] != 'o' or end is None:
                chk.unknown('Option.Deserialize', show(v))
                continue
            if end == 'either':
                chk.bad('Option.Deserialize:end', 'whether an option has a value does not depend on there being bytes left', where(c, m))
                continue
            h = s.heap[v[1]]
            some = h.get('IsSome', FALSE)
            if end:
                chk.that(some == FALSE and len(a) == 1, 'Option.Deserialize:none', 'an option with no bytes is read as something', where(c, m))
            elif len(a) == 2 and a[1][2].startswith('StateFactory.Deserialize<T>') and a[1][3][0] == READER:
                chk.bad('Option.Deserialize:frame', 'the value of an option is read without its frame', where(c, m))
            elif len(a) != 2 or not a[1][2].startswith('StateFactory.DeserializeNested<T>'):
                chk.that(some == TRUE, 'Option.Deserialize:some', 'an option with a value is read as nothing', where(c, m))
            else:
                chk.that(some == TRUE and a[1][3][0] == READER and h.get('ValueOrDefault', NULL)[1:2] == a[1][4][1:2], 'Option.Deserialize:some',
                         'an option with a value is read as %s' % show(h.get('ValueOrDefault', NULL)), where(c, m))


def collection(chk, classes, cls):
    c, m = find(chk, classes, cls, 'Deserialize', 2)
    if m is None:
        return
    ip, outs = go(chk, classes, c, m, [READER, PATH], opaque={'StateFactory.DeserializeNested'}, new=made_container,
                  conds={('isnull', 'path'): False})
    chk.count('container operations')
    what = cls + '.Deserialize'
    at = where(c, m)
    for v, s in outs:
        lp = [e for e in s.trace if e[0] == 'loop']
        if v[0] == '!' or v[0] != 'o' or len(lp) != 1 or any(
                e[0] not in ('loop', 'last', 'call') and not (e[0] == 'set' and e[1][0] == 'o') for e in s.trace):
            chk.unknown(what, show(v) if v[0] != '!' else v[1])
            continue
        got = s.heap[v[1]]['args']
        if len(got) != 2 or got[0] != PATH or got[1][0] != 'o':
            chk.unknown(what, ', '.join(map(show, got)))
            continue
        items = got[1]
        # the counter: from nought, up by one
        for k, w, conds, tr, fin in lp[0][3]:
            a = acts(tr)
            names = [e[2] if e[0] == 'call' else e[0] for e in a]
            if k not in ('exit', 'next'):
                chk.bad(what + ':early', '%s can stop before the end (%s)' % (what, w or k), at)
                continue
            if not loop_ends(chk, what, k, a, conds, at):
                continue
            names = testing(names)
            if cls == 'StateMap':
                ok_ = names[:2] == ['EndOfStream', 'ReadKey'] and len(a) == 4 and a[2][2].startswith('ReadValue<T>') and a[3][0] == 'setindex'
                if not ok_:
                    if set(names) <= {'EndOfStream', 'ReadKey', 'ReadValue<T>', 'setindex'} or 'ReadKey' not in names and set(names) <= {
                            'EndOfStream', 'ReadUInt32', 'ReadUnsignedVarint', 'ReadValue<T>', 'setindex'} and a[-1][2][1:2] == a[1][4][1:2]:
                        chk.bad(what, 'an entry is read as %s' % ', '.join(names[1:]), at)
                    else:
                        chk.unknown(what, names)
                    continue
                tag = ('item', a[1][4][1], 0)
                chk.that(a[2][1] == READER and a[2][3][0] == PATH and a[2][3][1][1] == tag, what + ':value',
                         'an entry\'s value is read with (%s)' % ', '.join(map(show, a[2][3])), at)
                chk.that(a[3][1] == items and a[3][2][1] == tag and a[3][3][1] == a[2][4][1], what + ':entry',
                         'entry %s is set to %s' % (show(a[3][2]), show(a[3][3])), at)
                continue
            ok_ = len(a) == 3 and names[0] == 'EndOfStream' and a[1][0] == 'call' and a[1][2].startswith('ReadValue<T>') and a[2][0] == 'add'
            if not ok_:
                if set(names) <= {'EndOfStream', 'ReadValue<T>', 'add'}:
                    chk.bad(what, 'an item is read as %s' % ', '.join(names[1:]), at)
                else:
                    chk.unknown(what, names)
                continue
            tag = csi_t(a[1][3][1])
            off = 0
            if isinstance(tag, tuple) and tag[0] == 'add' and isinstance(tag[1], tuple) and tag[1][0] == 'var' and isinstance(tag[2], int):
                off, tag = tag[2], tag[1]
            n = tag[1] if isinstance(tag, tuple) and tag[0] == 'var' else None
            if n is None and tag == ('count', ('list', next((x for x, y in s.env.items() if y == items), None), lp[0][1])):
                chk.ok()
            elif n is None and not mentions(tag, 'var') and tag[0] != 'n':
                chk.unknown(what + ':tag', csi.showt(tag))
            elif n is None or n not in fin:
                chk.that(False if tag[0] == 'n' else True, what + ':tag', 'every item is read at tag %s' % csi.showt(tag), at)
            else:
                i0 = lp[0][2][n]
                chk.that(i0[0] == 'n' and const(i0) is not None and const(i0) + off == 0 and csi_t(fin[n]) == ('add', tag, 1), what + ':tag', 'items are tagged from %s, then %s' % (
                    show(i0), show(fin[n])), at)
            chk.that(a[1][1] == READER and a[1][3][0] == PATH, what + ':value', 'an item is read with (%s)' % ', '.join(map(show, a[1][3])), at)
            chk.that(a[2][1] == items and a[2][2][1] == a[1][4][1], what + ':item', 'the item added is %s' % show(a[2][2]), at)


def factory(chk, classes):
    """StateFactory: states from their own bytes, primitives through the tables"""
    c = klass(classes, 'StateFactory')
    if c is None:
        return chk.bad('StateFactory', 'the StateFactory class is gone', ROOT[1:])
    for name, n in (('Deserialize', 2), ('Deserialize', 3), ('DeserializeNested', 3)):
        m = meth(c, name, n)
        if m is None:
            chk.bad('StateFactory.' + name, 'StateFactory.%s with %d arguments is gone' % (name, n), c.file)
            continue
        guarded(chk, 'StateFactory.' + name, factory_one, chk, classes, c, m, name, n)


def factory_one(chk, classes, c, m, name, n):
    what = 'StateFactory.%s/%d' % (name, n)
    chk.count('container operations')
    base = hooks()

    def call(ip, o, nm, vs, st, e):
        if o[0] == 'type' and o[1].name == 'Deserializer' and nm == 'Deserialize':
            r = S(('ret', st.fresh(), 'state'), 'T')
            st.event('call', NULL, 'Deserializer.Deserialize', tuple(vs), r)
            return [(r, st)]
        return base['call'](ip, o, nm, vs, st, e)
    ip, outs = go(chk, classes, c, m, [READER, PATH, TAG][:n], tenv={'T': Type('T')}, call=call)
    p = ('nest', 'path', 'tag') if n == 3 else 'path'
    at = where(c, m)
    for v, s in outs:
        st = [d for k, d in s.conds.items() if isinstance(k, tuple) and k[0] == 'state type']
        a = acts(s.trace)
        if len(set(st)) != 1:
            chk.unknown(what, 'whether it is a state')
            continue
        if v[0] == '!':
            if not any(isinstance(k, tuple) and k[0] == 'isnull' and d for k, d in s.conds.items()):
                chk.bad(what, '%s throws %s' % (what, v[1]), at)
            continue
        names = [e[2] for e in a]
        nest = [e for e in a if e[2] == 'GetNested']
        rd = nest[0][4][1] if nest else 'reader'
        if st[0]:
            want = ['GetNested'] if name == 'DeserializeNested' else []
            if names != want + ['Deserializer.Deserialize']:
                if set(names) <= {'GetNested', 'Deserializer.Deserialize'}:
                    chk.bad(what + ':frame', 'a state is read as %s' % ', '.join(names), at)
                else:
                    chk.unknown(what, names)
                continue
            e = a[-1]
            chk.that(csi_t(e[3][0]) == rd and csi_t(e[3][1]) == p and v[1] == e[4][1], what + ':state', 'a state is read from %s at %s' % (
                show(e[3][0]), show(e[3][1])), at)
            continue
        framed_ = [d for k, d in s.conds.items() if 'IsSized' in repr(k) and 'isnull' not in repr(k)]
        if name == 'DeserializeNested' and framed_:
            chk.that(bool(nest) == framed_[0], what + ':primitive', 'a primitive that is %sframed is read %s its frame' % (
                '' if framed_[0] else 'not ', 'without' if not nest else 'from'), at)
        elif name == 'DeserializeNested':
            if not nest and all(isinstance(k, tuple) and k[0] in ('state type', 'isnull') for k in s.conds) and 'IsSized' not in repr(a):
                chk.bad(what + ':text', 'a primitive that is no state, such as String, is read without its frame', at)
            else:
                chk.unknown(what, 'whether it is framed')
        elif nest:
            chk.bad(what + ':primitive', 'a primitive is read from a frame of its own', at)
        last_ = a[-1] if a else None
        if last_ is None or last_[2] != 'call':
            chk.unknown(what, names)
        else:
            good = 'Deserializers' in repr(last_[1]) and len(last_[3]) == 1 and csi_t(last_[3][0]) == rd and v[1] == last_[4][1]
            chk.that(good, what + ':table', 'a primitive is read with %s from %s' % (show(last_[1]), ', '.join(map(show, last_[3]))), at)


def paths(chk, classes):
    c, m = find(chk, classes, 'Path', 'GetNested', 1)
    if m is None:
        return
    ip = csi.Interp(classes)
    st = csi.State()
    outs = ip.invoke(m, S(THIS, 'Path'), c, (TAG,), (), st, {})
    saw(chk, ip, outs)
    for v, s in outs:
        if v[0] != 'o':
            chk.unknown('Path.GetNested', show(v))
            continue
        h = s.heap[v[1]]
        chk.that(h.get('Parent', NULL)[1:2] == (THIS,) and h.get('Tag', NULL)[1:2] == ('tag',), 'Path.GetNested',
                 'the path nested at a tag is %s under %s' % (show(h.get('Tag', NULL)), show(h.get('Parent', NULL))), where(c, m))
