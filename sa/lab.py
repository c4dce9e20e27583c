"""State types under the microscope: runs of their operations on a symbolic value that satisfies the placement
invariant (every state child's runtime is the parent's runtime nested under its tag, index or key)."""
import terms
from core import *
from vocab import *
from terms import *
from terms import T, I, Term
import engine as E
from engine import mk_len, mk_elem, NONE, ok, err, ref
from prog import last
from r_ser import all_progs, PRIMS

SELF = ('P', sym('self'))
KINDS = {'Update': ('path', 'value'), 'ListPush': ('path', 'item'), 'ListPop': ('path', None), 'MapRemove': ('path', 'key')}


class LogVoc(Vocab):
    """operations of children are atoms; serialization is an atom even for the analysed type itself"""
    FORCE = ('Serialize::',)

    def __init__(self, own, force=(), off=(), **k):
        self.force = tuple(self.FORCE) + tuple(force)
        self.tn = None
        Vocab.__init__(self, own=own, atoms_off=off, **k)
        h = self.hooks

        def callback(ip, st, cv, args, sp):
            vals = tuple(ip.deep(st, a) for a in args)
            cid = st.fresh_id()
            st.emit('callback', cv, vals, sp)
            return [('ret', st, T('app', 'CB', cv, cid, *vals))]
        h['callback'] = callback

        def collect(c):
            v = c.ip.deep(c.st, c.args[0])
            r = path_of(v)
            return c.ret(r) if r is not None else None
        if 'Node::collect_values' not in self.off:
            h['Node::collect_values'] = collect

    def on(self, key, fn):
        if key in self.off:
            return
        if key.startswith(self.force):
            self.hooks[key] = fn
        else:
            Vocab.on(self, key, fn)


def node_adt():
    p = World.get().steit
    for n, a in p.adts.items():
        if last(n) == 'Node':
            return n, a
    return None, None


def node_parts(v):
    """('root',) | ('child', parent, value) | None for a node term"""
    n, a = node_adt()
    if v.op == 'adt' and last(v.a[0]) == 'Node':
        var = a['variants'][v.a[1]]
        d = dict(zip(var['fields'], v.a[2:]))
        if var['name'] == 'Root':
            return ('root',)
        if 'parent' in d and 'value' in d:
            return ('child', d['parent'], d['value'])
    return None


def path_of(v, n=0):
    """the values from the root to a node, outermost first: what Node::collect_values returns (rule L10)"""
    if n > 20:
        return None
    p = node_parts(v)
    if p is None:
        return T('app', 'PATH', v) if v.op != 'adt' else None
    if p[0] == 'root':
        return T('arr')
    q = path_of(p[1], n + 1)
    return None if q is None else push_(q, p[2])


def push_(v, x):
    if v.op == 'arr':
        return T('arr', *(v.a + (x,)))
    return T('push', v, x)


def unpush(v):
    """(base, pushed values)"""
    out = []
    while v.op == 'push':
        out.append(v.a[1])
        v = v.a[0]
    if v.op == 'arr':
        return T('arr'), list(v.a) + out[::-1]
    return v, out[::-1]


# ------------------------------------------------------------------ the types

def find_adt(prog, own):
    head = own.partition('<')[0]
    w = World.get()
    for p in [prog] + list(w.progs.values()):
        for n, a in p.adts.items():
            if last(n) == head and a.get('local', 1) and (p is prog):
                return n, a
    return None, None


MAYBE = {'k': 'enum', 'name': 'Maybe', 'variants': [
    {'name': 'None', 'tag': 0, 'fields': [], 'attrs': []},
    {'name': 'Some', 'tag': 1, 'fields': [{'name': 'value', 'tag': 0, 'ty': 'T', 'attrs': []}], 'attrs': []}]}


def schema(own):
    head = own.partition('<')[0]
    if head == 'Maybe':
        return MAYBE
    for x in World.get().oracle:
        if x['name'] == head:
            return x
    return None


class Type:
    """one State type with a place of its own"""

    def __init__(self, prog, own):
        self.prog = prog
        self.own = own
        self.head = own.partition('<')[0]
        self.adt, self.info = find_adt(prog, own)
        self.kind = None
        if self.info is None:
            return
        sch = schema(own) if self.head not in ('List', 'Map') else None
        vs = self.info['variants']
        self.variants = []
        for n, v in enumerate(vs):
            d = {'i': n, 'name': v['name'], 'rt': None, 'fields': [], 'other': [], 'tag': None}
            users = []
            for i, (f, t) in enumerate(zip(v['fields'], v['ftys'])):
                tn = prog.tname(t)
                if tn == 'Runtime':
                    d['rt'] = i
                    self.rtty = t
                elif tn == 'SizeCache':
                    d['other'].append(i)
                elif tn.startswith('PhantomData'):
                    d['other'].append(i)
                else:
                    users.append((i, f, t))
            d['users'] = users
            self.variants.append(d)
        if self.head in ('List', 'Map'):
            self.kind = self.head.lower()
        elif sch is not None:
            self.kind = sch['k']
            svs = sch['variants'] if sch['k'] == 'enum' else [sch]
            if len(svs) != len(self.variants):
                self.kind = None
                return
            for d, s in zip(self.variants, svs):
                d['tag'] = s.get('tag') if sch['k'] == 'enum' else None
                if sch['k'] == 'enum' and d['name'] != s['name'] or len(s['fields']) != len(d['users']):
                    self.kind = None
                    return
                for (i, f, t), sf in zip(d['users'], s['fields']):
                    d['fields'].append({'i': i, 'name': f, 'ty': t, 'tag': sf['tag'], 'state': 'no_state' not in sf['attrs']})
        if self.kind in ('list', 'map'):
            if len(self.variants) != 1 or len(self.variants[0]['users']) != 1:
                self.kind = None
        if any(d['rt'] is None for d in self.variants):
            self.kind = None

    def field(self, v, i):
        for f in self.variants[v]['fields']:
            if f['i'] == i:
                return f
        return None


_types = None


def state_types(chk=None):
    """(types with a place, other State impls)"""
    global _types
    if _types is None:
        _types = _state_types()
    return _types


def _state_types():
    w = World.get()
    out, rest = [], []
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'State'):
            t = Type(prog, own)
            if t.kind:
                t.impl = impl
                out.append(t)
            else:
                rest.append((prog, impl, own))
    return out, rest


_less = {}


def placeless(prog, impl, own):
    """State implementations that keep no runtime: set_runtime leaves the value alone"""
    k = (prog.crate, own)
    if k not in _less:
        r = False
        b = item(prog, impl, 'set_runtime')
        if b is not None:
            try:
                ip, a, outs = analyse(prog, b, LogVoc(own), progs=World.get().progs)
                r = all(kd == 'ret' and not any(o[0] == 'P' for o in s.mem) and
                        not any(e[0] in ('set_runtime', 'opaque') for e in s.trace()) for kd, s, v in outs)
                if r:
                    # ... nor do new values
                    b = item(prog, impl, 'with_runtime')
                    ip, a, outs = analyse(prog, b, LogVoc(own), progs=World.get().progs)
                    r = not any(contains(ip.deep(s, v), lambda x: x is a[0]) for kd, s, v in outs if kd == 'ret')
            except E.Unknown:
                r = False
        _less[k] = r
    return _less[k]


_lessnames = None


def less_names():
    global _lessnames
    if _lessnames is None:
        _lessnames = set()
        w = World.get()
        for prog in all_progs(w):
            for impl, own in ser_impls(prog, 'State'):
                if placeless(prog, impl, own):
                    _lessnames.add(own)
    return _lessnames


# ------------------------------------------------------------------ running

class Run:
    """one way of starting one function"""
    pass


def runtime_fn(ip, name, st, *args):
    p = World.get().steit
    b = p.find1('Runtime', name)
    if b is None:
        raise Unknown('no Runtime::' + name)
    s = st.copy()
    a = []
    for x in args:
        a.append(x if x.op in ('int', 'ref') or not isinstance(x, Term) else x)
    a[0] = ip.heap(s, a[0]) if a[0].op != 'ref' else a[0]
    outs = [(s2, v) for k, s2, v in ip.run(b, a, s) if k == 'ret']
    if len(outs) != 1:
        raise Unknown('Runtime::%s has %d outcomes' % (name, len(outs)))
    return ip.deep(outs[0][0], outs[0][1])


def nested(ip, st, rt, tag):
    return runtime_fn(ip, 'nested', st, rt, tag)


def place_node(where):
    """a node that is the root, or one that is not"""
    n, a = node_adt()
    for i, v in enumerate(a['variants']):
        if v['name'] == 'Root' and where == 'root':
            return adt(n, i)
        if v['name'] == 'Child' and where == 'child':
            return adt(n, i, *[sym('Rup' if f == 'parent' else 'Rval') for f in v['fields']])
    raise Unknown('Node has no %s variant' % where)


def run(ty, body, variant=None, voc=None, budget=60000, newrt=False, place=None):
    """runs a function of the type; `variant`: of the value it starts with; `place`: of that value, None for any"""
    w = World.get()
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    voc = voc or LogVoc(ty.own)
    voc.own_wt = own_wire(ty.prog, ty.own)
    ip = E.Interp(hooks=dict(voc.hooks), budget=budget)
    ip.progs = w.progs
    r = Run()
    r.ty, r.body, r.ip, r.variant = ty, body, ip, variant
    st = E.State()
    prog = body.prog
    r.R = ip.typed(sym('R'), ty.prog, ty.rtty)
    Rx = ip.expand(st, r.R)
    if place is not None:
        fs = [f for n, a in w.steit.adts.items() if last(n) == 'Runtime' for f in a['variants'][0]['fields']]
        if 'path' not in fs:
            raise Unknown('Runtime has no path')
        vals = list(Rx.a)
        vals[2 + fs.index('path')] = place_node(place)
        Rx = T('adt', *vals)
    r.base = Rx
    args = []
    r.self_mode = None
    r.newrt = None
    for i in range(body.argc):
        lt = body.locals[i + 1]
        t = prog.t(lt)
        tn = prog.tname(lt)
        if i == 0 and (tn == ty.own or tn in ('&' + ty.own, '&mut ' + ty.own, 'Self', '&Self', '&mut Self')):
            v = start_value(ty, ip, st, Rx, variant or 0)
            r.init = v
            if tn == ty.own:
                r.self_mode = 'val'
                args.append(v)
            else:
                r.self_mode = 'mut' if tn.startswith('&mut') else 'ref'
                st.mem[SELF] = v
                args.append(ref(SELF))
            continue
        a = sym('a%d' % i) if i else sym('self')
        if tn == 'Runtime':
            a = Rx
            if newrt and r.self_mode:
                a = ip.expand(st, ip.typed(sym('R2'), ty.prog, ty.rtty))
            r.newrt = a
        ip.typed(a, prog, lt)
        args.append(a)
    r.args = args
    r.outs = []
    ip.self_impl = self_impl(ty)
    for k, s, v in ip.run(body, args, st, provided(body, ty)):
        r.outs.append((k, s, v))
    return r


def provided(body, ty):
    """the type's name when the body is a provided method of a trait"""
    return ty.own if body.argc and body.prog.tname(body.locals[1]).lstrip('&').replace('mut ', '') == 'Self' else None


def self_impl(ty):
    def find(name, key):
        if name != ty.own or '::' not in key:
            return None
        tr, n = key.rsplit('::', 1)
        for i in ty.prog.impls:
            if 'trait' in i and last(i['trait']) == last(tr) and ty.prog.tname(i['self']) == ty.own:
                b = item(ty.prog, i, n)
                if b is not None:
                    return b
        return World.get().steit.trait_default(last(tr), n)
    return find


def start_value(ty, ip, st, Rx, variant):
    d = ty.variants[variant]
    terms.BASE_ADT[sym('self')] = ty.adt
    E.ARITY[(ty.adt, variant)] = len(ty.info['variants'][variant]['fields'])
    vals = []
    for i, (f, t) in enumerate(zip(ty.info['variants'][variant]['fields'], ty.info['variants'][variant]['ftys'])):
        if i == d['rt']:
            vals.append(nested(ip, st, Rx, I(d['tag'])) if ty.kind == 'enum' else Rx)
        else:
            vals.append(ip.typed(T('fld', sym('self'), i) if ty.kind != 'enum' else T('vf', sym('self'), variant, i),
                                 ty.prog, t))
    return adt(ty.adt, variant, *vals)


def final_self(r, s):
    return r.ip.deep(s, s.mem[SELF]) if SELF in s.mem else None


# ------------------------------------------------------------------ contents

def content(t, memo=None):
    """a value without its bookkeeping: runtimes and cached sizes"""
    memo = {} if memo is None else memo
    if not isinstance(t, Term):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'app' and t.a[0] == 'AT':
        r = content(t.a[1], memo)
    elif t.op == 'app' and t.a[0] == 'NEW':
        r = T('app', 'NEW', t.a[1])
    elif t.op == 'adt' and last(t.a[0]) in ('Runtime', 'SizeCache'):
        r = UNIT
    elif t.op == 'app' and t.a[0] == 'CB':
        r = t
    elif t.op in ('int', 'str', 'sym', 'bytes'):
        r = t
    else:
        n = tuple(content(x, memo) if isinstance(x, Term) else x for x in t.a)
        r = t if n == t.a else mk_elem(*n) if t.op == 'elem' else T(t.op, *n)
        # a list of its own items, in order
        if r.op == 'mapn' and r.a[1] is mk_len(r.a[0]) and r.a[3] >= 0 and r.a[2] is T('elem', r.a[0], E.BV(r.a[3])):
            r = r.a[0]
        if r.op == 'mmapn' and r.a[1] is T('len', r.a[0]) and r.a[3] >= 0 and r.a[2] is T('mval', r.a[0], E.BV(r.a[3])):
            r = r.a[0]
        if r.op == 'mval' and r.a[0].op == 'mmapn' and r.a[0].a[3] >= 0 and r.a[1] is E.BV(r.a[0].a[3]):
            r = r.a[0].a[2]
    memo[t] = r
    return r


class Contents:
    """user-visible contents: kind, data"""

    def __init__(self, ty, v):
        self.ty = ty
        if v.op != 'adt' or v.a[0] != ty.adt:
            raise Unknown('contents of %s' % str(v)[:80])
        self.variant = v.a[1]
        d = ty.variants[self.variant]
        self.d = {}
        for i, f, t in d['users']:
            self.d[i] = content(v.a[2 + i])

    def copy(self):
        c = Contents.__new__(Contents)
        c.ty, c.variant, c.d = self.ty, self.variant, dict(self.d)
        return c

    def main(self):
        return list(self.d.values())[0]

    def set_main(self, v):
        self.d[list(self.d)[0]] = v

    def text(self):
        names = {i: f for i, f, t in self.ty.variants[self.variant]['users']}
        return ('%s{' % self.ty.variants[self.variant]['name']) + ', '.join(
            '%s: %s' % (names[i], str(x)[:160]) for i, x in self.d.items()) + '}'


def same(a, b, st):
    """True / False (in general different) / None"""
    if a is b:
        return True
    if st is not None:
        a2, b2 = st.simp(a), st.simp(b)
        if a2 is b2:
            return True
        try:
            if st.decide(EQ(a2, b2)) is True:
                return True
        except Exception:  # noqa
            pass
        if a2.op == b2.op == 'adt' and a2.a[:2] == b2.a[:2] and len(a2.a) == len(b2.a):
            rs = [same(x, y, st) for x, y in zip(a2.a[2:], b2.a[2:])]
            if all(x is True for x in rs):
                return True
        if a2.op == b2.op == 'app' and len(a2.a) == len(b2.a) and a2.a[0] == b2.a[0]:
            rs = [same(x, y, st) if isinstance(x, Term) and isinstance(y, Term) else x == y for x, y in zip(a2.a, b2.a)]
            if all(x is True for x in rs):
                return True
    if definite(a, b):
        return False
    return None


def indices(v, out=None):
    out = [] if out is None else out
    while True:
        if v.op == 'push':
            out.append(mk_len(v.a[0]))
            v = v.a[0]
        elif v.op in ('upd', 'remove', 'insert'):
            out.append(v.a[1])
            v = v.a[0]
        elif v.op in ('rmlast',):
            out.append(sub(mk_len(v.a[0]), I(1)))
            v = v.a[0]
        elif v.op in ('mapn', 'pushn'):
            v = v.a[0]
        elif v.op == 'arr':
            out += [I(i) for i in range(len(v.a))]
            return out
        else:
            return out


def elem_at(v, i, st):
    """element of a list term, following removals as well"""
    if v.op == 'remove':
        d = st.decide(LT(i, v.a[1]))
        if d is True:
            return elem_at(v.a[0], i, st)
        if d is False:
            return elem_at(v.a[0], add(i, I(1)), st)
        return None
    if v.op == 'rmlast':
        return elem_at(v.a[0], i, st)
    if v.op == 'upd':
        d = st.decide(EQ(v.a[1], i))
        if d is True:
            return v.a[2]
        if d is False:
            return elem_at(v.a[0], i, st)
        return None
    if v.op == 'push':
        d = st.decide(EQ(mk_len(v.a[0]), i))
        if d is True:
            return v.a[1]
        if d is False or st.decide(LT(i, mk_len(v.a[0]))) is True:
            return elem_at(v.a[0], i, st)
        return None
    return mk_elem(v, st.simp(i), st)


def probes(a, b, st):
    """index / state pairs that together cover every index of both lists"""
    idx = []
    for i in indices(a) + indices(b):
        i = st.simp(i)
        if i not in idx:
            idx.append(i)
    g = sym('anyindex')
    UNSIGNED.add(g)
    s = st.copy()
    for i in idx:
        s.assume(EQ(g, i), False)
    out = [(i, st) for i in idx] + [(g, s)]
    return out


def list_same(a, b, st):
    if a is b:
        return True
    la, lb = mk_len(a), mk_len(b)
    d = same(la, lb, st)
    if d is not True:
        return d
    res = True
    for i, s in probes(a, b, st):
        n = s.copy()
        if n.decide(LT(i, la)) is False:
            continue
        n.assume(LT(i, la))
        x, y = elem_at(a, i, n), elem_at(b, i, n)
        if x is None or y is None:
            res = None
            continue
        d = same(content(x), content(y), n)
        if d is False:
            return False
        if d is None:
            res = None
    return res


def map_ops(v):
    out = []
    while v.op in ('mins', 'mrm'):
        out.append(v)
        v = v.a[0]
    return v, out


def map_get(v, k, st):
    """value of a key: term, 'absent', 'base' or None"""
    while v.op in ('mins', 'mrm'):
        d = st.decide(EQ(v.a[1], k))
        if d is None and v.a[1] is not k:
            return None
        if d is True or v.a[1] is k:
            return v.a[2] if v.op == 'mins' else 'absent'
        v = v.a[0]
    return 'base'


def map_same(a, b, st):
    if a is b:
        return True
    ba, oa = map_ops(a)
    bb, ob = map_ops(b)
    if ba is not bb:
        return False if definite(a, b) else None
    res = True
    for k in {o.a[1] for o in oa + ob}:
        x, y = map_get(a, k, st), map_get(b, k, st)
        if x is None or y is None:
            res = None
            continue
        has = st.decide(T('bvar', 'has', ba, k))
        if x == 'base' and y == 'base':
            continue
        if x == 'base' or y == 'base':
            z = y if x == 'base' else x
            if z == 'absent':
                if has is False:
                    continue
                return False if definite(a, b) else None
            if has is True and same(content(z), T('mget', ba, k), st) is True:
                continue
            return False if definite(a, b) else None
        if x == 'absent' or y == 'absent':
            if x == y:
                continue
            return False if definite(a, b) else None
        d = same(content(x), content(y), st)
        if d is False:
            return False
        if d is None:
            res = None
    return res


def contents_same(a, b, st):
    if a.variant != b.variant:
        return False
    if a.ty.kind == 'list':
        return list_same(a.main(), b.main(), st)
    if a.ty.kind == 'map':
        return map_same(a.main(), b.main(), st)
    res = True
    for i in a.d:
        d = same(a.d[i], b.d[i], st)
        if d is False:
            return False
        if d is None:
            res = None
    return res


# ------------------------------------------------------------------ entries

class Wrong(Exception):
    """an entry that does not describe a possible change"""


class Entry:
    def __init__(self, kind, base, path, arg, term):
        self.kind, self.base, self.path, self.arg, self.term = kind, base, path, arg, term

    def text(self):
        return '%s at %s%s' % (self.kind, '/'.join([''] + [str(p)[:60] for p in self.path]) or '/',
                               '' if self.arg is None else ' of ' + str(self.arg)[:100])


def entry_adt():
    for n, a in World.get().steit.adts.items():
        if last(n) == 'LogEntry':
            return n, a
    return None, None


def decode(e):
    n, a = entry_adt()
    if e.op != 'adt' or last(e.a[0]) != 'LogEntry':
        raise Unknown('entry %s' % str(e)[:80])
    v = a['variants'][e.a[1]]
    if v['name'] not in KINDS:
        raise Unknown('entry kind ' + v['name'])
    pf, af = KINDS[v['name']]
    d = dict(zip(v['fields'], e.a[2:]))
    if pf not in d or (af and af not in d):
        raise Unknown('entry fields of ' + v['name'])
    base, path = unpush(d[pf])
    arg = None
    if af:
        arg = d[af]
        if af in ('value', 'item'):
            while arg.op == 'adt' and len(arg.a) == 3:
                arg = arg.a[2]
            if arg.op == 'app' and arg.a[0] == 'SER':
                arg = content(arg.a[1])
            elif definite(arg):
                raise Wrong('the entry carries %s, which is not the encoding of one value' % str(arg)[:80])
            else:
                raise Unknown('value of entry: %s' % str(arg)[:80])
    return Entry(v['name'], base, path, arg, e)


def relative(en, own_path, st):
    """path below the node, or Wrong"""
    b0, p0 = unpush(own_path)
    if en.base is not b0:
        if definite(en.base):
            raise Wrong('the entry has the path %s, which does not start with the path of the value'
                        % '/'.join([str(en.base)] + [str(x) for x in en.path])[:160])
        raise Unknown('path %s' % str(en.base)[:80])
    if len(en.path) < len(p0):
        raise Wrong('the entry addresses an ancestor of the value')
    for x, y in zip(en.path, p0):
        d = same(x, y, st)
        if d is False:
            raise Wrong('the entry has the path %s' % en.text())
        if d is None:
            raise Unknown('path element %s' % x)
    return en.path[len(p0):]


def apply(ty, c, en, own_path, st):
    """the contents after replaying an entry on them (the meaning of the log)"""
    rel = relative(en, own_path, st)
    c = c.copy()
    if ty.kind == 'list':
        items = c.main()
        if not rel:
            if en.kind == 'ListPush':
                c.set_main(T('push', items, en.arg))
                return c
            if en.kind == 'ListPop':
                if st.decide(LT(I(0), mk_len(items))) is not True and st.decide(EQ(mk_len(items), I(0))) is not False:
                    raise Wrong('a pop is logged without making sure the list is not empty')
                c.set_main(T('rmlast', items) if items.op != 'push' else items.a[0])
                return c
        elif len(rel) == 1 and en.kind == 'Update':
            if st.decide(LT(rel[0], mk_len(items))) is not True:
                if st.decide(LT(rel[0], mk_len(items))) is False:
                    raise Wrong('an update is logged for index %s, which does not exist' % rel[0])
                if definite(rel[0]) and rel[0].op == 'app' and rel[0].a[0] == 'trunc':
                    raise Wrong('an update is logged for index %s, of which digits are cut off' % rel[0])
                raise Unknown('index %s in bounds' % rel[0])
            c.set_main(E.mk_upd(items, rel[0], en.arg, st))
            return c
    elif ty.kind == 'map':
        m = c.main()
        if not rel and en.kind == 'MapRemove':
            x = map_get(m, en.arg, st)
            if x is None:
                raise Unknown('key %s' % en.arg)
            if x == 'absent' or x == 'base' and st.decide(T('bvar', 'has', map_ops(m)[0], en.arg)) is not True:
                raise Wrong('the removal of key %s is logged though the map need not hold it' % en.arg)
            c.set_main(T('mrm', m, en.arg))
            return c
        if len(rel) == 1 and en.kind == 'Update':
            c.set_main(T('mins', m, rel[0], en.arg))
            return c
    else:
        if en.kind == 'Update':
            d = ty.variants[c.variant]
            if ty.kind == 'enum' and rel:
                if rel[0].op != 'int':
                    raise Unknown('variant tag %s' % rel[0])
                if rel[0].a[0] != d['tag']:
                    raise Wrong('the entry %s addresses variant %s while %s is current' % (en.text(), rel[0], d['name']))
                rel = rel[1:]
                if not rel:
                    raise Wrong('the entry %s addresses a variant as a whole' % en.text())
            if not rel:
                if en.arg.op == 'adt' and en.arg.a[0] == ty.adt:
                    return Contents(ty, en.arg)
                raise Unknown('new value %s' % str(en.arg)[:80])
            if len(rel) == 1:
                if rel[0].op != 'int':
                    raise Unknown('tag %s' % rel[0])
                for f in d['fields']:
                    if f['tag'] == rel[0].a[0]:
                        if not f['state']:
                            raise Wrong('an update of %s, which is not tracked, is logged' % f['name'])
                        c.d[f['i']] = en.arg
                        return c
                raise Wrong('the entry %s addresses no field of %s' % (en.text(), d['name']))
    raise Wrong('the entry %s is not one %s can replay' % (en.text(), ty.own))


class Logged:
    """what one path handed to the logger"""

    def __init__(self):
        self.entries = []       # (Entry | Exception, sp)
        self.failed = None
        self.negative = False
        self.count = 0
        self.unsure = None
        self.pauses = 0


def logger_ref(r):
    """the receiver of the tree's logger"""
    if not hasattr(r, '_lref'):
        p = World.get().steit
        b = p.find1('Runtime', 'pause_logger')
        r._lref = None
        if b is not None:
            s = E.State()
            outs = r.ip.run(b, [r.ip.heap(s, r.base)], s)
            for k, s2, v in outs:
                for e in s2.trace():
                    if e[0] == 'logger':
                        r._lref = e[2]
    return r._lref


def logged(r, s):
    out = Logged()
    lr = logger_ref(r)
    tr = s.trace()
    n = 0

    def inner(tr):
        for e in tr:
            if e[0] == 'logger':
                return True
            if e[0] == 'loop' and any(inner(it[1]) for it in e[4]):
                return True
        return False
    batch = None
    for k, e in enumerate(tr):
        if e[0] == 'loop' and any(inner(it[1]) for it in e[4]):
            out.unsure = 'logging in a loop'
        if e[0] == 'logger':
            name, recv, args, sp = e[1], e[2], e[3], e[4]
            if recv is not lr:
                out.entries.append((Wrong('logged to another logger than the one of the tree'), sp))
                continue
            if name == 'pause':
                n += 1
                out.pauses += 1
            elif name == 'unpause':
                n -= 1
                if n < 0:
                    out.negative = True
                    n = 0
            elif name in ('log', 'log_multi'):
                fail = k + 1 < len(tr) and tr[k + 1][0] == 'io-fail' and tr[k + 1][1] in ('log', 'log_multi')
                if fail:
                    out.failed = sp
                    continue
                if n > 0:
                    continue
                if name == 'log':
                    es = [args[0]]
                elif args[0].op == 'arr':
                    es = list(args[0].a)
                else:
                    out.unsure = 'batch %s' % str(args[0])[:80]
                    es = []
                for x in es:
                    try:
                        out.entries.append((decode(x), sp))
                    except (Wrong, Unknown) as ex:
                        out.entries.append((ex, sp))
    out.count = n
    return out


# ------------------------------------------------------------------ subjects

def methods(ty):
    """(name, body, visibility) of the functions of the type: inherent ones, public; a private one is judged where it is used"""
    out = []
    for i in ty.prog.impls:
        if 'trait' in i or ty.prog.tname(i['self']) != ty.own:
            continue
        for it in i['items']:
            b = ty.prog.bodies.get(it.get('body'))
            if b is not None and it.get('kind') != 'Const' and it.get('vis') == 'pub':
                out.append((it['name'], b, it.get('vis')))
    return out


def trait_fns(ty, names=None):
    out = []
    for i in ty.prog.impls:
        if 'trait' not in i or ty.prog.tname(i['self']) not in (ty.own, '&' + ty.own, '&mut ' + ty.own):
            continue
        tr = last(i['trait'])
        for it in i['items']:
            b = ty.prog.bodies.get(it.get('body'))
            if b is not None and it.get('kind') != 'Const':
                if names is None or (tr, it['name']) in names:
                    out.append((tr, it['name'], b))
    return out


def takes_self(ty, body):
    if not body.argc:
        return None
    tn = body.prog.tname(body.locals[1])
    if tn in (ty.own, 'Self'):
        return 'val'
    if tn in ('&' + ty.own, '&Self'):
        return 'ref'
    if tn in ('&mut ' + ty.own, '&mut Self'):
        return 'mut'
    return None
