"""L03: every attached node knows its own place."""
from lab import *
import lab as L
from r_log import sp_of, runs, events

KEEPS = ('MG', 'MN', 'MGERR', 'MNERR', 'HANDLED', 'HERR', 'UPDATED')


class Places:
    """checks that the parts of a value are where they believe to be"""

    def __init__(self, r, s):
        self.r, self.ip = r, r.ip
        self.problems = []      # (definite, text)
        self.children = 0
        self.assumed = {}       # loop-carried value -> where it is at the start of an iteration
        self.trusted = {}       # collection term whose elements are in place -> runtime of the collection
        self.types = {t.adt: t for t in state_types()[0]}
        self.wires = {}

    def bad(self, msg):
        self.problems.append((True, msg))

    def unk(self, msg):
        self.problems.append((False, msg))

    def norm(self, s, rt):
        return self.ip.expand(s, rt) if rt.op != 'adt' else rt

    def nested(self, s, rt, tag):
        return nested(self.ip, s, self.norm(s, rt), tag)

    # ---------------------------------------------------------- runtimes
    def same_rt(self, s, a, b):
        a, b = self.norm(s, a), self.norm(s, b)
        if a is b:
            return True
        if a.op != 'adt' or b.op != 'adt' or last(a.a[0]) != 'Runtime' or last(b.a[0]) != 'Runtime':
            return None
        fs = World_fields()
        res = True
        for f, x, y in zip(fs, a.a[2:], b.a[2:]):
            if f == 'path':
                px, py = path_of(x), path_of(y)
                if px is None or py is None:
                    return None
                bx, lx = unpush(px)
                by, ly = unpush(py)
                if bx is not by or len(lx) != len(ly):
                    return False
                for u, v in zip(lx, ly):
                    d = same(u, v, s)
                    if d is False or (d is None and s.decide(EQ(u, v)) is False):
                        return False
                    if d is None:
                        res = None
            elif x is not y:
                return False
        return res

    def unrelated(self, s, a, b):
        """the two addresses differ in an element, the element here is input and no condition relates the two"""
        pa, pb = self.path(s, a), self.path(s, b)
        if pa is None or pb is None:
            return False
        (ba, la), (bb, lb) = unpush(pa), unpush(pb)
        if ba is not bb or len(la) != len(lb):
            return False
        for x, y in zip(la, lb):
            if x is y:
                continue
            for u, v in ((x, y), (y, x)):
                if u.op == 'app' and u.a[0] == 'FN' and not contains(v, lambda z: z is u or z.op == 'top') and \
                        not any(contains(c, lambda z: z is u) and contains(c, lambda z: z is v) for c in cond_terms(s)):
                    return True
        return False

    def path(self, s, rt):
        rt = self.norm(s, rt)
        if rt.op == 'adt':
            for f, x in zip(World_fields(), rt.a[2:]):
                if f == 'path':
                    return path_of(x)
        return None

    def text(self, s, rt):
        rt = self.norm(s, rt)
        if rt.op == 'adt':
            for f, x in zip(World_fields(), rt.a[2:]):
                if f == 'path':
                    p = path_of(x)
                    if p is not None:
                        b, l = unpush(p)
                        return '/'.join(['<root>' if b.op == 'arr' else '<own path>' if b.op == 'app' else str(b)] +
                                        [str(i)[:80] for i in l])
        return str(rt)[:160]

    def runtime_is(self, s, rt, exp, what):
        d = self.same_rt(s, rt, exp)
        if d is None and self.unrelated(s, rt, exp):
            d = False
        if d is False:
            self.bad('%s believes to be at %s, but it is stored at %s' % (what, self.text(s, rt), self.text(s, exp))
                     if self.text(s, rt) != self.text(s, exp) else '%s logs to another logger than its tree' % what)
        elif d is None:
            self.unk('%s: runtime %s against %s' % (what, str(rt)[:120], str(exp)[:120]))

    # ---------------------------------------------------------- values
    def exempt(self, s, tn):
        """values of this type have no place of their own"""
        if tn is None:
            return False
        if tn in less_names():
            return True
        w = self.wires.get(tn)
        if w is None:
            w = self.wires[tn] = T('discr', T('app', 'const', 'HasWireType::WIRE_TYPE', tn))
        return varint(s, tn)

    def value(self, s, x, exp, what, tn=None, depth=0):
        """x is stored where its runtime should be exp"""
        self.children += 1
        if depth > 6:
            return self.unk('%s: too deep' % what)
        while x.op == 'app' and x.a[0] in KEEPS or x.op == 'ok':
            x = x.a[1] if x.op == 'app' else x.a[0]
        if x.op == 'ref':
            x = self.ip.deep(s, x)
        if self.exempt(s, tn):
            return
        if x.op == 'app' and x.a[0] == 'AT':
            return self.runtime_is(s, x.a[2], exp, what)
        if x.op == 'app' and x.a[0] == 'NEW':
            return self.runtime_is(s, x.a[2], exp, what)
        if x.op == 'app' and x.a[0] == 'CB':
            rts = [a for a in x.a[3:] if isinstance(a, Term) and a.op == 'adt' and last(a.a[0]) == 'Runtime']
            if not rts:
                return self.bad('%s is made by a function that is not given its place' % what)
            ds = [self.same_rt(s, a, exp) for a in rts]
            if True in ds:
                return
            return self.runtime_is(s, rts[0], exp, what)
        if x.op == 'adt' and x.a[0] in self.types:
            return self.object(s, self.types[x.a[0]], x, exp, what, depth + 1)
        if x.op == 'phi' and x in self.ip.phis:
            if x in self.assumed:
                return self.runtime_is(s, self.assumed[x], exp, what)
            init, ups, backs = self.ip.phis[x]
            if ups is None:
                return self.unk('%s: loop-carried' % what)
            self.assumed[x] = exp
            self.value(s, init, exp, what, tn, depth)
            for u, b in zip(ups, backs):
                self.value(b, u, exp, what, tn, depth)
            return
        p = self.initial(s, x)
        if p is not None:
            return self.runtime_is(s, p, exp, what)
        if self.raw(x) or x.op == 'app' and x.a[0] == 'DEF':
            return self.bad('%s is never given its place' % what)
        return self.unk('%s: place of %s' % (what, str(x)[:160]))

    def raw(self, x):
        """part of an argument, as the caller handed it over"""
        while x.op in ('fld', 'elem', 'vf', 'mval', 'mget'):
            x = x.a[0]
        return x.op == 'sym' and not (self.r.self_mode and x.a[0] == 'self')

    def initial(self, s, x):
        """place of a part of the value the function started with, or of a collection already checked"""
        r = self.r
        if x.op == 'elem' and x.a[0] in self.trusted:
            return self.nested(s, self.trusted[x.a[0]], x.a[1])
        if x.op == 'mget' and x.a[0] in self.trusted:
            return self.nested(s, self.trusted[x.a[0]], x.a[1])
        if x.op == 'mval' and x.a[0] in self.trusted:
            return self.nested(s, self.trusted[x.a[0]], T('mkey', x.a[0], x.a[1]))
        if x in self.start():
            return self.start()[x]
        return None

    def start(self):
        """parts of the initial value -> their runtimes"""
        if not hasattr(self, '_start'):
            self._start = {}
            r = self.r
            if getattr(r, 'init', None) is not None:
                s = E.State()
                ty = r.ty
                d = ty.variants[r.init.a[1]]
                own = r.init.a[2 + d['rt']]
                if ty.kind in ('list', 'map'):
                    i = d['users'][0][0]
                    self.trusted[r.init.a[2 + i]] = own
                else:
                    for f in d['fields']:
                        self._start[r.init.a[2 + f['i']]] = self.nested(s, own, I(f['tag']))
        return self._start

    def object(self, s, ty, x, exp, what, depth=0):
        """a value of a state type whose place should be exp"""
        d = ty.variants[x.a[1]]
        own = x.a[2 + d['rt']]
        if exp is not None:
            e = self.nested(s, exp, I(d['tag'])) if ty.kind == 'enum' else exp
            self.runtime_is(s, own, e, what)
        if ty.kind == 'list':
            i, f, t = d['users'][0]
            self.list(s, ty, x.a[2 + i], own, what)
        elif ty.kind == 'map':
            i, f, t = d['users'][0]
            self.map(s, ty, x.a[2 + i], own, what)
        else:
            for f in d['fields']:
                if f['state']:
                    self.value(s, x.a[2 + f['i']], self.nested(s, own, I(f['tag'])),
                               '%s.%s' % (what, f['name']), ty.prog.tname(f['ty']), depth)

    # ---------------------------------------------------------- collections
    def list(self, s, ty, v, own, what, asm=()):
        tn = item_name(ty)
        chain = v
        while chain.op in ('push', 'upd', 'rmlast', 'remove'):
            chain = chain.a[0]
        self.list_base(s, ty, chain, own, what, asm)
        if chain is v:
            return
        g = sym('anyindex')
        UNSIGNED.add(g)
        pts = []
        for i in indices(v):
            i = s.simp(i)
            if i not in pts:
                pts.append(i)
        worlds = []
        if any(x.op == 'remove' for x in chain_of(v)):
            for x in chain_of(v):
                if x.op == 'remove':
                    for side in (True, False):
                        n = s.copy()
                        n.assume(LT(g, x.a[1]), side)
                        worlds.append((g, n))
        else:
            n = s.copy()
            for i in pts:
                n.assume(EQ(g, i), False)
            worlds.append((g, n))
        for i, st in [(i, s) for i in pts] + worlds:
            n = st.copy()
            inb = LT(i, mk_len(v))
            if n.decide(inb) is False:
                continue
            n.assume(inb)
            x = elem_at(v, i, n)
            if x is None:
                self.unk('%s: item %s of %s' % (what, i, str(v)[:120]))
                continue
            self.value(n, x, self.nested(n, own, i), '%s: item %s' % (what, 'at any index' if i is g else i), tn)

    def list_base(self, s, ty, v, own, what, asm):
        tn = item_name(ty)
        self.start()
        if v in asm:
            self.trusted[v] = own
            return
        if v in self.trusted:
            d = self.same_rt(s, self.trusted[v], own)
            if d is not True:
                # some item is there unless the list is empty
                if s.decide(EQ(mk_len(v), I(0))) is True or self.exempt(s, tn):
                    return
                self.runtime_is(s, self.trusted[v], own, what + ': the items')
            return
        if v.op == 'arr':
            for i, x in enumerate(v.a):
                self.value(s, x, self.nested(s, own, I(i)), '%s: item %d' % (what, i), tn)
            return
        if v.op == 'app' and v.a[0] == 'DEF':
            return
        if v.op == 'phi' and v in self.ip.phis:
            init, ups, backs = self.ip.phis[v]
            if ups is None:
                return self.unk('%s: loop-carried items' % what)
            self.list(s, ty, init, own, what, asm)
            self.trusted[v] = own
            for u, b in zip(ups, backs):
                self.list(b, ty, u, own, what, asm + (v,))
            return
        if v.op == 'mapn':
            base, n, f, lvl = v.a
            b = E.BV(lvl)
            UNSIGNED.add(b)
            st = s.copy()
            st.assume(LT(b, n))
            if mk_len(base) is not n and s.decide(EQ(mk_len(base), n)) is not True:
                self.list_base(s, ty, base, own, what, asm)
            return self.value(st, f, self.nested(st, own, b), '%s: item at any index' % what, tn)
        if v.op == 'pushn':
            base, n, x, b = v.a
            self.list(s, ty, base, own, what, asm)
            UNSIGNED.add(b)
            st = s.copy()
            st.assume(LT(b, n))
            return self.value(st, x, self.nested(st, own, add(mk_len(base), b)), '%s: an added item' % what, tn)
        if self.exempt(s, tn):
            return
        if v.op == 'sym' or v.op in ('elem', 'app') and not contains(v, lambda x: x.op == 'top'):
            return self.bad('%s: its items (%s) are never given their places' % (what, str(v)[:80]))
        if v.op in ('pushsome', 'concat'):
            return self.unk('%s: items %s' % (what, str(v)[:160]))
        return self.unk('%s: items %s' % (what, str(v)[:160]))

    def map(self, s, ty, v, own, what, asm=()):
        tn = item_name(ty)
        base, ops = map_ops(v)
        self.map_base(s, ty, base, own, what, asm)
        seen = []
        for o in ops:
            k = o.a[1]
            if any(same(k, z, s) is True for z in seen):
                continue
            seen.append(k)
            if o.op == 'mins':
                self.value(s, o.a[2], self.nested(s, own, k), '%s: the value of key %s' % (what, str(k)[:80]), tn)

    def map_base(self, s, ty, v, own, what, asm):
        tn = item_name(ty)
        self.start()
        if v in asm:
            self.trusted[v] = own
            return
        if v in self.trusted:
            if self.same_rt(s, self.trusted[v], own) is not True and not self.exempt(s, tn):
                self.runtime_is(s, self.trusted[v], own, what + ': the values')
            return
        if v.op in ('arr', 'mempty') or v.op == 'app' and v.a[0] == 'DEF':
            return
        if v.op == 'phi' and v in self.ip.phis:
            init, ups, backs = self.ip.phis[v]
            if ups is None:
                return self.unk('%s: loop-carried entries' % what)
            self.map(s, ty, init, own, what, asm)
            self.trusted[v] = own
            for u, b in zip(ups, backs):
                self.map(b, ty, u, own, what, asm + (v,))
            return
        if v.op == 'mmapn':
            base, n, f, lvl = v.a
            b = E.BV(lvl)
            UNSIGNED.add(b)
            if mk_len(base) is not n and s.decide(EQ(mk_len(base), n)) is not True:
                self.map_base(s, ty, base, own, what, asm)
            return self.value(s, f, self.nested(s, own, T('mkey', base, b)), '%s: the value of any key' % what, tn)
        if self.exempt(s, tn):
            return
        if v.op == 'sym':
            return self.bad('%s: its values (%s) are never given their places' % (what, str(v)[:80]))
        return self.unk('%s: entries %s' % (what, str(v)[:160]))


def chain_of(v):
    out = []
    while v.op in ('push', 'upd', 'rmlast', 'remove'):
        out.append(v)
        v = v.a[0]
    return out


def item_name(ty):
    a = ty.own[ty.own.index('<') + 1:-1] if '<' in ty.own else ''
    return a.split(',')[-1].strip() or None


def varint(s, tn):
    """the path established that the wire type of tn is Varint"""
    for c in cond_terms(s):
        pos = True
        if c.op == 'not':
            pos, c = False, c.a[0]
        if c.op != 'eq':
            continue
        d = [x for x in c.a if isinstance(x, Term) and x.op == 'discr' and x.a[0].op == 'app' and
             x.a[0].a[0] == 'const' and tn in x.a[0].a]
        n = [x for x in c.a if isinstance(x, Term) and x.op == 'int']
        if d and n and (n[0].a[0] == varint_discr()) == pos:
            return True
    return False


def cond_terms(s):
    return [c for c in s.cond_list() if isinstance(c, Term)]


def varint_discr():
    p = World.get().steit
    for n, a in p.adts.items():
        if last(n) == 'WireType':
            for i, v in enumerate(a['variants']):
                if v['name'] == 'Varint':
                    return i
    return None


def World_fields():
    from r_log import World_runtime_fields
    return World_runtime_fields(None)


# ------------------------------------------------------------------ the rule

def l03(chk):
    chk.rule('in the value left by every constructor, setter, collection operation, conversion, decoder and replay step of '
             'every state type, each state child carries the runtime of its parent nested under its own tag, index or key '
             '(loops by induction over the collection they build)')
    chk.rule('a type whose values are not re-rooted when they move (wire type Varint) keeps no runtime; Runtime::nested, '
             'parent and sibling address the child, the parent and the sibling and keep the logger')
    types, rest = state_types()
    guarded(chk, 'Runtime', runtimes, chk, types[0])
    for prog, impl, own in rest:
        guarded(chk, own, forwarding, chk, prog, impl, own)
    for ty in types:
        if ty.kind:
            chk.count('state types')
            guarded(chk, ty.own, l03_type, chk, ty)
    chk.floor('state types', 19)
    chk.floor('functions', 180)
    chk.floor('children placed', 300)


def check_value(chk, r, s, v, exp, what):
    p = Places(r, s)
    p.start()
    p.object(s, r.ty, v, exp, r.ty.head)
    chk.count('children placed', p.children)
    badp = [m for d, m in p.problems if d]
    if badp:
        return chk.bad(what + ':place', '%s: %s' % (what, badp[0]), sp_of(r))
    if p.problems:
        return chk.unknown(what, p.problems[0][1])
    return chk.ok()


def l03_type(chk, ty):
    wt = own_wire(ty.prog, ty.own)
    if wt is not None and wt.op == 'adt' and wt.a[1] == varint_discr():
        chk.bad(ty.own + ':wire', '%s has a place of its own, but its wire type says that it has none' % ty.own, ty.impl.get('span', ty.own))
    else:
        chk.ok()
    subj = [('%s::%s' % (ty.head, n), n, b) for n, b, vis in methods(ty)]
    for tr, n, b in trait_fns(ty):
        if (tr, n) in (('State', 'with_runtime'), ('State', 'set_runtime'), ('State', 'handle'), ('State', 'handle_update'),
                       ('Deserialize', 'merge'), ('Default', 'default'), ('FromIterator', 'from_iter'), ('From', 'from'),
                       ('Extend', 'extend')):
            subj.append(('<%s as %s>::%s' % (ty.own, tr, n), n, b))
    for tr, n in (('State', 'handle_update'),):
        b = item(ty.prog, ty.impl, n)
        if b is not None and not any(b is x[2] for x in subj):
            subj.append(('<%s as %s>::%s' % (ty.own, tr, n), n, b))
    for what, n, b in subj:
        m = takes_self(ty, b)
        if m == 'ref':
            continue
        for v in range(len(ty.variants) if m else 1):
            r = guarded(chk, what, L.run, ty, b, v, newrt=True)
            if r is None:
                continue
            chk.saw(r.ip, r.outs)
            chk.count('functions')
            for k, s, val in r.outs:
                if k != 'ret':
                    continue
                w = what + ('' if len(ty.variants) < 2 or not m else ' on ' + ty.variants[v]['name'])
                if m == 'mut':
                    exp = r.newrt if r.newrt is not None else r.base
                    fin = final_self(r, s)
                    if fin is None or fin.op != 'adt':
                        chk.unknown(w, 'final value %s' % str(fin)[:80])
                        continue
                    guarded(chk, w, check_value, chk, r, s, fin, exp, w)
                else:
                    val = r.ip.deep(s, val)
                    while val.op == 'adt' and last(val.a[0]) in ('Result', 'Option') and val.a[1] == (0 if last(val.a[0]) == 'Result' else 1):
                        val = val.a[2]
                    if val.op == 'adt' and val.a[0] == ty.adt:
                        guarded(chk, w, check_value, chk, r, s, val, r.newrt, w)


def forwarding(chk, prog, impl, own):
    """types without a runtime of their own"""
    if placeless(prog, impl, own):
        chk.count('placeless types')
        return chk.ok()
    # a wrapper: with_runtime and set_runtime hand the runtime on unchanged
    good = 0
    for n in ('with_runtime', 'set_runtime'):
        b = item(prog, impl, n)
        ip, a, outs = analyse(prog, b, LogVoc(own), progs=World.get().progs)
        for k, s, v in outs:
            if k != 'ret':
                continue
            if n == 'with_runtime':
                v = ip.deep(s, v)
                ok_ = v.op == 'app' and v.a[0] == 'NEW' and v.a[2] is a[0]
            else:
                ev = [e for e in s.trace() if e[0] == 'set_runtime']
                ok_ = len(ev) == 1 and ip.deep(s, ev[0][2]) is a[1]
            if not ok_:
                return chk.bad(own + ':' + n, '%s::%s does not hand the runtime on to the value inside' % (own, n), b.sig())
            good += 1
            chk.ok()
    wt = own_wire(prog, own)
    chk.count('wrappers')


def runtimes(chk, ty):
    w = World.get()
    ip = E.Interp(budget=20000)
    ip.progs = w.progs
    s = E.State()
    R = ip.typed(sym('R'), ty.prog, ty.rtty)
    base = ip.expand(s, R)
    tag = sym('tag')
    UNSIGNED.add(tag)
    fs = World_fields()
    lg = [x for f, x in zip(fs, base.a[2:]) if f != 'path']

    def check(name, rt, want):
        chk.count('runtime constructors')
        rt = ip.expand(s, rt)
        if rt.op != 'adt':
            return chk.unknown(name, str(rt)[:100])
        for f, x in zip(fs, rt.a[2:]):
            if f == 'path':
                got = path_of(x)
                if got is not want:
                    b = w.steit.find1('Runtime', name)
                    if got is None:
                        return chk.unknown(name, 'path %s' % str(x)[:80])
                    return chk.bad('Runtime::%s:path' % name, 'Runtime::%s addresses %s instead of %s' % (name, got, want), b.sig())
            elif x is not [y for g, y in zip(fs, base.a[2:]) if g == f][0]:
                return chk.bad('Runtime::%s:logger' % name, 'Runtime::%s changes the logger' % name,
                               w.steit.find1('Runtime', name).sig())
        return chk.ok()
    own = None
    for f, x in zip(fs, base.a[2:]):
        if f == 'path':
            own = path_of(x)
    child = nested(ip, s, base, tag)
    check('nested', child, push_(own, tag))
    check('parent', runtime_fn(ip, 'parent', s, child), own)
    t2 = sym('tag2')
    UNSIGNED.add(t2)
    check('sibling', runtime_fn(ip, 'sibling', s, child, t2), push_(own, t2))
