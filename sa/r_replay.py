"""L05, L07, L08: what replaying a log does to a value."""
from lab import *
import lab as L
from r_log import sp_of, events
from r_de import reader_of

FORCED = ('State::handle_update', 'Deserialize::merge', 'State::handle')


def discr(x):
    return T('discr', x)


def kinds():
    p = World.get().steit
    for n, a in p.adts.items():
        if last(n) == 'LogEntryKind':
            return {v['name']: int(v['discr']) for v in a['variants']}
    return {}


def split(s, c):
    """the worlds in which a condition holds and does not"""
    d = s.decide(c)
    if d is not None:
        return [(d, s)]
    out = []
    for v in (True, False):
        n = s.copy()
        if n.assume(c, v) is not False:
            out.append((v, n))
    return out


def result(s, v):
    """'ok' | 'err' | None of a Result term"""
    if v.op == 'adt' and last(v.a[0]) == 'Result':
        return 'ok' if v.a[1] == 0 else 'err'
    d = s.decide(EQ(discr(v), I(0)))
    return None if d is None else 'ok' if d else 'err'


class Step:
    """one State::handle call against the meaning of the entry, in every world the path stands for"""

    def __init__(self, chk, r, what):
        self.chk, self.r, self.what = chk, r, what
        self.ty = getattr(r, 'ty', None)
        a = r.args
        self.path, self.kind, self.key, self.reader = a[1], a[2], a[3], a[4]
        self.K = kinds()

    # ------------------------------------------------------- the meaning
    def by_kind(self, s, table, rest):
        out = []
        todo = [s]
        for name, fn in table:
            if name not in self.K:
                raise Unknown('no entry kind ' + name)
            nxt = []
            for st in todo:
                for d, n in split(st, EQ(discr(self.kind), I(self.K[name]))):
                    if d:
                        out += fn(n)
                    else:
                        nxt.append(n)
            todo = nxt
        for st in todo:
            others = [k for k in self.K if k not in [t[0] for t in table]]
            for k in others:
                for d, n in split(st, EQ(discr(self.kind), I(self.K[k]))):
                    if d:
                        out += rest(n)
        return out

    def at(self, i):
        return mk_elem(self.path, I(i), None) if False else T('elem', self.path, I(i))

    def worlds(self, s):
        """(state, what should happen)"""
        ty = self.ty
        out = []
        err = lambda why: (lambda n: [(n, ('err', why))])  # noqa
        for end, n in split(s, EQ(mk_len(self.path), I(0))):
            if end:
                upd = ('Update', lambda n: [(n, ('update',))])
                un = err('the kind is not one %s supports' % (ty.own if ty else 'it'))
                if ty is not None and ty.kind == 'list':
                    out += self.by_kind(n, [upd, ('ListPush', lambda n: [(n, ('push',))]), ('ListPop', self.pop)], un)
                elif ty is not None and ty.kind == 'map':
                    out += self.by_kind(n, [upd, ('MapRemove', self.remove)], un)
                else:
                    out += self.by_kind(n, [upd], un)
                continue
            if ty is None:
                out.append((n, ('err', 'a plain value has no parts')))
            elif ty.kind == 'list':
                items = self.r.init.a[2 + ty.variants[0]['users'][0][0]]
                for inb, m in split(n, LT(self.at(0), mk_len(items))):
                    if inb:
                        out.append((m, ('child', ty.variants[0]['users'][0][0], T('elem', items, self.at(0)), 1)))
                    else:
                        out.append((m, ('err', 'the list has no such item')))
            elif ty.kind == 'map':
                es = self.r.init.a[2 + ty.variants[0]['users'][0][0]]
                for has, m in split(n, T('bvar', 'has', es, self.at(0))):
                    if has:
                        out.append((m, ('child', ty.variants[0]['users'][0][0], T('mget', es, self.at(0)), 1)))
                    else:
                        out += self.by_kind(m, [('Update', self.put)], err('the map has no such key'))
            elif ty.kind == 'struct':
                out += self.fields(n, self.r.init.a[1], 0)
            elif ty.kind == 'enum':
                cur = self.r.init.a[1]
                for d, m in split(n, EQ(self.at(0), I(ty.variants[cur]['tag']))):
                    if not d:
                        out.append((m, ('err', 'the variant is not the current one')))
                        continue
                    for e, q in split(m, EQ(mk_len(self.path), I(1))):
                        if e:
                            out.append((q, ('err', 'a variant alone cannot be changed')))
                        else:
                            out += self.fields(q, cur, 1)
            else:
                raise Unknown('kind ' + str(ty.kind))
        return out

    def fields(self, s, v, depth):
        out = []
        todo = [s]
        for f in self.ty.variants[v]['fields']:
            nxt = []
            for st in todo:
                for d, n in split(st, EQ(self.at(depth), I(f['tag']))):
                    if not d:
                        nxt.append(n)
                    elif f['state']:
                        out.append((n, ('child', f['i'], self.r.init.a[2 + f['i']], depth + 1)))
                    else:
                        out.append((n, ('ignore', f['name'])))
            todo = nxt
        return out + [(n, ('err', 'there is no such field')) for n in todo]

    def pop(self, s):
        items = self.r.init.a[2 + self.ty.variants[0]['users'][0][0]]
        out = []
        for e, n in split(s, EQ(mk_len(items), I(0))):
            out.append((n, ('err', 'the list is empty') if e else ('pop',)))
        return out

    def remove(self, s):
        es = self.r.init.a[2 + self.ty.variants[0]['users'][0][0]]
        k = T('vf', self.key, 1, 0)
        out = []
        for none, n in split(s, EQ(discr(self.key), I(0))):
            if none:
                out.append((n, ('err', 'the entry has no key')))
                continue
            for has, m in split(n, T('bvar', 'has', es, k)):
                out.append((m, ('rm', k) if has else ('err', 'the map has no such key')))
        return out

    def put(self, s):
        k = self.at(0)
        out = []
        kt = self.ty.own[self.ty.own.index('<') + 1:].split(',')[0].strip()
        for one, n in split(s, EQ(mk_len(self.path), I(1))):
            if not one:
                out.append((n, ('err', 'the map has no such key')))
                continue
            for small, m in split(n, LT(k, I(1 << 29))):
                if not small:
                    out.append((m, ('err', 'the key is no field number')))
                    continue
                for good, q in split(m, EQ(discr(T('app', 'MapKey::try_from_field_number', kt, k)), I(0))):
                    out.append((q, ('put', k) if good else ('err', 'the key is none of the map\'s key type')))
        return out

    # ------------------------------------------------------- what happens
    def check(self, k, s, v):
        chk = self.chk
        for st, want in self.worlds(s):
            chk.count('entries')
            guarded(chk, self.what, self.world, k, st, v, want)

    def bad(self, key, msg):
        return self.chk.bad(self.what + ':' + key, '%s: %s' % (self.what, msg), sp_of(self.r))

    def where(self, s):
        l = []
        n = 0
        while s.decide(EQ(mk_len(self.path), I(n))) is False and n < 3:
            n += 1
        d = s.decide(EQ(mk_len(self.path), I(0)))
        l.append('an entry for the value itself' if d else 'an entry for something below it')
        for name, x in self.K.items():
            if s.decide(EQ(discr(self.kind), I(x))) is True:
                l.append('of kind ' + name)
        return ' '.join(l)

    def world(self, k, s, v, want):
        chk, r = self.chk, self.r
        if k == 'panic':
            if v is not None and v[0] == 'assert':
                return
            return self.bad('panic', '%s panics' % self.where(s))
        ev = list(events(s.trace()))
        if any(e[0] == 'opaque' for e in ev):
            return chk.unknown(self.what, 'calls something unknown')
        res = result(s, r.ip.deep(s, v))
        fails = [e for e in ev if e[0] == 'io-fail']
        fin = self.final(s)
        same_ = self.unchanged(s, fin)
        if res is None:
            return chk.unknown(self.what, 'result %s' % str(v)[:80])
        if want[0] == 'err':
            if res == 'ok':
                return self.bad('accepts', '%s is accepted, though %s' % (self.where(s), want[1]))
            if same_ is False:
                return self.bad('rejected', '%s is rejected (%s), but the value is changed' % (self.where(s), want[1]))
            return chk.ok() if same_ else chk.unknown(self.what, 'value after a rejected entry: %s' % str(fin)[:80])
        if want[0] == 'ignore':
            if res == 'err':
                return self.bad('refuses', '%s, addressed to %s, which is not tracked, is not ignored but fails' % (self.where(s), want[1]))
            if same_ is False:
                return self.bad('untracked', '%s, addressed to %s, which is not tracked, changes the value' % (self.where(s), want[1]))
            return chk.ok() if same_ else chk.unknown(self.what, 'value after an ignored entry')
        if fails:
            if res == 'ok':
                return self.bad('swallow', '%s: a failure of %s is reported as success' % (self.where(s), fails[0][1]))
            return chk.ok()
        if res == 'err':
            return self.bad('refuses', '%s is rejected, though it should be applied (%s)' % (self.where(s), want[0]))
        d, got = getattr(self, 'did_' + want[0])(s, fin, ev, *want[1:])
        if d is True:
            return chk.ok()
        if d is None or not definite(fin):
            return chk.unknown(self.what, got)
        if got.startswith('becomes') and same_ is True:
            return self.bad('nothing', '%s is accepted, but changes nothing' % self.where(s))
        return self.bad(want[0], '%s: %s' % (self.where(s), got))

    def final(self, s):
        return final_self(self.r, s) if self.ty is not None else self.r.final(s)

    def unchanged(self, s, fin):
        if self.ty is None:
            x = content(fin)
            return True if x is content(self.r.init) else False if definite(x) else None
        if fin is None or fin.op != 'adt':
            return False if fin is not None and fin.op == 'app' and fin.a[0] in ('UPDATED', 'MG', 'HANDLED', 'NEW', 'DEF') else None
        return contents_same(Contents(self.ty, self.r.init), Contents(self.ty, fin), s)

    def reads(self, e, i):
        """the event reads from the reader this function was given"""
        x = e[i] if len(e) > i else None
        if x is None:
            return None
        while x.op in ('deref', 'ref') and isinstance(x.a[0], Term):
            x = x.a[0]
        return x is self.reader or (x.op == 'ref' and x.a[0] == ('P', self.reader)) or str(x).lstrip('*&') == str(self.reader)

    def did_update(self, s, fin, ev):
        x = fin
        while x.op == 'app' and x.a[0] == 'AT':
            x = x.a[1]
        own = self.r.init
        us = [e for e in ev if e[0] == 'handle_update']
        ms = [e for e in ev if e[0] in ('merge', 'merge_nested')]
        if x.op == 'app' and x.a[0] == 'UPDATED':
            if x.a[1] is not own and content(x.a[1]) is not content(own):
                return None, 'updates %s' % str(x.a[1])[:80]
            if len(us) != 1:
                return False, 'the update is applied %d times' % len(us)
            if self.reads(us[0], 6) is not True:
                return None, 'update reads %s' % str(us[0][6])[:80]
            return True, ''
        if x.op == 'app' and x.a[0] == 'MG':
            y = content(x.a[1])
            if y.op == 'app' and y.a[0] in ('NEW', 'DEF') and len(ms) == 1:
                return True, ''
            if contains(y, lambda z: z is content(own)) or y is content(own):
                return False, 'the new value is merged into the old one'
        return False if x is own or x.op == 'adt' else None, 'becomes %s' % str(fin)[:120]

    def main(self, fin):
        return Contents(self.ty, fin)

    def did_push(self, s, fin, ev):
        if fin.op != 'adt':
            return None, 'value %s' % str(fin)[:80]
        ms = [e for e in ev if e[0] in ('merge', 'merge_nested')]
        before, after = Contents(self.ty, self.r.init), Contents(self.ty, fin)
        for e in ms:
            x = T('app', 'MG', content(e[2]), e[4])
            c = before.copy()
            c.set_main(T('push', before.main(), x))
            if e[0] == 'merge' and fresh(e[2]) and contents_same(c, after, s) is True:
                return (True, '') if self.reads(e, 3) else (None, 'reads %s' % str(e[3])[:80])
        return False, 'becomes %s' % after.text()

    def did_pop(self, s, fin, ev):
        if fin.op != 'adt':
            return None, 'value %s' % str(fin)[:80]
        before, after = Contents(self.ty, self.r.init), Contents(self.ty, fin)
        c = before.copy()
        c.set_main(T('rmlast', before.main()))
        d = contents_same(c, after, s)
        return d, 'becomes %s' % after.text()

    def did_rm(self, s, fin, ev, key):
        if fin.op != 'adt':
            return None, 'value %s' % str(fin)[:80]
        before, after = Contents(self.ty, self.r.init), Contents(self.ty, fin)
        c = before.copy()
        c.set_main(T('mrm', before.main(), key))
        return contents_same(c, after, s), 'becomes %s' % after.text()

    def did_put(self, s, fin, ev, key):
        if fin.op != 'adt':
            return None, 'value %s' % str(fin)[:80]
        before, after = Contents(self.ty, self.r.init), Contents(self.ty, fin)
        for e in [e for e in ev if e[0] == 'merge']:
            c = before.copy()
            c.set_main(T('mins', before.main(), key, T('app', 'MG', content(e[2]), e[4])))
            if fresh(e[2]) and contents_same(c, after, s) is True:
                return (True, '') if self.reads(e, 3) else (None, 'reads %s' % str(e[3])[:80])
        return False, 'becomes %s' % after.text()

    def did_child(self, s, fin, ev, i, child, depth):
        hs = [e for e in ev if e[0] in ('handle', 'handle_update', 'merge', 'merge_nested')]
        if fin.op != 'adt' or fin.a[0] != self.ty.adt:
            return None, 'value %s' % str(fin)[:80]
        if not hs:
            return False, 'becomes something without the entry being handed on'
        if len(hs) > 1 or hs[0][0] != 'handle':
            return None, 'several steps'
        e = hs[0]
        if same(content(e[2]), content(child), s) is not True:
            d = same(content(e[2]), content(child), s)
            return d, 'the entry is handed to %s instead of %s' % (str(e[2])[:80], str(child)[:80])
        p = self.rest(e[3])
        if p is None:
            return None, 'path %s' % str(e[3])[:80]
        if p != depth:
            return False, 'the entry is handed on with %d leading path elements dropped instead of %d' % (p, depth)
        for x, y, n in ((e[4], self.kind, 'kind'), (e[5], self.key, 'key')):
            if same(x, y, s) is not True and s.decide(EQ(discr(x), discr(y))) is not True:
                return same(x, y, s), 'the entry is handed on with another %s' % n
        if e[5] is not self.key and same(e[5], self.key, s) is not True:
            return None, 'key %s' % str(e[5])[:60]
        if self.reads(e, 9) is not True:
            return None, 'reader %s' % str(e[9])[:60]
        before, after = Contents(self.ty, self.r.init), Contents(self.ty, fin)
        x = T('app', 'HANDLED', content(e[2]), *[content(y) for y in (e[3], e[4], e[5], e[6])])
        c = before.copy()
        if self.ty.kind == 'list':
            c.set_main(E.mk_upd(before.main(), self.at(0), x, s))
        elif self.ty.kind == 'map':
            c.set_main(T('mins', before.main(), self.at(0), x))
        else:
            c.d[i] = x
        return contents_same(c, after, s), 'becomes %s' % after.text()

    def rest(self, p):
        """number of leading elements dropped from the path"""
        if p is self.path:
            return 0
        if p.op == 'it' and p.a[0] in ('seq', 'own') and p.a[1] is self.path and p.a[2].op == 'int':
            if len(p.a) > 3 and p.a[3] is not mk_len(self.path):
                return None
            return p.a[2].a[0]
        if p.op == 'it' and p.a[0] == 'skip' and p.a[2].op == 'int':
            n = self.rest(p.a[1])
            return None if n is None else n + p.a[2].a[0]
        return None


def fresh(x):
    x = content(x)
    return x.op == 'app' and x.a[0] in ('NEW', 'DEF')


def voc(own, force=FORCED):
    return LogVoc(own, force=force, off=('State::is_root',))


def body_of(prog, impl, n):
    return item(prog, impl, n) or World.get().steit.trait_default('State', n)


def l05(chk):
    chk.rule('in every world a path through State::handle stands for (path used up or not; next path element equal to each '
             'tag, in bounds, present; entry kind), the value left and the result are those of applying the entry: exactly '
             'the addressed child gets the rest of the path with kind, key and data, an update replaces, a push appends, a '
             'pop or removal takes away, an untracked field is ignored, everything else fails and changes nothing')
    types, rest = state_types()
    for ty in types:
        b = item(ty.prog, ty.impl, 'handle')
        what = '<%s as State>::handle' % ty.own
        if b is None:
            chk.unknown(what, 'no body')
            continue
        chk.count('handle implementations')
        for v in range(len(ty.variants)):
            w = what + ('' if len(ty.variants) < 2 else ' on ' + ty.variants[v]['name'])
            r = guarded(chk, w, L.run, ty, b, v, voc=voc(ty.own, FORCED[:2]))
            if r is None:
                continue
            chk.saw(r.ip, r.outs)
            st = Step(chk, r, w)
            for k, s, val in r.outs:
                guarded(chk, w, st.check, k, s, val)
    for prog, impl, own in rest:
        b = item(prog, impl, 'handle')
        what = '<%s as State>::handle' % own
        if b is None:
            chk.unknown(what, 'no body')
            continue
        chk.count('handle implementations')
        guarded(chk, what, plain, chk, prog, impl, own, b, what)
    chk.floor('handle implementations', 29)
    chk.floor('entries', 250)


class Plain:
    """a run on a value without parts"""

    def __init__(self, prog, body, own, vc):
        self.body = body
        self.ip, a, self.outs = analyse(prog, body, vc, progs=World.get().progs)
        self.args = a
        self.init = None

    def final(self, s):
        x = self.ip.load(s, ref(('P', self.args[0])))
        return self.ip.deep(s, x)


def plain(chk, prog, impl, own, b, what):
    r = Plain(prog, b, own, voc(own, FORCED[:2]))
    chk.saw(r.ip, r.outs)
    r.init = r.ip.deep(E.State(), r.ip.load(E.State(), ref(('P', r.args[0]))))
    if placeless(prog, impl, own):
        st = Step(chk, r, what)
        for k, s, v in r.outs:
            guarded(chk, what, st.check, k, s, v)
        return
    wrapper(chk, r, what)


def wrapper(chk, r, what):
    """hands the whole entry on to the value inside"""
    st = Step(chk, r, what)
    for k, s, v in r.outs:
        if k != 'ret':
            continue
        chk.count('entries')
        ev = list(events(s.trace()))
        hs = [e for e in ev if e[0] in ('handle', 'handle_update', 'merge')]
        res = result(s, r.ip.deep(s, v))
        if len(hs) != 1 or hs[0][0] != 'handle':
            if any(e[0] == 'opaque' for e in ev):
                chk.unknown(what, 'opaque')
            else:
                chk.bad(what + ':forward', '%s does not hand the entry on to the value inside' % what, r.body.sig())
            continue
        e = hs[0]
        p = st.rest(e[3])
        f = any(x[0] == 'io-fail' for x in ev)
        if p == 0 and e[4] is st.kind and e[5] is st.key and st.reads(e, 9) and res == ('err' if f else 'ok'):
            chk.ok()
        elif p not in (0, None) or definite(e[4], e[5]) and (e[4] is not st.kind or e[5] is not st.key) or \
                res is not None and (res == 'err') != f:
            chk.bad(what + ':forward', '%s hands on another entry or another result' % what, r.body.sig())
        else:
            chk.unknown(what, 'forwarding')


# ------------------------------------------------------------------ L07

def l07(chk):
    chk.rule('State::replay on every type and starting variant: on a value whose node is not the root, an error, nothing read '
             'and nothing changed; on one whose node is the root, each round of the loop reads one entry unless the input is '
             'exhausted and hands exactly that entry (kind, path, key, data) to State::handle once; the loop is left only at '
             'the end of the input, with Ok, or at the first failure, with Err')
    chk.rule('State::is_root is true exactly on roots, for enums and boxed values as well')
    types, rest = state_types()
    for ty in types:
        guarded(chk, ty.own, l07_type, chk, ty)
    for prog, impl, own in rest:
        if placeless(prog, impl, own):
            continue
        what = '<%s as State>::is_root' % own
        b = body_of(prog, impl, 'is_root')
        ip, a, outs = analyse(prog, b, LogVoc(own), progs=World.get().progs)
        chk.saw(ip, outs)
        chk.count('root tests')
        for k, s, v in outs:
            if k != 'ret':
                continue
            v = ip.deep(s, v)
            if v.op == 'bvar' and v.a[0] == 'ISROOT' and not s.cond_list():
                chk.ok()
            elif definite(v):
                chk.bad(what + ':forward', '%s does not ask the value inside, whose own place need not be that of its runtime '
                        '(an enum\'s runtime is that of its variant)' % what, b.sig())
            else:
                chk.unknown(what, str(v)[:80])
    chk.floor('root tests', 40)
    chk.floor('replays', 40)
    chk.floor('rounds', 80)


def l07_type(chk, ty):
    for v in range(len(ty.variants)):
        for place in ('root', 'child'):
            suffix = '' if len(ty.variants) < 2 else ' on ' + ty.variants[v]['name']
            what = 'is_root of %s%s' % (ty.own, suffix)
            b = body_of(ty.prog, ty.impl, 'is_root')
            r = guarded(chk, what, L.run, ty, b, v, voc=voc(ty.own), place=place)
            if r is not None:
                chk.saw(r.ip, r.outs)
                chk.count('root tests')
                for k, s, val in r.outs:
                    d = s.decide(r.ip.deep(s, val)) if k == 'ret' else None
                    if d is None:
                        chk.unknown(what, str(val)[:80])
                    elif d is not (place == 'root'):
                        chk.bad(what, '%s says %s on %s' % (what, str(d).lower(), 'a root' if place == 'root' else
                                                           'a value that is not a root'), b.sig())
                    else:
                        chk.ok()
            what = 'replay of %s%s' % (ty.own, suffix)
            b = body_of(ty.prog, ty.impl, 'replay')
            r = guarded(chk, what, L.run, ty, b, v, voc=voc(ty.own), place=place)
            if r is None:
                continue
            chk.saw(r.ip, r.outs)
            chk.count('replays')
            for k, s, val in r.outs:
                if k != 'ret':
                    if val is None or val[0] != 'assert':
                        chk.bad(what + ':panic', '%s panics' % what, b.sig())
                    continue
                guarded(chk, what, refused if place == 'child' else replayed, chk, r, s, val, what)


READS = ('eof', 'merge', 'merge_nested', 'read_exact', 'read_all', 'skip', 'read')




def refused(chk, r, s, v, what):
    ev = list(events(s.trace()))
    if any(e[0] == 'opaque' for e in ev):
        return chk.unknown(what, 'opaque')
    res = result(s, r.ip.deep(s, v))
    if res == 'ok' or any(e[0] in READS + ('handle', 'handle_update') for e in ev):
        return chk.bad(what + ':child', '%s, which is not the root of its tree, is not refused up front' % what, sp_of(r))
    fin = final_self(r, s)
    if fin is not r.init:
        d = contents_same(Contents(r.ty, r.init), Contents(r.ty, fin), s)
        if d is not True:
            return chk.bad(what + ':changed', '%s is refused but changes the value' % what, sp_of(r)) if d is False \
                else chk.unknown(what, 'changed')
    return chk.ok() if res == 'err' else chk.unknown(what, 'result')


def replayed(chk, r, s, v, what):
    tr = s.trace()
    ev = list(events(tr))
    if any(e[0] in ('opaque', 'top') for e in ev):
        return chk.unknown(what, 'opaque')
    res = result(s, r.ip.deep(s, v))
    loops = [e for e in tr if e[0] == 'loop']
    if not loops:
        if res == 'err' and not any(e[0] == 'io-fail' for e in ev):
            return chk.bad(what + ':root', '%s, the root of its tree, is refused' % what, sp_of(r))
        if res == 'ok':
            return chk.bad(what + ':once', '%s succeeds without having read its whole input' % what, sp_of(r)) \
                if not eofs(s, tr) else chk.ok()
        return chk.ok()
    if len(loops) > 1:
        return chk.unknown(what, 'several loops')
    for it in loops[0][4]:
        chk.count('rounds')
        guarded(chk, what, one_round, chk, r, s, it[0], it[1], what)
    tail = tr[tr.index(loops[0]) + 1:]
    fails = [e for e in tail if e[0] == 'io-fail']
    if res == 'ok':
        if fails:
            return chk.bad(what + ':swallow', '%s reports success although %s failed' % (what, fails[0][1]), fails[0][3])
        first = next((e for e in ev if e[0] == 'eof'), None)
        if not eofs(s, tail, reader_of(first) if first else None):
            return chk.bad(what + ':early', '%s stops with success before the end of the input' % what, sp_of(r))
        hs = [e for e in tail if e[0] == 'handle']
        if hs:
            return chk.unknown(what, 'entries after the loop')
        return chk.ok()
    if res == 'err':
        if not fails:
            return chk.bad(what + ':refuses', '%s stops with an error although nothing failed' % what, sp_of(r))
        after = tail[tail.index(fails[0]) + 1:]
        if any(e[0] == 'handle' for e in after):
            return chk.bad(what + ':goes-on', '%s applies further entries after %s failed' % (what, fails[0][1]), fails[0][3])
        return chk.ok()
    return chk.unknown(what, 'result')


def eofs(s, tr, main=None):
    """the last test for the end of the input (of `main`, not of what was read from it) answered yes"""
    for e in reversed(tr):
        if e[0] == 'eof' and (main is None or reader_of(e) is main):
            return s.decide(T('bvar', 'EOF', e[2])) is True
    return False


def one_round(chk, r, s0, conds, tr, what):
    s = E.State()
    for c in conds:
        if isinstance(c, Term):
            s.assume(c)
    ev = list(tr)
    if any(e[0] == 'loop' for e in ev):
        return chk.unknown(what, 'nested loop')
    if any(e[0] == 'io-fail' for e in ev):
        f = [e for e in ev if e[0] == 'io-fail'][0]
        return chk.bad(what + ':swallow', '%s goes on after %s failed' % (what, f[1]), f[3])
    rd = [e for e in ev if e[0] in ('merge', 'merge_nested')]
    hs = [e for e in ev if e[0] == 'handle']
    if len(rd) != 1 or last(str(rd[0][1])) != 'LogEntry' or rd[0][0] != 'merge_nested':
        return chk.unknown(what, 'reads %s' % [str(e[1]) for e in rd])
    n, a = entry_adt()
    entry = T('app', 'MN', rd[0][2], rd[0][3], rd[0][5])
    if len(hs) != 1:
        return chk.bad(what + ':count', '%s hands an entry it has read to State::handle %d times' % (what, len(hs)), rd[0][6])
    if ev.index(hs[0]) < ev.index(rd[0]):
        return chk.unknown(what, 'order')
    h = hs[0]
    x = h[2]
    if x.op == 'phi':
        init, ups, backs = r.ip.phis.get(x, (None, None, None))
        if ups is not None and not all(u.op == 'app' and u.a[0] == 'HANDLED' and u.a[1] is x for u in
                                       [r.ip.deep(b_, u_) for u_, b_ in fix(ups, backs)]):
            return chk.unknown(what, 'value between entries')
    which = None
    for i, vd in enumerate(a['variants']):
        d = s.decide(EQ(discr(entry), I(int(vd['discr']))))
        if d is True:
            which = i
    if which is None:
        left = [i for i, vd in enumerate(a['variants']) if s.decide(EQ(discr(entry), I(int(vd['discr'])))) is not False]
        if len(left) != 1:
            return chk.unknown(what, 'kind of the entry read')
        which = left[0]
    vd = a['variants'][which]
    kn = vd['name']
    fs = vd['fields']

    def f(name):
        return T('vf', entry, which, fs.index(name))
    k = h[4]
    p = World.get().steit
    ka = [x for nm, x in p.adts.items() if last(nm) == 'LogEntryKind'][0]
    if k.op == 'adt' and last(k.a[0]) == 'LogEntryKind':
        if ka['variants'][k.a[1]]['name'] != kn:
            return chk.bad(what + ':kind:' + kn, '%s replays a %s entry as %s' % (what, kn, ka['variants'][k.a[1]]['name']), h[7])
    else:
        return chk.unknown(what, 'kind %s' % str(k)[:60])
    pt = h[3]
    want = f('path')
    if not (pt is want or pt.op == 'it' and pt.a[1] is want and pt.a[2] is I(0) and (len(pt.a) < 4 or pt.a[3] is mk_len(want))):
        if contains(pt, lambda z: z is want):
            if pt.op == 'it' and (pt.a[1] is want or pt.a[0] in ('rev', 'skip', 'take')):
                return chk.bad(what + ':path:' + kn, '%s replays a %s entry at another path than its own' % (what, kn), h[7])
            return chk.unknown(what, 'path %s' % str(pt)[:80])
        return chk.bad(what + ':path:' + kn, '%s replays a %s entry at %s instead of its path' % (what, kn, str(pt)[:80]), h[7]) \
            if definite(pt) else chk.unknown(what, 'path')
    af = KINDS[kn][1]
    if af == 'key':
        key = h[5]
        if not (key.op == 'adt' and key.a[1] == 1 and key.a[2] is f('key')):
            return chk.bad(what + ':key:' + kn, '%s replays a %s entry with the key %s' % (what, kn, str(key)[:60]), h[7]) \
                if definite(key) else chk.unknown(what, 'key')
    elif af in ('value', 'item'):
        src = h[9] if len(h) > 9 else None
        while src is not None and (src.op == 'adt' and len(src.a) == 3 or src.op == 'app' and src.a[0] == 'EOFW'):
            src = src.a[2] if src.op == 'adt' else src.a[1]
        want = f(af)
        y = src
        while y is not None and y is not want and y.op in ('fld', 'elem', 'slice') and isinstance(y.a[0], Term):
            if y.op == 'slice':
                return chk.unknown(what, 'part of the data')
            y = y.a[0]
        if y is not want:
            return chk.bad(what + ':data:' + kn, '%s replays a %s entry with other data (%s) than its own' % (what, kn, str(src)[:80]), h[7]) \
                if src is not None and definite(src) else chk.unknown(what, 'data %s' % str(src)[:80])
    return chk.ok()


def fix(ups, backs):
    """(back value, state) pairs in either order of storage"""
    out = []
    for u, b in zip(ups, backs):
        out.append((b, u) if isinstance(b, Term) else (u, b))
    return out


# ------------------------------------------------------------------ L08

def l08(chk):
    chk.rule('State::handle_update of every type and starting variant: on success the value is one fresh value of the type, at '
             'the place the old one had, into which the data of the entry was merged once; nothing of the old contents remains')
    chk.rule('a fresh value at a place has the same contents as the default value, which omitted parts of an encoding stand for')
    types, rest = state_types()
    for ty in types:
        guarded(chk, ty.own, l08_type, chk, ty)
    for prog, impl, own in rest:
        b = body_of(prog, impl, 'handle_update')
        what = '<%s as State>::handle_update' % own
        chk.count('updates')
        r = guarded(chk, what, Plain, prog, b, own, voc(own, FORCED[:2] if not placeless(prog, impl, own) else FORCED[1:2]))
        if r is None:
            continue
        chk.saw(r.ip, r.outs)
        r.init = r.ip.deep(E.State(), r.ip.load(E.State(), ref(('P', r.args[0]))))
        for k, s, v in r.outs:
            if k == 'ret':
                guarded(chk, what, plain_update, chk, prog, impl, own, r, s, v, what)
    chk.floor('updates', 35)
    chk.floor('fresh values', 19)


def plain_update(chk, prog, impl, own, r, s, v, what):
    fin = content(r.final(s))
    ev = list(events(s.trace()))
    res = result(s, r.ip.deep(s, v))
    fails = [e for e in ev if e[0] == 'io-fail']
    if any(e[0] == 'opaque' for e in ev) or res is None:
        return chk.unknown(what, 'result or opaque call')
    if fails or res == 'err':
        if fails and res == 'ok':
            return chk.bad(what + ':swallow', '%s reports success although %s failed' % (what, fails[0][1]), fails[0][3])
        if not fails:
            return chk.bad(what + ':refuses', '%s fails though the data could be read' % what, r.body.sig())
        return chk.ok()
    if not placeless(prog, impl, own):
        us = [e for e in ev if e[0] in ('handle_update', 'merge')]
        if fin.op == 'app' and fin.a[0] == 'UPDATED' and len(us) == 1 or contains(fin, lambda x: x.op == 'app' and x.a[0] == 'UPDATED') and len(us) == 1:
            return chk.ok()
        return chk.bad(what + ':forward', '%s does not update the value inside' % what, r.body.sig()) \
            if definite(fin) else chk.unknown(what, str(fin)[:80])
    return merged(chk, fin, content(r.init), ev, what, r.body.sig())


def merged(chk, fin, init, ev, what, sp):
    ms = [e for e in ev if e[0] in ('merge', 'merge_nested')]
    if contains(fin, lambda x: x is init) and init.op != 'int':
        return chk.bad(what + ':left', '%s: something of the old value is left (%s)' % (what, str(fin)[:120]), sp) \
            if definite(fin) else chk.unknown(what, str(fin)[:80])
    x = fin
    if x.op == 'app' and x.a[0] == 'MG' and len(ms) == 1:
        y = x.a[1]
        if y.op == 'app' and y.a[0] in ('NEW', 'DEF') or y is I(0):
            return chk.ok()
        if y.op == 'adt':
            return chk.ok() if definite(y) else chk.unknown(what, str(y)[:80])
    if not ms and definite(fin):
        return chk.bad(what + ':ignores', '%s does not take the value from the entry (%s)' % (what, str(fin)[:80]), sp)
    return chk.unknown(what, 'value %s' % str(fin)[:120])


def l08_type(chk, ty):
    b = body_of(ty.prog, ty.impl, 'handle_update')
    for v in range(len(ty.variants)):
        what = 'handle_update of %s%s' % (ty.own, '' if len(ty.variants) < 2 else ' on ' + ty.variants[v]['name'])
        chk.count('updates')
        r = guarded(chk, what, L.run, ty, b, v, voc=voc(ty.own, ('Deserialize::merge', 'State::with_runtime')))
        if r is None:
            continue
        chk.saw(r.ip, r.outs)
        for k, s, val in r.outs:
            if k == 'panic' and (val is None or val[0] != 'assert'):
                chk.bad(what + ':panic', '%s panics' % what, b.sig())
            if k == 'ret':
                guarded(chk, what, updated, chk, r, s, val, what)
    fresh_value(chk, ty)


def updated(chk, r, s, v, what):
    from r_place import Places
    ev = list(events(s.trace()))
    res = result(s, r.ip.deep(s, v))
    fails = [e for e in ev if e[0] == 'io-fail']
    if any(e[0] == 'opaque' for e in ev) or res is None:
        return chk.unknown(what, 'result or opaque call')
    if res == 'err' or fails:
        if fails and res == 'ok':
            return chk.bad(what + ':swallow', '%s reports success although %s failed' % (what, fails[0][1]), fails[0][3])
        if not fails:
            return chk.bad(what + ':refuses', '%s fails though the data could be read' % what, sp_of(r))
        return chk.ok()
    fin = final_self(r, s)
    ms = [e for e in ev if e[0] in ('merge', 'merge_nested')]
    rt = None
    x = fin
    if x.op == 'app' and x.a[0] == 'AT':
        rt, x = x.a[2], x.a[1]
    old = [r.init.a[2 + i] for i, f, t in r.ty.variants[r.init.a[1]]['users']]
    cf = content(fin)
    if any(contains(cf, lambda z, o=content(o): z is o) for o in old):
        return chk.bad(what + ':left', '%s: something of the old value is left: %s' % (what, str(cf)[:160]), sp_of(r)) \
            if definite(cf) else chk.unknown(what, str(cf)[:80])
    if not (x.op == 'app' and x.a[0] == 'MG'):
        if not ms and definite(cf):
            return chk.bad(what + ':ignores', '%s does not take the value from the entry' % what, sp_of(r))
        if x.op == 'app' and x.a[0] in ('NEW', 'DEF'):
            return chk.bad(what + ':lost', '%s leaves a fresh value: the value of the entry is lost' % what, sp_of(r))
        return chk.unknown(what, 'value %s' % str(fin)[:120])
    if len(ms) != 1:
        return chk.unknown(what, '%d merges' % len(ms))
    y = x.a[1]
    if y.op == 'app' and y.a[0] == 'AT':
        rt = rt or y.a[2]
        y = y.a[1]
    if y.op == 'app' and y.a[0] == 'NEW':
        rt = rt or y.a[2]
        if y.a[1] not in (r.ty.own, 'Self'):
            return chk.unknown(what, 'a new %s' % y.a[1])
    elif y.op == 'app' and y.a[0] == 'DEF' and rt is None:
        return chk.bad(what + ':place', '%s: the new value is detached from the tree' % what, sp_of(r))
    elif y.op == 'adt':
        return chk.unknown(what, 'merged into %s' % str(y)[:80])
    if rt is None:
        return chk.unknown(what, 'place of %s' % str(y)[:80])
    p = Places(r, s)
    p.runtime_is(s, rt, r.base, 'the new value')
    for d, m in p.problems:
        return chk.bad(what + ':place', '%s: %s' % (what, m), sp_of(r)) if d else chk.unknown(what, m)
    return chk.ok()


def norm(x, memo=None):
    """fresh values of a type stand for its default"""
    x = content(x)

    def go(t):
        if not isinstance(t, Term) or t.op in ('int', 'str', 'sym'):
            return t
        if t.op == 'app' and t.a[0] == 'NEW':
            return T('app', 'DEF', t.a[1])
        if t.op == 'app' and t.a[0] == 'DEF' and str(t.a[1]).startswith(('Vec<', 'IndexMap<')):
            return T('arr') if str(t.a[1]).startswith('Vec<') else T('mempty')
        n = tuple(go(y) for y in t.a)
        return t if n == t.a else T(t.op, *n)
    return go(x)


def fresh_value(chk, ty):
    chk.count('fresh values')
    what = 'a fresh %s' % ty.own
    b = item(ty.prog, ty.impl, 'with_runtime')
    d = [x for tr, n, x in trait_fns(ty) if (tr, n) == ('Default', 'default')]
    if b is None or not d:
        return chk.unknown(what, 'no with_runtime or default')
    vals = []
    for body in (b, d[0]):
        r = L.run(ty, body)
        vs = [norm(r.ip.deep(s, v)) for k, s, v in r.outs if k == 'ret']
        chk.saw(r.ip, r.outs)
        if len(vs) != 1:
            return chk.unknown(what, '%d outcomes' % len(vs))
        vals.append(vs[0])
    x, y = vals
    if x.op != 'adt' or y.op != 'adt':
        return chk.unknown(what, '%s %s' % (str(x)[:60], str(y)[:60]))
    cx, cy = Contents(ty, x), Contents(ty, y)
    e = contents_same(cx, cy, E.State())
    if e is True:
        return chk.ok()
    if e is False:
        return chk.bad(ty.own + ':fresh', '%s: with_runtime makes %s, the default is %s' % (what, cx.text(), cy.text()), b.sig())
    return chk.unknown(what, '%s against %s' % (cx.text(), cy.text()))
