"""L01-L04, L06, L09, L12: what operations on state hand to the logger, and when."""
from lab import *
import lab as L

OPS_FLOOR = {'collection': 12, 'derived': 60}


def is_logfail(s):
    return any(e[0] == 'io-fail' and e[1] in ('log', 'log_multi') for e in s.trace())


def runs(chk, ty, kinds=('mut',), names=None):
    """every way of starting every operation of the type"""
    for name, b, vis in methods(ty):
        m = takes_self(ty, b)
        if m not in kinds:
            continue
        for v in range(len(ty.variants)):
            what = '%s::%s%s' % (ty.head, name, '' if len(ty.variants) < 2 else ' on ' + ty.variants[v]['name'])
            r = guarded(chk, what, L.run, ty, b, v)
            if r is None:
                continue
            r.what, r.name = what, name
            chk.saw(r.ip, r.outs)
            yield r


def sp_of(r):
    return r.body.sig()


def paths(chk, r, with_failures=False):
    """(kind, state, value, contents before, contents after, log) of the paths of a run"""
    for k, s, v in r.outs:
        if k == 'panic' and (v is None or v[0] == 'assert'):
            continue
        lf = is_logfail(s)
        if lf != with_failures:
            continue
        lg = logged(r, s)
        if r.self_mode == 'mut':
            fin = final_self(r, s)
        else:
            fin = r.init
        yield k, s, v, Contents(r.ty, r.init), Contents(r.ty, fin), lg


def replayed(ty, before, lg, own_path, st, skip=None):
    c = before
    for n, (en, sp) in enumerate(lg.entries):
        if n == skip:
            continue
        if isinstance(en, Exception):
            raise en
        c = apply(ty, c, en, own_path, st)
    return c


def own_path(r):
    p = None
    for f, x in zip(World_runtime_fields(r.ty), r.base.a[2:]):
        if f == 'path':
            p = path_of(x)
    return p


def World_runtime_fields(ty):
    p = World.get().steit
    for n, a in p.adts.items():
        if last(n) == 'Runtime':
            return a['variants'][0]['fields']
    return []


def exact(chk, r, k, s, before, after, lg):
    """the entries logged on a path are an exact account of the change made on it"""
    ty = r.ty
    if lg.unsure:
        return chk.unknown(r.what, lg.unsure)
    p = own_path(r)
    if p is None:
        return chk.unknown(r.what, 'own path')
    ent = '; '.join(en.text() if isinstance(en, Entry) else str(en) for en, sp in lg.entries) or 'nothing'
    where = (lg.entries[0][1] if lg.entries else None) or sp_of(r)
    try:
        got = replayed(ty, before, lg, p, s)
    except Wrong as e:
        return chk.bad(r.what + ':entry', '%s: %s' % (r.what, e), where)
    except Unknown as e:
        return chk.unknown(r.what, e)
    d = contents_same(got, after, s)
    if d is None:
        return chk.unknown(r.what, 'cannot compare %s with %s' % (got.text(), after.text()))
    if d is False:
        return chk.bad(r.what + ':account', '%s: replaying what it logs (%s) on the old contents gives %s, but the contents '
                       'become %s' % (r.what, ent, got.text(), after.text()), where)
    for n in range(len(lg.entries)):
        try:
            less = replayed(ty, before, lg, p, s, skip=n)
            same_ = contents_same(less, after, s)
        except (Wrong, Unknown):
            continue
        if same_ is True:
            return chk.bad(r.what + ':redundant', '%s: logs %s, though the change is already described without it' % (
                r.what, lg.entries[n][0].text()), where)
    return chk.ok()


def l01(chk):
    chk.rule('for every method of List and Map that takes the collection, and every path through it: applying the entries '
             'handed to the tree\'s logger to the old contents gives the new contents, no entry can be left out, and a '
             'path that changes nothing logs nothing')
    types, rest = state_types()
    for ty in types:
        if ty.kind in ('list', 'map'):
            guarded(chk, ty.own, l01_type, chk, ty)
    chk.floor('changing operations', 6)
    chk.floor('List', 1)
    chk.floor('Map', 1)


def l01_type(chk, ty):
    chk.count(ty.head)
    for r in runs(chk, ty, ('mut', 'ref', 'val')):
        changes = False
        for k, s, v, before, after, lg in guarded(chk, r.what, lambda: list(paths(chk, r))) or []:
            if r.self_mode == 'mut' and contents_same(before, after, s) is not True:
                changes = True
            guarded(chk, r.what, exact, chk, r, k, s, before, after, lg)
        if changes:
            chk.count('changing operations')
    for tr, name, b in trait_fns(ty):
        if takes_self(ty, b) is None or tr in ('Hash', 'Debug') or (tr, name) in (('Serialize', 'serialize'),):
            continue
        if tr == 'State' and name in ('set_runtime',):
            continue
        if tr in ('State', 'Deserialize'):
            continue    # L06
        what = '<%s as %s>::%s' % (ty.own, tr, name)
        r = guarded(chk, what, L.run, ty, b)
        if r is None:
            continue
        r.what, r.name = what, name
        chk.saw(r.ip, r.outs)
        for k, s, v, before, after, lg in guarded(chk, what, lambda: list(paths(chk, r))) or []:
            guarded(chk, what, exact, chk, r, k, s, before, after, lg)
    # building a collection is not a change of it
    for name, b, vis in methods(ty):
        if takes_self(ty, b) is None:
            quiet(chk, ty, '%s::%s' % (ty.head, name), b, 'building a value logs')
    for tr, name, b in trait_fns(ty, {('FromIterator', 'from_iter'), ('Default', 'default')}):
        quiet(chk, ty, '<%s as %s>::%s' % (ty.own, tr, name), b, 'building a value logs')


def events(tr):
    for e in tr:
        yield e
        if e[0] == 'loop':
            for it in e[4]:
                for x in events(it[1]):
                    yield x


def quiet(chk, ty, what, b, msg, variants=None, names=('log', 'log_multi')):
    """no logger event on any path"""
    vs = variants if variants is not None else [0]
    for v in vs:
        r = guarded(chk, what, L.run, ty, b, v)
        if r is None:
            continue
        chk.saw(r.ip, r.outs)
        bad = None
        for k, s, val in r.outs:
            for e in events(s.trace()):
                if e[0] == 'logger' and (names is None or e[1] in names):
                    bad = e
        if bad:
            chk.bad(what + ':logs', '%s: %s (%s)' % (what, msg, bad[1]), bad[4])
        else:
            chk.ok()


def snake(s):
    out = ''
    for i, ch in enumerate(s):
        if ch.isupper() and i and not s[i - 1].isupper():
            out += '_'
        out += ch.lower()
    return out


def setter_of(ty, name):
    """the (variant, field) a setter is named after, and whether it takes a function"""
    if not name.startswith('set_'):
        return None
    n = name[4:]
    with_ = n.endswith('_with')
    if with_:
        n = n[:-5]
    for v, d in enumerate(ty.variants):
        for f in d['fields']:
            fn = 'f' + f['name'] if f['name'].isdigit() else f['name']
            full = snake(d['name']) + '_' + fn if ty.kind == 'enum' else fn
            if full == n:
                return v, f, with_
    return None


def l02(chk):
    chk.rule('for every method of a derived state type (structs, enums in every starting variant, and Maybe): applying the '
             'entries handed to the tree\'s logger to the old fields gives the new fields, no entry can be left out, and '
             'fields that are not tracked never appear in the log')
    chk.rule('a setter leaves its argument in the field it is named after, and touches no other field unless it has to '
             'switch the variant')
    types, rest = state_types()
    for ty in types:
        if ty.kind in ('struct', 'enum'):
            chk.count('state types')
            guarded(chk, ty.own, l02_type, chk, ty)
    chk.floor('state types', 17)
    chk.floor('setters', 55)
    chk.floor('variant switches', 15)


def l02_type(chk, ty):
    for r in runs(chk, ty, ('mut', 'ref', 'val')):
        st_ = setter_of(ty, r.name)
        if st_:
            chk.count('setters')
        for k, s, v, before, after, lg in guarded(chk, r.what, lambda: list(paths(chk, r))) or []:
            if st_ and k == 'ret':
                guarded(chk, r.what, set_field, chk, r, s, before, after, lg, st_)
            guarded(chk, r.what, exact_rec, chk, r, k, s, before, after, lg)


def mask(ty, *cs):
    if ty.kind in ('struct', 'enum'):
        for c in cs:
            for f in ty.variants[c.variant]['fields']:
                if not f['state']:
                    c.d[f['i']] = T('app', 'untracked', f['name'])


def exact_rec(chk, r, k, s, before, after, lg):
    # fields that are not tracked are outside the account
    b2 = before.copy()
    a2 = after.copy()
    mask(r.ty, b2, a2)
    for en, sp in lg.entries:
        if isinstance(en, Entry) and en.arg is not None and en.arg.op == 'adt' and en.arg.a[0] == r.ty.adt:
            c = Contents(r.ty, en.arg)
            for f in r.ty.variants[c.variant]['fields']:
                if not f['state']:
                    l = list(en.arg.a)
                    l[2 + f['i']] = T('app', 'untracked', f['name'])
                    en.arg = T('adt', *l)
    return exact(chk, r, k, s, b2, a2, lg)


def set_field(chk, r, s, before, after, lg, st_):
    v, f, with_ = st_
    if r.variant != v:
        chk.count('variant switches')
    if after.variant != v:
        return chk.bad(r.what + ':variant', '%s: the value does not become variant %s' % (r.what, r.ty.variants[v]['name']),
                       sp_of(r))
    x = after.d[f['i']]
    if with_:
        good = x.op == 'app' and x.a[0] == 'CB' and x.a[1] is r.args[1]
    else:
        good = x is content(r.args[1]) or same(x, content(r.args[1]), s) is True
    if not good:
        if definite(x):
            return chk.bad(r.what + ':field', '%s: field %s becomes %s instead of the new value' % (
                r.what, f['name'], str(x)[:120]), sp_of(r))
        return chk.unknown(r.what, 'field %s becomes %s' % (f['name'], x))
    if r.variant == v:
        for i, o in before.d.items():
            if i != f['i'] and same(o, after.d[i], s) is not True:
                if definite(after.d[i]):
                    return chk.bad(r.what + ':other', '%s: changes another field to %s' % (r.what, str(after.d[i])[:120]),
                                   sp_of(r))
                return chk.unknown(r.what, 'other field %s' % after.d[i])
    return chk.ok()


# ------------------------------------------------------------------ L09

def l09(chk):
    chk.rule('for every operation of every state type and every path on which handing over an entry fails: the operation does '
             'not return normally, and the contents are the old contents with the entries already handed over applied')
    types, rest = state_types()
    for ty in types:
        for r in runs(chk, ty, ('mut',)):
            for k, s, v, before, after, lg in guarded(chk, r.what, lambda: list(paths(chk, r, True))) or []:
                guarded(chk, r.what, ahead, chk, r, k, s, v, before, after, lg)
    chk.floor('failing log calls', 70)


def ahead(chk, r, k, s, v, before, after, lg):
    chk.count('failing log calls')
    if lg.unsure:
        return chk.unknown(r.what, lg.unsure)
    if k == 'ret' and is_ok(v, s) is not False:
        return chk.bad(r.what + ':ignored', '%s: completes although an entry could not be logged' % r.what, lg.failed)
    try:
        got = replayed(r.ty, before, lg, own_path(r), s)
    except (Wrong, Unknown) as e:
        return chk.unknown(r.what, e)
    mask(r.ty, got, after)
    d = contents_same(got, after, s)
    if d is None:
        return chk.unknown(r.what, 'cannot compare %s with %s' % (got.text(), after.text()))
    if d is False:
        return chk.bad(r.what + ':order', '%s: when the entry cannot be logged the contents have already become %s (they should '
                       'be %s)' % (r.what, after.text(), got.text()), lg.failed)
    return chk.ok()


# ------------------------------------------------------------------ everything that runs on state types

def everything(ty):
    """(label, body, number of variants to start from): every function and method of the type, its State and Deserialize
    functions, and what it inherits from the trait"""
    out = []
    for n, b, vis in methods(ty):
        out.append(('%s::%s' % (ty.head, n), b, n, None))
    seen = set()
    for tr, n, b in trait_fns(ty):
        if tr in ('State', 'Deserialize', 'Default', 'FromIterator', 'Extend', 'From', 'IntoIterator', 'Index', 'IndexMut',
                  'Deref', 'DerefMut', 'Clone', 'Drop'):
            out.append(('<%s as %s>::%s' % (ty.own, tr, n), b, n, tr))
            seen.add((tr, n))
    for tr in ('State',):
        for n in ('handle_update', 'replay', 'is_root', 'is_child'):
            b = World.get().steit.trait_default(tr, n)
            if (tr, n) not in seen and b is not None:
                out.append(('%s::%s on %s' % (tr, n, ty.own), b, n, tr))
    return out


def all_runs(chk, pick=None, types=None):
    for ty in types or state_types()[0]:
        for what, b, n, tr in everything(ty):
            if pick and not pick(tr, n):
                continue
            m = takes_self(ty, b)
            for v in range(len(ty.variants) if m else 1):
                w = what + ('' if len(ty.variants) < 2 or not m else ' on ' + ty.variants[v]['name'])
                r = guarded(chk, w, L.run, ty, b, v)
                if r is None:
                    continue
                r.what, r.name, r.trait = w, n, tr
                chk.saw(r.ip, r.outs)
                yield r


# ------------------------------------------------------------------ L04

def balance(tr):
    """(net number of pauses, ever more resumes than pauses, a loop that is not balanced)"""
    n, neg, loop = 0, None, None
    for e in tr:
        if e[0] == 'loop':
            for it in e[4]:
                k, g, l = balance(it[1])
                if k or g or l:
                    loop = loop or l or True
        if e[0] == 'logger' and e[1] == 'pause':
            n += 1
        if e[0] == 'logger' and e[1] == 'unpause':
            n -= 1
            if n < 0:
                neg = neg or e[4]
    return n, neg, loop


def l04(chk):
    chk.rule('on every returning path of every function of every state type, the tree\'s logger is resumed exactly as often as '
             'it is paused, and never before it is paused')
    chk.rule('RuntimeLogger: a new one is not paused; log hands the entry to the inner logger and returns its error if and '
             'only if the counter is zero; pause adds one, unpause subtracts one and stops at zero, replace keeps it')
    chk.rule('Runtime hands entries, batches, pauses and resumes to that logger unchanged')
    for r in all_runs(chk):
        for k, s, v in r.outs:
            if k != 'ret':
                continue
            n, neg, loop = balance(s.trace())
            if any(e[0] == 'logger' and e[1] == 'pause' for e in events(s.trace())):
                chk.count('paths that pause')
            if loop:
                chk.unknown(r.what, 'pauses in a loop')
            elif neg:
                chk.bad(r.what + ':resume', '%s resumes logging without having paused it' % r.what, neg)
            elif n:
                chk.bad(r.what + ':paused', '%s returns with logging paused %d times more than resumed' % (r.what, n), sp_of(r))
            else:
                chk.ok()
    guarded(chk, 'RuntimeLogger', runtime_logger, chk)
    guarded(chk, 'Runtime', runtime_forwards, chk)
    chk.floor('paths that pause', 30)
    chk.floor('logger functions', 7)


def impl_of(prog, trait, head):
    for i in prog.impls:
        if (trait is None and 'trait' not in i or 'trait' in i and trait and last(i['trait']) == trait) and \
                prog.tname(i['self']).partition('<')[0] == head:
            yield i


def logger_voc():
    return LogVoc(None)


def runtime_logger(chk):
    w = World.get()
    p = w.steit
    info = [(n, a) for n, a in p.adts.items() if last(n) == 'RuntimeLogger']
    if not info:
        return chk.unknown('RuntimeLogger', 'no such type')
    adtn, a = info[0]
    var = a['variants'][0]
    cnt = [i for i, t in enumerate(var['ftys']) if p.t(t)['k'] in ('int', 'uint') or p.tname(t) in ('u32', 'usize', 'u64', 'u8', 'u16')]
    inn = [i for i, t in enumerate(var['ftys']) if p.t(t)['k'] == 'param']
    if len(cnt) != 1 or len(inn) != 1 or len(var['ftys']) != 2:
        return chk.unknown('RuntimeLogger', 'fields %s' % [p.tname(t) for t in var['ftys']])
    cnt, inn = cnt[0], inn[0]
    E.ARITY[(adtn, 0)] = 2
    N, X = sym('counter'), sym('inner')
    UNSIGNED.add(N)

    def go(name, trait, *args, st=None):
        b = None
        for i in impl_of(p, trait, 'RuntimeLogger'):
            b = b or item(p, i, name)
        if b is None and trait in ('Logger', 'PausableLogger'):
            b = p.trait_default(trait, name)
        if b is None:
            raise Unknown('no RuntimeLogger::' + name)
        E.TERM_TY.clear()
        E.PHI_LEN.clear()
        E.PHI_ELEM.clear()
        voc = logger_voc()
        ip = E.Interp(hooks=voc.hooks, budget=20000)
        ip.progs = w.progs
        st = E.State()
        f = [None, None]
        f[cnt], f[inn] = N, X
        st.mem[SELF] = adt(adtn, 0, *f)
        ip.typed(N, p, var['ftys'][cnt])
        ip.typed(X, p, var['ftys'][inn])
        outs = ip.run(b, [ref(SELF)] + list(args), st)
        chk.saw(ip, outs)
        chk.count('logger functions')
        return ip, b, outs

    def worlds(s):
        """the path under both assumptions about the counter"""
        for z in (True, False):
            n = s.copy()
            d = n.decide(EQ(N, I(0)))
            if d is None:
                n.assume(EQ(N, I(0)), z)
                if not z:
                    n.assume(LT(I(0), N))
            elif d is not z:
                continue
            yield z, n

    def fields(ip, s):
        v = ip.deep(s, s.mem[SELF])
        if v.op != 'adt':
            raise Unknown('RuntimeLogger becomes %s' % v)
        return v.a[2 + cnt], v.a[2 + inn]

    def log_like(name, arg):
        ip, b, outs = go(name, 'Logger', arg)
        for k, s, v in outs:
            if k == 'panic':
                if v and v[0] == 'assert':
                    continue
            evs = [e for e in s.trace() if e[0] == 'logger']
            if any(e[0] == 'loop' for e in s.trace()):
                continue
            fail = [e for e in s.trace() if e[0] == 'io-fail']
            for z, n in worlds(s):
                what = 'RuntimeLogger::%s %s' % (name, 'not paused' if z else 'paused')
                c2, i2 = fields(ip, s)
                if same(c2, N, n) is not True or i2 is not X:
                    chk.bad(what + ':state', '%s changes the counter or the logger' % what, b.sig())
                    continue
                if not z:
                    if evs:
                        chk.bad(what, 'RuntimeLogger::%s hands entries to the inner logger while paused' % name, evs[0][4])
                    elif is_ok(v, n) is False:
                        chk.bad(what, 'RuntimeLogger::%s fails while paused' % name, b.sig())
                    else:
                        chk.ok()
                    continue
                if len(evs) != 1 or evs[0][1] != name or evs[0][2] is not X or evs[0][3][0] is not arg:
                    if not evs:
                        chk.bad(what, 'RuntimeLogger::%s keeps the entry from the inner logger though it is not paused' % name,
                                b.sig())
                    elif len(evs) > 1:
                        chk.bad(what, 'RuntimeLogger::%s hands the entry over %d times' % (name, len(evs)), evs[0][4])
                    elif evs[0][3][0] is not arg and definite(evs[0][3][0]):
                        chk.bad(what, 'RuntimeLogger::%s hands over %s instead of its argument' % (name, str(evs[0][3][0])[:100]),
                                evs[0][4])
                    else:
                        chk.unknown(what, str(evs)[:200])
                    continue
                okv = is_ok(v, n)
                if fail and okv is not False:
                    chk.bad(what + ':error', 'RuntimeLogger::%s hides an error of the inner logger' % name, evs[0][4])
                elif not fail and okv is False:
                    chk.bad(what + ':error', 'RuntimeLogger::%s fails though the inner logger succeeded' % name, evs[0][4])
                else:
                    chk.ok()
    e = sym('entry')
    log_like('log', e)
    if any(item(p, i, 'log_multi') for i in impl_of(p, 'Logger', 'RuntimeLogger')):
        guarded(chk, 'RuntimeLogger::log_multi', log_like, 'log_multi', sym('entries'))

    for name, d in (('pause', 1), ('unpause', -1)):
        ip, b, outs = go(name, 'PausableLogger')
        for k, s, v in outs:
            if k != 'ret':
                continue
            for z, n in worlds(s):
                c2, i2 = fields(ip, s)
                want = add(N, I(1)) if d == 1 else (I(0) if z else sub(N, I(1)))
                got = n.simp(c2)
                what = 'RuntimeLogger::' + name
                if i2 is not X:
                    chk.bad(what, what + ' replaces the logger', b.sig())
                elif same(got, n.simp(want), n) is True or n.decide(EQ(got, want)) is True or z and same(subst(got, {N: I(0)}), subst(want, {N: I(0)}), n) is True:
                    chk.ok()
                elif definite(got, want):
                    chk.bad(what, '%s: the counter %s becomes %s instead of %s' % (what, '0' if z else 'n>0', got, want), b.sig())
                else:
                    chk.unknown(what, 'counter %s' % got)
    # replace and new
    for i in impl_of(p, None, 'RuntimeLogger'):
        for it in i['items']:
            b = p.bodies.get(it.get('body'))
            if b is None:
                continue
            if it['name'] == 'replace':
                y = sym('other')
                ip, b, outs = go('replace', None, y)
                for k, s, v in outs:
                    if k == 'ret':
                        c2, i2 = fields(ip, s)
                        if same(c2, N, s) is True and i2 is y:
                            chk.ok()
                        else:
                            chk.bad('RuntimeLogger::replace', 'RuntimeLogger::replace leaves counter %s and logger %s' % (c2, i2), b.sig())
            if it['name'] == 'new':
                ip = E.Interp(hooks=logger_voc().hooks, budget=2000)
                ip.progs = w.progs
                for k, s, v in ip.run(b, [X], E.State()):
                    v = ip.deep(s, v)
                    if v.op == 'adt' and v.a[2 + cnt] is I(0) and v.a[2 + inn] is X:
                        chk.ok()
                    else:
                        chk.bad('RuntimeLogger::new', 'a new RuntimeLogger is %s' % str(v)[:100], b.sig())


def runtime_forwards(chk):
    ty = state_types()[0][0]
    w = World.get()
    p = w.steit
    for name, ev in (('pause_logger', 'pause'), ('unpause_logger', 'unpause'), ('log', 'log'), ('log_multi', 'log_multi')):
        b = p.find1('Runtime', name)
        what = 'Runtime::' + name
        if b is None:
            chk.unknown(what, 'no such function')
            continue
        ip = E.Interp(hooks=logger_voc().hooks, budget=5000)
        ip.progs = w.progs
        st = E.State()
        R = ip.expand(st, ip.typed(sym('R'), ty.prog, ty.rtty))
        st.mem[SELF] = R
        x = sym('entry')
        args = [ref(SELF)] + ([x] if b.argc > 1 else [])
        outs = ip.run(b, args, st)
        chk.saw(ip, outs)
        chk.count('logger functions')
        for k, s, v in outs:
            if k == 'panic':
                continue
            evs = [e for e in s.trace() if e[0] == 'logger']
            fail = any(e[0] == 'io-fail' for e in s.trace())
            if ev == 'log_multi' and evs and all(e[1] == 'log' for e in evs) or any(e[0] == 'loop' for e in s.trace()):
                chk.unknown(what, 'a batch handed over one by one')     # L11 compares it with its entries
            elif len(evs) != 1 or evs[0][1] != ev:
                chk.bad(what, '%s makes the calls %s on the logger' % (what, [e[1] for e in evs]), b.sig())
            elif not contains(evs[0][2], lambda z: z is R.a[2 + World_runtime_fields(None).index('logger')]):
                chk.unknown(what, 'receiver %s' % evs[0][2])
            elif len(args) > 1 and evs[0][3][0] is not x:
                chk.bad(what, '%s hands over %s instead of its argument' % (what, str(evs[0][3][0])[:80]), evs[0][4])
            elif len(args) > 1 and fail is not (is_ok(v, s) is False):
                chk.bad(what + ':error', '%s does not return the error of the logger' % what, evs[0][4])
            else:
                chk.ok()


# ------------------------------------------------------------------ L06

def l06(chk):
    chk.rule('no path through Deserialize::merge, State::handle, handle_update, replay, with_runtime or set_runtime of any '
             'implementation reaches the logger (log, batch, pause, resume) or takes its lock')
    names = {('State', 'handle'), ('State', 'handle_update'), ('State', 'replay'), ('State', 'with_runtime'),
             ('State', 'set_runtime'), ('Deserialize', 'merge'), ('Default', 'default')}
    for r in all_runs(chk, lambda tr, n: (tr, n) in names):
        chk.count('replay and decode functions')
        silent(chk, r.what, r.outs)
    for prog, impl, own in state_types()[1]:
        for tr in ('State', 'Deserialize'):
            for i in prog.impls:
                if 'trait' in i and last(i['trait']) == tr and prog.tname(i['self']) == own:
                    for it in i['items']:
                        b = prog.bodies.get(it.get('body'))
                        if b is None or it.get('kind') == 'Const':
                            continue
                        what = '<%s as %s>::%s' % (own, tr, it['name'])
                        q = guarded(chk, what, analyse, prog, b, LogVoc(own), progs=World.get().progs)
                        if q is None:
                            continue
                        chk.saw(q[0], q[2])
                        chk.count('replay and decode functions')
                        silent(chk, what, q[2])
    chk.floor('replay and decode functions', 150)


def silent(chk, what, outs):
    bad = None
    for k, s, v in outs:
        for e in events(s.trace()):
            if e[0] in ('logger', 'lock', 'trylock-fail'):
                bad = bad or e
    if bad:
        how = {'log': 'logs an entry', 'log_multi': 'logs entries', 'pause': 'pauses the logger',
               'unpause': 'resumes the logger'}.get(bad[1] if bad[0] == 'logger' else '', 'takes the logger\'s lock')
        return chk.bad(what + ':logger', '%s %s' % (what, how), bad[4] if bad[0] == 'logger' else bad[2])
    return chk.ok()


# ------------------------------------------------------------------ L12

USER = {'callback': 'a caller-supplied function', 'cached': 'a size computation', 'uses': 'a serialization',
        'needs-children': 'a serialization', 'set_runtime': 'a re-rooting', 'merge': 'a decoding',
        'merge_nested': 'a decoding', 'handle': 'a replay step', 'handle_update': 'a replay step',
        'pure': 'a conversion of a caller-supplied type', 'nested': 'a serialization', 'children': 'a serialization'}


def l12(chk):
    chk.rule('on every path of every function of every state type and of Runtime: between taking the logger\'s lock and '
             'releasing it, only the logger is called; the lock is not taken twice and not kept on return; a batch is one call '
             'under one acquisition, and a collection operation hands over its entries under one acquisition')
    for r in all_runs(chk):
        one = r.ty.kind in ('list', 'map')
        for k, s, v in r.outs:
            if k == 'panic' and (v is None or v[0] == 'assert'):
                continue
            guarded(chk, r.what, held, chk, r, k, s, one)
    chk.floor('lock acquisitions', 200)


def held(chk, r, k, s, one):
    lock = None
    n = 0
    logs = []
    for e in events(s.trace()):
        if e[0] == 'lock':
            chk.count('lock acquisitions')
            n += 1
            if lock is not None:
                return chk.bad(r.what + ':relock', '%s takes the logger\'s lock while holding it' % r.what, e[2])
            lock = e[2]
        elif e[0] == 'unlock':
            lock = None
        elif e[0] == 'logger':
            if lock is None:
                return chk.unknown(r.what, 'logger called without its lock')
            if e[1] in ('log', 'log_multi'):
                logs.append((n, e))
        elif lock is not None and e[0] in USER:
            return chk.bad(r.what + ':held', '%s runs %s while holding the logger\'s lock' % (r.what, USER[e[0]]), lock)
        elif lock is not None and e[0] == 'opaque':
            return chk.unknown(r.what, 'call under the lock: %s' % str(e[1:3])[:100])
    if lock is not None and k == 'ret':
        return chk.bad(r.what + ':kept', '%s returns while holding the logger\'s lock' % r.what, lock)
    if one and len({n for n, e in logs}) > 1 and len(logs) > 1:
        return chk.bad(r.what + ':batch', '%s hands over its entries under %d separate acquisitions of the lock' % (
            r.what, len({n for n, e in logs})), logs[1][1][4])
    return chk.ok()
