"""C04-C08: reading."""
from core import *
from vocab import *
from terms import *
from terms import T, I, Term
import engine as E
from engine import BV, mk_len
from r_ser import all_progs, merge_states, PRIMS

CONSUME = {'merge', 'merge_nested', 'skip', 'read_all', 'read_exact', 'read', 'read_to_end', 'nested'}
SELF = T('deref', sym('self'))


# ------------------------------------------------------------------ readers

def norm(r, n=0):
    """the reader a term stands for, ignoring the look-ahead wrappers around it"""
    if n > 30:
        return r
    o, a = r.op, r.a
    if o == 'adt' and len(a) == 3:
        return norm(a[2], n + 1)
    if o == 'app' and a[0] in ('EOFW', 'INNER'):
        return norm(a[1], n + 1)
    if o == 'ref':
        if a[0][0] == 'P' and not a[1]:
            return norm(T('deref', a[0][1]), n + 1)
        if a[0][0] == 'P' and a[1] == (('f', 0),):
            return norm(T('deref', a[0][1]), n + 1)
        if a[0][0] == 'C':
            return norm(a[0][1], n + 1)
        return r
    if o == 'deref' and a[0].op == 'app' and a[0].a[0] == 'INNER':
        return norm(a[0].a[1], n + 1)
    if o == 'deref' and a[0].op == 'ref':
        return norm(a[0], n + 1)
    if o == 'fld' and a[1] == 0:
        return norm(a[0], n + 1)
    if o == 'app' and a[0] == 'TAKE':
        return T('app', 'TAKE', norm(a[1], n + 1), a[2])
    if o == 'app' and a[0] == 'NESTED':
        return T('app', 'NESTED', norm(a[1], n + 1), a[2])
    return r


def reader_of(e):
    """reader an event consumes from"""
    k = e[0]
    if k == 'merge':
        return norm(e[3])
    if k == 'merge_nested':
        return norm(e[4])
    if k in CONSUME or k == 'eof':
        return norm(e[1])
    return None


def site(e):
    for x in reversed(e):
        if isinstance(x, str) and x.startswith('/'):
            return x
    return None


def loops(trace):
    for e in trace:
        if e[0] == 'loop':
            yield e
            for it in e[4]:
                yield from loops(it[1])


def consumed(trace):
    return [e for e in trace if e[0] in CONSUME]


_cache = {}


def run(prog, b, own, off=(), unroll=0):
    k = (b.id, prog.crate, own, tuple(off), unroll)
    if k in _cache:
        return _cache[k]
    w = World.get()
    voc = Vocab(own=own, atoms_off=off)
    if own is not None:
        voc.own_wt = own_wire(prog, own)
    st = E.State()
    for c in invariants(prog, own):
        st.assume(c)
    r = analyse(prog, b, voc, st=st, progs=w.progs, unroll=unroll)
    _cache[k] = r
    return r


def runtime_field(prog, own):
    """places of the Runtime fields of a type: [(variant or None, index)]"""
    out = []
    for i in prog.impls:
        if prog.tname(i['self']) != own:
            continue
        t = prog.t(i['self'])
        if t['k'] != 'adt' or t['def'] not in prog.adts:
            return out
        a = prog.adts[t['def']]
        for vi, v in enumerate(a['variants']):
            for fi, (_f, ty) in enumerate(zip(v['fields'], v.get('ftys', []))):
                if prog.tname(ty) == 'Runtime':
                    out.append((vi if a['kind'] != 'struct' else None, fi))
        return out
    return out


def invariants(prog, own):
    """the variant of an enum sits one level below the enum itself (established by L03)"""
    if own is None:
        return
    for v, i in runtime_field(prog, own):
        if v is not None:
            yield EQ(T('discr', T('fld', T('vf', SELF, v, i), 1)), I(1))


def merges(w):
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Deserialize'):
            b = item(prog, impl, 'merge')
            if b is not None:
                yield prog, impl, own, b


def wire_const(prog, own):
    v = own_wire(prog, own)
    if v is not None and v.op == 'adt':
        return v.a[1]
    return None


def is_sized(prog, own):
    """True/False/None: the type is length-prefixed"""
    v = own_wire(prog, own)
    if v is None:
        return None
    if v.op == 'adt' and v.a[0].endswith('WireType'):
        return v.a[1] == 1
    return None


# ------------------------------------------------------------------ C05

def same_wt(st, a, b):
    return st.decide(EQ(T('discr', a), T('discr', b)))


def c05(chk):
    w = World.get()
    chk.rule('skip_field: a varint of any length is consumed by one whole-varint read; a sized field by its length and '
             'then exactly that many bytes')
    chk.rule('merge_nested: a mismatching wire type leads to exactly one skip of that wire type and no other effect')
    chk.rule('field loops: after a tag is read exactly one action consumes the field, under the wire type just read; an '
             'unknown tag leads to a skip and changes nothing; reading goes on after it to the end of the input')
    p = w.steit
    b = p.find1('Reader', 'skip_field')
    if b is None:
        chk.bad('Reader::skip_field', 'Reader::skip_field is gone')
    else:
        guarded(chk, 'Reader::skip_field', skip_rule, chk, p, b)
    d = p.trait_default('Deserialize', 'merge_nested')
    if d is None:
        chk.bad('Deserialize::merge_nested', 'the provided merge_nested is gone')
    else:
        guarded(chk, 'Deserialize::merge_nested', mismatch_rule, chk, p, d, 'Deserialize', None)
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Deserialize'):
            b = item(prog, impl, 'merge_nested')
            if b is not None:
                guarded(chk, '<%s as Deserialize>::merge_nested' % own, mismatch_rule, chk, prog, b, own, own)
    for prog, impl, own, b in merges(w):
        guarded(chk, '<%s as Deserialize>::merge' % own, field_loop_rule, chk, prog, own, b)
    chk.floor('field loops', 12)
    chk.floor('skip_field arms', 2)


def skip_rule(chk, p, b):
    ip, args, outs = run(p, b, None, ('Reader::skip_field',))
    chk.saw(ip, outs)
    R = T('deref', args[0])
    arms = set()
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True:
            continue
        if failed(s.trace()):
            continue
        wt = args[1]
        varint = s.decide(EQ(T('discr', wt), I(0)))
        if varint is None:
            chk.unknown('Reader::skip_field', 'a path does not depend on the wire type')
            continue
        ev = consumed(s.trace())
        if any(e[0] == 'loop' and any(consumed(it[1]) for it in e[4]) for e in s.trace()):
            r = skip_loop(chk, s, R) if varint else None
            if r is None:
                chk.unknown('Reader::skip_field', 'reads in a loop')
            arms.add(varint)
            continue
        if any(e[0] == 'opaque' for e in s.trace()):
            chk.unknown('Reader::skip_field', 'opaque call')
            arms.add(varint)
            continue
        arms.add(varint)
        key = 'Reader::skip_field:' + ('varint' if varint else 'sized')
        if varint:
            if len(ev) == 1 and ev[0][0] == 'merge' and reader_of(ev[0]) is R:
                if ev[0][1] in ('bool', 'u64', 'i64'):
                    chk.ok()
                elif ev[0][1] in PRIMS:
                    chk.bad(key, 'Reader::skip_field reads an unknown varint as %s, which rejects or misreads longer ones'
                            % ev[0][1], site(ev[0]))
                else:
                    chk.unknown(key, ev)
            elif not ev:
                chk.bad(key, 'Reader::skip_field consumes nothing for a varint', b.span)
            elif all(e[0] in ('read_exact', 'merge') for e in ev) and definite(*[reader_of(e) for e in ev]):
                chk.bad(key, 'Reader::skip_field does not consume exactly one varint: %s' % ', '.join(
                    e[0] for e in ev), site(ev[0]))
            else:
                chk.unknown(key, ev)
            continue
        if not ev or ev[0][0] not in ('merge', 'nested') or reader_of(ev[0]) is not R:
            if not ev or (len(ev) == 1 and ev[0][0] == 'skip'):
                chk.bad(key, 'Reader::skip_field does not read the length of a sized field', b.span)
            else:
                chk.unknown(key, ev)
            continue
        e0 = ev[0]
        size = T('app', 'MG', e0[2], e0[4]) if e0[0] == 'merge' else None
        if e0[0] == 'merge' and e0[1] not in ('u32', 'u64'):
            chk.bad(key, 'Reader::skip_field reads the length of a sized field as %s' % e0[1], site(e0))
            continue
        rest = ev[1:]
        if not rest:
            if s.decide(EQ(size, I(0))) is True if size is not None else False:
                chk.ok()
            else:
                chk.bad(key, 'Reader::skip_field reads a length but does not skip the bytes', site(e0))
            continue
        if len(rest) > 1:
            chk.unknown(key, rest)
            continue
        e = rest[0]
        r = reader_of(e)
        if e[0] in ('read_all', 'read_to_end'):
            if size is not None and r is T('app', 'TAKE', R, size) or (
                    e0[0] == 'nested' and r is T('app', 'NESTED', R, e0[2])):
                chk.ok()
            elif r is R:
                chk.bad(key, 'Reader::skip_field skips to the end of the input instead of the end of the field', site(e))
            elif r.op == 'app' and r.a[0] == 'TAKE' and r.a[1] is R and definite(r.a[2]):
                chk.bad(key, 'Reader::skip_field skips %s bytes for a field of %s bytes' % (r.a[2], size), site(e))
            else:
                chk.unknown(key, e)
        elif e[0] == 'read_exact':
            n = s.simp(e[2])
            if r is R and n is size:
                chk.ok()
            elif r is R and definite(n) and not contains(n, lambda t: t.op == 'len'):
                chk.bad(key, 'Reader::skip_field skips %s bytes for a field of %s bytes' % (n, size), site(e))
            else:
                chk.unknown(key, e)
        else:
            chk.unknown(key, e)
    chk.count('skip_field arms', len(arms))


def skip_loop(chk, s, R):
    """a hand-written varint loop: every iteration reads one byte, and only a byte without the top bit ends it"""
    ls = [e for e in s.trace() if e[0] == 'loop']
    if len(ls) != 1:
        return None
    tail = consumed(s.trace())
    if not all(e[0] == 'read_exact' and e[2] is I(1) for e in tail) or len(tail) != 1:
        return None
    for conds, tr in ls[0][4]:
        c = consumed(tr)
        if len(c) != 1 or c[0][0] != 'read_exact' or c[0][2] is not I(1):
            return None
    chk.ok()
    return True


def mismatch_rule(chk, prog, b, what, own):
    ip, args, outs = run(prog, b, own, ('Deserialize::merge_nested',) if own is None else ())
    chk.saw(ip, outs)
    what = what if own is None else '<%s as Deserialize>' % own
    key = what + '::merge_nested'
    wt = args[1]
    mine = wire_of(own) if own else T('app', 'const', 'HasWireType::WIRE_TYPE', 'Self')
    X = T('deref', args[0])
    R = T('deref', args[2])
    seen = set()
    for k, s, v in outs:
        if k != 'ret':
            continue
        d = same_wt(s, wt, mine)
        if d is None:
            # the path never asked: it treats both alike
            if failed(s.trace()) or is_ok(v, s) is False:
                continue
            ev = consumed(s.trace())
            if any(e[0] in ('merge', 'nested') for e in ev) and own is None:
                chk.bad(key, '%s reads a value of its own type without testing that the wire type matches' % key, site(ev[0]))
            elif not ev:
                chk.bad(key, '%s succeeds without consuming the field' % key, b.span)
            else:
                chk.unknown(key, 'wire type not tested')
            continue
        seen.add(d)
        if failed(s.trace()):
            continue
        ev = consumed(s.trace())
        if d:
            if [e for e in ev if e[0] == 'skip']:
                chk.bad(key, '%s skips a field of the right wire type' % key, site(ev[0]))
            continue
        if is_ok(v, s) is False:
            chk.bad(key, '%s rejects a field of another wire type instead of skipping it' % key, b.span)
            continue
        after = s.mem.get(('P', args[0]), X)
        if len(ev) == 1 and ev[0][0] == 'skip' and reader_of(ev[0]) is R and ev[0][2] is wt:
            if after is X:
                chk.ok()
            elif definite(after):
                chk.bad(key, '%s changes the value to %s when the wire type does not match' % (key, after), site(ev[0]))
            else:
                chk.unknown(key, after)
        elif not ev:
            chk.bad(key, '%s ignores a field of another wire type without consuming it' % key, b.span)
        elif definite(*[reader_of(e) for e in ev]):
            chk.bad(key, '%s does not skip exactly the field of another wire type: %s' % (
                key, ', '.join(e[0] + (' ' + str(e[2]) if e[0] == 'skip' else '') for e in ev)), site(ev[0]))
        else:
            chk.unknown(key, ev)
    if own is None and False not in seen and True in seen:
        chk.unknown(key, 'no path for a mismatching wire type')


def tags_read(trace):
    """indices of the events where a field tag has been read and split"""
    return [i for i, e in enumerate(trace) if e[0] == 'parse']


def field_loop_rule(chk, prog, own, b):
    ip, args, outs = run(prog, b, own)
    chk.saw(ip, outs)
    what = '<%s as Deserialize>::merge' % own
    seen = set()
    for k, s, v in outs:
        if k != 'ret':
            continue
        for lp in loops(s.trace()):
            if lp[1] in seen:
                continue
            seen.add(lp[1])
            if any(tags_read(it[1]) for it in lp[4]):
                chk.count('field loops')
                for it in lp[4]:
                    iteration_rule(chk, what, it, args)
    # what follows a field is read as well
    R = T('deref', args[1])
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not True:
            continue
        tr = s.trace()
        t = tags_read(tr)
        if not t:
            continue
        chk.count('ways out of a field loop')
        rest = tr[t[-1] + 1:]
        if any(e[0] in ('opaque', 'loop') for e in rest):
            continue
        end = any(e[0] == 'eof' and norm(e[1]) is R and s.decide(T('bvar', 'EOF', e[2])) is True for e in rest) or any(
            e[0] in ('read_to_end', 'read_all') and norm(e[1]) is R for e in rest)
        if not end and not any(e[0] == 'merge' and e[1] not in PRIMS for e in rest):
            fn = T('app', 'FN', tr[t[-1]][1])
            chk.bad(what + ':stops', '%s returns after one field although more may follow it' % what, b.span,
                    [str(c) for c in s.cond_list() if contains(c, lambda x: x is fn)])
            break
    # a tag nobody knows must not be an error
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not False:
            continue
        tr = s.trace()
        t = tags_read(tr)
        if not t:
            continue
        val = tr[t[-1]][1]
        fn = T('app', 'FN', val)
        known = any(s.decide(EQ(fn, I(n))) is True for n in range(0, 64))
        tested = [c for c in s.cond_list() if contains(c, lambda x: x is fn)]
        plain_tests = all(is_tag_test(c, fn) for c in tested)
        if not known and plain_tests and not consumed(tr[t[-1] + 1:]):
            chk.bad(what + ':unknown', '%s rejects a field whose tag it does not know' % what, b.span,
                    [str(c) for c in s.cond_list()])


def is_tag_test(c, fn):
    """comparison of the field number with a constant"""
    if c.op == 'not':
        c = c.a[0]
    if c.op == 'eq':
        return c.a[0] is fn and c.a[1].op == 'int'
    if c.op == 'neg':
        _, m = lin_parts(c.a[0])
        return set(m) == {fn}
    return False


def iteration_rule(chk, what, it, args):
    conds, tr = it
    s = it.st
    t = tags_read(tr)
    if failed(tr):
        return
    if not t:
        ev = consumed(tr)
        if ev:
            chk.unknown(what, 'an iteration reads without a tag')
        return
    if len(t) > 1:
        chk.unknown(what, 'two tags in one iteration')
        return
    val = tr[t[0]][1]
    fn, wt = T('app', 'FN', val), T('app', 'WT', val)
    rest = tr[t[0] + 1:]
    ev = consumed(rest)
    chk.count('field loop iterations')
    if any(e[0] == 'opaque' for e in rest):
        chk.unknown(what, 'opaque call')
        return
    key = what + ':' + (str(s.simp(fn)) if s.simp(fn).op == 'int' else 'other')
    if not ev:
        chk.bad(key, '%s reads the tag of a field and goes on without consuming the field (conditions: %s)' % (
            what, '; '.join(str(c) for c in conds if contains(c, lambda x: x is fn or x is wt))), site(tr[t[0]]))
        return
    if len(ev) > 1:
        if definite(*[reader_of(e) for e in ev]):
            chk.bad(key, '%s consumes more than one field after one tag: %s' % (what, ', '.join(e[0] for e in ev)), site(ev[1]))
        else:
            chk.unknown(key, ev)
        return
    e = ev[0]
    if reader_of(e) is not reader_of([x for x in tr if x[0] == 'merge'][0]):
        chk.unknown(key, 'another reader')
        return
    if e[0] == 'skip':
        d = True if e[2] is wt else same_wt(s, e[2], wt)
        if d is False or (d is None and definite(e[2])):
            chk.bad(key, '%s skips a field as %s whatever its wire type is' % (what, e[2]), site(e))
            return
        o = ('P', args[0])
        if o in s.mem and o in it.head:
            if s.mem[o] is not it.head[o]:
                chk.bad(key, '%s changes the value when it skips a field: %s becomes %s' % (what, it.head[o], s.mem[o]), site(e))
                return
        chk.ok()
    elif e[0] == 'merge_nested':
        d = True if e[3] is wt else same_wt(s, e[3], wt)
        if d is True:
            chk.ok()
        elif definite(e[3]):
            chk.bad(key, '%s reads a field as %s although the wire type in the input may be another' % (what, e[3]), site(e))
        else:
            chk.unknown(key, e[3])
    else:
        chk.unknown(key, 'field read by %s' % e[0])


# ------------------------------------------------------------------ C06

def decode_roots(w):
    """functions that see untrusted input"""
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Deserialize'):
            for it in impl['items']:
                b = prog.bodies.get(it.get('body'))
                if b is not None:
                    yield prog, b, own, '<%s as Deserialize>::%s' % (own, it['name']), ()
        for impl, own in ser_impls(prog, 'State'):
            for n in ('handle', 'handle_update', 'replay', 'is_root'):
                b = item(prog, impl, n)
                if b is not None:
                    yield prog, b, own, '<%s as State>::%s' % (own, n), ()
        for impl, own in ser_impls(prog, 'MapKey'):
            b = item(prog, impl, 'try_from_field_number')
            if b is not None:
                yield prog, b, own, '<%s as MapKey>::try_from_field_number' % own, ()
    p = w.steit
    for tr, names in (('Deserialize', ('deserialize', 'merge_nested', 'deserialize_nested')),
                      ('State', ('handle_update', 'replay', 'is_root'))):
        for n in names:
            b = p.trait_default(tr, n)
            if b is not None:
                yield p, b, None, '%s::%s' % (tr, n), (tr + '::' + n, 'Reader::nested')
    seen = set()
    for b in p.bodies.values():
        if 'de::reader::' in b.path and b.kind != 'Closure' and b.path not in seen:
            seen.add(b.path)
            yield p, b, None, 'Reader::' + b.name, ('Reader::' + b.name,)
    for n in ('parse_tag', 'validate_field_number', 'from_value'):
        for b in p.bodies.values():
            if b.name == n and b.kind != 'Closure' and 'wire_fmt' in b.path:
                yield p, b, None, b.sig(), ('wire_fmt::' + n, b.sig())


def from_input(t):
    return contains(t, lambda x: x.op == 'app' and x.a[0] in ('MG', 'MN', 'BYTE', 'READ', 'FN', 'NREAD'))


def c06(chk):
    w = World.get()
    chk.rule('no path of a decoding or replaying function panics, and no checked operation on it can fail')
    chk.rule('no allocation is sized by a number read from the input')
    chk.rule('every iteration of a reading loop consumes input or is bounded by a collection in memory')
    n = 0
    for prog, b, own, what, off in decode_roots(w):
        guarded(chk, what, panic_rule, chk, prog, b, own, what, off)
        n += 1
    chk.count('decoding functions', n)
    for prog, impl, own, b in merges(w):
        if own == 'String':
            guarded(chk, '<String as Deserialize>::merge', text_rule, chk, prog, b, own)
    chk.floor('decoding functions', 60)
    chk.floor('paths that accept text', 1)


def text_rule(chk, prog, b, own):
    """what is not UTF-8 is not accepted as text"""
    ip, args, outs = run(prog, b, own)
    chk.saw(ip, outs)
    for k, s, v in outs:
        if k != 'ret' or failed(s.trace()) or is_ok(v, s) is not True:
            continue
        checked = {}
        for c in s.cond_list():
            for x in subterms(c):
                if x.op == 'discr' and x.a[0].op == 'app' and x.a[0].a[0] == 'from_utf8' and \
                        contains(x, lambda y: y.op == 'app' and y.a[0] == 'REST'):
                    checked[x] = s.decide(EQ(x, I(0)))
        fin = s.mem.get(('P', args[0]), T('deref', args[0]))
        chk.count('paths that accept text')
        lossy = [x.a[0] for x in subterms(fin) if x.op == 'app' and isinstance(x.a[0], str) and
                 ('from_utf8_lossy' in x.a[0] or 'from_utf8_unchecked' in x.a[0])]
        if lossy:
            chk.bad('String:lossy', '<String as Deserialize>::merge takes what is not UTF-8 for text (%s)' % lossy[0], b.span)
        elif False in checked.values():
            chk.bad('String:accepted', '<String as Deserialize>::merge succeeds although what was read is not UTF-8', b.span)
        elif True in checked.values():
            chk.ok()
        else:
            chk.unknown('<String as Deserialize>::merge', 'how text is checked')


def panic_rule(chk, prog, b, own, what, off):
    ip, args, outs = run(prog, b, own, off)
    chk.saw(ip, outs)
    good = True
    for k, s, v in outs:
        tr = s.trace()
        if k != 'ret':
            conds = s.cond_list()
            # what a caller passes in is not input: constructing a value at an impossible place is not decoding
            unsure = [c for c in conds if not definite(c)]
            # whether a collection being filled holds a key that was read already is up to the input
            if not unsure or len(unsure) == 1 and unsure[0].op == 'bvar' and unsure[0].a[0] == 'has' and \
                    unsure[0].a[1].op == 'phi' and from_input(unsure[0].a[2]) and definite(unsure[0].a[2]):
                chk.bad(what + ':panic', '%s can panic: %s, when %s' % (what, describe(v), '; '.join(str(c) for c in conds[-4:])),
                        panic_site(v))
            else:
                chk.unknown(what, 'possible panic %s' % (describe(v),))
            good = False
            continue
        good &= alloc_rule(chk, what, tr)
    seen = set()
    for k, s, v in outs:
        for lp in loops(s.trace()):
            if lp[1] in seen:
                continue
            seen.add(lp[1])
            good &= progress_rule(chk, what, lp, s)
    if good:
        chk.ok()


def describe(v):
    if isinstance(v, tuple):
        return ' '.join(str(x) for x in v if not (isinstance(x, str) and x.startswith('/')))[:200]
    return str(v)[:200]


def panic_site(v):
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, str) and x.startswith('/'):
                return x
    return None


def alloc_rule(chk, what, tr):
    ok_ = True
    for e in tr:
        if e[0] == 'alloc' and from_input(e[1]):
            if definite(e[1]):
                chk.bad(what + ':alloc', '%s allocates %s elements, a number taken from the input' % (what, e[1]), site(e))
            else:
                chk.unknown(what, 'allocation of %s' % e[1])
            ok_ = False
        elif e[0] == 'loop':
            for it in e[4]:
                ok_ &= alloc_rule(chk, what, it[1])
    return ok_


def consumes(e):
    """the event consumes at least one byte when it succeeds"""
    if e[0] == 'merge':
        return e[1] in PRIMS
    if e[0] in ('merge_nested', 'skip', 'nested'):
        return True
    if e[0] == 'read_exact':
        return e[2].op == 'int' and e[2].a[0] > 0
    return False


def progress_rule(chk, what, lp, s):
    _, uid, kap, N, iters, tag = lp
    if N is not None:
        return True
    ok_ = True
    for conds, tr in iters:
        if any(consumes(e) for e in tr):
            continue
        if any(e[0] == 'loop' and any(any(consumes(x) for x in it[1]) for it in e[4]) for e in tr):
            continue
        # bounded by a counter or by a collection?
        if any(contains(c, lambda x: x is kap) for c in conds):
            continue
        reads = [e for e in tr if e[0] in CONSUME or e[0] == 'eof']
        if not reads:
            continue
        if any(e[0] in ('opaque', 'callback') for e in tr) or any(e[0] == 'merge' for e in reads) or \
                any(e[0] == 'read_exact' and e[2].op != 'int' for e in reads):
            chk.unknown(what, 'progress of a loop')
            ok_ = False
            continue
        chk.bad(what + ':progress', '%s: an iteration of its reading loop consumes nothing (conditions: %s)' % (
            what, '; '.join(str(c) for c in conds)), site(reads[0]))
        ok_ = False
    return ok_


# ------------------------------------------------------------------ C07

def c07(chk):
    w = World.get()
    chk.rule('a path on which a read, skip or end-of-input test failed returns an error; no loop goes on after a failure')
    chk.rule('a varint is accepted only after a byte without the continuation bit has been read in full')
    chk.rule('merge_nested accepts a sized value, and skip_field a sized field, only when all announced bytes were there')
    for prog, b, own, what, off in decode_roots(w):
        guarded(chk, what, swallow_rule, chk, prog, b, own, what, off)
        chk.count('decoding functions')
    p = w.steit
    d = p.trait_default('Deserialize', 'merge_nested')
    if d is not None:
        guarded(chk, 'Deserialize::merge_nested', short_nested_rule, chk, p, d, None, 'Deserialize::merge_nested')
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Deserialize'):
            b = item(prog, impl, 'merge_nested')
            if b is not None:
                guarded(chk, '<%s as Deserialize>::merge_nested' % own, short_nested_rule, chk, prog, b, own,
                        '<%s as Deserialize>::merge_nested' % own)
    b = p.find1('Reader', 'skip_field')
    if b is not None:
        guarded(chk, 'Reader::skip_field', short_skip_rule, chk, p, b)
    for prog, impl, own, b in merges(w):
        if own in PRIMS:
            guarded(chk, '<%s as Deserialize>::merge' % own, varint_end_rule, chk, prog, own, b)
        if own.startswith('(') or own.startswith('HashMap<'):
            guarded(chk, '<%s as Deserialize>::merge' % own, whole_rule, chk, prog, b, own)
    chk.floor('decoding functions', 60)
    chk.floor('fixed sequences of items', 7)
    chk.floor('sized values accepted only in full', 1)
    chk.floor('varint decoders', 9)


def whole_rule(chk, prog, b, own):
    """all values of a tuple, and the value that follows a key, are read before they are accepted"""
    what = '<%s as Deserialize>::merge' % own
    ip, args, outs = run(prog, b, own)
    chk.saw(ip, outs)
    R = args[1]
    chk.count('fixed sequences of items')

    def reads(tr):
        return len([e for e in consumed(tr) if e[0] in ('merge', 'merge_nested')])

    def opaque(tr):
        return any(e[0] in ('opaque', 'loop', 'callback') for e in tr)
    seen = set()
    for k, s, v in outs:
        if k != 'ret':
            continue
        tr = s.trace()
        if own.startswith('('):
            t = prog.t(b.self_ty)
            if failed(tr) or is_ok(v, s) is not True or t['k'] != 'tuple':
                continue
            if opaque(tr):
                chk.unknown(what, 'items')
            else:
                chk.that(reads(tr) >= len(t['ts']), what + ':items', '%s succeeds having read %d of %d values' % (
                    what, reads(tr), len(t['ts'])), b.span)
            continue
        for lp in loops(tr):
            if lp[1] in seen:
                continue
            seen.add(lp[1])
            for it in lp[4]:
                if failed(it[1]):
                    continue
                if opaque(it[1]):
                    chk.unknown(what, 'items')
                else:
                    chk.that(reads(it[1]) != 1, what + ':items', '%s accepts a key without having read its value' % what, b.span)


def swallow_rule(chk, prog, b, own, what, off):
    ip, args, outs = run(prog, b, own, off)
    chk.saw(ip, outs)
    good = True
    seen = set()
    ret_result = 'Result' in prog.tname(b.locals[0])
    for k, s, v in outs:
        if k != 'ret':
            continue
        f = failed(s.trace())
        if f and ret_result:
            d = is_ok(v, s)
            if d is True:
                chk.bad(what + ':swallow', '%s succeeds although its %s failed' % (what, f[0][1]), f[0][3])
                good = False
            elif d is None:
                if s.decide(EQ(T('discr', v), I(1))) is True:
                    continue
                chk.unknown(what, 'result %s after a failure' % v)
                good = False
        elif f:
            chk.unknown(what, 'does not return a Result')
            good = False
        for lp in loops(s.trace()):
            if lp[1] in seen:
                continue
            seen.add(lp[1])
            for it in lp[4]:
                g = failed(it[1])
                if g:
                    chk.bad(what + ':swallow', '%s goes on after its %s failed' % (what, g[0][1]), g[0][3])
                    good = False
    if good:
        chk.ok()


def limit_zero(s, rd):
    """the facts of a path say that the limit left on the reader is zero"""
    any_limit = False
    terms_ = set()
    for c in s.cond_list():
        for x in subterms(c):
            if x.op == 'app' and x.a[0] == 'LIMIT':
                terms_.add(x)
    for x in terms_:
        any_limit = True
        if s.decide(EQ(x, I(0))) is True and (rd is None or norm(x.a[1]) is rd):
            return True
    return False if any_limit else None


def short_nested_rule(chk, prog, b, own, what):
    ip, args, outs = run(prog, b, own, ('Deserialize::merge_nested', 'Reader::nested') if own is None else ('Reader::nested',))
    chk.saw(ip, outs)
    wt = args[1]
    mine = wire_of(own) if own else T('app', 'const', 'HasWireType::WIRE_TYPE', 'Self')
    R = T('deref', args[2])
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True or failed(s.trace()):
            continue
        if same_wt(s, wt, mine) is False:
            continue
        if s.decide(EQ(T('discr', wt), I(0))) is True:
            continue
        ev = consumed(s.trace())
        takes = [(i, reader_of(e)) for i, e in enumerate(ev) if reader_of(e).op == 'app' and reader_of(e).a[0] == 'TAKE']
        if not takes:
            if own is None:
                chk.unknown(what, 'no nested reader on the path')
            continue
        rd = takes[-1][1]
        if limit_zero(s, rd):
            chk.ok()
            chk.count('sized values accepted only in full')
            continue
        # the whole rest was read through an operation that insists on the amount
        last = ev[-1]
        if last[0] == 'read_exact' and s.simp(last[2]) is rd.a[2]:
            chk.ok()
            chk.count('sized values accepted only in full')
            continue
        lim = limit_zero(s, None)
        others = [c for c in s.cond_list() if contains(c, lambda x: x.op == 'app' and x.a[0] in (
            'COPIED', 'REST', 'NREAD'))] or [e for e in s.trace() if e[0] == 'opaque']
        if others or (lim is False and not definite(*s.cond_list())):
            chk.unknown(what, 'the amount read is tested in a way that is not understood')
        else:
            chk.bad(what + ':short', '%s accepts a sized value without making sure that all of its %s bytes were there'
                    % (what, rd.a[2]), site(ev[takes[-1][0]]))
            chk.count('sized values accepted only in full')


def short_skip_rule(chk, p, b):
    ip, args, outs = run(p, b, None, ('Reader::skip_field', 'Reader::nested'))
    key = 'Reader::skip_field:short'
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True or failed(s.trace()):
            continue
        if s.decide(EQ(T('discr', args[1]), I(0))) is True:
            continue
        ev = consumed(s.trace())
        if not ev or ev[0][0] != 'merge' or len(ev) < 2:
            continue
        size = T('app', 'MG', ev[0][2], ev[0][4])
        e = ev[-1]
        if e[0] == 'read_exact':
            chk.ok()
        elif e[0] == 'read_all':
            n = e[2]
            # all paths with fewer bytes are excluded: n >= size, or the limit is used up
            if s.decide(LT(n, size)) is False or s.decide(EQ(n, size)) is True or limit_zero(s, reader_of(e)):
                chk.ok()
            elif definite(*s.cond_list()):
                chk.bad(key, 'Reader::skip_field accepts a field that is shorter than its length', site(e))
            else:
                chk.unknown(key, 'conditions')
        elif e[0] == 'read_to_end':
            ln = mk_len(T('app', 'REST', e[2]))
            if s.decide(LT(ln, size)) is False or s.decide(EQ(ln, size)) is True or limit_zero(s, reader_of(e)):
                chk.ok()
            elif definite(*s.cond_list()):
                chk.bad(key, 'Reader::skip_field accepts a field that is shorter than its length', site(e))
            else:
                chk.unknown(key, 'conditions')
        elif e[0] == 'read':
            chk.bad(key, 'Reader::skip_field relies on a single read, which may return fewer bytes', site(e))
        else:
            chk.unknown(key, e)


def varint_end_rule(chk, prog, own, b, unroll=0):
    ip, args, outs = run(prog, b, own, unroll=unroll)
    chk.saw(ip, outs)
    what = '<%s as Deserialize>::merge' % own
    if not unroll:
        chk.count('varint decoders')
    n = 0
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True or failed(s.trace()):
            continue
        n += 1
        tr = s.trace()
        ev = consumed(tr)
        if any(s.decide(T('bvar', 'EOF', e[2])) is True for e in tr if e[0] == 'eof'):
            chk.bad(what + ':eof', '%s accepts a varint at the end of the input' % what, b.span)
            return
        if not ev:
            if any(e[0] == 'loop' and any(consumed(it[1]) for it in e[4]) for e in tr):
                chk.unknown(what, 'no read after the loop')
            else:
                chk.bad(what + ':none', '%s succeeds without reading anything' % what, b.span)
                return
            continue
        e = ev[-1]
        if e[0] == 'merge' and e[1] in PRIMS:
            continue
        if e[0] == 'read':
            if s.decide(EQ(T('app', 'NREAD', e[2]), I(0))) is not False:
                chk.bad(what + ':read', '%s uses a byte although the read may have returned none' % what, site(e))
                return
            continue
        if e[0] != 'read_exact' or e[2] is not I(1):
            chk.unknown(what, e)
            return
        byte = T('app', 'BYTE', e[3], I(0))
        if not ends(s, byte):
            if any(contains(c, lambda x: x is byte) for c in s.cond_list()) and not all(definite(c) for c in s.cond_list()):
                if not unroll:
                    # the first bytes, exactly
                    return varint_end_rule(chk, prog, own, b, 3)
                chk.unknown(what, 'condition on the last byte')
                return
            else:
                chk.bad(what + ':cont', '%s accepts a varint whose last byte announces another one' % what, site(e))
            return
    if n and unroll:
        chk.unknown(what, 'condition on the last byte')
    elif n:
        chk.ok()
    else:
        chk.unknown(what, 'no successful path')


def ends(s, byte):
    """the facts say that the top bit of the byte is clear"""
    for c in s.cond_list():
        if not contains(c, lambda x: x is byte):
            continue
        neg = c.op == 'not'
        a = c.a[0] if neg else c
        if a.op == 'eq' and a.a[1].op == 'int':
            x, v = a.a[0], a.a[1].a[0]
            if x.op == 'app' and x.a[0] == 'BitAnd' and I(0x80) in x.a and (v == 0) != neg:
                return True
            if x.op == 'app' and x.a[0] == 'Shr' and I(7) in x.a and (v == 0) != neg:
                return True
        if a.op == 'neg':
            co, m = lin_parts(a.a[0])
            if m.get(byte) == 1 and co == -128 and not neg:
                return True
            if m.get(byte) == -1 and co == 127 and neg:
                return True
    return False


# ------------------------------------------------------------------ C08

def c08(chk):
    w = World.get()
    chk.rule('a nested reader is limited to the length read from the same reader just before')
    chk.rule('every merge of a length-prefixed type succeeds only at the end of its input')
    chk.rule('the look-ahead byte of a reader is never bypassed')
    p = w.steit
    b = p.find1('Reader', 'nested')
    if b is None:
        chk.unknown('Reader::nested', 'gone')
    else:
        guarded(chk, 'Reader::nested', nested_reader_rule, chk, p, b)
    d = p.trait_default('Deserialize', 'merge_nested')
    if d is not None:
        guarded(chk, 'Deserialize::merge_nested', confined_rule, chk, p, d, None, 'Deserialize::merge_nested')
    for prog in all_progs(w):
        for impl, own in ser_impls(prog, 'Deserialize'):
            b = item(prog, impl, 'merge_nested')
            if b is not None:
                guarded(chk, '<%s as Deserialize>::merge_nested' % own, confined_rule, chk, prog, b, own,
                        '<%s as Deserialize>::merge_nested' % own)
    for prog, impl, own, b in merges(w):
        sz = is_sized(prog, own)
        if sz is False:
            continue
        guarded(chk, '<%s as Deserialize>::merge' % own, to_end_rule, chk, prog, own, b)
    for prog, b, own, what, off in decode_roots(w):
        if b.name == 'as_mut_read' or b.name == 'into_inner':
            continue
        guarded(chk, what, bypass_rule, chk, prog, b, own, what, off + ('Reader::nested',))
    guarded(chk, 'Reader', reader_view_rule, chk, p)
    chk.floor('merge functions of length-prefixed types', 25)


def limited(chk, key, s, r, R, ev, b, what):
    """r = TAKE(R, size just read from R)"""
    if r.op == 'app' and r.a[0] == 'TAKE':
        src, n = r.a[1], r.a[2]
        if src is not R:
            if definite(src):
                chk.bad(key, '%s reads a nested value from %s' % (what, src), b.span)
            else:
                chk.unknown(key, src)
            return False
        ms = [e for e in ev if e[0] == 'merge' and e[1] in ('u64', 'u32', 'usize') and reader_of(e) is R]
        if len(ms) == 1 and n is T('app', 'MG', ms[0][2], ms[0][4]):
            return True
        if len(ms) == 1 and definite(n):
            chk.bad(key, '%s limits a nested value to %s bytes instead of its length %s' % (
                what, n, T('app', 'MG', ms[0][2], ms[0][4])), site(ms[0]))
            return False
        if not ms and definite(n):
            chk.bad(key, '%s limits a nested value to %s bytes without having read its length' % (what, n), b.span)
            return False
        chk.unknown(key, 'limit %s' % n)
        return False
    if r is R:
        chk.bad(key, '%s gives a nested value the whole rest of the enclosing input' % what, b.span)
        return False
    chk.unknown(key, 'nested reader %s' % r)
    return False


def nested_reader_rule(chk, p, b):
    ip, args, outs = run(p, b, None, ('Reader::nested',))
    chk.saw(ip, outs)
    R = T('deref', args[0])
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True:
            continue
        r = norm(v.a[2])
        ev = consumed(s.trace())
        if limited(chk, 'Reader::nested', s, r, R, ev, b, 'Reader::nested'):
            if len(ev) == 1:
                chk.ok()
            else:
                chk.bad('Reader::nested', 'Reader::nested consumes more than the length', site(ev[1]))


def confined_rule(chk, prog, b, own, what):
    ip, args, outs = run(prog, b, own, ('Deserialize::merge_nested', 'Reader::nested') if own is None else ('Reader::nested',))
    chk.saw(ip, outs)
    wt = args[1]
    mine = wire_of(own) if own else T('app', 'const', 'HasWireType::WIRE_TYPE', 'Self')
    R = T('deref', args[2])
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is not True or failed(s.trace()):
            continue
        if same_wt(s, wt, mine) is False:
            continue
        ev = consumed(s.trace())
        varint = s.decide(EQ(T('discr', wt), I(0)))
        if varint is None:
            chk.unknown(what, 'wire type not distinguished')
            continue
        ms = [e for e in ev if e[0] == 'merge' and e[1] in ('Self', own)]
        if varint:
            if len(ev) == 1 and ms and reader_of(ms[0]) is R:
                chk.ok()
            elif ms and reader_of(ms[0]) is not R and definite(reader_of(ms[0])):
                chk.bad(what + ':varint', '%s reads a varint through %s' % (what, reader_of(ms[0])), site(ms[0]))
            else:
                chk.unknown(what, 'varint arm')
            continue
        if len(ms) != 1:
            chk.unknown(what, 'sized arm: %s' % [e[0] for e in ev])
            continue
        i = ev.index(ms[0])
        if limited(chk, what + ':sized', s, reader_of(ms[0]), R, ev[:i], b, what):
            extra = [e for e in ev[i + 1:] if reader_of(e) is R]
            if extra:
                chk.bad(what + ':sized', '%s consumes input after the nested value' % what, site(extra[0]))
            else:
                chk.ok()


def to_end_rule(chk, prog, own, b):
    ip, args, outs = run(prog, b, own)
    chk.saw(ip, outs)
    what = '<%s as Deserialize>::merge' % own
    R = T('deref', args[1])
    n = 0
    bad = und = None
    for k, s, v in outs:
        if k != 'ret' or is_ok(v, s) is False or failed(s.trace()):
            continue
        n += 1
        tr = s.trace()
        fin = None
        for e in tr:
            if e[0] == 'eof' and norm(e[1]) is R:
                fin = 'eof' if s.decide(T('bvar', 'EOF', e[2])) is True else fin
            elif e[0] == 'read_to_end' and norm(e[1]) is R:
                fin = 'end'
            elif e[0] == 'read_all' and norm(e[1]) is R:
                fin = 'end'
            elif e[0] in CONSUME and reader_of(e) is R:
                fin = None
                if e[0] == 'merge' and not (e[1] in PRIMS):
                    fin = 'delegated'
            elif e[0] == 'loop':
                if any(any(x[0] in CONSUME for x in it[1]) for it in e[4]):
                    fin = None
            elif e[0] == 'opaque':
                und = und or e[1]
        if fin is None and is_ok(v, s) is None:
            # the result of something else: a delegation the analysis does not see
            und = und or str(v)
        elif fin is None:
            bad = bad or s
    chk.count('merge functions of length-prefixed types')
    if bad is not None and not und:
        chk.bad(what, '%s can succeed before the end of its input: what is left of a length-prefixed value would be taken '
                'for an error or for the next value' % what, b.span, [str(c) for c in bad.cond_list()])
    elif bad is not None or und or not n:
        chk.unknown(what, und or 'no successful path')
    else:
        chk.ok()


def bypass(tr, state='?'):
    """first place where the underlying reader is used while a look-ahead byte may be held; state: 'clean' after a
    consuming read, 'peeked' after an end-of-input test, '?' at entry"""
    for e in tr:
        if e[0] == 'eof':
            state = 'peeked'
        elif e[0] in CONSUME:
            state = 'clean'
        elif e[0] == 'bypass':
            if state != 'clean':
                return e, state
        elif e[0] == 'loop':
            for it in e[4]:
                r, st2 = bypass(it[1], state)
                if r:
                    return r, st2
            if any(any(x[0] in CONSUME or x[0] == 'eof' for x in it[1]) for it in e[4]):
                state = '?'
    return None, state


def bypass_rule(chk, prog, b, own, what, off):
    ip, args, outs = run(prog, b, own, off)
    n = 0
    for k, s, v in outs:
        e, st = bypass(s.trace())
        if e:
            x = e[1]
            if x.op == 'app' and x.a[0] == 'EOFW':
                continue
            chk.bad(what + ':bypass', '%s reads around the look-ahead byte of its reader (%s): the byte is lost' % (
                what, 'after an end-of-input test' if st == 'peeked' else 'nothing was read first'), site(e))
            return
        n += sum(1 for e in s.trace() if e[0] == 'bypass')
    if n:
        chk.count('uses of the underlying reader')
        chk.ok()


def reader_view_rule(chk, p):
    """Reader::read and Reader::eof work on the look-ahead reader itself"""
    for name in ('read', 'eof'):
        b = p.find1('Reader', name)
        if b is None:
            for i in p.impls:
                if p.tname(i['self']).startswith('Reader<') and item(p, i, name) is not None:
                    b = item(p, i, name)
        if b is None:
            chk.unknown('Reader::' + name, 'not found')
            continue
        ip, args, outs = run(p, b, None, ('Reader::' + name,))
        for k, s, v in outs:
            for e in s.trace():
                if e[0] == 'bypass':
                    chk.bad('Reader::' + name, 'Reader::%s reads around the look-ahead byte' % name, site(e))
                    return
        chk.ok()
