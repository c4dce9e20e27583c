"""Models of the standard library operations the analysed code uses: each is a transfer function over
terms.  Anything not listed is an uninterpreted function of its arguments."""
import engine as E
from terms import contains, subterms, subst
from engine import (MODELS, NONE, some, ok, err, ref, cref, mk_len, mk_elem, mk_upd, mk_push, mk_rmlast, mk_sub, mget, mhas,
                    mk_mins, mk_concat, T, I, OPTION, RESULT, CFLOW, Unknown)
from terms import (adt, TRUE, FALSE, UNIT, EQ, LT, LE, NOT, AND, OR, add, sub, mul, top, is_cond)
from prog import last

EMPTY = T('arr')
MEMPTY = T('mempty')


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


# ------------------------------------------------------------------ strings

def mk_cat(*parts):
    out = []
    for p in parts:
        if p.op == 'cat':
            xs = p.a
        else:
            xs = (p,)
        for x in xs:
            if x.op == 'str' and not x.a[0]:
                continue
            if x.op == 'str' and out and out[-1].op == 'str':
                out[-1] = T('str', out[-1].a[0] + x.a[0])
            else:
                out.append(x)
    if not out:
        return T('str', '')
    if len(out) == 1:
        return out[0]
    return T('cat', *out)


def disp(v, how='d'):
    while v.op in ('deref', 'ref') and v.a[0].op in ('str', 'cat', 'deref', 'ref'):
        v = v.a[0]
    if v.op in ('str', 'cat'):
        return v if how == 'd' else T('disp', how, v)
    if v.op == 'int' and how == 'd':
        return T('str', str(v.a[0]))
    return T('disp', how, v)


def fmt_template(tb, args):
    """decodes the compiler's format template: literal pieces and placeholders"""
    out = []
    i = 0
    n = 0
    try:
        while True:
            b = tb[i]
            i += 1
            if b == 0:
                break
            if b < 0x80:
                out.append(T('str', bytes(tb[i:i + b]).decode('utf8')))
                i += b
            elif b == 0x80:
                ln = tb[i] | tb[i + 1] << 8
                i += 2
                out.append(T('str', bytes(tb[i:i + ln]).decode('utf8')))
                i += ln
            else:
                if b & 1:
                    i += 4
                if b & 2:
                    i += 2
                if b & 4:
                    i += 2
                if b & 8:
                    n = tb[i] | tb[i + 1] << 8
                    i += 2
                out.append(args[n] if n < len(args) else top('fmtarg'))
                n += 1
    except (IndexError, UnicodeDecodeError):
        return T('app', 'fmt', T('bytes', tuple(tb)), *args)
    return mk_cat(*out)


@model('Arguments::new')
def _(c):
    t = c.ip.deep(c.st, c.args[0])
    a = c.ip.deep(c.st, c.args[1])
    if t.op == 'str':
        t = T('bytes', tuple(t.a[0].encode()))
    if t.op == 'bytes' and a.op == 'arr':
        return c.ret(fmt_template(list(t.a[0]), list(a.a)))
    if t.op == 'arr' and all(x.op == 'int' for x in t.a) and a.op == 'arr':
        return c.ret(fmt_template([x.a[0] for x in t.a], list(a.a)))
    return c.ret(T('app', 'fmt', t, a))


@model('Arguments::from_str_nonconst', 'Arguments::from_str', 'Arguments::new_const')
def _(c):
    return c.ret(c.ip.deep(c.st, c.args[0]))


@model('Argument::new_display')
def _(c):
    return c.ret(disp(c.ip.deep(c.st, c.args[0])))


@model('Argument::new_debug')
def _(c):
    return c.ret(disp(c.ip.deep(c.st, c.args[0]), '?'))


@model('Argument::new_lower_hex', 'Argument::new_upper_hex', 'Argument::new_pointer')
def _(c):
    return c.ret(disp(c.ip.deep(c.st, c.args[0]), 'x'))


@model('fmt::format', 'hint::must_use', 'convert::identity', 'hint::black_box')
def _(c):
    return c.ret(c.args[0])


@model('rt::panic_fmt', 'panicking::panic', 'panicking::panic_fmt', 'rt::begin_panic', 'panicking::panic_display',
       'panicking::panic_explicit', 'panicking::panic_const', 'panicking::unreachable_display')
def _(c):
    return [('panic', c.st, ('panic', c.key, c.sp, c.ip.deep(c.st, c.args[0]) if c.args else None))]


@model('String::new')
def _(c):
    return c.ret(T('str', ''))


@model('String::with_capacity')
def _(c):
    c.st.emit('alloc', c.args[0], c.sp)
    return c.ret(T('str', ''))


@model('String::push_str', 'String::push', 'Write::write_str')
def _(c):
    if c.key == 'Write::write_str' and 'String' not in c.selfname():
        return None
    v = c.ip.deep(c.st, c.args[1])
    v = T('str', chr(v.a[0])) if c.key == 'String::push' and v.op == 'int' else disp(v)
    c.ip.store(c.st, c.args[0], mk_cat(c.val(0), v))
    return c.ret(UNIT if c.key != 'Write::write_str' else ok(UNIT))


@model('String::as_bytes', 'str::as_bytes', 'String::as_str', 'String::into_bytes', 'String::as_mut_str',
       'str::to_owned', 'str::to_string', 'String::into_boxed_str', 'String::as_ref', 'str::as_ref')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    if c.key in ('String::as_bytes', 'str::as_bytes', 'String::as_str') and v.op not in ('str', 'cat'):
        return c.ret(c.args[0])
    return c.ret(v)


@model('String::len', 'str::len', 'String::is_empty', 'str::is_empty')
def _(c):
    n = mk_len(c.ip.deep(c.st, c.args[0]))
    return c.ret(EQ(n, I(0)) if c.key.endswith('is_empty') else n)


@model('str::repeat')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    n = c.st.simp(c.args[1])
    if v.op == 'str' and n.op == 'int' and n.a[0] < 100:
        return c.ret(T('str', v.a[0] * n.a[0]))
    return c.ret(T('srep', v, n))


@model('String::from_utf8')
def _(c):
    return c.ip.fork_result(c.st, T('app', 'from_utf8', c.ip.deep(c.st, c.args[0])), c.prog,
                            c.prog.t(c.dty))


@model('ToString::to_string')
def _(c):
    return c.ret(disp(c.ip.deep(c.st, c.args[0])))


# ------------------------------------------------------------------ conversions, smart pointers

@model('Deref::deref', 'DerefMut::deref_mut', 'Borrow::borrow', 'BorrowMut::borrow_mut')
def _(c):
    if c.f.get('body') is not None or c.f.get('unresolved'):
        return None
    a = c.args[0]
    v = c.val(0)
    if v.op == 'guard':
        r = v.a[0]
        return c.ret(ref(r.a[0], r.a[1] + (('f', 0),)) if r.op == 'ref' else ref(('P', r), (('f', 0),)))
    return c.ret(a)


@model('AsRef::as_ref', 'AsMut::as_mut')
def _(c):
    if c.f.get('body') is not None:
        return None
    v = c.val(0)
    if v.op in ('str', 'cat'):
        return c.ret(v)
    if v.op == 'ref':
        return c.ret(v)
    return c.ret(c.args[0])


def try_target(c, dt):
    """the type a conversion that may fail converts to: the first argument of the Result"""
    for a in dt.get('args') or ():
        t = c.prog.t(a) if not isinstance(a, dict) else a
        if t['k'] == 'int':
            return t
    return {}


def unref(c, v, n=0):
    """a value with the references inside it replaced by what they point at: comparing references compares that"""
    if n > 6:
        return v
    if v.op == 'ref':
        return unref(c, c.ip.deep(c.st, v), n + 1) if c.ip.deep(c.st, v) is not v else v
    if v.op in ('adt', 'tup') and any(isinstance(x, Term) and x.op in ('ref', 'adt', 'tup') for x in v.a):
        return T(v.op, *[unref(c, x, n + 1) if isinstance(x, Term) else x for x in v.a])
    return v


@model('Into::into', 'From::from', 'TryFrom::try_from', 'TryInto::try_into')
def _(c):
    if c.f.get('body') is not None:
        return None
    dt = c.prog.t(c.dty)
    v = c.args[0]
    sty = c.prog.t(c.atys[0]) if c.atys and c.atys[0] is not None else {'k': 'other'}
    isopt = dt['k'] == 'adt' and last(dt['def']) == 'Option'
    if c.key.startswith('Try'):
        if sty['k'] == 'int' and v.op == 'int':
            return c.ret(ok(v))
        a, b = (c.ip.INTS.get(t.get('n')) for t in (sty, try_target(c, dt)))
        if a and b and not a[1] and v.op != 'bits':
            # from an unsigned number: it fits when it is below the other type's bound
            top_ = 1 << (b[0] - b[1])
            if a[0] <= b[0] - b[1]:
                return c.ret(ok(v))
            out = []
            for s, d in c.ip.fork(c.st, LT(v, I(top_))):
                out.append(('ret', s, ok(v) if d else err(T('app', 'TryFromIntError'))))
            return out
        return None
    if isopt:
        if sty['k'] == 'adt' and last(sty['def']) == 'Option':
            return c.ret(v)
        if sty['k'] in ('param', 'alias', 'other'):
            if v.op in ('adt',):
                return c.ret(v)
            return c.ret(T('app', 'Into', v))
        return c.ret(some(v))
    if sty['k'] in ('int', 'bool') and dt['k'] == 'int':
        return c.ret(v)
    if sty['k'] in ('param', 'alias') and dt['k'] == 'adt' and last(dt['def']) == 'String':
        return c.ret(v)
    if dt['k'] == 'adt' and last(dt['def']) in ('String', 'Vec', 'Box', 'Arc', 'PathBuf'):
        return c.ret(c.ip.deep(c.st, v))
    if c.atys and c.atys[0] == c.dty:
        return c.ret(v)
    return None


@model('Clone::clone', 'ToOwned::to_owned', 'Cow::into_owned', 'slice::to_vec', 'slice::to_owned')
def _(c):
    if c.f.get('body') is not None:
        return None
    return c.ret(c.val(0))


@model('Clone::clone_from')
def _(c):
    if c.f.get('body') is not None:
        return None
    c.ip.store(c.st, c.args[0], c.val(1))
    return c.ret(UNIT)


@model('Arc::new', 'Box::new', 'Rc::new', 'Cell::new', 'Atomic::new', 'ManuallyDrop::new', 'Box::from_raw',
       'Box::pin', 'Arc::from', 'Box::from', 'Option::as_deref', 'Box::into_inner', 'Atomic::into_inner',
       'Cell::into_inner', 'AtomicU32::new')
def _(c):
    return c.ret(c.args[0])


@model('Atomic::load', 'Cell::get', 'AtomicU32::load')
def _(c):
    return c.ret(c.val(0))


@model('Atomic::store', 'Cell::set', 'AtomicU32::store')
def _(c):
    c.ip.store(c.st, c.args[0], c.args[1])
    h = c.ip.hooks.get('cellset')
    if h:
        h(c)
    return c.ret(UNIT)


@model('Atomic::swap', 'Cell::replace')
def _(c):
    o = c.val(0)
    c.ip.store(c.st, c.args[0], c.args[1])
    return c.ret(o)


@model('Atomic::fetch_add')
def _(c):
    o = c.val(0)
    c.ip.store(c.st, c.args[0], add(o, c.args[1]))
    return c.ret(o)


@model('Arc::ptr_eq', 'Rc::ptr_eq')
def _(c):
    return c.ret(EQ(c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])))


@model('Mutex::new', 'RwLock::new', 'RefCell::new')
def _(c):
    E.ARITY[('Mutex', 0)] = 99
    return c.ret(adt('Mutex', 0, c.args[0]))


def canon_ref(c, r):
    return r if r.op == 'ref' else ref(('P', r))


@model('Mutex::lock')
def _(c):
    r = canon_ref(c, c.args[0])
    c.st.emit('lock', r, c.sp)
    return c.ret(ok(T('guard', r)))


@model('Mutex::try_lock')
def _(c):
    r = canon_ref(c, c.args[0])
    s = c.st.copy()
    cid = s.fresh_id()
    s.emit('trylock-fail', r, c.sp)
    c.st.emit('lock', r, c.sp)
    return [('ret', c.st, ok(T('guard', r))), ('ret', s, err(T('app', 'trylock', cid)))]


@model('MutexGuard::map')
def _(c):
    return None


@model('Mutex::get_mut')
def _(c):
    r = canon_ref(c, c.args[0])
    return c.ret(ok(ref(r.a[0], r.a[1] + (('f', 0),))))


@model('mem::replace')
def _(c):
    o = c.val(0)
    c.ip.store(c.st, c.args[0], c.args[1])
    return c.ret(o)


@model('mem::swap')
def _(c):
    a, b = c.val(0), c.val(1)
    c.ip.store(c.st, c.args[0], b)
    c.ip.store(c.st, c.args[1], a)
    return c.ret(UNIT)


@model('mem::take')
def _(c):
    o = c.val(0)
    r = default_of(c.prog, c.dty, c)
    out = []
    for k, s, v in r:
        if k == 'ret':
            c.ip.store(s, c.args[0], v)
            out.append((k, s, o))
        else:
            out.append((k, s, v))
    return out


@model('mem::drop')
def _(c):
    v = c.args[0]
    if v.op == 'guard':
        c.ip.unlock(c.st, v, c.sp)
        return c.ret(UNIT)
    if c.atys and c.atys[0] is not None and c.prog.t(c.atys[0])['k'] == 'adt':
        r = c.ip.heap(c.st, v)
        for i in c.prog.impls:
            if i.get('trait', '').endswith('Drop') and c.prog.t(i['self']).get('def') == c.prog.t(c.atys[0])['def']:
                for it in i['items']:
                    if it['name'] == 'drop' and it.get('body') in c.prog.bodies:
                        return c.ip.exec(c.st, c.prog.bodies[it['body']], [r], c.fr.depth + 1, c.fr.stack)
    return c.ret(UNIT)


@model('mem::forget')
def _(c):
    return c.ret(UNIT)


@model('mem::discriminant', 'intrinsics::discriminant_value')
def _(c):
    v = c.val(0)
    ty = c.atys[0]
    inner = c.prog.t(ty).get('t') if ty is not None else None
    return c.ret(c.ip.discr(c.st, v, c.prog, inner))


SIZES = {'u8': 1, 'i8': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'u64': 8, 'i64': 8, 'usize': 8, 'isize': 8,
         'u128': 16, 'i128': 16}


@model('mem::size_of')
def _(c):
    t = c.prog.t(c.f['args'][0])
    if t['k'] == 'int' and t['n'] in SIZES:
        return c.ret(I(SIZES[t['n']]))
    if t['k'] == 'bool':
        return c.ret(I(1))
    return c.ret(T('app', 'size_of', c.prog.tname(c.f['args'][0])))


def default_of(prog, ty, c):
    t = prog.t(ty)
    k = t['k']
    v = None
    if k == 'int':
        v = I(0)
    elif k == 'bool':
        v = FALSE
    elif k == 'tuple' and not t['ts']:
        v = UNIT
    elif k == 'ref' and prog.t(t['t'])['k'] == 'str':
        v = T('str', '')
    elif k == 'adt':
        n = last(t['def'])
        if n == 'Vec':
            v = EMPTY
        elif n == 'String':
            v = T('str', '')
        elif n == 'Option':
            v = NONE
        elif n in ('IndexMap', 'HashMap', 'HashSet', 'BTreeMap', 'IndexSet', 'BTreeSet'):
            v = MEMPTY
        elif n == 'PhantomData':
            E.ARITY[(t['def'], 0)] = 0
            v = adt(t['def'], 0)
        elif n in ('Atomic', 'AtomicU32', 'Cell', 'Box', 'Arc', 'AtomicBool', 'AtomicUsize'):
            if n.startswith('Atomic') or (t['args'] and prog.t(t['args'][0])['k'] == 'int'):
                v = I(0)
        if v is None:
            for i in prog.impls:
                if last(i.get('trait', '')) == 'Default' and prog.t(i['self']).get('def') == t['def']:
                    for it in i['items']:
                        if it['name'] == 'default' and it.get('body') in prog.bodies:
                            return c.ip.exec(c.st, prog.bodies[it['body']], [], c.fr.depth + 1, c.fr.stack)
    if v is None:
        v = c.ip.typed(T('app', 'default', prog.tname(ty)), prog, ty)
    return [('ret', c.st, v)]


@model('Default::default')
def _(c):
    if c.f.get('body') is not None:
        return None
    return default_of(c.prog, c.dty, c)


@model('PartialEq::eq', 'PartialEq::ne')
def _(c):
    if c.f.get('body') is not None:
        return None
    h = c.ip.hooks.get('eq')
    a, b = c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])
    e = None
    if c.f.get('unresolved') or h:
        if h:
            e = h(c, a, b)
    if c.key == 'PartialEq::ne' and e is None:
        # the provided `ne` defers to `eq`
        body = c.prog.bodies.get(c.f.get('eq_body'))
        if body is not None:
            out = []
            for k, s, v in c.ip.exec(c.st, body, list(c.args), c.fr.depth + 1, c.fr.stack):
                out.append((k, s, NOT(v) if k == 'ret' and is_cond(v) or k == 'ret' and v.op == 'int'
                            else NOT(EQ(v, I(1))) if k == 'ret' else v))
            return out
    if e is None:
        e = EQ(unref(c, a), unref(c, b))
    return c.ret(NOT(e) if c.key.endswith('ne') else e)


@model('Iterator::eq', 'Iterator::ne')
def _(c):
    its = []
    for x in c.args[:2]:
        while x.op == 'ref':
            x = c.ip.load(c.st, x)
        if x.op != 'it' or x.a[0] not in ('slice', 'mapiter') or len(x.a) != 5 or x.a[3] is not I(0):
            return None
        v = c.ip.load(c.st, T('ref', x.a[1], x.a[2]))
        if v.op == 'ref' or x.a[4] is not c.st.simp(mk_len(v) if x.a[0] == 'slice' else mlen(v)):
            return None
        its.append((x.a[0], v))
    (k1, a), (k2, b) = its
    if k1 != k2:
        return None
    out = []
    yes = c.key.endswith('eq')
    for s, d in c.ip.fork(c.st, EQ(a, b)):
        if k1 == 'slice' or not d:
            out.append(('ret', s, I(1 if d is yes else 0)))
            continue
        # maps may hold the same entries in different orders
        for s2, d2 in c.ip.fork(s, T('bvar', 'same-order', a, b)):
            out.append(('ret', s2, I(1 if d2 is yes else 0)))
    return out


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(c):
    if c.f.get('body') is not None:
        return None
    a, b = c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])
    k = c.key[-2:]
    return c.ret({'lt': lambda: LT(a, b), 'le': lambda: LE(a, b), 'gt': lambda: LT(b, a),
                  'ge': lambda: LE(b, a)}[k]())


@model('cmp::min', 'Ord::min', 'cmp::max', 'Ord::max')
def _(c):
    a, b = c.args[:2]
    out = []
    for s, d in c.ip.fork(c.st, LE(a, b)):
        out.append(('ret', s, (a if d else b) if c.key.endswith('min') else (b if d else a)))
    return out


# ------------------------------------------------------------------ integers

def int_name(c):
    return c.key.split('::')[0]


for _n in E.Interp.INTS:
    def _mk(n):
        bits, signed = E.Interp.INTS[n]
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)

        def arith(op):
            def f(c):
                a, b = c.st.simp(c.args[0]), c.st.simp(c.args[1])
                if a.op == 'bits' or b.op == 'bits':
                    return a, b, E.BITS['binop'](op.capitalize(), a, b, n)
                r = add(a, b) if op == 'add' else sub(a, b) if op == 'sub' else mul(a, b)
                return a, b, r
            return f

        def checked(op):
            g = arith(op)

            def f(c):
                a, b, r = g(c)
                if r.op == 'int':
                    return c.ret(some(r) if lo <= r.a[0] <= hi else NONE)
                if op == 'sub' and not signed:
                    return [('ret', s, NONE if d else some(r)) for s, d in c.ip.fork(c.st, LT(a, b))]
                cond = T('bvar', 'overflow', op.capitalize(), n, a, b)
                if a.op == 'bits' or b.op == 'bits':
                    cond = E.BITS['binop'](op.capitalize() + 'WithOverflow', a, b, n).a[1]
                return [('ret', s, NONE if d else some(r)) for s, d in c.ip.fork(c.st, cond)]
            return f

        def saturating(op):
            g = arith(op)

            def f(c):
                a, b, r = g(c)
                if r.op == 'int':
                    return c.ret(I(max(lo, min(hi, r.a[0]))))
                if op == 'sub' and not signed:
                    return [('ret', s, I(0) if d else r) for s, d in c.ip.fork(c.st, LT(a, b))]
                return c.ret(T('app', 'sat' + op, a, b))
            return f

        def wrapping(op):
            g = arith(op)

            def f(c):
                a, b, r = g(c)
                if r.op == 'int':
                    x = r.a[0] & ((1 << bits) - 1)
                    return c.ret(I(x - (1 << bits) if signed and x >> bits - 1 else x))
                return c.ret(r)
            return f
        for op in ('add', 'sub', 'mul'):
            MODELS['%s::checked_%s' % (n, op)] = checked(op)
            MODELS['%s::saturating_%s' % (n, op)] = saturating(op)
            MODELS['%s::wrapping_%s' % (n, op)] = wrapping(op)
        MODELS['%s::max_value' % n] = lambda c: c.ret(I(hi))
        MODELS['%s::min_value' % n] = lambda c: c.ret(I(lo))
    _mk(_n)


# ------------------------------------------------------------------ Option and Result

def cases(c, st, v, prog=None, ty=None):
    """[(state, variant, payload)] of an Option (0 None, 1 Some) or Result (0 Ok, 1 Err) value"""
    if v.op == 'adt':
        return [(st, v.a[1], v.a[2] if len(v.a) > 2 else None)]
    if v.op == 'ref':
        v = c.ip.load(st, v)
        return cases(c, st, v)
    isres = ty is not None and c.prog.t(ty)['k'] == 'adt' and last(c.prog.t(ty)['def']) == 'Result'
    out = []
    for s, d in c.ip.fork(st, EQ(T('discr', v), I(0))):
        vi = 0 if d else 1
        p = None
        if isres or vi == 1:
            p = T('vf', v, vi, 0)
            if ty is not None:
                tt = c.prog.t(ty)
                if tt['k'] == 'adt':
                    ai = vi if isres else 0
                    if ai < len(tt['args']):
                        c.ip.typed(p, c.prog, tt['args'][ai])
                        pt = c.prog.t(tt['args'][ai])
                        if pt['k'] == 'tuple' and not pt['ts']:
                            p = UNIT
        out.append((s, vi, p))
    return out


def arg_cases(c, i=0):
    return cases(c, c.st, c.args[i], c.prog, c.atys[i] if c.atys else None)


def calls(c, st, f, args, wrap=lambda v: v):
    return [(k, s, wrap(v) if k == 'ret' else v) for k, s, v in c.ip.call_value(st, c.fr, f, list(args), None, c.sp)]


def byref_cases(c, i=0):
    """cases of an option behind a reference, payload as a reference to it"""
    r = c.args[i]
    v = c.ip.load(c.st, r)
    if v.op == 'ref':
        r = v
        v = c.ip.load(c.st, v)
    r = canon_ref(c, r)
    t = None
    if c.atys and c.atys[i] is not None:
        t = c.prog.t(c.atys[i]).get('t')
    out = []
    for s, vi, p in cases(c, c.st, v, c.prog, t):
        out.append((s, vi, ref(r.a[0], r.a[1] + (('v', vi), ('f', 0))) if p is not None else None, p, r))
    return out


@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    d = EQ(I(v.a[1]) if v.op == 'adt' else T('discr', v), I(0))
    return c.ret(d if c.key in ('Option::is_none', 'Result::is_ok') else NOT(d))


@model('Option::as_ref', 'Option::as_mut', 'Option::as_deref', 'Option::as_deref_mut')
def _(c):
    return [('ret', s, some(p) if vi else NONE) for s, vi, p, _, _ in byref_cases(c)]


@model('Result::as_ref', 'Result::as_mut')
def _(c):
    return [('ret', s, err(p) if vi else ok(p)) for s, vi, p, _, _ in byref_cases(c)]


@model('Option::take')
def _(c):
    v = c.val(0)
    c.ip.store(c.st, c.args[0], NONE)
    return c.ret(v)


@model('Option::replace')
def _(c):
    v = c.val(0)
    c.ip.store(c.st, c.args[0], some(c.args[1]))
    return c.ret(v)


@model('Option::insert')
def _(c):
    c.ip.store(c.st, c.args[0], some(c.args[1]))
    r = canon_ref(c, c.args[0])
    return c.ret(ref(r.a[0], r.a[1] + (('v', 1), ('f', 0))))


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def _(c):
    out = []
    for s, vi, p, _, r in byref_cases(c):
        pr = ref(r.a[0], r.a[1] + (('v', 1), ('f', 0)))
        if vi:
            out.append(('ret', s, pr))
        elif c.key.endswith('with'):
            for k, s2, v in calls(c, s, c.args[1], []):
                if k == 'ret':
                    c.ip.store(s2, r, some(v))
                    out.append((k, s2, pr))
                else:
                    out.append((k, s2, v))
        else:
            c.ip.store(s, r, some(c.args[1]))
            out.append(('ret', s, pr))
    return out


@model('Option::map', 'Option::and_then', 'Option::filter', 'Option::map_or', 'Option::map_or_else',
       'Option::unwrap_or', 'Option::unwrap_or_else', 'Option::unwrap_or_default', 'Option::ok_or',
       'Option::ok_or_else', 'Option::or', 'Option::or_else', 'Option::unwrap', 'Option::expect', 'Option::copied',
       'Option::cloned', 'Option::is_some_and', 'Option::and', 'Option::xor')
def _(c):
    k = c.key.split('::')[1]
    out = []
    for s, vi, p in arg_cases(c):
        if vi:
            if k == 'map':
                out += calls(c, s, c.args[1], [p], some)
            elif k == 'and_then' or k == 'is_some_and':
                out += calls(c, s, c.args[1], [p])
            elif k in ('map_or', 'map_or_else'):
                out += calls(c, s, c.args[2], [p])
            elif k == 'filter':
                for kk, s2, v in calls(c, s, c.args[1], [c.ip.heap(s, p)]):
                    if kk != 'ret':
                        out.append((kk, s2, v))
                        continue
                    for s3, d in c.ip.fork(s2, v if is_cond(v) or v.op == 'int' else EQ(v, I(1))):
                        out.append(('ret', s3, some(p) if d else NONE))
            elif k in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
                out.append(('ret', s, p))
            elif k in ('ok_or', 'ok_or_else'):
                out.append(('ret', s, ok(p)))
            elif k in ('or', 'or_else'):
                out.append(('ret', s, some(p)))
            elif k in ('copied', 'cloned'):
                out.append(('ret', s, some(c.ip.load(s, p))))
            elif k == 'and':
                out.append(('ret', s, c.args[1]))
            else:
                return None
        else:
            if k in ('map', 'and_then', 'filter', 'copied', 'cloned', 'and'):
                out.append(('ret', s, NONE))
            elif k == 'is_some_and':
                out.append(('ret', s, FALSE))
            elif k in ('unwrap_or', 'map_or'):
                out.append(('ret', s, c.args[1]))
            elif k in ('unwrap_or_else', 'or_else', 'map_or_else'):
                out += calls(c, s, c.args[1], [])
            elif k == 'unwrap_or_default':
                c2 = c
                c2.st = s
                out += default_of(c.prog, c.dty, c2)
            elif k in ('unwrap', 'expect'):
                s.emit('panic', c.key, c.sp)
                out.append(('panic', s, ('unwrap', c.key, c.sp)))
            elif k == 'ok_or':
                out.append(('ret', s, err(c.args[1])))
            elif k == 'ok_or_else':
                out += calls(c, s, c.args[1], [], err)
            elif k == 'or':
                out.append(('ret', s, c.args[1]))
            else:
                return None
    return out


@model('Result::map', 'Result::and_then', 'Result::map_err', 'Result::unwrap', 'Result::expect', 'Result::ok',
       'Result::err', 'Result::unwrap_or', 'Result::unwrap_or_else', 'Result::unwrap_or_default', 'Result::or_else',
       'Result::unwrap_err', 'Result::expect_err', 'Result::and', 'Result::map_or')
def _(c):
    k = c.key.split('::')[1]
    out = []
    for s, vi, p in arg_cases(c):
        if vi == 0:
            if k == 'map':
                out += calls(c, s, c.args[1], [p], ok)
            elif k == 'and_then':
                out += calls(c, s, c.args[1], [p])
            elif k == 'map_or':
                out += calls(c, s, c.args[2], [p])
            elif k in ('map_err', 'or_else'):
                out.append(('ret', s, ok(p)))
            elif k in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default'):
                out.append(('ret', s, p))
            elif k == 'ok':
                out.append(('ret', s, some(p)))
            elif k == 'err':
                out.append(('ret', s, NONE))
            elif k == 'and':
                out.append(('ret', s, c.args[1]))
            else:
                s.emit('panic', c.key, c.sp)
                out.append(('panic', s, ('unwrap', c.key, c.sp)))
        else:
            if k in ('map', 'and_then', 'and'):
                out.append(('ret', s, err(p)))
            elif k == 'map_err':
                out += calls(c, s, c.args[1], [p], err)
            elif k in ('or_else', 'unwrap_or_else'):
                out += calls(c, s, c.args[1], [p])
            elif k in ('unwrap', 'expect'):
                s.emit('panic', c.key, c.sp)
                out.append(('panic', s, ('unwrap', c.key, c.sp)))
            elif k in ('unwrap_or', 'map_or'):
                out.append(('ret', s, c.args[1]))
            elif k == 'unwrap_or_default':
                c.st = s
                out += default_of(c.prog, c.dty, c)
            elif k == 'ok':
                out.append(('ret', s, NONE))
            elif k == 'err':
                out.append(('ret', s, some(p)))
            else:
                out.append(('ret', s, p))
    return out


@model('Try::branch')
def _(c):
    t = c.prog.t(c.atys[0]) if c.atys and c.atys[0] is not None else None
    isopt = t is not None and t['k'] == 'adt' and last(t['def']) == 'Option'
    out = []
    for s, vi, p in arg_cases(c):
        if isopt:
            out.append(('ret', s, adt(CFLOW, 0, p) if vi else adt(CFLOW, 1, NONE)))
        else:
            out.append(('ret', s, adt(CFLOW, 1, err(p)) if vi else adt(CFLOW, 0, p)))
    return out


@model('FromResidual::from_residual')
def _(c):
    v = c.args[0]
    if v.op == 'adt' and len(v.a) > 2 and v.a[0] == RESULT:
        return c.ret(err(v.a[2]))
    return c.ret(v)


@model('Try::from_output')
def _(c):
    t = c.prog.t(c.dty)
    return c.ret(some(c.args[0]) if last(t['def']) == 'Option' else ok(c.args[0]))


# ------------------------------------------------------------------ Vec and slices

@model('Vec::new', 'VecDeque::new')
def _(c):
    return c.ret(EMPTY)


@model('Vec::with_capacity')
def _(c):
    c.st.emit('alloc', c.args[0], c.sp)
    return c.ret(EMPTY)


@model('vec::from_elem')
def _(c):
    c.st.emit('alloc', c.args[1], c.sp)
    return c.ret(T('repeat', c.args[0], c.args[1]))


@model('Vec::reserve', 'Vec::shrink_to_fit', 'String::reserve', 'IndexMap::reserve', 'Vec::reserve_exact')
def _(c):
    if 'reserve' in c.key:
        c.st.emit('alloc', c.args[1], c.sp)
    return c.ret(UNIT)


@model('Vec::len', 'slice::len', 'Vec::is_empty', 'slice::is_empty', 'array::len')
def _(c):
    n = mk_len(c.val(0))
    n = c.st.simp(n)
    return c.ret(EQ(n, I(0)) if c.key.endswith('empty') else n)


@model('Vec::push', 'Vec::push_within_capacity')
def _(c):
    c.ip.store(c.st, c.args[0], mk_push(c.val(0), c.args[1]))
    return c.ret(UNIT)


def last_i(v):
    return sub(mk_len(v), I(1))


@model('Vec::pop')
def _(c):
    v = c.val(0)
    out = []
    for s, d in c.ip.fork(c.st, EQ(c.st.simp(mk_len(v)), I(0))):
        if d:
            out.append(('ret', s, NONE))
        else:
            x = mk_elem(v, s.simp(last_i(v)), s)
            c.ip.store(s, c.args[0], mk_rmlast(v, s))
            out.append(('ret', s, some(x)))
    return out


def bounds(c, st, i, n, what='index'):
    """[(state, in range?)] and a panic outcome"""
    out = []
    for s, d in c.ip.fork(st, LT(st.simp(i), st.simp(n))):
        if not d:
            s.emit('assert-fail', 'bounds', LT(i, n), c.sp)
        out.append((s, d))
    return out


@model('Vec::remove', 'Vec::swap_remove')
def _(c):
    v = c.val(0)
    i = c.st.simp(c.args[1])
    out = []
    for s, d in bounds(c, c.st, i, mk_len(v)):
        if not d:
            out.append(('panic', s, ('bounds', c.key, c.sp)))
            continue
        x = mk_elem(v, s.simp(i), s)
        l = last_i(v)
        for s2, e in c.ip.fork(s, EQ(s.simp(i), s.simp(l))):
            if e:
                nv = mk_rmlast(v, s2)
            elif c.key == 'Vec::remove':
                nv = T('remove', v, i)
            else:
                nv = mk_upd(mk_rmlast(v, s2), i, mk_elem(v, s2.simp(l), s2), s2)
            c.ip.store(s2, c.args[0], nv)
            out.append(('ret', s2, x))
    return out


@model('Vec::insert')
def _(c):
    v = c.val(0)
    i = c.args[1]
    out = []
    for s, d in bounds(c, c.st, i, add(mk_len(v), I(1))):
        if not d:
            out.append(('panic', s, ('bounds', c.key, c.sp)))
            continue
        for s2, e in c.ip.fork(s, EQ(s.simp(i), s.simp(mk_len(v)))):
            c.ip.store(s2, c.args[0], mk_push(v, c.args[2]) if e else T('insert', v, i, c.args[2]))
            out.append(('ret', s2, UNIT))
    return out


@model('Vec::clear', 'Vec::truncate', 'String::clear', 'Vec::resize')
def _(c):
    v = c.val(0)
    if c.key.endswith('clear'):
        c.ip.store(c.st, c.args[0], T('str', '') if c.key.startswith('String') else EMPTY)
        return c.ret(UNIT)
    if c.key == 'Vec::truncate':
        n = c.st.simp(c.args[1])
        out = []
        if v.op == 'arr' and n.op == 'int':
            c.ip.store(c.st, c.args[0], T('arr', *v.a[:n.a[0]]))
            return c.ret(UNIT)
        for s, d in c.ip.fork(c.st, LT(n, mk_len(v))):
            if d:
                if n is s.simp(last_i(v)) or s.simp(sub(last_i(v), n)) is I(0):
                    c.ip.store(s, c.args[0], mk_rmlast(v, s))
                elif s.simp(n) is I(0):
                    c.ip.store(s, c.args[0], EMPTY)
                else:
                    c.ip.store(s, c.args[0], T('trunc', v, n))
            out.append(('ret', s, UNIT))
        return out
    c.st.emit('alloc', c.args[1], c.sp)
    c.ip.store(c.st, c.args[0], T('app', 'resize', v, c.args[1], c.args[2]))
    return c.ret(UNIT)


@model('Vec::dedup')
def _(c):
    v = c.val(0)
    if v.op != 'arr':
        return None
    sts = [(c.st, ())]
    for x in v.a:
        nxt = []
        for s, kept in sts:
            if not kept:
                nxt.append((s, (x,)))
                continue
            for s2, e in c.ip.fork(s, EQ(kept[-1], x)):
                nxt.append((s2, kept if e else kept + (x,)))
        sts = nxt
        if len(sts) > 64:
            return None
    for s, kept in sts:
        c.ip.store(s, c.args[0], T('arr', *kept))
    return [('ret', s, UNIT) for s, _ in sts]


@model('Vec::extend_from_slice', 'Vec::append')
def _(c):
    o = c.ip.deep(c.st, c.args[1])
    c.ip.store(c.st, c.args[0], mk_concat(c.val(0), o))
    if c.key.endswith('append'):
        c.ip.store(c.st, c.args[1], EMPTY)
    return c.ret(UNIT)


@model('Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_boxed_slice', 'slice::into_vec', 'Vec::from', 'Vec::leak',
       'slice::as_ref', 'array::as_slice')
def _(c):
    return c.ret(c.args[0])


@model('slice::swap')
def _(c):
    v = c.val(0)
    i, j = c.st.simp(c.args[1]), c.st.simp(c.args[2])
    out = []
    for s, d in bounds(c, c.st, i, mk_len(v)):
        if not d:
            out.append(('panic', s, ('bounds', c.key, c.sp)))
            continue
        for s2, d2 in bounds(c, s, j, mk_len(v)):
            if not d2:
                out.append(('panic', s2, ('bounds', c.key, c.sp)))
                continue
            x, y = mk_elem(v, i, s2), mk_elem(v, j, s2)
            c.ip.store(s2, c.args[0], mk_upd(mk_upd(v, i, y, s2), j, x, s2))
            out.append(('ret', s2, UNIT))
    return out


@model('slice::get', 'slice::get_mut', 'Vec::get', 'Vec::get_mut')
def _(c):
    r = c.args[0]
    v = c.val(0)
    if not idx_ok(c, 1):
        return None
    i = c.st.simp(c.args[1])
    r = canon_ref(c, r) if r.op not in ('arr', 'bytes', 'str') else ref(('C', r))
    out = []
    for s, d in c.ip.fork(c.st, LT(i, c.st.simp(mk_len(v)))):
        out.append(('ret', s, some(ref(r.a[0], r.a[1] + (('i', i),))) if d else NONE))
    return out


def idx_ok(c, i):
    t = c.prog.t(c.atys[i]) if c.atys and c.atys[i] is not None else None
    return t is None or t['k'] == 'int'


@model('Index::index', 'IndexMut::index_mut')
def _(c):
    if c.f.get('body') is not None or c.f.get('unresolved'):
        return None
    if not idx_ok(c, 1):
        t = c.prog.t(c.atys[1])
        if t['k'] == 'adt' and last(t['def']) == 'RangeFull':
            return c.ret(c.args[0])
        v, rg = c.ip.deep(c.st, c.args[0]), c.args[1]
        if 'IndexMap' in c.selfname() or 'HashMap' in c.selfname():
            return map_index(c)
        if 'index_mut' in c.key:
            r = canon_ref(c, c.args[0])
            return c.ret(ref(r.a[0], r.a[1] + (('s', rg),)))
        return c.ret(cref(mk_sub(v, rg)))
    if 'IndexMap' in c.selfname() or 'HashMap' in c.selfname():
        return map_index(c)
    v = c.val(0)
    i = c.st.simp(c.args[1])
    r = canon_ref(c, c.args[0]) if c.args[0].op not in ('arr', 'bytes', 'str') else ref(('C', c.args[0]))
    out = []
    for s, d in bounds(c, c.st, i, mk_len(v)):
        if d:
            out.append(('ret', s, ref(r.a[0], r.a[1] + (('i', i),))))
        else:
            out.append(('panic', s, ('bounds', c.key, c.sp)))
    return out


@model('slice::first', 'slice::last', 'slice::first_mut', 'slice::last_mut')
def _(c):
    v = c.val(0)
    r = canon_ref(c, c.args[0]) if c.args[0].op not in ('arr', 'bytes', 'str') else ref(('C', c.args[0]))
    out = []
    for s, d in c.ip.fork(c.st, EQ(c.st.simp(mk_len(v)), I(0))):
        if d:
            out.append(('ret', s, NONE))
        else:
            i = I(0) if 'first' in c.key else s.simp(last_i(v))
            out.append(('ret', s, some(ref(r.a[0], r.a[1] + (('i', i),)))))
    return out


@model('slice::reverse')
def _(c):
    v = c.val(0)
    c.ip.store(c.st, c.args[0], T('arr', *reversed(v.a)) if v.op == 'arr' else T('rev', v))
    return c.ret(UNIT)


@model('slice::sort', 'slice::sort_unstable')
def _(c):
    c.ip.store(c.st, c.args[0], T('app', 'sort', c.val(0)))
    return c.ret(UNIT)


@model('slice::join', 'slice::concat')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    sep = c.ip.deep(c.st, c.args[1]) if len(c.args) > 1 else T('str', '')
    if v.op == 'arr':
        parts = []
        for i, x in enumerate(v.a):
            if i:
                parts.append(sep)
            parts.append(disp(c.ip.deep(c.st, x)))
        return c.ret(mk_cat(*parts))
    return c.ret(T('app', 'join', v, sep))


@model('slice::contains')
def _(c):
    return c.ret(T('bvar', 'contains', c.val(0), c.ip.deep(c.st, c.args[1])))


# vec![..] : Box::new_uninit, a store through the box, box_assume_init_into_vec_unsafe
@model('Box::new_uninit')
def _(c):
    return c.ret(c.ip.heap(c.st, T('sym', '__uninit')))


@model('boxed::box_assume_init_into_vec_unsafe', 'Box::assume_init', 'slice::into_vec', 'boxed::box_new')
def _(c):
    v = c.args[0]
    if v.op == 'ref' and v.a[0][0] == 'H' and not v.a[1]:
        w = c.ip.load(c.st, v)
        while w.op == 'setf' and w.a[0].op in ('sym', 'fld') and contains(w, lambda x: x.op == 'sym' and x.a[0] == '__uninit'):
            w = w.a[2]
        v = w
    return c.ret(v)


# ------------------------------------------------------------------ iterators

def mk_it(kind, *a):
    return T('it', kind, *a)


NO_END = 1 << 64


def range_it(v):
    """the iterator a range value is"""
    if v.op != 'adt':
        return None
    n = last(v.a[0])
    if n == 'Range':
        return mk_it('range', v.a[2], v.a[3])
    if n == 'RangeFrom':
        return mk_it('range', v.a[2], I(NO_END))
    if n == 'RangeInclusive' and len(v.a) > 3:
        return mk_it('range', v.a[2], add(v.a[3], I(1)))
    return None


def slice_it(c, r, st=None):
    st = st or c.st
    v = c.ip.load(st, r)
    if r.op in ('arr', 'bytes', 'str', 'cat'):
        r = ref(('C', r))
    r = canon_ref(c, r)
    while v.op == 'ref':
        r = v
        v = c.ip.load(st, v)
    if 'v' == '':
        return None
    return mk_it('slice', r.a[0], r.a[1], I(0), st.simp(mk_len(v)))


def map_it(c, r, st=None):
    st = st or c.st
    v = c.ip.load(st, r)
    r = canon_ref(c, r)
    while v.op == 'ref':
        r = v
        v = c.ip.load(st, v)
    return mk_it('mapiter', r.a[0], r.a[1], I(0), st.simp(mlen(v)))


def mlen(m):
    if m.op == 'mempty':
        return I(0)
    if m.op in ('mupd', 'mmapn'):
        return mlen(m.a[0])
    return T('len', m)


MAPS = ('IndexMap', 'HashMap', 'BTreeMap')
SETS = ('HashSet', 'IndexSet', 'BTreeSet')


@model('slice::iter', 'slice::iter_mut', 'Vec::iter', 'Vec::iter_mut')
def _(c):
    return c.ret(slice_it(c, c.args[0]))


@model('Vec::drain')
def _(c):
    t = c.prog.t(c.atys[1])
    if last(t.get('def', '')) != 'RangeFull':
        return None
    v = c.val(0)
    c.ip.store(c.st, c.args[0], EMPTY)
    return c.ret(mk_it('own', v, I(0), c.st.simp(mk_len(v))))


@model('IndexMap::iter', 'IndexMap::iter_mut', 'HashMap::iter', 'HashMap::iter_mut', 'BTreeMap::iter',
       'BTreeMap::iter_mut')
def _(c):
    return c.ret(map_it(c, c.args[0]))


@model('IndexMap::values', 'IndexMap::values_mut', 'HashMap::values', 'HashMap::values_mut', 'BTreeMap::values')
def _(c):
    return c.ret(mk_it('proj', map_it(c, c.args[0]), I(1)))


@model('IndexMap::keys', 'HashMap::keys', 'BTreeMap::keys')
def _(c):
    return c.ret(mk_it('proj', map_it(c, c.args[0]), I(0)))


@model('IntoIterator::into_iter')
def _(c):
    if c.f.get('body') is not None:
        return None
    v = c.args[0]
    if v.op == 'it':
        return c.ret(v)
    t = c.prog.t(c.atys[0]) if c.atys and c.atys[0] is not None else {'k': 'other'}
    r = into_it(c, c.st, v, t)
    return c.ret(r if r is not None else mk_it('seq', v, I(0)))


def into_it(c, st, v, t):
    if v.op == 'it':
        return v
    k = t['k']
    if k == 'ref':
        it = c.prog.t(t['t'])
        if it['k'] == 'ref':
            return into_it(c, st, c.ip.load(st, v), it)
        if it['k'] == 'adt':
            n = last(it['def'])
            if n == 'Vec':
                return slice_it(c, v, st)
            if n in MAPS:
                return map_it(c, v, st)
            if n in SETS:
                return mk_it('seq', c.ip.load(st, v), I(0))
            if n == 'Option':
                pass
        if it['k'] in ('slice', 'array'):
            return slice_it(c, v, st)
        x = c.ip.load(st, v)
        if x.op == 'it':
            return mk_it('byref', v)
        if it['k'] == 'alias' or it['k'] == 'param':
            return mk_it('byref', v)
        return None
    if k == 'adt':
        n = last(t['def'])
        if n == 'Range' and v.op != 'adt':
            return mk_it('range', T('fld', v, 0), T('fld', v, 1))
        if n in ('Range', 'RangeFrom', 'RangeInclusive'):
            return range_it(v)
        if n == 'Vec':
            return mk_it('own', v, I(0), st.simp(mk_len(v)))
        if n in MAPS:
            return mk_it('mapown', v, I(0), st.simp(mlen(v)))
        if n in SETS:
            return mk_it('seq', v, I(0))
        if n == 'Option':
            if v.op == 'adt':
                return mk_it('own', T('arr', *v.a[2:]), I(0), I(len(v.a) - 2))
        return None
    if k == 'array':
        return mk_it('own', v, I(0), st.simp(mk_len(v)))
    return None


@model('Iterator::enumerate', 'Iterator::rev', 'Iterator::copied', 'Iterator::cloned', 'Iterator::by_ref',
       'Iterator::peekable', 'Iterator::fuse')
def _(c):
    if c.f.get('body') is not None:
        return None
    v = as_it(c, c.args[0])
    k = c.key.split('::')[1]
    if k == 'enumerate':
        return c.ret(mk_it('enum', v, I(0)))
    if k == 'rev':
        if v.a[0] == 'own' and v.a[1].op == 'arr':
            xs = v.a[1].a[v.a[2].a[0]:v.a[3].a[0]]
            return c.ret(mk_it('own', T('arr', *reversed(xs)), I(0), I(len(xs))))
        return c.ret(mk_it('rev', v))
    if k in ('copied', 'cloned'):
        return c.ret(mk_it('copied', v))
    if k == 'by_ref':
        return c.ret(c.args[0])
    if k == 'fuse':
        return c.ret(v)
    return None


@model('Iterator::map', 'Iterator::filter', 'Iterator::filter_map', 'Iterator::take_while', 'Iterator::inspect')
def _(c):
    if c.f.get('body') is not None:
        return None
    v = as_it(c, c.args[0])
    return c.ret(mk_it(c.key.split('::')[1], v, c.args[1]))


@model('RangeInclusive::new')
def _(c):
    return c.ret(adt('RangeInclusive', 0, c.args[0], c.args[1], FALSE))


@model('Range::contains', 'RangeInclusive::contains', 'RangeFrom::contains', 'RangeTo::contains', 'RangeToInclusive::contains')
def _(c):
    v, x = c.val(0), c.val(1)
    if v.op != 'adt':
        return None
    n = last(v.a[0])
    lo = v.a[2] if n in ('Range', 'RangeInclusive', 'RangeFrom') else None
    hi = {'Range': 3, 'RangeInclusive': 3, 'RangeTo': 2, 'RangeToInclusive': 2}.get(n)
    t = c.prog.t(c.atys[1]) if c.atys and c.atys[1] is not None else {}
    if t.get('k') == 'ref':
        t = c.prog.t(t['t'])
    if t.get('n') not in c.ip.INTS:
        return None
    ty = c.atys and c.prog.t(c.atys[1]).get('t')
    r = TRUE
    if lo is not None:
        r = AND(r, c.ip.binop(c.st, c.fr, 'Le', lo, x, ty))
    if hi is not None:
        r = AND(r, c.ip.binop(c.st, c.fr, 'Le' if 'Incl' in n else 'Lt', x, v.a[hi], ty))
    return c.ret(r)


@model('Iterator::zip', 'Iterator::chain')
def _(c):
    t = c.prog.t(c.atys[1]) if c.atys and c.atys[1] is not None else {'k': 'other'}
    o = into_it(c, c.st, c.args[1], t)
    if o is None:
        o = mk_it('seq', c.args[1], I(0))
    v = as_it(c, c.args[0])
    if c.key.endswith('zip'):
        # counting along
        if o.a[0] == 'range' and o.a[2] is I(NO_END):
            return c.ret(mk_it('enumr', v, o.a[1]))
        if v.a[0] == 'range' and v.a[2] is I(NO_END):
            return c.ret(mk_it('enum', o, v.a[1]))
    return c.ret(mk_it(c.key.split('::')[1], v, o))


@model('Iterator::skip', 'Iterator::take')
def _(c):
    v = as_it(c, c.args[0])
    n = c.args[1]
    if c.key.endswith('skip') and n.op == 'int':
        r = skip_it(c, c.st, v, n)
        if r is not None:
            return [('ret', s, x) for s, x in r]
    return c.ret(mk_it(c.key.split('::')[1], v, n))


def skip_it(c, st, v, n):
    k = v.a[0]
    if k in ('slice', 'mapiter'):
        return [(s, mk_it(k, v.a[1], v.a[2], v.a[4] if d else add(v.a[3], n), v.a[4]))
                for s, d in c.ip.fork(st, LT(sub(v.a[4], v.a[3]), n))]
    if k in ('own', 'mapown'):
        return [(s, mk_it(k, v.a[1], v.a[3] if d else add(v.a[2], n), v.a[3]))
                for s, d in c.ip.fork(st, LT(sub(v.a[3], v.a[2]), n))]
    if k == 'enum':
        r = skip_it(c, st, v.a[1], n)
        return r and [(s, mk_it('enum', x, add(v.a[2], n))) for s, x in r]
    if k == 'copied':
        r = skip_it(c, st, v.a[1], n)
        return r and [(s, mk_it('copied', x)) for s, x in r]
    return None


@model('iter::once')
def _(c):
    return c.ret(mk_it('own', T('arr', c.args[0]), I(0), I(1)))


@model('iter::empty')
def _(c):
    return c.ret(mk_it('own', EMPTY, I(0), I(0)))


@model('iter::from_fn')
def _(c):
    return c.ret(mk_it('fromfn', c.args[0]))


def as_it(c, v):
    if v.op == 'it':
        return v
    if v.op == 'ref':
        x = c.ip.load(c.st, v)
        if x.op == 'it' or True:
            return mk_it('byref', v)
    r = range_it(v)
    if r is not None:
        return r
    return mk_it('seq', v, I(0))


def it_next(c, st, it):
    """[(kind, state, iterator afterwards, item or None)]"""
    ip = c.ip
    k = it.a[0]
    if k in ('slice', 'mapiter'):
        _, obj, proj, pos, end = it.a
        out = []
        for s, d in ip.fork(st, LT(st.simp(pos), st.simp(end))):
            if not d:
                out.append(('ret', s, it, None))
                continue
            n = mk_it(k, obj, proj, add(pos, I(1)), end)
            p = s.simp(pos)
            if k == 'slice':
                x = ref(obj, proj + (('i', p),))
            else:
                x = T('tup', ref(obj, proj + (('mk', p),)), ref(obj, proj + (('mv', p),)))
            out.append(('ret', s, n, x))
        return out
    if k in ('own', 'mapown'):
        _, coll, pos, end = it.a
        out = []
        for s, d in ip.fork(st, LT(st.simp(pos), st.simp(end))):
            if not d:
                out.append(('ret', s, it, None))
                continue
            p = s.simp(pos)
            x = mk_elem(coll, p, s) if k == 'own' else T('tup', T('mkey', coll, p), T('mval', coll, p))
            out.append(('ret', s, mk_it(k, coll, add(pos, I(1)), end), x))
        return out
    if k == 'range':
        _, lo, hi = it.a
        if hi is I(NO_END):
            return [('ret', st, mk_it('range', add(lo, I(1)), hi), st.simp(lo))]
        out = []
        for s, d in ip.fork(st, LT(st.simp(lo), st.simp(hi))):
            out.append(('ret', s, mk_it('range', add(lo, I(1)), hi), s.simp(lo)) if d else ('ret', s, it, None))
        return out
    if k == 'seq':
        _, src, pos = it.a
        out = []
        for s, d in ip.fork(st, LT(st.simp(pos), mk_len(src))):
            out.append(('ret', s, mk_it('seq', src, add(pos, I(1))), mk_elem(src, s.simp(pos), s)) if d
                       else ('ret', s, it, None))
        return out
    if k == 'byref':
        r = it.a[1]
        inner = ip.load(st, r)
        if inner.op != 'it':
            if inner.op == 'ref':
                inner = mk_it('byref', inner)
            elif range_it(inner) is not None:
                inner = range_it(inner)
            else:
                inner = mk_it('seq', inner, I(0))
        out = []
        for kk, s, n, x in it_next(c, st, inner):
            if kk == 'ret':
                ip.store(s, r, n)
            out.append((kk, s, it, x))
        return out
    if k in ('enum', 'enumr'):
        out = []
        for kk, s, n, x in it_next(c, st, it.a[1]):
            if kk != 'ret' or x is None:
                out.append((kk, s, mk_it(k, n, it.a[2]) if kk == 'ret' else n, x))
            else:
                i = s.simp(it.a[2])
                out.append((kk, s, mk_it(k, n, add(it.a[2], I(1))), T('tup', i, x) if k == 'enum' else T('tup', x, i)))
        return out
    if k == 'proj':
        out = []
        for kk, s, n, x in it_next(c, st, it.a[1]):
            out.append((kk, s, mk_it('proj', n, it.a[2]), None if x is None else x.a[it.a[2].a[0]]))
        return out
    if k == 'copied':
        return [(kk, s, mk_it('copied', n) if kk == 'ret' else n, None if x is None else ip.load(s, x))
                for kk, s, n, x in it_next(c, st, it.a[1])]
    if k == 'rev':
        inn = it.a[1]
        if inn.a[0] in ('slice', 'mapiter'):
            _, obj, proj, pos, end = inn.a
            out = []
            for s, d in ip.fork(st, LT(st.simp(pos), st.simp(end))):
                if not d:
                    out.append(('ret', s, it, None))
                    continue
                e = s.simp(sub(end, I(1)))
                x = ref(obj, proj + (('i', e),)) if inn.a[0] == 'slice' else T(
                    'tup', ref(obj, proj + (('mk', e),)), ref(obj, proj + (('mv', e),)))
                out.append(('ret', s, mk_it('rev', mk_it(inn.a[0], obj, proj, pos, e)), x))
            return out
        if inn.a[0] == 'range':
            _, lo, hi = inn.a
            out = []
            for s, d in ip.fork(st, LT(st.simp(lo), st.simp(hi))):
                if not d:
                    out.append(('ret', s, it, None))
                    continue
                e = s.simp(sub(hi, I(1)))
                out.append(('ret', s, mk_it('rev', mk_it('range', lo, e)), e))
            return out
        if inn.a[0] == 'own':
            _, v, pos, end = inn.a
            out = []
            for s, d in ip.fork(st, LT(st.simp(pos), st.simp(end))):
                if not d:
                    out.append(('ret', s, it, None))
                    continue
                e = s.simp(sub(end, I(1)))
                out.append(('ret', s, mk_it('rev', mk_it('own', v, pos, e)), mk_elem(v, e, s)))
            return out
        raise Unknown('rev of ' + inn.a[0])
    if k in ('map', 'inspect'):
        out = []
        for kk, s, n, x in it_next(c, st, it.a[1]):
            if kk != 'ret' or x is None:
                out.append((kk, s, mk_it(k, n, it.a[2]) if kk == 'ret' else n, x))
                continue
            arg = x if k == 'map' else ip.heap(s, x)
            for k2, s2, v in ip.call_value(s, c.fr, it.a[2], [arg], None, c.sp):
                if k2 != 'ret':
                    out.append((k2, s2, v, None))
                else:
                    out.append(('ret', s2, mk_it(k, n, it.a[2]), v if k == 'map' else x))
        return out
    if k == 'chain':
        out = []
        for kk, s, n, x in it_next(c, st, it.a[1]):
            if kk == 'ret' and x is None:
                for k2, s2, n2, x2 in it_next(c, s, it.a[2]):
                    out.append((k2, s2, mk_it('chain', n, n2) if k2 == 'ret' else n2, x2))
            else:
                out.append((kk, s, mk_it('chain', n, it.a[2]) if kk == 'ret' else n, x))
        return out
    if k == 'zip':
        out = []
        for kk, s, n, x in it_next(c, st, it.a[1]):
            if kk != 'ret' or x is None:
                out.append((kk, s, mk_it('zip', n, it.a[2]) if kk == 'ret' else n, x))
                continue
            for k2, s2, n2, x2 in it_next(c, s, it.a[2]):
                if k2 != 'ret':
                    out.append((k2, s2, n2, x2))
                else:
                    out.append(('ret', s2, mk_it('zip', n, n2), None if x2 is None else T('tup', x, x2)))
        return out
    if k == 'take':
        out = []
        for s, d in ip.fork(st, EQ(it.a[2], I(0))):
            if d:
                out.append(('ret', s, it, None))
                continue
            for kk, s2, n, x in it_next(c, s, it.a[1]):
                out.append((kk, s2, mk_it('take', n, sub(it.a[2], I(1))) if kk == 'ret' else n, x))
        return out
    if k == 'fromfn':
        out = []
        for k2, s2, v in ip.call_value(st, c.fr, it.a[1], [], None, c.sp):
            if k2 != 'ret':
                out.append((k2, s2, v, None))
                continue
            for s3, vi, p in cases(c, s2, v):
                out.append(('ret', s3, it, p if vi else None))
        return out
    if k in ('filter', 'filter_map', 'take_while'):
        # skipping elements is a loop
        H = ip.heap(st, it.a[1]).a[0]
        X = ip.heap(st, UNIT).a[0]
        fn = it.a[2]

        def step(s):
            res = []
            for kk, s2, n, x in it_next(c, s, s.mem[H]):
                if kk != 'ret':
                    res.append((kk, s2, n))
                    continue
                s2.mem[H] = n
                if x is None:
                    res.append(('exit', s2, 0))
                    continue
                arg = x if k == 'filter_map' else ip.heap(s2, x)
                for k3, s3, v in ip.call_value(s2, c.fr, fn, [arg], None, c.sp):
                    if k3 != 'ret':
                        res.append((k3, s3, v))
                    elif k == 'filter_map':
                        for s4, vi, p in cases(c, s3, v):
                            if vi:
                                s4.mem[X] = p
                                res.append(('exit', s4, 1))
                            else:
                                res.append(('back', s4))
                    else:
                        cd = v if is_cond(v) or v.op == 'int' else EQ(v, I(1))
                        for s4, d in ip.fork(s3, cd):
                            if d:
                                s4.mem[X] = x
                                res.append(('exit', s4, 1))
                            elif k == 'take_while':
                                res.append(('exit', s4, 0))
                            else:
                                res.append(('back', s4))
            return res
        out = []
        for r in ip.summarise(st, step, ('filter', c.sp)):
            if r[0] == 'exit':
                out.append(('ret', r[1], mk_it(k, r[1].mem[H], fn), r[1].mem[X] if r[2] else None))
            else:
                out.append((r[0], r[1], r[2] if len(r) > 2 else None, None))
        return out
    raise Unknown('iterator ' + str(k))


@model('Iterator::next')
def _(c):
    if c.f.get('body') is not None:
        return None
    r = c.args[0]
    v = c.val(0)
    it = v
    if v.op == 'ref':
        it = mk_it('byref', v)
    elif range_it(v) is not None:
        it = range_it(v)
    elif v.op == 'adt':
        return None
    elif v.op != 'it':
        it = mk_it('seq', v, I(0))
    out = []
    for kk, s, n, x in it_next(c, c.st, it):
        if kk != 'ret':
            out.append((kk, s, n))
            continue
        if it.a[0] != 'byref':
            c.ip.store(s, r, n)
        out.append(('ret', s, NONE if x is None else some(x)))
    return out


def drive(c, st, it, body, tag):
    """runs `body(s, item) -> [(kind, s, …)]` for every item; kind 'back' continues"""
    ip = c.ip
    H = ip.heap(st, it).a[0]

    def step(s):
        res = []
        for kk, s2, n, x in it_next(c, s, s.mem[H]):
            if kk != 'ret':
                res.append((kk, s2, n))
                continue
            s2.mem[H] = n
            if x is None:
                res.append(('exit', s2, 'end'))
            else:
                res += body(s2, x)
        return res
    return ip.summarise(st, step, (tag, c.fr.body.sig(), c.sp)), H


def the_it(c):
    v = c.args[0]
    if v.op == 'adt' and range_it(v) is None:
        return None
    return as_it(c, v)


@model('Iterator::for_each')
def _(c):
    if c.f.get('body') is not None:
        return None
    it = the_it(c)
    if it is None:
        return None

    def body(s, x):
        return [('back', s2) if k == 'ret' else (k, s2, v)
                for k, s2, v in c.ip.call_value(s, c.fr, c.args[1], [x], None, c.sp)]
    out, _ = drive(c, c.st, it, body, 'for_each')
    return [('ret', r[1], UNIT) if r[0] == 'exit' else r for r in out]


@model('Iterator::try_for_each')
def _(c):
    it = the_it(c)
    if it is None:
        return None
    X = c.ip.heap(c.st, UNIT).a[0]

    def body(s, x):
        res = []
        for k, s2, v in c.ip.call_value(s, c.fr, c.args[1], [x], None, c.sp):
            if k != 'ret':
                res.append((k, s2, v))
                continue
            for s3, vi, p in cases(c, s2, v, c.prog, c.dty):
                if vi == 0:
                    res.append(('back', s3))
                else:
                    s3.mem[X] = err(p)
                    res.append(('exit', s3, 'err'))
        return res
    out, _ = drive(c, c.st, it, body, 'try_for_each')
    return [('ret', r[1], ok(UNIT) if r[2] == 'end' else r[1].mem[X]) if r[0] == 'exit' else r for r in out]


@model('Iterator::fold', 'Iterator::try_fold')
def _(c):
    it = the_it(c)
    if it is None:
        return None
    A = c.ip.heap(c.st, c.args[1]).a[0]
    X = c.ip.heap(c.st, UNIT).a[0]
    tr = c.key.endswith('try_fold')

    def body(s, x):
        res = []
        for k, s2, v in c.ip.call_value(s, c.fr, c.args[2], [s.mem[A], x], None, c.sp):
            if k != 'ret':
                res.append((k, s2, v))
            elif not tr:
                s2.mem[A] = v
                res.append(('back', s2))
            else:
                for s3, vi, p in cases(c, s2, v, c.prog, c.dty):
                    if vi == 0:
                        s3.mem[A] = p
                        res.append(('back', s3))
                    else:
                        s3.mem[X] = err(p)
                        res.append(('exit', s3, 'err'))
        return res
    out, _ = drive(c, c.st, it, body, 'fold')
    return [('ret', r[1], (r[1].mem[A] if not tr else ok(r[1].mem[A])) if r[2] == 'end' else r[1].mem[X])
            if r[0] == 'exit' else r for r in out]


@model('Iterator::sum', 'Iterator::count')
def _(c):
    it = the_it(c)
    if it is None:
        return None
    dt = c.prog.t(c.dty)
    if dt['k'] != 'int' and not (dt['k'] == 'adt' and last(dt['def']) == 'Result'):
        return None
    res_sum = dt['k'] == 'adt'
    A = c.ip.heap(c.st, I(0)).a[0]
    X = c.ip.heap(c.st, UNIT).a[0]
    cnt = c.key.endswith('count')

    def body(s, x):
        if cnt:
            s.mem[A] = add(s.mem[A], I(1))
            return [('back', s)]
        if not res_sum:
            s.mem[A] = add(s.mem[A], c.ip.load(s, x) if x.op == 'ref' else x)
            return [('back', s)]
        res = []
        for s3, vi, p in cases(c, s, x, c.prog, c.dty):
            if vi == 0:
                s3.mem[A] = add(s3.mem[A], p)
                res.append(('back', s3))
            else:
                s3.mem[X] = err(p)
                res.append(('exit', s3, 'err'))
        return res
    out, _ = drive(c, c.st, it, body, 'sum')
    return [('ret', r[1], (ok(r[1].mem[A]) if res_sum else r[1].mem[A]) if r[2] == 'end' else r[1].mem[X])
            if r[0] == 'exit' else r for r in out]


@model('Iterator::all', 'Iterator::any', 'Iterator::find', 'Iterator::position', 'Iterator::find_map')
def _(c):
    it = the_it(c)
    if it is None:
        return None
    k0 = c.key.split('::')[1]
    X = c.ip.heap(c.st, UNIT).a[0]
    CNT = c.ip.heap(c.st, I(0)).a[0]

    def body(s, x):
        res = []
        arg = c.ip.heap(s, x) if k0 == 'find' else x
        for k, s2, v in c.ip.call_value(s, c.fr, c.args[1], [arg], None, c.sp):
            if k != 'ret':
                res.append((k, s2, v))
                continue
            if k0 == 'find_map':
                for s3, vi, p in cases(c, s2, v):
                    if vi:
                        s3.mem[X] = p
                        res.append(('exit', s3, 'hit'))
                    else:
                        res.append(('back', s3))
                continue
            cd = v if is_cond(v) or v.op == 'int' else EQ(v, I(1))
            for s3, d in c.ip.fork(s2, cd):
                if d != (k0 == 'all'):
                    s3.mem[X] = s3.mem[CNT] if k0 == 'position' else x
                    res.append(('exit', s3, 'hit'))
                else:
                    s3.mem[CNT] = add(s3.mem[CNT], I(1))
                    res.append(('back', s3))
        return res
    out, H = drive(c, c.st, it, body, k0)
    res = []
    for r in out:
        if r[0] != 'exit':
            res.append(r)
            continue
        s = r[1]
        if it.a[0] != 'byref' and c.args[0].op == 'ref':
            c.ip.store(s, c.args[0], s.mem[H])
        hit = r[2] == 'hit'
        if k0 == 'all':
            v = I(not hit)
        elif k0 == 'any':
            v = I(hit)
        else:
            v = some(s.mem[X]) if hit else NONE
        res.append(('ret', s, v))
    return res


@model('Iterator::last', 'Iterator::nth')
def _(c):
    if c.key.endswith('nth') and c.args[1] is I(0):
        c2 = c
        return MODELS['Iterator::next'](c2)
    return None


@model('Iterator::collect', 'FromIterator::from_iter')
def _(c):
    if c.f.get('body') is not None:
        return None
    v = c.args[0]
    if c.key.startswith('From'):
        t = c.prog.t(c.atys[0]) if c.atys and c.atys[0] is not None else {'k': 'other'}
        it = into_it(c, c.st, v, t)
        if it is None:
            it = mk_it('seq', v, I(0))
    else:
        it = the_it(c)
        if it is None:
            return None
    t = c.prog.t(c.dty)
    res_coll = False
    if t['k'] == 'adt' and last(t['def']) == 'Result':
        res_coll = True
        t = c.prog.t(t['args'][0])
    n = last(t['def']) if t['k'] == 'adt' else t['k']
    unit = t['k'] == 'tuple' and not t['ts']
    if not unit and n not in ('Vec', 'String') + MAPS + SETS and n not in ('param', 'alias'):
        # a local collection type
        if t['k'] == 'adt':
            for i in c.prog.impls:
                if last(i.get('trait', '')) == 'FromIterator' and c.prog.t(i['self']).get('def') == t['def']:
                    for itm in i['items']:
                        if itm['name'] == 'from_iter' and itm.get('body') in c.prog.bodies:
                            return c.ip.exec(c.st, c.prog.bodies[itm['body']], [it], c.fr.depth + 1, c.fr.stack)
        return None
    A = c.ip.heap(c.st, UNIT if unit else EMPTY if n == 'Vec' else T('str', '') if n == 'String' else MEMPTY).a[0]
    X = c.ip.heap(c.st, UNIT).a[0]

    def put(s, x):
        o = s.mem[A]
        if unit:
            pass
        elif n == 'Vec':
            s.mem[A] = mk_push(o, x)
        elif n == 'String':
            s.mem[A] = mk_cat(o, disp(c.ip.deep(s, x)))
        elif n in MAPS:
            kk = c.ip.proj_val(s, x, ('f', 0))
            vv = c.ip.proj_val(s, x, ('f', 1))
            s.mem[A] = mk_mins(o, kk, vv)
        else:
            s.mem[A] = mk_mins(o, x, UNIT)

    def body(s, x):
        if not res_coll:
            put(s, x)
            return [('back', s)]
        res = []
        for s3, vi, p in cases(c, s, x, c.prog, c.dty):
            if vi == 0:
                put(s3, p)
                res.append(('back', s3))
            else:
                s3.mem[X] = err(p)
                res.append(('exit', s3, 'err'))
        return res
    out, _ = drive(c, c.st, it, body, 'collect')
    return [('ret', r[1], (ok(r[1].mem[A]) if res_coll else r[1].mem[A]) if r[2] == 'end' else r[1].mem[X])
            if r[0] == 'exit' else r for r in out]


@model('Extend::extend')
def _(c):
    sn = c.selfname()
    t = c.prog.t(c.atys[1]) if c.atys and c.atys[1] is not None else {'k': 'other'}
    it = into_it(c, c.st, c.args[1], t)
    if it is None:
        it = mk_it('seq', c.args[1], I(0))
    isv = sn.startswith('Vec')
    iss = sn.startswith('String')
    if not (isv or iss):
        return None
    r = c.args[0]

    def body(s, x):
        if isv:
            x2 = c.ip.load(s, x) if x.op == 'ref' else x
            c.ip.store(s, r, mk_push(c.ip.load(s, r), x2))
        else:
            c.ip.store(s, r, mk_cat(c.ip.load(s, r), disp(c.ip.deep(s, x))))
        return [('back', s)]
    out, _ = drive(c, c.st, it, body, 'extend')
    return [('ret', x[1], UNIT) if x[0] == 'exit' else x for x in out]


@model('str::chars', 'str::bytes', 'str::char_indices', 'str::lines', 'str::split')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    return c.ret(mk_it('seq', T('app', c.key.split('::')[1], v), I(0)))


# ------------------------------------------------------------------ maps and sets

@model('IndexMap::new', 'HashMap::new', 'HashSet::new', 'BTreeMap::new', 'BTreeSet::new', 'IndexSet::new')
def _(c):
    return c.ret(MEMPTY)


@model('IndexMap::with_capacity', 'HashMap::with_capacity')
def _(c):
    c.st.emit('alloc', c.args[0], c.sp)
    return c.ret(MEMPTY)


@model('IndexMap::clear', 'HashMap::clear')
def _(c):
    c.ip.store(c.st, c.args[0], MEMPTY)
    return c.ret(UNIT)


@model('IndexMap::len', 'HashMap::len', 'IndexMap::is_empty', 'HashMap::is_empty', 'HashSet::len')
def _(c):
    n = mlen(c.val(0))
    return c.ret(EQ(n, I(0)) if c.key.endswith('empty') else n)


def keyval(c, i):
    k = c.st.simp(c.ip.deep(c.st, c.args[i]))
    if 'Set::' in c.key:
        # elements may themselves be references: `&&T`, `&T` and `T` name the same element
        while k.op == 'deref':
            k = k.a[0]
    return k


@model('IndexMap::contains_key', 'HashMap::contains_key', 'HashSet::contains', 'BTreeMap::contains_key')
def _(c):
    return c.ret(c.st.decide_t(mhas(c.val(0), keyval(c, 1), c.st)))


@model('IndexMap::get', 'IndexMap::get_mut', 'HashMap::get', 'HashMap::get_mut', 'BTreeMap::get', 'BTreeMap::get_mut')
def _(c):
    k = keyval(c, 1)
    r = canon_ref(c, c.args[0])
    out = []
    for s, d in c.ip.fork(c.st, mhas(c.val(0), k, c.st)):
        out.append(('ret', s, some(ref(r.a[0], r.a[1] + (('k', k),))) if d else NONE))
    return out


def map_index(c):
    k = keyval(c, 1)
    r = canon_ref(c, c.args[0])
    out = []
    for s, d in c.ip.fork(c.st, mhas(c.val(0), k, c.st)):
        if d:
            out.append(('ret', s, ref(r.a[0], r.a[1] + (('k', k),))))
        else:
            out.append(('panic', s, ('bounds', c.key, c.sp)))
    return out


@model('IndexMap::insert', 'HashMap::insert', 'BTreeMap::insert')
def _(c):
    m = c.val(0)
    k = c.st.simp(c.args[1])
    out = []
    for s, d in c.ip.fork(c.st, mhas(m, k, c.st)):
        old = some(mget(m, k, s)) if d else NONE
        c.ip.store(s, c.args[0], mk_mins(m, k, c.args[2]))
        out.append(('ret', s, old))
    return out


@model('HashSet::insert', 'BTreeSet::insert', 'IndexSet::insert')
def _(c):
    m = c.val(0)
    k = keyval(c, 1)
    out = []
    for s, d in c.ip.fork(c.st, mhas(m, k, c.st)):
        if not d:
            c.ip.store(s, c.args[0], mk_mins(m, k, UNIT))
        out.append(('ret', s, I(not d)))
    return out


@model('IndexMap::remove', 'HashMap::remove', 'IndexMap::swap_remove', 'IndexMap::shift_remove', 'BTreeMap::remove')
def _(c):
    m = c.val(0)
    k = keyval(c, 1)
    out = []
    for s, d in c.ip.fork(c.st, mhas(m, k, c.st)):
        if d:
            v = mget(m, k, s)
            c.ip.store(s, c.args[0], T('mrm', m, k))
            out.append(('ret', s, some(v)))
        else:
            out.append(('ret', s, NONE))
    return out


@model('IndexMap::entry', 'HashMap::entry', 'BTreeMap::entry')
def _(c):
    return c.ret(T('entry', canon_ref(c, c.args[0]), c.st.simp(c.args[1])))


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default')
def _(c):
    e = c.args[0]
    if e.op != 'entry':
        return None
    r, k = e.a
    m = c.ip.load(c.st, r)
    pr = ref(r.a[0], r.a[1] + (('k', k),))
    out = []
    for s, d in c.ip.fork(c.st, mhas(m, k, c.st)):
        if d:
            out.append(('ret', s, pr))
            continue
        if c.key.endswith('or_insert'):
            c.ip.store(s, r, mk_mins(m, k, c.args[1]))
            out.append(('ret', s, pr))
        elif c.key.endswith('with'):
            for kk, s2, v in calls(c, s, c.args[1], []):
                if kk == 'ret':
                    c.ip.store(s2, r, mk_mins(c.ip.load(s2, r), k, v))
                    v = pr
                out.append((kk, s2, v))
        else:
            return None
    return out


@model('Entry::and_modify')
def _(c):
    e = c.args[0]
    if e.op != 'entry':
        return None
    r, k = e.a
    m = c.ip.load(c.st, r)
    out = []
    for s, d in c.ip.fork(c.st, mhas(m, k, c.st)):
        if d:
            out += calls(c, s, c.args[1], [ref(r.a[0], r.a[1] + (('k', k),))], lambda v: e)
        else:
            out.append(('ret', s, e))
    return out


# ------------------------------------------------------------------ calls of function values

@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _(c):
    f = c.args[0]
    if c.f.get('body') is not None and c.prog.bodies[c.f['body']].kind == 'Closure':
        return None
    args = c.ip.untuple(c.args[1])
    return c.ip.call_value(c.st, c.fr, f, args, c.dty, c.sp)


# ------------------------------------------------------------------ errors and io

@model('error::new', 'Error::new', 'io::Error::new')
def _(c):
    return c.ret(T('app', 'io_error', *[c.ip.deep(c.st, a) for a in c.args]))


@model('Error::other', 'error::other')
def _(c):
    return c.ret(T('app', 'io_error', T('str', 'Other'), c.ip.deep(c.st, c.args[0])))


@model('Error::kind', 'error::kind')
def _(c):
    v = c.ip.deep(c.st, c.args[0])
    if v.op == 'app' and v.a[0] == 'io_error':
        return c.ret(v.a[1])
    return c.ret(T('app', 'errkind', v))


def fork_io(c, what, okv=UNIT):
    """an I/O operation that succeeds or fails"""
    s = c.st.copy()
    cid = s.fresh_id()
    c.st.nev = s.nev
    s.emit('io-fail', what, cid, c.sp)
    return [('ret', c.st, ok(okv)), ('ret', s, err(T('app', 'ioerr', cid)))]


@model('Write::write_all')
def _(c):
    w = writer_of(c, c.args[0])
    data = c.ip.deep(c.st, c.args[1])
    if w is not None and w[0] == 'vec':
        c.ip.store(c.st, w[1], mk_concat(c.ip.load(c.st, w[1]), data))
        return c.ret(ok(UNIT))
    c.st.emit('write', w[1], data, c.sp)
    return fork_io(c, 'write')


@model('Write::write')
def _(c):
    w = writer_of(c, c.args[0])
    data = c.ip.deep(c.st, c.args[1])
    c.st.emit('write-partial', w[1], data, c.sp)
    cid = c.st.fresh_id()
    return fork_io(c, 'write', T('app', 'nwritten', cid))


@model('Write::flush')
def _(c):
    w = writer_of(c, c.args[0])
    c.st.emit('flush', w[1], c.sp)
    return fork_io(c, 'flush')


@model('Write::by_ref', 'Read::by_ref')
def _(c):
    return c.ret(c.args[0])


@model('Write::write_fmt')
def _(c):
    w = writer_of(c, c.args[0])
    c.st.emit('write', w[1], c.args[1], c.sp)
    return fork_io(c, 'write')


def writer_of(c, r):
    v = r
    n = 0
    while v.op == 'ref' and n < 6:
        x = c.ip.load(c.st, v)
        if x.op == 'ref':
            v = x
            n += 1
            continue
        if x.op in ('arr', 'concat', 'push'):
            return 'vec', v
        return 'w', x
    return 'w', v


@model('BufWriter::new', 'LineWriter::new')
def _(c):
    return c.ret(T('app', 'BufWriter', c.args[0]))


@model('BufWriter::with_capacity')
def _(c):
    return c.ret(T('app', 'BufWriter', c.args[1]))


@model('BufWriter::into_inner')
def _(c):
    w = c.args[0]
    c.st.emit('flush', w, c.sp)
    return fork_io(c, 'flush', w.a[1] if w.op == 'app' and w.a[0] == 'BufWriter' else T('app', 'inner', w))


@model('File::create')
def _(c):
    p = c.ip.deep(c.st, c.args[0])
    c.st.emit('create', p, c.sp)
    return fork_io(c, 'create', T('app', 'File', p))


@model('fs::write')
def _(c):
    p = c.ip.deep(c.st, c.args[0])
    c.st.emit('create', p, c.sp)
    c.st.emit('write', T('app', 'File', p), c.ip.deep(c.st, c.args[1]), c.sp)
    return fork_io(c, 'write', UNIT)


@model('File::sync_all', 'File::sync_data')
def _(c):
    return fork_io(c, 'sync', UNIT)


@model('Path::join', 'PathBuf::join')
def _(c):
    return c.ret(T('app', 'join', c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])))


@model('Path::new', 'PathBuf::from', 'PathBuf::as_path', 'Path::to_path_buf')
def _(c):
    return c.ret(c.ip.deep(c.st, c.args[0]))


# ------------------------------------------------------------------ loggers

def log_model(c):
    if c.f.get('body') is not None:
        return None
    if c.fr is not None and c.fr.selfname and c.ip.self_impl is not None and 'self' in c.f \
            and c.prog.tname(c.f['self']) == 'Self':
        return None
    r = canon_ref(c, c.args[0])
    name = c.key.split('::')[1]
    vals = [freeze_all(c.ip, c.st, a) for a in c.args[1:]]
    c.st.emit('logger', name, c.ip.deep(c.st, r), tuple(vals), c.sp)
    if name in ('log', 'log_multi'):
        return fork_io(c, name)
    return c.ret(UNIT)


def freeze_all(ip, st, v, n=0):
    """the value with every reference replaced by what it points at now"""
    if n > 40:
        return v
    if v.op == 'ref':
        return freeze_all(ip, st, ip.load(st, v), n + 1)
    if v.op in ('adt', 'tup', 'arr', 'push', 'clo', 'concat', 'pushn'):
        return T(v.op, *[freeze_all(ip, st, x, n + 1) if isinstance(x, Term) else x for x in v.a])
    return v


for _k in ('Logger::log', 'Logger::log_multi', 'PausableLogger::pause', 'PausableLogger::unpause'):
    MODELS[_k] = log_model

from terms import Term  # noqa: E402
