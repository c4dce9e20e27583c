"""Vocabularies: which calls stay atoms when a function is interpreted, and what the atoms mean.

Trait methods of *other* types than the one being analysed are atoms (the analysis is compositional: the
contract of each trait method is what the rules establish for every implementation separately); methods of
the analysed type itself, inherent helpers and free functions are interpreted."""
from terms import *
from terms import T, I, Term
import engine as E
from engine import Interp, State, Unknown, Budget, ok, err, some, NONE, ref, mk_len, mk_concat, last_seg
import models

WIRE = 'steit::wire_fmt::WireType'
FN_MAX = 0x1fffffff


def is_vec_u8(prog, ty):
    t = prog.t(ty) if ty is not None else None
    while t and t['k'] == 'ref':
        t = prog.t(t['t'])
    return bool(t and t['k'] == 'adt' and last_seg(t['def']) == 'Vec')


class Vocab:
    """hooks for one analysis; `own` is the name of the analysed type"""

    def __init__(self, own=None, ser=True, de=True, state=True, atoms_off=(), own_value=None):
        self.own = own
        self.hooks = {}
        self.off = set(atoms_off)
        if ser:
            self.ser()
        if de:
            self.de()
        if state:
            self.state()

    # an atom unless the receiver's type is the analysed one
    def on(self, key, fn):
        if key in self.off:
            return

        def h(c):
            if self.own is not None and c.selfname() == self.own:
                return None
            return fn(c)
        self.hooks[key] = h

    # ------------------------------------------------------------ values
    @staticmethod
    def val(c, i=0):
        """the value of an argument; values living inside the analysed object keep their identity"""
        return c.ip.deep(c.st, c.args[i])

    @staticmethod
    def tag_of(c, i):
        v = c.ip.deep(c.st, c.args[i])
        if v is NONE:
            return None
        if v.op == 'adt' and v.a[0] == E.OPTION and v.a[1] == 1:
            return v.a[2]
        t = c.prog.t(c.atys[i]) if c.atys[i] is not None else {}
        if t.get('k') == 'adt':
            return T('app', 'opt', v)
        if t.get('k') == 'param' or t.get('s', '').startswith('impl '):
            return T('app', 'into', v)
        return v

    @staticmethod
    def fail(c, st, what, *info):
        """split off the failing outcome of an operation"""
        s = st.copy()
        cid = s.fresh_id()
        st.nev = s.nev
        s.emit('io-fail', what, cid, c.sp, *info)
        return ('ret', s, err(T('app', 'ioerr', cid)))

    # ------------------------------------------------------------ serialization
    def ser(self):
        def sz(x):
            return T('app', 'SZ', x)

        def compute_size(c):
            x = self.val(c)
            c.st.emit('children', x, c.sp, c.selfname())
            return c.ret(sz(x))

        def cache_size(c):
            x = self.val(c)
            c.st.emit('cached', x, c.sp, c.selfname())
            return c.ret(sz(x))

        def cached_size(c):
            x = self.val(c)
            c.st.emit('uses', x, c.sp, c.selfname())
            return c.ret(sz(x))

        def om(c):
            x = self.val(c)
            h = self.val(c, 1)
            if h.op == 'adt' and h.a[1] == 1 and h.a[2] is not sz(x):
                c.st.emit('bad-hint', x, h.a[2], c.sp)
                return c.ret(T('bvar', 'OMH', x, h.a[2]))
            if h is NONE:
                c.st.emit('uses', x, c.sp, c.selfname())
            elif h.op != 'adt':
                return c.ret(T('bvar', 'OMH', x, h))
            return c.ret(T('bvar', 'OM', x))

        def ns(c):
            x = self.val(c)
            t = self.tag_of(c, 1)
            o = c.ip.deep(c.st, c.args[2])
            c.st.emit('cached', x, c.sp, c.selfname())
            if t is None:
                return c.ret(ok(T('app', 'NS', x, NONE, FALSE)))
            r = c.ret(ok(T('app', 'NS', x, t, o)))
            if c.st.decide(LE(t, I(FN_MAX))) is not True:
                r.append(self.fail(c, c.st, 'tag', t))
            return r

        def put(c, data, wi):
            """write data (a term with a length) to the writer argument"""
            w = models.writer_of(c, c.args[wi])
            if (w is not None and w[0] == 'vec') or is_vec_u8(c.prog, c.atys[wi]):
                r = w[1] if w[0] == 'vec' else c.args[wi]
                c.ip.store(c.st, r, mk_concat(c.ip.load(c.st, r), data))
                return c.ret(ok(UNIT))
            c.st.emit('write', w[1], data, c.sp)
            return [('ret', c.st, ok(UNIT)), self.fail(c, c.st, 'write')]

        def nb(c):
            x = self.val(c)
            t = self.tag_of(c, 1)
            o = c.ip.deep(c.st, c.args[2])
            c.st.emit('uses', x, c.sp, c.selfname())
            c.st.emit('needs-children', x, c.sp, c.selfname())
            if t is None:
                return put(c, T('app', 'NB', x, NONE, FALSE), 3)
            out = put(c, T('app', 'NB', x, t, o), 3)
            return out

        def serialize_cached(c):
            x = self.val(c)
            c.st.emit('needs-children', x, c.sp, c.selfname())
            return put(c, T('app', 'SER', x), 1)

        def steit_serialize(c):
            x = self.val(c)
            c.st.emit('cached', x, c.sp, c.selfname())
            return put(c, T('app', 'SER', x), 1)

        def to_bytes(c):
            x = self.val(c)
            c.st.emit('cached', x, c.sp, c.selfname())
            return c.ret(T('app', 'SER', x))

        for n, f in (('compute_size', compute_size), ('cache_size', cache_size), ('cached_size', cached_size),
                     ('is_omissible', om), ('compute_size_nested', ns), ('serialize_nested', nb),
                     ('serialize_cached', serialize_cached), ('steit_serialize', steit_serialize),
                     ('to_bytes', to_bytes)):
            self.on('Serialize::' + n, f)

        def size_cache(c):
            return c.ret(T('app', 'SIZE_CACHE', self.val(c)))
        self.on('Serialize::size_cache', size_cache)

        def tag(c):
            wt = None
            if c.key == 'HasWireType::tag':
                wt = self.wire_type(c)
                fn = c.ip.deep(c.st, c.args[1])
            elif c.key == 'WireType::tag':
                wt, fn = c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])
            else:
                fn, wt = c.ip.deep(c.st, c.args[0]), c.ip.deep(c.st, c.args[1])
            out = c.ret(ok(T('app', 'TAG', fn, wt)))
            if c.st.decide(LE(fn, I(FN_MAX))) is not True:
                out.append(self.fail(c, c.st, 'tag', fn))
            return out
        for k in ('HasWireType::tag', 'WireType::tag', 'wire_fmt::tag'):
            if k not in self.off and 'HasWireType::tag' not in self.off:
                self.hooks[k] = tag

        def wt(c):
            return c.ret(self.wire_type(c))
        if 'HasWireType::wire_type' not in self.off:
            self.hooks['HasWireType::wire_type'] = wt

    def wire_type(self, c):
        """the term of <Self as HasWireType>::WIRE_TYPE for the callee's Self"""
        if self.own is not None and c.selfname() == self.own and self.own_wt is not None:
            return self.own_wt
        n = c.selfname()
        return E.WIRE_OF[0](n) if E.WIRE_OF else T('app', 'const', 'HasWireType::WIRE_TYPE', n)
    own_wt = None

    # ------------------------------------------------------------ reading
    def de(self):
        def reader(c, i):
            v = c.args[i]
            n = 0
            while v.op == 'ref' and n < 6:
                x = c.ip.load(c.st, v)
                if x.op == 'adt' or x.op == 'setf':
                    return x
                if x.op != 'ref':
                    return x
                v = x
                n += 1
            return c.ip.load(c.st, v) if v.op != 'deref' else v

        self.reader = reader

        def eof(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            c.st.emit('eof', r, cid, c.sp)
            return [('ret', c.st, ok(T('bvar', 'EOF', cid))), self.fail(c, c.st, 'eof')]
        if 'Reader::eof' not in self.off:
            self.hooks['Reader::eof'] = eof

        def skip(c):
            r = reader(c, 0)
            c.st.emit('skip', r, c.ip.deep(c.st, c.args[1]), c.sp)
            return [('ret', c.st, ok(UNIT)), self.fail(c, c.st, 'skip')]
        if 'Reader::skip_field' not in self.off:
            self.hooks['Reader::skip_field'] = skip

        def nested(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            c.st.emit('nested', r, cid, c.sp)
            return [('ret', c.st, ok(T('app', 'NESTED', r, cid))), self.fail(c, c.st, 'nested')]
        if 'Reader::nested' not in self.off:
            self.hooks['Reader::nested'] = nested

        def parse_tag(c):
            v = c.ip.deep(c.st, c.args[0])
            fn, wt = T('app', 'FN', v), T('app', 'WT', v)
            UNSIGNED.add(fn)
            c.st.emit('parse', v, c.sp)
            c.st.assume(LE(fn, I(FN_MAX)))
            return [('ret', c.st, ok(tup(fn, wt))), self.fail(c, c.st, 'parse_tag')]
        if 'wire_fmt::parse_tag' not in self.off:
            self.hooks['wire_fmt::parse_tag'] = parse_tag

        def merge(c):
            r = reader(c, 1)
            x = c.ip.load(c.st, c.args[0])
            cid = c.st.fresh_id()
            c.st.emit('merge', c.selfname(), x, r, cid, c.sp, c.args[0])
            out = [('ret', c.st, ok(UNIT)), self.fail(c, c.st, 'merge')]
            c.ip.store(c.st, c.args[0], T('app', 'MG', x, cid))
            c.ip.store(out[1][1], c.args[0], T('app', 'MGERR', x, cid))
            return out
        self.on('Deserialize::merge', merge)

        def merge_nested(c):
            r = reader(c, 2)
            x = c.ip.load(c.st, c.args[0])
            wt = c.ip.deep(c.st, c.args[1])
            cid = c.st.fresh_id()
            c.st.emit('merge_nested', c.selfname(), x, wt, r, cid, c.sp, c.args[0])
            out = [('ret', c.st, ok(UNIT)), self.fail(c, c.st, 'merge_nested')]
            c.ip.store(c.st, c.args[0], T('app', 'MN', x, wt, cid))
            c.ip.store(out[1][1], c.args[0], T('app', 'MGERR', x, cid))
            return out
        self.on('Deserialize::merge_nested', merge_nested)

        def deserialize(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            x = T('app', 'DEF', c.selfname())
            c.st.emit('merge', c.selfname(), x, r, cid, c.sp, NONE)
            v = c.ip.typed(T('app', 'MG', x, cid), c.prog, c.f.get('self'))
            return [('ret', c.st, ok(v)), self.fail(c, c.st, 'merge')]
        self.on('Deserialize::deserialize', deserialize)

        def deserialize_nested(c):
            r = reader(c, 1)
            wt = c.ip.deep(c.st, c.args[0])
            cid = c.st.fresh_id()
            x = T('app', 'DEF', c.selfname())
            c.st.emit('merge_nested', c.selfname(), x, wt, r, cid, c.sp, NONE)
            v = c.ip.typed(T('app', 'MN', x, wt, cid), c.prog, c.f.get('self'))
            return [('ret', c.st, ok(v)), self.fail(c, c.st, 'merge_nested')]
        self.on('Deserialize::deserialize_nested', deserialize_nested)

        def default(c):
            t = c.prog.t(c.f['self']) if 'self' in c.f else {}
            if t.get('k') in ('param', 'alias') or (t.get('k') == 'adt' and c.f.get('body') is None
                                                    and last_seg(t['def']) not in STD_DEFAULT):
                return c.ret(T('app', 'DEF', c.selfname()))
            return None
        self.hooks['Default::default'] = default

        def read_to_end(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            v = c.ip.load(c.st, c.args[1])
            data = T('app', 'REST', cid)
            c.st.emit('read_to_end', r, cid, c.sp)
            f = self.fail(c, c.st, 'read_to_end')
            c.ip.store(f[1], c.args[1], T('app', 'PARTIAL', v, cid))
            c.ip.store(c.st, c.args[1], mk_concat(v, data))
            return [('ret', c.st, ok(mk_len(data))), f]

        def read_exact(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            v = c.ip.load(c.st, c.args[1])
            n = mk_len(v)
            c.st.emit('read_exact', r, n, cid, c.sp)
            f = self.fail(c, c.st, 'read_exact')
            if n.op == 'int' and n.a[0] <= 16:
                nv = T('arr', *[T('app', 'BYTE', cid, I(i)) for i in range(n.a[0])])
                for x in nv.a:
                    UNSIGNED.add(x)
            else:
                nv = T('app', 'READ', cid, n)
            c.ip.store(c.st, c.args[1], nv)
            return [('ret', c.st, ok(UNIT)), f]

        def read(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            c.st.emit('read', r, cid, c.sp)
            n = T('app', 'NREAD', cid)
            UNSIGNED.add(n)
            f = self.fail(c, c.st, 'read')
            c.ip.store(c.st, c.args[1], T('app', 'READ', cid, c.ip.load(c.st, c.args[1])))
            return [('ret', c.st, ok(n)), f]

        def take(c):
            r = c.args[0]
            return c.ret(T('app', 'TAKE', reader(c, 0) if r.op == 'ref' else r, c.ip.deep(c.st, c.args[1])))

        def io_copy(c):
            r = reader(c, 0)
            cid = c.st.fresh_id()
            n = T('app', 'COPIED', cid)
            UNSIGNED.add(n)
            c.st.emit('read_all', r, n, cid, c.sp)
            return [('ret', c.st, ok(n)), self.fail(c, c.st, 'copy')]

        def limit(c):
            r = reader(c, 0)
            n = T('app', 'LIMIT', r, I(c.st.nev))
            UNSIGNED.add(n)
            return c.ret(n)

        def eof_new(c):
            return c.ret(T('app', 'EOFW', c.args[0]))

        def eof_get(c):
            x = c.ip.load(c.st, c.args[0])
            c.st.emit('bypass', x, c.sp)
            if x.op == 'app' and x.a[0] == 'EOFW':
                return c.ret(x.a[1] if x.a[1].op == 'ref' else c.ip.heap(c.st, x.a[1]))
            return c.ret(ref(('P', T('app', 'INNER', x))))

        def eof_into(c):
            x = c.ip.deep(c.st, c.args[0])
            if x.op == 'app' and x.a[0] == 'EOFW':
                return c.ret(x.a[1])
            return c.ret(T('app', 'INNER', x))

        for k, f in (('Eof::new', eof_new), ('Eof::get_mut', eof_get), ('Eof::get_ref', eof_get),
                     ('Eof::into_inner', eof_into)):
            if k not in self.off:
                self.hooks[k] = f

        for k, f in (('Read::read_to_end', read_to_end), ('Read::read_exact', read_exact), ('Read::read', read),
                     ('Read::take', take), ('io::copy', io_copy), ('copy::copy', io_copy), ('Take::limit', limit)):
            if k not in self.off:
                self.hooks[k] = f

    # ------------------------------------------------------------ state
    def state(self):
        def with_runtime(c):
            r = c.ip.deep(c.st, c.args[0])
            v = T('app', 'NEW', c.selfname(), r)
            return c.ret(c.ip.typed(v, c.prog, c.f.get('self')))
        self.on('State::with_runtime', with_runtime)

        def set_runtime(c):
            x = c.ip.load(c.st, c.args[0])
            r = c.ip.deep(c.st, c.args[1])
            c.st.emit('set_runtime', x, r, c.sp)
            while x.op == 'app' and x.a[0] == 'AT':
                x = x.a[1]
            c.ip.store(c.st, c.args[0], T('app', 'AT', x, r))
            return c.ret(UNIT)
        self.on('State::set_runtime', set_runtime)

        def runtime(c):
            x = self.val(c)
            v = T('app', 'RT', x)
            if x.op == 'app' and x.a[0] == 'AT':
                pass
            return c.ret(ref(('C', c.ip.typed(v, c.prog, strip_ref(c.prog, c.dty)))))
        self.on('State::runtime', runtime)

        def rd_term(c, i):
            v = c.args[i]
            n = 0
            while v.op == 'ref' and n < 6:
                x = c.ip.load(c.st, v)
                if x.op != 'ref':
                    return inside(c, c.ip.deep(c.st, x))
                v, n = x, n + 1
            return v

        def inside(c, x, n=0):
            """a reader together with the local buffer it reads from"""
            if x.op == 'ref' and n < 8:
                y = c.ip.deep(c.st, c.ip.load(c.st, x))
                return inside(c, y, n + 1)
            if x.op in ('adt', 'app') and n < 8:
                return T(x.op, *(inside(c, y, n + 1) if isinstance(y, Term) else y for y in x.a))
            return x

        def handle(c):
            x = c.ip.load(c.st, c.args[0])
            path = c.ip.deep(c.st, c.args[1])
            kind = c.ip.deep(c.st, c.args[2])
            key = c.ip.deep(c.st, c.args[3])
            cid = c.st.fresh_id()
            c.st.emit('handle', c.selfname(), x, path, kind, key, cid, c.sp, c.args[0], rd_term(c, 4))
            f = self.fail(c, c.st, 'handle')
            c.ip.store(c.st, c.args[0], T('app', 'HANDLED', x, path, kind, key, cid))
            c.ip.store(f[1], c.args[0], T('app', 'HERR', x, cid))
            return [('ret', c.st, ok(UNIT)), f]
        self.on('State::handle', handle)

        def handle_update(c):
            x = c.ip.load(c.st, c.args[0])
            cid = c.st.fresh_id()
            c.st.emit('handle_update', c.selfname(), x, cid, c.sp, c.args[0], rd_term(c, 1))
            f = self.fail(c, c.st, 'handle_update')
            c.ip.store(c.st, c.args[0], T('app', 'UPDATED', x, cid))
            c.ip.store(f[1], c.args[0], T('app', 'HERR', x, cid))
            return [('ret', c.st, ok(UNIT)), f]
        self.on('State::handle_update', handle_update)

        def is_root(c):
            return c.ret(T('bvar', 'ISROOT', self.val(c)))
        self.on('State::is_root', is_root)


def inline_default(prog, trait, name):
    """hook that interprets the provided body of a trait method for a receiver whose own body is not known"""
    def h(c):
        if c.f.get('body') in c.prog.bodies:
            return None
        b = prog.trait_default(trait, name)
        if b is None or any(x is b for x in c.fr.stack):
            return c.ip.opaque(c)
        args = list(c.args)
        for i, ty in enumerate(c.atys):
            # `impl Into<Option<u32>>` given a number
            if i and ty is not None and c.prog.t(ty)['k'] == 'int' and prog.t(b.locals[i + 1])['k'] == 'param':
                args[i] = E.some(args[i])
        return c.ip.exec(c.st, b, args, c.fr.depth + 1, c.fr.stack, c.selfname())
    return h


def strip_ref(prog, ty):
    t = prog.t(ty) if ty is not None else None
    if t and t['k'] == 'ref':
        return t['t']
    return ty


STD_DEFAULT = {'Vec', 'String', 'Option', 'AtomicU32', 'PhantomData', 'IndexMap', 'HashMap', 'HashSet', 'Arc',
               'AtomicU64', 'AtomicUsize', 'Cell', 'RefCell', 'Mutex', 'BTreeMap', 'Box'}


# ------------------------------------------------------------------ running

def analyse(prog, body, voc, args=None, st=None, progs=None, budget=60000, hooks=None, unroll=0):
    """(interpreter, argument terms, outcomes)"""
    E.TERM_TY.clear()
    E.PHI_LEN.clear()
    E.PHI_ELEM.clear()
    h = dict(voc.hooks) if voc else {}
    if hooks:
        h.update(hooks)
    ip = Interp(hooks=h, budget=budget, unroll=unroll)
    ip.progs = progs or {prog.crate: prog}
    ip.progs.setdefault(prog.crate, prog)
    if args is None:
        args = [sym('self' if i == 0 else 'a%d' % i) for i in range(body.argc)]
    st = st or State()
    for i, a in enumerate(args):
        if a.op == 'sym':
            ip.typed(a, prog, body.locals[i + 1])
    outs = ip.run(body, args, st)
    return ip, args, outs
