"""D05: the generated client agrees with the schema."""
import re
import terms
import text
from core import guarded
from lab import *
from r_gen import adt_named, fidx, has_top
from r_log import events
from r_text import csharp_name, texts
from terms import EQ, I, LT, T, add, subst, sub

H = '[\ue000-\uf8ff]'
K = T('sym', 'element')


def d05(chk):
    chk.rule('every line written for a field or a variant speaks of that one alone: its name, its type, and its tag wherever a tag is '
             'expected; every field and variant gets its line in every place that needs one')
    chk.rule('the wire type returned for a tag is Varint exactly for fields whose metadata says so (a box counts as its content); only '
             'fields that are not primitive are constructed and returned as nested states')
    chk.rule('classes and properties are referred to under the names they are declared with, and generic ones with their parameters; '
             'the default variant is the one tagged 0; unknown tags are skipped')
    w = World.get()
    p = w.steit
    for what, b, ip, s, its in texts(chk):
        guarded(chk, what, one, chk, p, what, b, ip, s, its)
    for b in p.bodies.values():
        if b.kind.lower() != 'closure' and b.argc == 1 and p.tname(b.locals[1]).lstrip('&') == 'FieldTypeMeta' and \
                p.tname(b.locals[0]) == 'String':
            guarded(chk, b.sig(), type_names, chk, p, b)
    chk.floor('lines', 200)
    chk.floor('cases', 60)
    chk.floor('sections', 60)
    chk.floor('type names', 4)


def strip(t):
    while t.op in ('deref', 'ref') or t.op == 'disp' and t.a[0] == 'd':
        t = t.a[-1]
    return t


def is_fld(t, base, i):
    """t is field i of base, up to references"""
    t = strip(t)
    return t.op == 'fld' and t.a[1] == i and strip(t.a[0]) is strip(base)


# ------------------------------------------------------------- lines

class Line:
    def __init__(self, toks, labels):
        self.toks, self.labels = toks, labels
        self.holes = []
        out = ''
        for k, v in toks:
            if k == 'lit':
                out += v
            else:
                out += chr(0xe000 + len(self.holes))
                self.holes.append(v)
        self.text = out

    def hole(self, ch):
        return self.holes[ord(ch) - 0xe000]


MEMBER = re.compile(r'(\w+|%s)\s*\([^()]*\)\s*\{\s*$' % H)


def nodes(its):
    """[('line', toks) | ('loop', phi, [nodes])]; pieces of a line around a repetition are lines of their own"""
    out = []
    cur = []

    def flush():
        nonlocal cur
        if cur:
            out.append(('line', cur))
        cur = []
    for i in its:
        if i[0] == 'lit':
            parts = i[1].split('\n')
            for n, x in enumerate(parts):
                if n:
                    flush()
                if x:
                    cur.append(('lit', x))
        elif i[0] == 'hole':
            cur.append(('hole', i[1]))
        elif i[0] == 'loop':
            flush()
            out.append(('loop', i[1], [nodes(a) for a in i[2]]))
        else:
            raise E.Unknown('text')
    flush()
    return out


def label(ns, stack=None):
    """the nodes with lines turned into Line, each with the headers of the blocks it stands in"""
    stack = [] if stack is None else stack
    out = []
    for n in ns:
        if n[0] == 'line':
            ln = Line(n[1], tuple(stack))
            out.append(ln)
            cur = ''
            for c in ln.text:
                if c == '{':
                    stack.append(cur.strip())
                    cur = ''
                elif c == '}':
                    if not stack:
                        raise E.Unknown('brackets')
                    stack.pop()
                    cur = ''
                else:
                    cur += c
        else:
            alts = []
            for a in n[2]:
                st = list(stack)
                alts.append(label(a, st))
                if len(st) != len(stack):
                    raise E.Unknown('brackets')
            out.append(('loop', n[1], alts))
    return out


def section(ln):
    """what block a line stands in: 'class', the name of a member, or None"""
    for h in reversed(ln.labels):
        m = re.search(r'(\w+|%s)\s*\([^()]*\)$' % H, h)
        if m and not re.match(r'^(switch|if|for|foreach|while)\b', h):
            return 'ctor' if re.match(H, m.group(1)) else m.group(1)
        if re.search(r'\b(class|struct|interface)\b', h):
            return 'class'
        if re.match(r'^namespace\b', h):
            return None
    return None


# ------------------------------------------------------------- one message

class Msg:
    """a message whose class is generated: the term of its metadata, and what it is made of"""

    def __init__(self, p, S, enum):
        self.p, self.S, self.enum = p, S, enum
        t = 'EnumMeta' if enum else 'StructMeta'
        self.i_name = fidx(p, t, 'name')
        self.i_params = fidx(p, t, 'type_params')
        self.i_list = fidx(p, t, 'variants' if enum else 'fields')
        e = 'VariantMeta' if enum else 'FieldMeta'
        self.i_tag = fidx(p, e, 'tag')
        self.i_ty = fidx(p, e, 'ty')
        self.i_ename = None if enum else fidx(p, e, 'name')
        self.i_sname = fidx(p, 'StructMeta', 'name')

    def elems(self, t):
        """{index: element term} of the elements of the message that a term speaks of"""
        out = {}
        for x in terms.subterms(t):
            if x.op == 'elem' and is_fld(x.a[0], self.S, self.i_list):
                out[x.a[1]] = x
        return out

    def len(self, t):
        """the term is the number of elements"""
        return t.op == 'len' and is_fld(t.a[0], self.S, self.i_list)

    def kind(self, t):
        """('tag'|'name'|'type'|'own'|'param'|'join'|'other', index of the element or None)"""
        es = self.elems(t)
        if len(es) == 1:
            (k, e), = es.items()
            u = strip(t)
            if is_fld(u, e, self.i_tag):
                return 'tag', k
            if self.enum:
                ty = T('fld', T('deref', e), self.i_ty)
                if any(x.op == 'app' and x.a[0] == 'csname' for x in terms.subterms(u)):
                    return 'name', k
                return 'other', k
            if any(is_fld(x, e, self.i_ty) for x in terms.subterms(u)):
                return 'type', k
            if any(is_fld(x, e, self.i_ename) for x in terms.subterms(u)):
                return 'name', k
            return 'other', k
        if es:
            return 'mixed', None
        for x in terms.subterms(t):
            if x.op == 'app' and x.a[0] == 'csname' and is_fld(x.a[1], self.S, self.i_name):
                return 'own', None
        for x in terms.subterms(t):
            if is_fld(x, self.S, self.i_params):
                return 'params', None
        return 'other', None


def canon(t, k):
    return subst(strip(t), {k: K})


class Place:
    """the lines of one kind: which elements they are written for"""

    def __init__(self):
        self.ints = set()
        self.loops = []
        self.partial = []
        self.names = {}

    def covered(self, s, msg):
        """True | False | None: a line for every element"""
        n = 0
        while n in self.ints:
            n += 1
        for off, bound, it in self.loops:
            if off is None or bound is None:
                return None
            if off <= n:
                d = sub(add(bound, I(off)), it)
                if d.op == 'int':
                    if d.a[0] >= 0:
                        return True
                    return False
                r = s.decide(LT(d, I(0)))
                if r is False:
                    return True
                return None
            if off.__class__ is int:
                # a gap
                r = s.decide(LT(I(n), it))
                return None if r is None else not r
        return n


def one(chk, p, what, b, ip, s, its):
    arg = None
    enum = b.name == 'gen_enum'
    for i, t in enumerate(b.locals[1:b.argc + 1]):
        if p.tname(t).lstrip('&') == ('EnumMeta' if enum else 'StructMeta'):
            arg = sym('arg%d' % i)
    if arg is None:
        return chk.unknown(what, 'the message')
    ns = label(nodes(its))
    S = T('deref', arg)
    if enum:
        Enum(chk, p, what, b, ip, s, Msg(p, S, True)).check(ns)
    else:
        nested = None
        for i, t in enumerate(b.locals[1:b.argc + 1]):
            if p.tname(t) == 'bool' and s.decide(EQ(sym('arg%d' % i), I(1))) is True:
                nested = True
        Struct(chk, p, what, b, ip, s, Msg(p, S, False), nested).check(ns)


class Common:
    def __init__(self, chk, p, what, b, ip, s, msg, outer=None):
        self.chk, self.p, self.what, self.b, self.ip, self.s, self.msg = chk, p, what, b, ip, s, msg
        self.outer = outer          # index of the variant whose class this is
        self.bounds = {}
        self.places = {}
        self.declared = {}
        self.cls = None
        self.defaults = {}
        self.sections = set()
        for e in events(s.trace()):
            if e[0] == 'loop' and e[2].op == 'kappa':
                self.bounds[e[2].a[0]] = e[3]
        for st in [s]:
            self.note_bounds(st)

    def note_bounds(self, st):
        for e in events(st.trace()):
            if e[0] == 'loop' and e[2].op == 'kappa' and e[2].a[0] not in self.bounds:
                self.bounds[e[2].a[0]] = e[3]

    def bad(self, key, msg, ln=None):
        t = ''
        if ln is not None:
            t = ': ' + re.sub(H, lambda m: '<%s>' % self.msg.kind(ln.hole(m.group()))[0], ln.text.strip())[:140]
        self.chk.bad(self.what + ':' + key, '%s: %s%s' % (self.what, msg, t), self.b.span)

    def len_term(self):
        """the number of elements, as a term"""
        for x in self.lens:
            return x
        return None

    def placed(self, ln):
        """a state made or read for an element is placed once below this one, under the tag of the element"""
        for m in re.finditer(r'(StateFactory\.Deserialize<.*?>|StateFactory\.Construct<.*?>|%s\.Deserialize|new %s)\(' % (H, H), ln.text):
            args = arguments(ln.text, m.end())
            if args is None:
                return self.chk.unknown(self.what, 'arguments of ' + m.group(1))
            reads = '.Deserialize' in m.group(1)
            if reads and (not args or args.pop(0) != 'reader'):
                return self.chk.unknown(self.what, 'reader of ' + m.group(1))
            at = re.match(r'^this\.Path\.GetNested\((.*)\)$', args[0]) if args else None
            if at and len(args) == 1 or len(args) == 2 and args[0] == 'this.Path' and '<' in m.group(1) and reads:
                self.chk.ok()
            elif at and len(args) == 2 and '<' in m.group(1) and reads:
                self.bad('placed:twice', 'the path of a state names its tag twice', ln)
            elif args == ['this.Path'] or not args and not reads:
                self.bad('placed', 'a state is not placed under its tag', ln)
            else:
                self.chk.unknown(self.what, 'path of a state')

    def check(self, ns):
        self.lens = []
        seen = [t for st in [self.s] for c in st.cond_list() for t in terms.subterms(c)]
        for bd in self.bounds.values():
            if bd is not None:
                seen += list(terms.subterms(bd))
        self.lens = [t for t in seen if self.msg.len(t)]
        self.walk(ns, self.s, None)
        self.finish()

    def walk(self, ns, st, loop):
        for n in ns:
            if isinstance(n, Line):
                self.line(n, st, loop)
            else:
                self.repeat(n, st, loop)

    def repeat(self, n, st, loop):
        backs = self.ip.phis[n[1]][2]
        if len(backs) != len(n[2]):
            raise E.Unknown('alternatives')
        for alt, bk in zip(n[2], backs):
            if not alt:
                # what is not written for this element
                self.nothing(n, bk, loop)
            self.walk(alt, bk, (n, bk))

    def nothing(self, n, st, loop):
        # which place it would have been in is told by the other alternatives
        for alt in n[2]:
            for ln in alt:
                if isinstance(ln, Line):
                    pl = self.classify(ln)
                    if pl:
                        es = {}
                        for h in ln.holes:
                            es.update(self.msg.elems(h))
                        for k, e in es.items():
                            self.omitted(pl, k, e, st, ln)
                        return

    def at(self, ln):
        """the element a line speaks of: index or None; reports lines that speak of two"""
        ks = {}
        for h in ln.holes:
            for k in self.msg.elems(h):
                ks[k] = 1
        if len(ks) > 1:
            if not any(has_top(h) for h in ln.holes):
                self.bad('two', 'a line speaks of two different elements', ln)
            return 'two'
        return next(iter(ks), None)

    def tags(self, ln, k):
        """every place that takes a tag holds the tag of the line's element"""
        for m in re.finditer(r'(?:\bcase |GetNested\(|MaybeNotify\(|this\.Path, |\(path, |UpdateAndNotify\(|Tag = )(%s)' % H, ln.text):
            h = ln.hole(m.group(1))
            kd = self.msg.kind(h)
            self.chk.count('cases')
            if kd[0] == 'tag':
                self.chk.ok()
            elif has_top(h) or any(x.op in ('oneof', 'phi', 'res', 'cases') for x in terms.subterms(h)):
                self.chk.unknown(self.what, 'tag ' + str(h)[:60])
            else:
                self.bad('tag:' + m.group()[:8], 'something else than the tag where a tag is expected', ln)

    def cover(self, place, ln, k, loop):
        pl = self.places.setdefault(place, Place())
        if k.op == 'int':
            pl.ints.add(k.a[0])
            return
        if loop is None:
            pl.loops.append((None, None, None))
            return
        lid = loop[0][1].a[0]
        kap = T('kappa', lid)
        d = sub(k, kap)
        off = d.a[0] if d.op == 'int' else None
        pl.loops.append((off, self.bounds.get(lid), self.len_term()))

    def name(self, role, t, k, ln):
        c = canon(t, k) if k is not None else strip(t)
        if role not in self.declared:
            self.declared[role] = c
            return
        if self.declared[role] is not c:
            if has_top(c):
                self.chk.unknown(self.what, 'name')
            else:
                self.bad('name:' + role, 'a %s is referred to under another name than elsewhere' % role, ln)
        else:
            self.chk.ok()

    def complete(self, place, what):
        pl = self.places.get(place)
        self.chk.count('sections')
        L = self.len_term()
        none = L is not None and self.s.decide(EQ(L, I(0))) is True
        if pl is None:
            if none:
                return self.chk.ok()
            if self.unseen(place):
                return self.chk.unknown(self.what, '%s: no line found' % what)
            return self.bad('missing:' + place, 'no %s is written' % what)
        n = 0
        while n in pl.ints:
            n += 1
        fate = None
        for off, bound, it in pl.loops:
            if off is None or bound is None or it is None:
                fate = fate or 'unknown'
                continue
            if off > n:
                fate = 'gap'
                continue
            d = self.s.simp(sub(add(bound, I(off)), it))
            if d.op == 'int' and d.a[0] >= 0 or self.s.decide(LT(d, I(0))) is False:
                fate = 'all'
                break
            if d.op == 'int' or self.s.decide(LT(d, I(0))) is True:
                fate = 'short'
            else:
                fate = fate or 'unknown'
        if fate is None:
            if L is None:
                fate = 'unknown'
            else:
                r = self.s.decide(EQ(L, I(n)))
                fate = 'all' if r is True else 'short' if r is False else 'unknown'
        if fate == 'all':
            self.chk.ok()
        elif fate == 'unknown':
            self.chk.unknown(self.what, 'is a %s written for every element' % what)
        else:
            self.bad('some:' + place, 'not every element gets its %s' % what)

    def unseen(self, place):
        return False

    def own(self, ln):
        """a generic type is mentioned with its parameters"""
        tp = [T('len', x) for c in self.s.cond_list() for x in terms.subterms(c) if is_fld(x, self.msg.S, self.msg.i_params)]
        generic = any(self.s.decide(EQ(x, I(0))) is False for x in tp) and self.outer is None
        for m in re.finditer(r'(\bnew |\bstatic |<|, |\bclass )?(%s)(.)?' % H, ln.text):
            h = ln.hole(m.group(2))
            u = strip(h)
            if self.msg.kind(h)[0] != 'own' or u.op != 'app' or u.a[0] in ('uncap_first_char', 'cat'):
                continue
            if u.op == 'app' and u.a[0] == 'to_camel_case':
                pass
            self.name('own class', h, None, ln)
            if m.group(1) and generic:
                if m.group(3) != '<':
                    self.bad('generic', 'a generic class is mentioned without its parameters', ln)
                else:
                    self.chk.ok()

    def default(self, ln):
        m = re.match(r'^\s*default\s*:\s*(.*)$', ln.text)
        if m:
            self.defaults.setdefault(section(ln), []).append((m.group(1), ln))


def shape(p, st, e, ty):
    """('varint'|'sized'|'ref'|'param'|'box?'|None, parameter term) of the type of an element, by what the state knows of it.
    None: not known"""
    ft = adt_named(p, 'FieldTypeMeta')
    tm = adt_named(p, 'TypeMeta')
    wt = adt_named(p, 'WireType')
    fv = {v['name']: i for i, v in enumerate(ft['variants'])}
    tv = {v['name']: i for i, v in enumerate(tm['variants'])}
    wv = {v['name']: int(v['discr']) for v in wt['variants']}
    ds = []
    for c in st.cond_list():
        for x in terms.subterms(c):
            if x.op == 'discr' and x not in ds:
                ds.append(x)

    def val(x):
        for c in range(0, 4):
            if st.decide(EQ(x, I(c))) is True:
                return c
        # the last one left
        return None

    def at(pred):
        for x in ds:
            if pred(strip(x.a[0])):
                return x
        return None

    def go(pred, depth):
        x = at(pred)
        if x is None:
            return None, None
        X = strip(x.a[0])
        v = val(x)
        if v is None and st.decide(EQ(x, I(fv['Type']))) is False:
            v = fv['TypeParam']
        if v == fv['TypeParam']:
            return 'param', X
        if v != fv['Type']:
            return None, None
        y = at(lambda z: z.op == 'vf' and z.a[1] == fv['Type'] and strip(z.a[0]) is X)
        if y is None:
            return None, None
        Y = strip(y.a[0])
        v = val(y)
        if v is None and st.decide(EQ(y, I(tv['Primitive']))) is False:
            v = tv['Ref']
        if v == tv['Primitive']:
            z = at(lambda z: z.op == 'vf' and z.a[1] == tv['Primitive'] and strip(z.a[0]) is Y)
            if z is None:
                return 'primitive', None
            v = val(z)
            if v is None:
                for n, d in wv.items():
                    if st.decide(EQ(z, I(d))) is not False:
                        return n.lower(), None
            return {d: n.lower() for n, d in wv.items()}.get(v), None
        # a reference: a box or not?
        box = None
        for c in st.cond_list():
            for q in terms.subterms(c):
                if q.op == 'eq' and is_literal(q, 'Box') and \
                        any(r.op == 'vf' and strip(r.a[0]) is Y for r in terms.subterms(q)):
                    box = st.decide(q)
                elif q.op == 'len' and any(r.op == 'vf' and strip(r.a[0]) is Y and r.a[1] == tv['Ref'] for r in [strip(q.a[0])]):
                    if st.decide(EQ(q, I(1))) is False:
                        box = False
        if box is None:
            # what a recursive helper gives back has been unboxed by it
            return ('ref' if any(r.op == 'app' for r in terms.subterms(X)) else 'box?'), None
        if box is False:
            return 'ref', None
        if depth > 4:
            return None, None
        return go(lambda z: any(r.op == 'vf' and strip(r.a[0]) is Y for r in terms.subterms(z)) and z is not Y and z is not X, depth + 1)
    return go(lambda z: z.op == 'fld' and z.a[1] == ty and strip(z.a[0]) is strip(e), 0)


def arguments(text, i):
    """the arguments of a call, from behind its opening parenthesis"""
    out, cur, depth = [], '', 0
    for ch in text[i:]:
        if ch == ')' and depth == 0:
            return [x.strip() for x in out + [cur] if x.strip() or out]
        if ch == ',' and depth == 0:
            out, cur = out + [cur], ''
            continue
        depth += {'(': 1, '<': 1, ')': -1, '>': -1}.get(ch, 0)
        cur += ch
    return None


class Struct(Common):
    PLACES = [
        ('class', r'^\s*public (%s) (%s) \{ get; private set; \}' % (H, H), 'declare', 'property'),
        ('class', r'^\s*public static event .*On(%s)Update;' % H, 'event', 'event'),
        ('GetWireType', r'^\s*case (.+?): return (.*);$', 'wire', 'wire type'),
        ('ReplaceAt', r'^\s*case (.+?): (.*)$', 'replace', 'replacement'),
        ('GetNested', r'^\s*case (.+?): return (.*);$', 'nested', 'nested state'),
        ('ctor', r'^\s*this\.(%s) = (.*);$' % H, 'init', 'initial state'),
    ]

    def classify(self, ln):
        sec = section(ln)
        for s, r, place, _ in self.PLACES:
            if s == sec and re.match(r, ln.text):
                return place
        return None

    def omitted(self, place, k, e, st, ln):
        if place in ('nested', 'init'):
            sh, _ = shape(self.p, st, e, self.msg.i_ty)
            if sh in ('varint', 'sized', 'primitive'):
                self.chk.ok()
            elif sh in ('ref', 'param'):
                self.bad('omit:' + place, 'nothing is written for a field that holds a state, beside', ln)
            else:
                self.chk.unknown(self.what, 'which fields are left out')
            return
        self.bad('omit:' + place, 'some fields are left out, beside', ln)

    def line(self, ln, st, loop):
        if re.search(r'\bclass\b', ln.text) and self.cls is None:
            self.cls = ln
        self.chk.count('lines')
        self.default(ln)
        sec = section(ln)
        self.sections.add(sec)
        self.own(ln)
        k = self.at(ln)
        if k is None or k == 'two':
            return
        self.tags(ln, k)
        for m in re.finditer(r'(?:this\.|\bOn|\bClear)(%s)' % H, ln.text):
            h = ln.hole(m.group(1))
            if self.msg.kind(h)[0] == 'name':
                self.name('property', h, k, ln)
            elif not has_top(h):
                self.bad('ref', 'something else than the name of the field', ln)
        place = self.classify(ln)
        if place is None:
            return
        self.cover(place, ln, k, loop)
        if place in ('replace', 'init'):
            self.placed(ln)
        es = {}
        for h in ln.holes:
            es.update(self.msg.elems(h))
        e = es[k]
        sh, par = shape(self.p, st, e, self.msg.i_ty)
        m = re.match(next(r for s, r, pl, _ in self.PLACES if pl == place), ln.text)
        if place == 'declare':
            ty, nm = ln.hole(m.group(1)), ln.hole(m.group(2))
            if self.msg.kind(nm)[0] != 'name' or self.msg.kind(ty)[0] != 'type':
                self.bad('declare', 'a property is not declared with the type and the name of the field', ln)
            else:
                self.name('property', nm, k, ln)
        elif place == 'wire':
            self.wire(ln, m.group(2), sh, par)
        elif place == 'replace':
            n = re.match(r'this\.(%s) = ' % H, m.group(2))
            if not n:
                self.chk.unknown(self.what, 'replacement')
            self.replaces(ln, sh)
        elif place in ('nested', 'init'):
            if sh in ('varint', 'sized', 'primitive'):
                self.bad('state:' + place, 'a primitive field is treated as a state', ln)
            elif sh is None or sh == 'box?' and False:
                self.chk.unknown(self.what, 'the type of a field')
            elif sh == 'box?':
                self.bad('state:' + place, 'a boxed primitive field is treated as a state', ln)
            else:
                self.chk.ok()

    def replaces(self, ln, sh):
        prim = re.search(r'reader\.Read(%s)\(' % H, ln.text)
        state = re.search(r'(%s)\.Deserialize\(' % H, ln.text)
        par = re.search(r'Deserialize<', ln.text)
        for m in (prim, state):
            if m and self.msg.kind(ln.hole(m.group(1)))[0] != 'type':
                self.bad('replace:type', 'a field is read as something else than its type', ln)
        want = {'varint': prim, 'sized': prim, 'primitive': prim, 'ref': state, 'param': par}
        if sh is None:
            return self.chk.unknown(self.what, 'the type of a field')
        if not (prim or state or par):
            return self.chk.unknown(self.what, 'how a field is read')
        if sh == 'box?':
            return self.bad('replace:box', 'a boxed field is not read like its content', ln)
        if not want[sh]:
            return self.bad('replace:' + sh, 'a field is not read in the way of its type (%s)' % sh, ln)
        self.chk.ok()

    def wire(self, ln, rhs, sh, par):
        lit = {'WireType.Varint': 'varint', 'WireType.Sized': 'sized'}.get(rhs)
        if sh is None or sh == 'primitive':
            if sh == 'primitive' and lit:
                return self.bad('wire:any', 'the wire type of a primitive field is not looked at', ln)
            return self.chk.unknown(self.what, 'the type of a field')
        if sh == 'box?':
            return self.bad('wire:box', 'the wire type of a boxed field does not depend on its content', ln)
        if sh == 'param':
            m = re.match(r'StateFactory\.(\w+)\(typeof\((%s)\)\) \? WireType\.(\w+) : WireType\.(\w+)$' % H, rhs)
            if not m:
                if lit:
                    return self.bad('wire:param', 'the wire type of a field of a parameter type is fixed', ln)
                return self.chk.unknown(self.what, 'wire type of a parameter')
            if (m.group(3), m.group(4)) != ('Sized', 'Varint'):
                return self.bad('wire:param', 'the wire type of a field of a parameter type is the wrong way round', ln)
            import r_cslog
            why = r_cslog.sized_test(self.chk, m.group(1))
            if why is None:
                return self.chk.unknown(self.what, 'what StateFactory.%s says' % m.group(1))
            if why:
                return self.bad('wire:param:framed', why, ln)
            return self.chk.ok()
        want = 'sized' if sh in ('sized', 'ref') else 'varint'
        if lit is None:
            return self.chk.unknown(self.what, 'wire type ' + rhs[:40])
        if lit != want:
            return self.bad('wire:' + sh, 'the wire type of a %s field is given as %s' % (sh, lit), ln)
        self.chk.ok()

    def unseen(self, place):
        return place in ('event',) and False

    def finish(self):
        if self.cls is None:
            return self.chk.unknown(self.what, 'no class')
        for place, w in (('declare', 'property'), ('event', 'event'), ('wire', 'wire type'), ('replace', 'replacement')):
            self.complete(place, w)
        for sec, need in (('GetWireType', 'return null'), ('GetNested', 'return null'), ('ReplaceAt', 'reader.Skip')):
            ds = self.defaults.get(sec, [])
            if sec not in self.sections and not ds:
                self.chk.unknown(self.what, sec + ' not found')
            elif not any(need in d for d, _ in ds):
                self.bad('default:' + sec, '%s does not %s for an unknown tag' % (sec, 'skip' if 'Skip' in need else need))
            else:
                self.chk.ok()


class Enum(Common):
    PLACES = [
        ('class', r'^\s*public const UInt32 (%s)Tag = (%s);' % (H, H), 'const', 'tag constant'),
        ('class', r'^\s*public static .* New(%s)\(' % H, 'new', 'constructor'),
        ('class', r'^\s*public (%s) (%s)Variant ' % (H, H), 'get', 'accessor'),
        ('ctor', r'^\s*case (.+?): (.*)$', 'init', 'initial state'),
        ('GetWireType', r'^\s*case (.+?): return (.*);$', 'wire', 'wire type'),
        ('ReplaceAt', r'^\s*case (.+?): (.*)$', 'replace', 'replacement'),
    ]
    classify = Struct.classify

    def omitted(self, place, k, e, st, ln):
        self.bad('omit:' + place, 'some variants are left out, beside', ln)

    def repeat(self, n, st, loop):
        # the class of a variant
        if any(isinstance(x, Line) and re.search(r'\bclass\b', x.text) for a in n[2] for x in a):
            self.chk.count('sections')
            backs = self.ip.phis[n[1]][2]
            for alt, bk in zip(n[2], backs):
                i = next((i for i, x in enumerate(alt) if isinstance(x, Line) and re.search(r'\bclass\b', x.text)), None)
                if i is None:
                    self.bad('omit:class', 'some variants get no class')
                    continue
                self.klass(n, alt, bk, i)
            return
        Common.repeat(self, n, st, loop)

    def klass(self, n, alt, bk, i):
        ln = alt[i]
        S = None
        for h in ln.holes:
            for k, e in self.msg.elems(h).items():
                kk, S = k, e
        if S is None:
            return self.chk.unknown(self.what, 'the class of a variant')
        hs = [h for h in ln.holes if self.msg.kind(h)[0] == 'name']
        self.name('variant class', hs[0], kk, ln)
        self.cover('class', ln, kk, (n, bk))
        # the structure of the variant
        ty = None
        for h in ln.holes:
            for x in terms.subterms(h):
                if x.op == 'fld' and x.a[1] == self.msg.i_ty and strip(x.a[0]) is S:
                    ty = x
        if ty is None:
            return self.chk.unknown(self.what, 'the structure of a variant')
        m = Msg(self.p, ty, False)
        c = Struct(self.chk, self.p, self.what, self.b, self.ip, bk, m, kk)
        c.bounds.update(self.bounds)
        c.check(alt[i:])

    def line(self, ln, st, loop):
        self.chk.count('lines')
        self.default(ln)
        sec = section(ln)
        self.sections.add(sec)
        self.own(ln)
        k = self.at(ln)
        if k == 'two':
            return
        d = re.search(r': this\(path, (.+?)\)', ln.text)
        if d:
            self.dflt(ln, d.group(1))
        if k is None:
            return
        if not d:
            self.tags(ln, k)
        for m in re.finditer(r'(?:\bnew |\bas |shouldNotify: )?(%s)(?=[.(;Variant ])' % H, ln.text):
            pass
        place = self.classify(ln)
        if ln.text.strip().startswith('default:'):
            self.placed(ln)
            return
        refs = []
        if place == 'init':
            refs = re.findall(r'\bnew (%s)\(' % H, ln.text)
        elif place == 'replace':
            refs = re.findall(r'(%s)\.Deserialize\(' % H, ln.text)
        elif place == 'get':
            refs = re.findall(r'(?:public |as )(%s)' % H, ln.text)
        if place in ('replace', 'init'):
            self.placed(ln)
        for r in refs:
            h = ln.hole(r)
            if self.msg.kind(h)[0] == 'name':
                self.name('variant class', h, k, ln)
            elif not has_top(h):
                self.bad('ref', 'something else than the class of the variant', ln)
        if place is None:
            return
        if k.op not in ('int', 'kappa', 'lin'):
            return
        self.cover(place, ln, k, loop)
        if place == 'wire':
            m = re.match(self.PLACES[4][1], ln.text)
            if m.group(2) == 'WireType.Varint':
                self.bad('wire', 'the wire type of a variant is given as Varint', ln)
            else:
                self.chk.that(m.group(2) == 'WireType.Sized' or None, self.what, 'wire type of a variant')

    def dflt(self, ln, t):
        """the variant a new state has is the one tagged 0"""
        self.chk.count('cases')
        if t == '0':
            return self.chk.ok()
        if not re.match('^%s$' % H, t):
            return self.chk.unknown(self.what, 'default variant')
        h = ln.hole(t)
        u = strip(h)
        if self.msg.kind(h)[0] == 'tag':
            r = self.s.decide(EQ(u, I(0)))
            if r is True:
                return self.chk.ok()
            if u.a and r is None and not has_top(u):
                return self.bad('default', 'the default variant need not be the one tagged 0', ln)
            if r is False:
                return self.bad('default', 'the default variant is not the one tagged 0', ln)
        if u.op == 'int' and u.a[0] == 0:
            return self.chk.ok()
        self.chk.unknown(self.what, 'default variant')

    def finish(self):
        for place, w in (('const', 'tag constant'), ('new', 'constructor'), ('get', 'accessor'), ('init', 'initial state'),
                         ('wire', 'wire type'), ('replace', 'replacement'), ('class', 'class')):
            self.complete(place, w)
        for sec, need in (('GetWireType', 'return null'), ('ReplaceAt', 'reader.Skip')):
            ds = self.defaults.get(sec, [])
            if not ds and sec not in self.sections:
                self.chk.unknown(self.what, sec + ' not found')
            elif not any(need in d for d, _ in ds):
                self.bad('default:' + sec, '%s does not %s for an unknown tag' % (sec, 'skip' if 'Skip' in need else need))
            else:
                self.chk.ok()


def is_literal(q, lit):
    """a comparison with the literal as a whole, not with something computed from it"""
    if q.op == 'str':
        return q.a[0] == lit
    return q.op != 'app' and any(isinstance(x, Term) and is_literal(x, lit) for x in q.a)


def type_names(chk, p, b):
    """the name a field's type has in the client"""
    from r_gen import new_ip
    what = b.sig()
    ft = adt_named(p, 'FieldTypeMeta')
    tm = adt_named(p, 'TypeMeta')
    fv = {v['name']: i for i, v in enumerate(ft['variants'])}
    tv = {v['name']: i for i, v in enumerate(tm['variants'])}
    ip = new_ip()
    ip.hooks['NameMeta::csharp'] = csharp_name
    x = sym('type')
    ip.typed(x, p, b.locals[1])
    outs = ip.run(b, [x], E.State())
    chk.saw(ip, outs)
    X = T('deref', x)
    i_cs = fidx(p, 'NameMeta', 'csharp')

    def vf(t, v, i):
        t = strip(t)
        return t.op == 'vf' and t.a[1] == v and (len(t.a) < 3 or t.a[2] == i)

    def rec(t):
        """the name of a type argument: its index"""
        t = strip(t)
        if t.op != 'app' or not t.a[0].endswith(b.name):
            return None
        for y in terms.subterms(t.a[-1]):
            if y.op == 'elem' and vf(y.a[0], tv['Ref'], 1):
                return y.a[1]
        return None

    def args(t):
        """the names of the type arguments joined: number of arguments left out at the start, or None"""
        t = strip(t)
        n = 0
        if t.op == 'join' or t.op == 'app' and t.a[0] == 'join':
            u = strip(t.a[-2])
            while u.op == 'remove' and u.a[1] is I(0):
                n += 1
                u = u.a[0]
            if u.op == 'pushn' and u.a[0].op == 'arr' and not u.a[0].a and rec(u.a[2]) is u.a[3]:
                return n
        return None
    for k, s, v in outs:
        if k != 'ret':
            continue
        chk.count('type names')
        v = ip.deep(s, v)
        d = T('discr', X)
        if s.decide(EQ(d, I(fv['TypeParam']))) is True:
            chk.that(vf(v, fv['TypeParam'], 0) or (None if has_top(v) else False), what + ':param',
                     '%s: a type parameter is not named by its name' % what, b.span)
            continue
        if s.decide(EQ(d, I(fv['Type']))) is not True:
            chk.unknown(what, 'the kind of type')
            continue
        ds = [y for c in s.cond_list() for y in terms.subterms(c) if y.op == 'discr' and vf(y.a[0], fv['Type'], 0)]
        if not ds:
            chk.unknown(what, 'the kind of type')
            continue
        if s.decide(EQ(ds[0], I(tv['Primitive']))) is True:
            names = [y for y in terms.subterms(v) if vf(y, tv['Primitive'], 0)]
            cs = [y for y in terms.subterms(v) if y.op == 'fld' and y.a[1] == i_cs and any(strip(y.a[0]) is n for n in names)]
            chk.that(True if cs else None if has_top(v) else False, what + ':prim',
                     '%s: a primitive type is not named by its C# name' % what, b.span)
            continue
        # a reference to a message or a container
        if any(y.op == 'discr' and any(z.op == 'elem' or z.op in ('app', 'res') for z in terms.subterms(y.a[0]))
               for c in s.cond_list() for y in terms.subterms(c)):
            chk.unknown(what, 'the name depends on what kind of type an argument is')
            continue
        nargs = [y for c in s.cond_list() for y in terms.subterms(c) if y.op == 'len' and vf(y.a[0], tv['Ref'], 1)]
        isname = lambda lit: [s.decide(q) for c in s.cond_list() for q in terms.subterms(c)
                              if q.op == 'eq' and is_literal(q, lit)
                              and any(vf(r, tv['Ref'], 0) for r in terms.subterms(q))]
        u = strip(v)
        if u.op == 'cat':
            at = text.items(ip, u)
            joins = [args(i[1]) for i in at if i[0] == 'hole']
            joins = [j for j in joins if j is not None]
            own = at and at[0][0] == 'hole' and any(y.op == 'app' and y.a[0] == 'csname' for y in terms.subterms(at[0][1]))
            if len(joins) != 1 or not own or len(at) != 4 or at[1] != ('lit', '<') or at[3] != ('lit', '>'):
                chk.unknown(what, 'name ' + str(u)[:80])
                continue
            if joins[0] and True not in isname('StateMap'):
                chk.bad(what + ':args', '%s: a type argument is left out of the name of a type other than a map' % what, b.span)
            elif True in isname('StateMap') and not joins[0]:
                more = nargs and s.decide(LT(nargs[0], I(2))) is not True
                chk.that(not more, what + ':map', '%s: the key type is not left out of the name of a map' % what, b.span)
            elif True in isname('StateMap') and joins[0] > 1:
                chk.bad(what + ':map', '%s: more than the key type is left out of the name of a map' % what, b.span)
            elif True in isname('Box') or not isname('Box'):
                chk.bad(what + ':box', '%s: a boxed type is not named like its content' % what, b.span)
            else:
                chk.ok()
            continue
        if rec(u) is not None:
            if True in isname('Box') and rec(u) is I(0):
                chk.ok()
            elif True in isname('Box') or isname('Box') and all(x is False for x in isname('Box')) or not isname('Box'):
                chk.bad(what + ':inner', '%s: a type other than a box is named by one of its arguments' % what, b.span)
            else:
                chk.unknown(what, 'box')
            continue
        if u.op == 'app' and u.a[0] == 'csname':
            if nargs and s.decide(EQ(nargs[0], I(0))) is True:
                chk.ok()
            else:
                chk.bad(what + ':noargs', '%s: a type is named without its arguments' % what, b.span)
            continue
        chk.unknown(what, 'name ' + str(u)[:80])
