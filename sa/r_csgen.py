"""D09: what is generated is C# that fits the client: it parses, and every name it uses is one that is declared."""
import os
import re

import cs
import facts
import r_text
import terms
from core import guarded
from engine import mk_len
from r_client import H, Line, nodes, strip
from r_cs import client, ROOT
from cs import Type
from terms import I, LT

VALUE = {'UInt32': 'uint', 'uint': 'uint', 'UInt64': 'ulong', 'ulong': 'ulong', 'UInt16': 'ushort', 'ushort': 'ushort', 'Byte': 'byte',
         'byte': 'byte', 'SByte': 'sbyte', 'sbyte': 'sbyte', 'Int16': 'short', 'short': 'short', 'Int32': 'int', 'int': 'int',
         'Int64': 'long', 'long': 'long', 'Boolean': 'bool', 'bool': 'bool'}
REFS = {'String': 'string', 'string': 'string', 'Object': 'object', 'object': 'object'}
KNOWN = {'void', 'var', 'EventHandler', 'EventArgs', 'NotSupportedException', 'InvalidOperationException', 'Type', 'Exception',
         'IEnumerable', 'IList', 'IDictionary', 'List', 'Func', 'Action', 'Console', 'ArgumentException'} | set(VALUE) | set(REFS)
SYSTEM = {'EventHandler', 'EventArgs', 'NotSupportedException', 'InvalidOperationException', 'Exception', 'Console', 'Func', 'Action',
          'UInt32', 'UInt64', 'UInt16', 'Byte', 'SByte', 'Int16', 'Int32', 'Int64', 'Boolean', 'String', 'Object'}
HOLE = re.compile(r'H\d+_')


def d09(chk):
    chk.rule('the text of every generated class, with one field, variant or parameter of every kind in each repetition, parses as C#')
    chk.rule('every type, member, local and parameter the text names is declared: by the class itself, by the client, or by the schema; '
             'calls pass as many arguments as are taken, of the types that are taken, to what may be called from there')
    chk.rule('the same of the client itself, as far as it uses its own types')
    chk.rule('a class has every member its interfaces ask for; methods return on every path, switch sections do not fall through, '
             'nothing is assigned that cannot be; every namespace it takes a name from is opened')
    classes = client(chk)
    p = None
    for what, b, ip, s, its in r_text.texts(chk):
        p = ip
        guarded(chk, what, one, chk, classes, what, b, ip, s, its)
    for c in classes:
        guarded(chk, c.name, written, chk, classes, c)
    chk.floor('texts checked', 6)
    chk.floor('classes of the client', 10)
    chk.floor('names', 400)
    chk.floor('calls', 100)


# ------------------------------------------------------------- from the text to a class

class Names:
    """an identifier for every hole; elements of the same list are told apart by nothing"""

    def __init__(self):
        self.ids, self.terms, self.memo = {}, {}, {}

    def key(self, t):
        if not hasattr(t, 'op'):
            return repr(t)
        r = self.memo.get(t.id)
        if r is None:
            if t.op == 'elem':
                r = 'elem(%s)' % self.key(t.a[0])
            elif t.op == 'kappa':
                r = 'K'
            elif t.op == 'oneof':
                r = 'oneof' + ','.join(self.key(x) for x in t.a[2:])
            elif t.op in ('deref', 'ref') or t.op == 'disp' and t.a[0] == 'd':
                r = self.key(t.a[-1])
            else:
                r = t.op + '(' + ','.join(self.key(x) for x in t.a) + ')'
            self.memo[t.id] = r
        return r

    def ident(self, t):
        k = self.key(t)
        if k not in self.ids:
            self.ids[k] = 'H%d_' % len(self.ids)
            self.terms[self.ids[k]] = t
        return self.ids[k]


def plain(t):
    """a hole that surely stands for one name, one type or one number"""
    u = strip(t)
    subs = list(terms.subterms(u))
    if any(x.op == 'app' and x.a[0] in ('csname',) for x in subs):
        return True
    return u.op in ('fld', 'oneof', 'elem') or u.op == 'vf' or 'unboxed' in str(u)[:40]


def source(its, names):
    out, opened, odd = [], [], []

    def go(ns):
        for n in ns:
            if n[0] == 'line':
                ln = Line(n[1], ())
                t = ln.text
                if re.match(r'\s*using\s+' + H, t):
                    for h in ln.holes:
                        opened.extend(x.a[0] for x in terms.subterms(h) if x.op == 'str' and re.match(r'[A-Z][\w.]*$', x.a[0]))
                    continue
                for h in ln.holes:
                    if not plain(h) and not re.match(r'\s*namespace\b', t) and not joined(h):
                        odd.append(str(h)[:100])
                out.append(re.sub(H, lambda m: names.ident(ln.hole(m.group())), t))
            else:
                for a in n[2]:
                    go(a)
    go(nodes(its))
    return '\n'.join(out), opened, odd


def joined(h):
    u = strip(h)
    return u.op == 'join' or u.op == 'app' and u.a[0] == 'join' or str(u).startswith('join(')


def one(chk, classes, what, b, ip, s, its):
    names = Names()
    src, opened, odd = source(its, names)
    if os.environ.get('SA_CS'):
        open(os.environ['SA_CS'], 'a').write(src + '\n// ------\n')
    if '\ue000' in src:
        return chk.unknown(what, 'holes')
    chk.count('texts checked')
    nested = not re.search(r'^\s*namespace\b', src, re.M)
    if nested:
        src = 'namespace N {\n' + src + '\n}'
    try:
        ps = cs.P(src)
        made = ps.file()
    except (cs.Bad, IndexError) as e:
        if odd:
            return chk.unknown(what, 'unparsed: %s; %s' % (e, odd[0]))
        m = re.match(r'line (\d+)', str(e))
        ln = src.split('\n')[int(m.group(1)) - 1].strip() if m and int(m.group(1)) <= len(src.split('\n')) else ''
        return chk.bad(what + ':parse', '%s writes what is not C#: %s: %s' % (what, e, pretty(ln)), b.span)
    chk.ok()
    opened = set(opened) | {u for u in ps.usings}
    for c in made:
        Sem(chk, classes, what, b.span, made, None if nested else opened, names, s=s).klass(c)


def written(chk, classes, c):
    """a class of the client itself; types of the framework are taken as they come"""
    chk.count('classes of the client')
    opened, ns = set(c.usings), c.ns
    while ns:
        opened.add(ns)
        ns = ns.rpartition('.')[0]
    Sem(chk, classes, os.path.relpath(c.file, facts.REPO), '%s:%d' % (os.path.relpath(c.file, facts.REPO), c.line),
        [x for x in classes if x.file == c.file], opened, None, strict=False).klass(c)


def pretty(t):
    return HOLE.sub('<>', t)


# ------------------------------------------------------------- meaning

class Sem:
    """names and types of one source text"""

    def __init__(self, chk, classes, what, at, made, opened, names=None, hole=HOLE, strict=True, s=None):
        self.s = s
        self.chk, self.what, self.at, self.made, self.opened, self.names = chk, what, at, made, opened, names
        self.client = {}
        self.strict = strict
        for c in classes:
            self.client.setdefault(c.name, c)
        self.own = {}

        def add(c):
            self.own.setdefault(c.name, c)
            for n in c.nested():
                add(n)
        for c in made:
            add(c)
        self.ext = {}
        for c in list(classes) + list(made):
            for m in c.members:
                if getattr(m, 'kind', '') == 'method' and m.params and 'this' in m.params[0].mods:
                    self.ext.setdefault(m.name, []).append((c, m))
        self.line = 0

    # -- reports

    def bad(self, key, msg, line=None):
        self.chk.bad('%s:%s' % (self.what, pretty(key)), '%s: %s' % (self.what, pretty(msg)), self.at)

    def that(self, ok, key, msg):
        if ok:
            self.chk.ok()
        else:
            self.bad(key, msg)

    # -- types

    def find(self, name):
        return self.own.get(name) or self.client.get(name)

    def known(self, t, tps):
        """complain about a type that is not declared"""
        if t is None:
            return
        if t.name == '()':
            for a in t.args:
                self.known(a, tps)
            return
        self.chk.count('names')
        c = self.find(t.name)
        n = len(t.args)
        if HOLE.search(t.name) and t.name not in self.own or t.name in tps:
            if t.name not in tps and self.recased(t.name):
                self.bad('type ' + t.name, 'the type %s is named with its letters changed, which no declaration is' % t.name)
            else:
                self.chk.ok()
        elif c is not None:
            self.that(len(c.tparams) == n or n == 0 and self.inner(c), 'arity of ' + t.name, '%s takes %d type arguments, not %d' % (
                t.name, len(c.tparams), n))
            self.opens(c)
        elif t.name in KNOWN:
            if self.opened is not None and t.name in SYSTEM and 'System' not in self.opened:
                self.bad('using System', '%s is used without using System' % t.name)
            else:
                self.chk.ok()
        elif self.strict:
            self.bad('type ' + t.name, 'there is no type %s' % t.name)
        for a in t.args:
            self.known(a, tps)

    def inner(self, c):
        return True if self.own.get(c.name) is c else False

    def opens(self, c):
        ns = getattr(c, 'ns', None)
        if self.opened is None or ns is None or self.own.get(c.name) is c:
            return
        self.that(not ns or ns in self.opened, 'using ' + ns, '%s is used without using %s' % (c.name, ns))

    def norm(self, t):
        if t is None or t.suffix not in ('', '?'):
            return None
        n = VALUE.get(t.name) or REFS.get(t.name) or t.name
        return n

    def fits(self, a, b, tps):
        """a value of type a may be passed as b; None when unknown"""
        if a is None or b is None or b.name in tps or a.name in tps:
            return None
        if a.suffix or b.suffix or a.name == '()' or b.name == '()':
            if a.suffix == '?' and b.suffix == '' and self.norm(b) in VALUE.values() and a.name == b.name:
                return False
            return None
        x, y = self.norm(a), self.norm(b)
        if x == y:
            if a.args and b.args and len(a.args) == len(b.args):
                return None
            return True
        if y == 'object':
            return True
        if HOLE.search(x) and x not in self.own or HOLE.search(y) and y not in self.own:
            return None
        cx, cy = self.find(x), self.find(y)
        sx, sy = x in VALUE.values() or x == 'string', y in VALUE.values() or y == 'string'
        if sx and sy:
            num = [v for v in VALUE.values() if v != 'bool']
            if x in num and y in num:
                return None
            return False
        if cx is not None and (sy or cy is not None and cy.kind in ('class', 'enum', 'interface', 'struct')):
            if sy:
                return False
            return self.derives(cx, cy)
        if sx and cy is not None:
            return False
        return None

    def derives(self, c, d, depth=0):
        if c is d:
            return True
        unknown = False
        for t in c.bases:
            x = self.find(t.name)
            if x is None:
                unknown = True
            elif depth < 8 and self.derives(x, d, depth + 1):
                return True
        return None if unknown and d.kind != 'enum' and False else False

    # -- members

    def members(self, c, name, depth=0):
        out = [(c, m) for m in c.members if m.name == name and getattr(m, 'kind', '') not in ('ctor',)]
        out += [(c, m) for m in c.nested() if m.name == name and (c, m) not in out]
        if not out and depth < 8:
            for t in c.bases:
                x = self.find(t.name)
                if x is not None:
                    out += self.members(x, name, depth + 1)
        return out

    def open_bases(self, c, depth=0):
        """has bases that are not known"""
        return any(self.find(t.name) is None or depth < 8 and self.open_bases(self.find(t.name), depth + 1) for t in c.bases) or \
            False

    def sees(self, m, owner):
        """a member of owner may be used from the class being looked at"""
        x = self.cls
        while x is not None:
            if x is owner:
                return True
            x = x.outer
        x = owner
        if 'private' in m.mods or owner.kind != 'interface' and not (m.mods & {'public', 'internal', 'protected'}):
            x = self.cls
            return False
        if 'internal' in m.mods and self.client.get(owner.name) is owner and self.own.get(self.cls.name) is self.cls and self.strict:
            return False
        return True

    # -- declarations

    def klass(self, c):
        self.cls = c
        self.own[c.name] = c
        tps = set()
        x = c
        while x is not None:
            tps |= set(x.tparams)
            x = x.outer
        self.tps = tps
        for n in c.tparams:
            self.parameter(c, n)
        for t in c.bases:
            self.known(t, tps)
        self.implements(c)
        self.duplicates(c)
        for m in c.members:
            if isinstance(m, cs.Class):
                continue
            self.member(c, m)
        for n in c.nested():
            self.klass(n)
            self.cls, self.tps = c, tps
        self.reflected(c)

    def parameter(self, c, n):
        """what is written as the parameters of a class is all of them"""
        u = strip(self.names.terms[n]) if self.names is not None and n in self.names.terms else None
        if u is None:
            return
        self.chk.count('parameter lists')
        if u.op == 'elem' and u.a[1].op == 'int' and self.s.decide(LT(I(1), mk_len(u.a[0]))) is not False:
            self.bad('parameters of ' + c.name, '%s is declared with one of its parameters only, however many it has' % c.name)
        elif u.op == 'app' and u.a[0] == 'join' and u.a[-1].op == 'str' and u.a[-1].a[0].strip() != ',':
            self.bad('parameters of ' + c.name, 'the parameters of %s are separated by %r' % (c.name, u.a[-1].a[0]))
        else:
            self.chk.ok()

    def recased(self, n):
        """a name that surely is a name of a type with its letters changed"""
        u = strip(self.names.terms[n]) if self.names is not None and n in self.names.terms else None
        return u is not None and u.op == 'app' and u.a[0] in ('to_camel_case', 'to_snake_case', 'to_mixed_case', 'to_kebab_case',
                                                              'to_shouty_snake_case', 'to_title_case', 'lower', 'upper')

    def reflected(self, c):
        """what StateFactory looks up by reflection on a state class that can be a type argument"""
        if not self.strict or c.kind != 'class' or 'static' in c.mods or c.outer is not None or self.opened is None:
            return
        if not any(self.find(t.name) is not None and self.find(t.name).name in ('IState', 'IEnumState') for t in c.bases):
            return
        ctors = [m for m in c.members if getattr(m, 'kind', '') == 'ctor' and 'public' in m.mods and [p.type.name for p in m.params] == ['Path']]
        self.that(len(ctors) == 1, 'constructor', '%s has no public constructor from a Path alone' % c.name)
        ds = [m for m in c.all('Deserialize') if {'public', 'static'} <= m.mods and [p.type.name for p in m.params] == ['IReader', 'Path']]
        self.that(len(ds) == 1, 'Deserialize', '%s has no public static Deserialize(IReader, Path)' % c.name)

    def implements(self, c):
        seen = set()

        def need(t):
            i = self.find(t.name)
            if i is None or i.kind != 'interface' or i in seen:
                return
            seen.add(i)
            for b in i.bases:
                need(b)
            sub = dict(zip(i.tparams, t.args))
            for m in i.members:
                if m.kind == 'method':
                    own = [x for x in c.all(m.name) if getattr(x, 'kind', '') == 'method' and
                           [self.norm(p.type) for p in x.params] == [self.norm(sub.get(p.type.name, p.type)) for p in m.params]]
                    what = '%s.%s(%s)' % (i.name, m.name, ', '.join(str(p.type) for p in m.params))
                    if not own:
                        self.bad('implements ' + what, '%s does not implement %s' % (c.name, what))
                        continue
                    x = own[0]
                    self.that('public' in x.mods and 'static' not in x.mods, 'implements ' + what, '%s implements %s without its being public' % (
                        c.name, what))
                    rt = sub.get(m.type.name, m.type)
                    if rt.args or x.type.args:
                        continue
                    self.that(self.norm(x.type) == self.norm(rt) and x.type.suffix == rt.suffix, 'implements ' + what,
                              '%s.%s returns %s; %s returns %s' % (c.name, x.name, x.type, what, rt))
                elif m.kind == 'property':
                    own = [x for x in c.all(m.name) if getattr(x, 'kind', '') == 'property']
                    what = '%s.%s' % (i.name, m.name)
                    if not own:
                        self.bad('implements ' + what, '%s does not implement %s' % (c.name, what))
                        continue
                    x = own[0]
                    self.that('public' in x.mods and 'static' not in x.mods, 'implements ' + what, '%s implements %s without its being public' % (
                        c.name, what))
                    rt = sub.get(m.type.name, m.type)
                    if not rt.args:
                        self.that(self.norm(x.type) == self.norm(rt) and x.type.suffix == rt.suffix, 'implements ' + what,
                                  '%s.%s is %s; %s is %s' % (c.name, x.name, x.type, what, rt))
                    self.that(x.get is not None or getattr(x, 'get_auto', False), 'implements ' + what, '%s.%s cannot be read' % (c.name, x.name))
        for t in c.bases if c.kind != 'interface' else ():
            need(t)

    def duplicates(self, c):
        seen = {}
        for m in c.members:
            if isinstance(m, cs.Class) or HOLE.search(m.name) and m.kind != 'ctor':
                continue
            k = (m.name, m.kind == 'ctor', tuple(str(p.type) for p in m.params) if m.kind in ('method', 'ctor', 'indexer') else None,
                 len(m.tparams))
            if k in seen:
                self.bad('duplicate ' + m.name, '%s declares %s twice' % (c.name, m.name))
            seen[k] = m
            self.chk.ok()

    def member(self, c, m):
        static = 'static' in m.mods or m.kind == 'const'
        tps = self.tps | set(m.tparams)
        self.mtps = tps
        self.m = m
        if m.type is not None:
            self.known(m.type, tps)
        for p in m.params:
            self.known(p.type, tps)
        ns = [p.name for p in m.params]
        self.that(len(set(ns)) == len(ns), 'parameters of ' + m.name, 'two parameters of %s.%s have one name' % (c.name, m.name))
        env = {p.name: p.type for p in m.params}
        self.static, self.ret = static, m.type
        if m.chain:
            self.args_of(m.chain[1], env)
            if m.chain[0] == 'this':
                self.arity([(c, x) for x in c.members if getattr(x, 'kind', '') == 'ctor'], m.chain[1], env, 'constructor of ' + c.name)
        if m.init is not None:
            self.ev(m.init, env)
        if m.body is not None:
            self.stmt(m.body, dict(env))
            if m.kind == 'method' and m.type is not None and m.type.name != 'void':
                self.that(not self.falls(m.body) or self.yields(m.body), 'return of ' + m.name, '%s.%s does not return on every path' % (c.name, m.name))
        for w in ('get', 'set'):
            b = getattr(m, w, None)
            if b is not None:
                e = dict(env)
                if w == 'set':
                    e['value'] = m.type
                self.ret = m.type if w == 'get' else Type('void')
                self.stmt(b, e)
                if w == 'get':
                    self.that(not self.falls(b) or self.yields(b), 'return of ' + m.name, '%s.%s does not return on every path' % (c.name, m.name))

    def yields(self, b):
        return any(x == 'yield' for x in flat(b))

    def falls(self, s):
        """control can run past the end of a statement"""
        k = s[0]
        if k == 'block':
            return all(self.falls(x) for x in s[2])
        if k in ('return', 'throw', 'continue', 'break'):
            return False
        if k == 'if':
            return s[4] is None or self.falls(s[3]) or self.falls(s[4])
        if k == 'while':
            return not forever(s[2]) or has_break(s[3])
        if k == 'for':
            return not (s[3] is None or forever(s[3])) or has_break(s[5])
        if k == 'do':
            return has_break(s[2]) or not forever(s[3]) and (self.falls(s[2]) or 'continue' in repr(s[2]))
        if k == 'switch':
            return not any(None in ls for ls, _ in s[3]) or any(has_break(('block', 0, b)) for _, b in s[3])
        if k == 'try':
            return self.falls(s[2]) or any(self.falls(x) for x in s[3])
        return k in ('expr', 'decl', 'decltuple', 'foreach')

    # -- statements

    def stmt(self, s, env):
        k = s[0]
        self.line = s[1]
        if k == 'block':
            e = dict(env)
            for x in s[2]:
                self.stmt(x, e)
        elif k == 'if':
            self.ev(s[2], env)
            self.stmt(s[3], dict(env))
            if s[4]:
                self.stmt(s[4], dict(env))
        elif k == 'while':
            self.ev(s[2], env)
            self.stmt(s[3], dict(env))
        elif k == 'do':
            self.stmt(s[2], dict(env))
            self.ev(s[3], env)
        elif k == 'for':
            e = dict(env)
            for x in s[2]:
                self.stmt(x, e)
            if s[3]:
                self.ev(s[3], e)
            for x in s[4]:
                self.stmt(x, e)
            self.stmt(s[5], e)
        elif k == 'foreach':
            self.ev(s[4], env)
            e = dict(env)
            self.declare(s[3], None if s[2].name == 'var' else s[2], e)
            self.stmt(s[5], e)
        elif k == 'switch':
            self.ev(s[2], env)
            e = dict(env)
            plain_ = set()
            for labels, body in s[3]:
                for x in labels:
                    if x is not None:
                        self.ev(x, e)
                    key = 'default' if x is None else x[2] if x[0] in ('num', 'str') else None
                    if key is not None:
                        if key in plain_:
                            self.bad('case ' + key, 'a switch of %s has two sections for %s' % (self.m.name, key))
                        plain_.add(key)
                for x in body:
                    self.stmt(x, e)
                self.that(not all(self.falls(x) for x in body), 'switch of ' + self.m.name, 'a section of the switch in %s falls through' % self.m.name)
        elif k == 'return':
            t = self.ev(s[2], env) if s[2] is not None else None
            if len(s) > 3 and s[3] and self.ret is not None and self.ret.name == 'void':
                return
            if s[2] is not None and self.ret is not None:
                if self.ret.name == 'void' or self.m.kind == 'ctor':
                    self.bad('return of ' + self.m.name, '%s, which returns nothing, returns a value' % self.m.name)
                elif self.fits(t, self.ret, self.mtps) is False or s[2][0] == 'null' and self.ret.suffix == '' and self.norm(self.ret) in VALUE.values():
                    self.bad('return of ' + self.m.name, '%s returns a %s instead of a %s' % (self.m.name, t or 'null', self.ret))
                else:
                    self.chk.ok()
            elif s[2] is None and self.ret is not None and self.ret.name != 'void' and self.m.kind == 'method':
                self.bad('return of ' + self.m.name, '%s returns nothing' % self.m.name)
        elif k == 'throw':
            if s[2]:
                self.ev(s[2], env)
        elif k == 'decl':
            for n, e in s[3]:
                t = self.ev(e, env) if e is not None else None
                if s[2].name != 'var':
                    self.known(s[2], self.mtps)
                    if self.fits(t, s[2], self.mtps) is False:
                        self.bad('local ' + n, 'a %s is kept as a %s' % (t, s[2]))
                self.declare(n, t if s[2].name == 'var' else s[2], env)
        elif k == 'decltuple':
            self.ev(s[3], env)
            for n in s[2]:
                self.declare(n, None, env)
        elif k == 'try':
            self.stmt(s[2], dict(env))
            for x in s[3]:
                self.stmt(x, dict(env))
            if s[4]:
                self.stmt(s[4], dict(env))
        elif k == 'expr':
            e = s[2]
            if e[0] not in ('call', 'assign', 'post', 'pre', 'new', 'await') and not (e[0] == 'un' and e[2] in ('++', '--')):
                self.bad('statement in ' + self.m.name, 'an expression that does nothing stands as a statement in %s' % self.m.name)
            self.ev(e, env)

    def declare(self, n, t, env):
        self.chk.count('locals')
        self.that(n not in env, 'local ' + n, '%s.%s declares %s twice' % (self.cls.name, self.m.name, n))
        if self.names is not None and HOLE.fullmatch(n):
            h = self.names.terms.get(n)
            if h is not None and any(x.op == 'app' and x.a[0] == 'uncap_first_char' for x in terms.subterms(h)):
                self.bad('local:named', 'the local of %s is named after the type: for types such as Event, Params or Reader the name is a '
                         'keyword or one that is taken' % self.m.name)
        env[n] = t

    # -- expressions: their type, or None

    def args_of(self, args, env):
        return [(n, mod, e, self.ev(e, env) if e[0] != 'outvar' else self.outvar(e, env)) for n, mod, e in args]

    def outvar(self, e, env):
        self.declare(e[2], None, env)
        return None

    def arity(self, ms, args, env, what, types=None, skip=0):
        """one of the overloads takes these arguments"""
        self.chk.count('calls')
        types = types or [(n, mod, e, None) for n, mod, e in args]
        why = None
        for c, m in ms:
            ps = m.params[skip:]
            w = self.takes(c, m, ps, types)
            if w is None:
                self.chk.ok()
                return m
            why = why or w
        self.bad('call ' + what, '%s in %s %s' % (what, self.m.name, why or 'does not exist'))
        return None

    def takes(self, c, m, ps, types):
        if len(types) > len(ps) and not (ps and 'params' in ps[-1].mods):
            return 'is given %d arguments; it takes %d' % (len(types), len(ps))
        used = set()
        for i, (n, mod, e, t) in enumerate(types):
            if n is not None:
                q = [p for p in ps if p.name == n]
                if not q:
                    return 'has no parameter %s' % n
                p = q[0]
            else:
                p = ps[min(i, len(ps) - 1)]
                if 'params' in p.mods:
                    used.add(p.name)
                    continue
            used.add(p.name)
            open_ = self.mtps | set(c.tparams) | set(m.tparams)
            if p.type.name not in open_ and self.fits(t, p.type, self.mtps) is False:
                return 'is given a %s for its parameter %s, a %s' % (t, p.name, p.type)
            if e is not None and e[0] == 'null' and p.type.suffix == '' and self.norm(p.type) in VALUE.values():
                return 'is given null for its parameter %s, a %s' % (p.name, p.type)
        missing = [p.name for p in ps if p.name not in used and p.default is None and 'params' not in p.mods]
        if missing:
            return 'is not given its parameter %s' % missing[0]
        return None

    def subst(self, t, recv, c, m=None, targs=()):
        if t is None:
            return None
        mp = {}
        if recv is not None and c is not None and recv.args and len(recv.args) == len(c.tparams):
            mp.update(zip(c.tparams, recv.args))
        if m is not None and targs and len(targs) == len(m.tparams):
            mp.update(zip(m.tparams, targs))
        if t.name in mp and not t.args:
            return mp[t.name]
        if c is not None and (t.name in c.tparams or m is not None and t.name in m.tparams) and t.name not in self.mtps:
            return None
        if t.args:
            args = [self.subst(a, recv, c, m, targs) for a in t.args]
            return None if None in args else Type(t.name, args, t.suffix)
        return t

    def ev(self, e, env):
        k = e[0]
        if k == 'num':
            return None
        if k == 'str':
            return Type('String')
        if k == 'bool':
            return Type('bool')
        if k in ('null', 'chr', 'default', 'base'):
            if k == 'default' and len(e) > 2 and e[2] is not None:
                self.known(e[2], self.mtps)
                return e[2]
            return None
        if k == 'this':
            if self.static and self.m.kind != 'ctor':
                self.bad('this in ' + self.m.name, 'the static %s uses this' % self.m.name)
            return Type(self.cls.name, [Type(x) for x in self.cls.tparams])
        if k == 'typeof':
            self.known(e[2], self.mtps)
            return Type('Type')
        if k == 'name':
            return self.name(e, env)
        if k == 'member':
            return self.memb(e, env, False)[0]
        if k == 'call':
            return self.call(e, env)
        if k == 'new':
            self.known(e[2], self.mtps)
            types = self.args_of(e[3], env)
            c = self.find(e[2].name)
            if c is not None and c.kind == 'class':
                ctors = [(c, m) for m in c.members if getattr(m, 'kind', '') == 'ctor' and 'static' not in m.mods]
                seen = [x for x in ctors if self.sees(x[1], c)]
                if ctors and not seen:
                    self.bad('new ' + c.name, 'the constructor of %s is not public' % c.name)
                elif ctors:
                    self.arity(seen, e[3], env, 'new ' + c.name, types)
                elif e[3]:
                    self.bad('new ' + c.name, '%s takes no arguments' % c.name)
            elif HOLE.search(e[2].name) and self.names is not None:
                # a type of the schema: made from a path
                self.that(len(e[3]) == 1 and (types[0][3] is None or types[0][3].name == 'Path'), 'new ' + e[2].name,
                          'a state is made from %s, not from a path' % ', '.join(str(t[3]) for t in types))
            return e[2]
        if k == 'newarray':
            for x in flat(e[3:]):
                pass
            if e[2] is not None:
                self.known(e[2], self.mtps)
                return Type(e[2].name, e[2].args, e[2].suffix + '[]')
            return None
        if k == 'assign':
            t = self.ev(e[4], env)
            u = self.target(e[3], env)
            if not e[2] and self.fits(t, u, self.mtps) is False:
                self.bad('assign in ' + self.m.name, 'a %s is stored in %s, a %s' % (t, self.text(e[3]), u))
            return u
        if k == 'lambda':
            f = dict(env)
            for p in e[2]:
                f[p if isinstance(p, str) else p.name] = None
            old, self.ret = self.ret, None
            self.stmt(e[3], f)
            self.ret = old
            return None
        if k == 'cond':
            self.ev(e[2], env)
            a, b = self.ev(e[3], env), self.ev(e[4], env)
            if a is not None and b is not None and not a.suffix and not b.suffix:
                if self.fits(a, b, self.mtps) is False and self.fits(b, a, self.mtps) is False:
                    self.bad('cond in ' + self.m.name, 'the two sides of ?: in %s are a %s and a %s' % (self.m.name, a, b))
            return a if b is not None and a is not None and str(a) == str(b) else a if e[4][0] == 'null' else b if e[3][0] == 'null' else None
        if k == 'coalesce':
            a = self.ev(e[2], env)
            b = self.ev(e[3], env) if isinstance(e[3], tuple) else None
            return a if a is not None and not a.suffix else b
        if k == 'bin':
            a, b = self.ev(e[3], env), self.ev(e[4], env)
            if e[2] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||'):
                if e[2] in ('==', '!=') and self.fits(a, b, self.mtps) is False and self.fits(b, a, self.mtps) is False and \
                        not ('interface' in [getattr(self.find(x.name), 'kind', '') for x in (a, b)]):
                    self.bad('compare in ' + self.m.name, 'a %s is compared with a %s in %s' % (a, b, self.m.name))
                return Type('bool')
            return None
        if k in ('is', 'as'):
            self.ev(e[2], env)
            if e[3] is not None:
                self.known(e[3], self.mtps)
            if k == 'is':
                if len(e) > 4 and e[4]:
                    env[e[4]] = e[3]
                return Type('bool')
            return e[3]
        if k in ('un', 'pre', 'post'):
            x = e[3]
            t = self.ev(x, env)
            return Type('bool') if e[2] == '!' else t
        if k == 'cast':
            self.ev(e[3], env)
            self.known(e[2], self.mtps)
            return e[2]
        if k == 'index':
            self.ev(e[2], env)
            for x in e[3]:
                self.ev(x[2], env)
            return None
        if k == 'tuple':
            for x in e[2]:
                self.ev(x, env)
            return None
        if k == 'throw':
            if e[2]:
                self.ev(e[2], env)
            return None
        return None

    def text(self, e):
        if e[0] == 'name':
            return e[2]
        if e[0] == 'member':
            return '%s.%s' % (self.text(e[2]), e[3])
        return e[0]

    def target(self, e, env):
        """the type of what is assigned to, which must be assignable"""
        if e[0] == 'name' and e[2] in env:
            return env[e[2]]
        t, c, m = self.memb(e, env, True) if e[0] == 'member' else self.member_name(e, env) if e[0] == 'name' else (self.ev(e, env), None, None)
        if m is not None and not isinstance(m, cs.Class):
            what = self.text(e)
            if m.kind == 'property':
                own = c is self.cls
                auto = getattr(m, 'get_auto', False) or getattr(m, 'set_auto', False)
                can = getattr(m, 'set', None) is not None or getattr(m, 'set_auto', False) or auto and own and self.m.kind == 'ctor'
                self.that(can, 'assign ' + what, '%s, which cannot be assigned, is in %s' % (what, self.m.name))
            elif m.kind in ('const', 'method'):
                self.bad('assign ' + what, '%s, which cannot be assigned, is in %s' % (what, self.m.name))
            elif m.kind == 'field' and 'readonly' in m.mods:
                self.that(c is self.cls and self.m.kind == 'ctor', 'assign ' + what, '%s, which is readonly, is assigned in %s' % (what, self.m.name))
            elif m.kind == 'event' and c is not self.cls:
                self.bad('assign ' + what, 'the event %s of another class is assigned in %s' % (what, self.m.name))
        return t

    def member_name(self, e, env):
        """a simple name as a member of the class or of one around it"""
        x = self.cls
        while x is not None:
            ms = self.members(x, e[2])
            if ms:
                c, m = ms[0]
                if isinstance(m, cs.Class):
                    return Type(m.name), c, m
                if self.static and 'static' not in m.mods and m.kind not in ('const',) and x is self.cls and not (
                        m.type is not None and m.type.name == e[2]):
                    self.bad('static ' + self.m.name, 'the static %s uses %s, which is not' % (self.m.name, e[2]))
                return m.type, c, m
            x = x.outer
        return None, None, None

    def name(self, e, env):
        n = e[2]
        self.chk.count('names')
        if n in env:
            self.chk.ok()
            return env[n]
        if self.names is not None and HOLE.fullmatch(n):
            t = self.names.terms.get(n)
            if n not in self.own and not self.members(self.cls, n):
                self.chk.ok()
                return None
        t, c, m = self.member_name(e, env)
        if m is not None:
            self.chk.ok()
            return t
        if n in self.mtps or self.find(n) is not None or n in KNOWN or HOLE.search(n) and n not in self.own:
            if self.find(n) is not None:
                self.opens(self.find(n))
            self.chk.ok()
            return None
        if n in ('nameof', 'value', 'yield', 'var', '_'):
            return None
        if self.strict:
            self.bad('name ' + n, 'there is no %s in %s.%s' % (n, self.cls.name, self.m.name))
        return None

    def is_type(self, e, env):
        """the class or type a simple or qualified name stands for: (Class | None, Type) or None"""
        if e[0] == 'name' and e[2] not in env:
            t, c, m = self.member_name_quiet(e[2])
            if m is not None and not isinstance(m, cs.Class):
                # a property of the name of its type
                if not (m.type is not None and m.type.name == e[2]):
                    return None
                return self.find(e[2]), Type(e[2], e[3])
            if isinstance(m, cs.Class):
                return m, Type(m.name, e[3])
            if e[2] in self.own or e[2] in self.client or e[2] in KNOWN or e[2] in self.mtps:
                return self.find(e[2]), Type(e[2], e[3])
            if HOLE.search(e[2]):
                return None, Type(e[2], e[3])
        return None

    def member_name_quiet(self, n):
        x = self.cls
        while x is not None:
            ms = self.members(x, n)
            if ms:
                return ms[0][1].type if not isinstance(ms[0][1], cs.Class) else None, ms[0][0], ms[0][1]
            x = x.outer
        return None, None, None

    def memb(self, e, env, assign):
        """(type, class, member) of a.b"""
        base, n = e[2], e[3]
        self.chk.count('names')
        ty = self.is_type(base, env)
        both = ty is not None and self.member_name_quiet(base[2])[2] is not None and not isinstance(self.member_name_quiet(base[2])[2], cs.Class)
        if ty is not None:
            for a in base[3]:
                self.known(a, self.mtps)
            c = ty[0]
            if c is not None:
                self.opens(c)
            if c is None:
                if self.names is not None and HOLE.search(ty[1].name) or ty[1].name in KNOWN or ty[1].name in self.mtps:
                    return None, None, None
                return None, None, None
            if c.kind == 'enum':
                self.that(any(v == n for v, _ in c.values), 'member %s.%s' % (c.name, n), 'there is no %s.%s' % (c.name, n))
                return Type(c.name), c, None
            ms = self.members(c, n)
            if not ms:
                self.bad('member %s.%s' % (c.name, n), 'there is no %s.%s' % (c.name, n))
                return None, None, None
            c2, m = ms[0]
            self.that(self.sees(m, c2), 'access %s.%s' % (c.name, n), '%s.%s cannot be used from %s' % (c.name, n, self.cls.name))
            if isinstance(m, cs.Class):
                return None, c2, m
            if not both:
                self.that('static' in m.mods or m.kind in ('const',), 'static %s.%s' % (c.name, n), '%s.%s is no member of the class but of its values' % (
                    c.name, n))
            return self.subst(m.type, ty[1], c2), c2, m
        t = self.ev(base, env)
        if t is None or t.suffix or t.name == '()':
            return None, None, None
        c = self.find(t.name)
        if c is None or c.kind == 'enum':
            return None, None, None
        ms = self.members(c, n)
        if not ms:
            if self.extensions(n, t):
                return None, None, None
            if c.kind == 'interface' and n in ('Equals', 'ToString', 'GetHashCode', 'GetType') or n in ('Equals', 'ToString', 'GetHashCode', 'GetType'):
                return None, None, None
            if self.open_bases(c):
                return None, None, None
            self.bad('member %s.%s' % (c.name, n), 'a %s has no %s' % (c.name, n))
            return None, None, None
        c2, m = ms[0]
        self.that(self.sees(m, c2), 'access %s.%s' % (c.name, n), '%s.%s cannot be used from %s' % (c.name, n, self.cls.name))
        if isinstance(m, cs.Class):
            return None, c2, m
        self.that('static' not in m.mods and m.kind != 'const', 'static %s.%s' % (c.name, n), '%s.%s is no member of its values' % (c.name, n))
        return self.subst(m.type, t, c2), c2, m

    def extensions(self, n, t):
        out = []
        for c, m in self.ext.get(n, ()):
            if self.fits(t, m.params[0].type, self.mtps | set(m.tparams)) is not False:
                out.append((c, m))
        return out

    def call(self, e, env):
        f, args = e[2], e[3]
        if f[0] == 'name' and f[2] == 'nameof':
            return None
        if f[0] == 'name' and f[2] not in env:
            types = self.args_of(args, env)
            x = self.cls
            while x is not None:
                ms = self.members(x, f[2])
                if ms:
                    m = self.arity([y for y in ms if not isinstance(y[1], cs.Class)], args, env, f[2], types)
                    if m is not None and self.static and m.kind == 'method' and 'static' not in m.mods:
                        self.bad('static ' + self.m.name, 'the static %s calls %s, which is not' % (self.m.name, f[2]))
                    return m.type if m is not None and m.kind == 'method' and not m.tparams else None
                x = x.outer
            if HOLE.search(f[2]):
                return None
            self.bad('call ' + f[2], 'there is no %s to call in %s' % (f[2], self.m.name))
            return None
        if f[0] != 'member':
            self.ev(f, env)
            self.args_of(args, env)
            return None
        types = self.args_of(args, env)
        for a in f[5]:
            self.known(a, self.mtps)
        n = f[3]
        if HOLE.search(n) and self.names is not None and not any(self.members(x, n) for x in self.own.values()):
            return None     # the primitive's own, ReadUInt32 and the like: D06
        ty = self.is_type(f[2], env)
        if ty is not None and ty[0] is None and HOLE.search(ty[1].name) and self.names is not None:
            # a type of the schema
            if n == 'Deserialize':
                self.chk.count('calls')
                ok = len(types) == 2 and (types[0][3] is None or types[0][3].name == 'IReader') and (types[1][3] is None or types[1][3].name == 'Path')
                self.that(ok, 'Deserialize', 'a type of the schema is read from (%s), not from a reader and a path' % ', '.join(str(t[3]) for t in types))
            return ty[1]
        if ty is not None:
            c = ty[0]
            recv = ty[1]
        else:
            recv = self.ev(f[2], env)
            if recv is None or recv.suffix or recv.name == '()':
                return None
            c = self.find(recv.name)
        if c is None or c.kind == 'enum':
            return None
        ms = [(c2, m) for c2, m in self.members(c, n) if not isinstance(m, cs.Class)]
        self.chk.count('names')
        if ms and ms[0][1].kind != 'method':
            self.memb(f, env, False)
            return None
        ms = [x for x in ms if x[1].kind == 'method']
        ext = [] if ty is not None and self.member_name_quiet(f[2][2])[2] is None else self.extensions(n, recv)
        if not ms and not ext:
            if n in ('Equals', 'ToString', 'GetHashCode', 'GetType') or self.open_bases(c):
                return None
            self.bad('member %s.%s' % (c.name, n), 'there is no %s.%s' % (c.name, n))
            return None
        if f[5]:
            ms2 = [x for x in ms if len(x[1].tparams) == len(f[5])]
            if ms and not ms2:
                self.bad('type arguments %s.%s' % (c.name, n), '%s.%s does not take %d type arguments' % (c.name, n, len(f[5])))
                return None
            ms = ms2
        seen = [x for x in ms if self.sees(x[1], x[0])]
        if ms and not seen:
            self.bad('access %s.%s' % (c.name, n), '%s.%s cannot be called from %s' % (c.name, n, self.cls.name))
            return None
        whys = [self.takes(x[0], x[1], x[1].params, types) for x in seen]
        self.chk.count('calls')
        for (c2, m), w in zip(seen, whys):
            if w is None:
                if ty is not None and (self.member_name_quiet(f[2][2])[2] is None or isinstance(self.member_name_quiet(f[2][2])[2], cs.Class)):
                    self.that('static' in m.mods, 'static %s.%s' % (c.name, n), '%s.%s is called on the class' % (c.name, n))
                elif ty is None:
                    self.that('static' not in m.mods, 'static %s.%s' % (c.name, n), 'the static %s.%s is called on a value' % (c.name, n))
                return self.subst(m.type, recv, c2, m, f[5])
        for c2, m in ext:
            w = self.takes(c2, m, m.params[1:], types)
            if w is None:
                self.opens(c2)
                self.chk.ok()
                return self.subst(m.type, None, c2, m, f[5]) if not m.tparams or f[5] else None
            whys.append(w)
        self.bad('call %s.%s' % (c.name, n), '%s.%s in %s %s' % (c.name, n, self.m.name, whys[0]))
        return None


def flat(x):
    if isinstance(x, (tuple, list)):
        for y in x:
            yield from flat(y)
    else:
        yield x


def forever(c):
    return c[0] == 'bool' and c[2] is True


def has_break(s):
    """a break of this statement, not of one inside it"""
    k = s[0]
    if k == 'break':
        return True
    if k == 'block':
        return any(has_break(x) for x in s[2])
    if k == 'if':
        return has_break(s[3]) or s[4] is not None and has_break(s[4])
    if k == 'try':
        return has_break(s[2]) or any(has_break(x) for x in s[3])
    return False
