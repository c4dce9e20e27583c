"""A parser for the part of C# the client is written in.  Every node is a tuple (kind, line, ...)."""
import os
import re

TOK = re.compile(r'''(?P<ws>\s+|//[^\n]*|/\*.*?\*/|\#[^\n]*)|(?P<num>0[xX][0-9a-fA-F_]+[uUlL]*|0[bB][01_]+[uUlL]*|\d[\d_]*(?:\.\d+)?[uUlLfFdDmM]*)|(?P<id>@?[A-Za-z_]\w*)
|(?P<str>\$?@?"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.)')|(?P<op>\?\?=|<<=|\?\?|\?\.|=>|==|!=|<=|>=|&&|\|\||\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=|<<|::|[-+*/%=<>!&|^~?:;,.(){}\[\]])''', re.X | re.S)

MODS = {'public', 'private', 'protected', 'internal', 'static', 'readonly', 'sealed', 'partial', 'abstract', 'virtual', 'override',
        'const', 'new', 'async', 'extern', 'unsafe', 'volatile'}
KEYWORDS = {'if', 'else', 'while', 'do', 'for', 'foreach', 'switch', 'case', 'default', 'break', 'continue', 'return', 'throw', 'new',
            'this', 'base', 'null', 'true', 'false', 'is', 'as', 'in', 'out', 'ref', 'typeof', 'try', 'catch', 'finally', 'lock', 'using',
            'where', 'class', 'struct', 'enum', 'interface', 'namespace', 'checked', 'unchecked', 'nameof', 'goto', 'const', 'params'}


class Bad(Exception):
    pass


class Tok:
    __slots__ = ('k', 'v', 'line', 'pos')

    def __init__(self, k, v, line, pos):
        self.k, self.v, self.line, self.pos = k, v, line, pos


def lex(src):
    out, i, line = [], 0, 1
    while i < len(src):
        m = TOK.match(src, i)
        if not m:
            raise Bad('line %d: %r' % (line, src[i:i + 20]))
        k = m.lastgroup
        if k != 'ws':
            out.append(Tok(k, m.group(), line, i))
        line += m.group().count('\n')
        i = m.end()
    out.append(Tok('eof', '', line, i))
    return out


class Type:
    """a type as it is named: name without namespace, type arguments, '?' and '[]' suffixes"""

    def __init__(self, name, args=(), suffix=''):
        self.name, self.args, self.suffix = name, tuple(args), suffix

    def __str__(self):
        return self.name + ('<' + ', '.join(map(str, self.args)) + '>' if self.args else '') + self.suffix

    __repr__ = __str__

    def __eq__(self, o):
        return isinstance(o, Type) and str(self) == str(o)

    def __hash__(self):
        return hash(str(self))


class Member:
    def __init__(self, kind, name, line, **kw):
        self.kind, self.name, self.line = kind, name, line
        self.mods, self.type, self.params, self.body, self.tparams, self.init = set(), None, [], None, [], None
        self.chain = None
        self.cls = None
        self.__dict__.update(kw)

    def sig(self):
        return '%s.%s' % (self.cls.name, self.name) if self.cls else self.name


class Class:
    def __init__(self, kind, name, line):
        self.kind, self.name, self.line = kind, name, line
        self.tparams, self.bases, self.members, self.mods = [], [], [], set()
        self.file = None
        self.outer = None
        self.values = []

    def all(self, name):
        return [m for m in self.members if m.name == name]

    def nested(self):
        return [m for m in self.members if isinstance(m, Class)]


class Param:
    def __init__(self, type, name, mods, default):
        self.type, self.name, self.mods, self.default = type, name, mods, default


class P:
    def __init__(self, src):
        self.t = lex(src)
        self.i = 0

    # -- tokens

    @property
    def c(self):
        return self.t[self.i]

    def at(self, *vs):
        return self.c.k in ('op', 'id') and self.c.v in vs

    def eat(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def need(self, v):
        if not self.eat(v):
            raise Bad('line %d: expected %s, found %r' % (self.c.line, v, self.c.v))

    def ident(self):
        if self.c.k != 'id' or self.c.v in KEYWORDS:
            raise Bad('line %d: expected a name, found %r' % (self.c.line, self.c.v))
        self.i += 1
        return self.t[self.i - 1].v.lstrip('@')

    def sep(self, close):
        """after an item of a list: a comma and another item, or the end"""
        if self.eat(','):
            if self.at(close):
                raise Bad('line %d: nothing after a comma' % self.c.line)
        elif not self.at(close):
            raise Bad('line %d: expected , or %s, found %r' % (self.c.line, close, self.c.v))

    def attempt(self, f, *a):
        i = self.i
        try:
            return f(*a)
        except Bad:
            self.i = i
            return None

    # -- types

    def type(self, nullable=True):
        if self.eat('('):
            items = [self.type()]
            if self.c.k == 'id':
                self.ident()
            while self.eat(','):
                items.append(self.type())
                if self.c.k == 'id':
                    self.ident()
            self.need(')')
            t = Type('()', items)
        else:
            name = self.ident()
            args = self.targs() if self.at('<') else ()
            while self.at('.') or self.at('::'):
                self.i += 1
                name = self.ident()
                args = self.targs() if self.at('<') else ()
            t = Type(name, args)
        while True:
            if nullable and self.at('?'):
                self.i += 1
                t = Type(t.name, t.args, t.suffix + '?')
            elif self.at('[') and self.t[self.i + 1].v == ']':
                self.i += 2
                t = Type(t.name, t.args, t.suffix + '[]')
            else:
                return t

    def targs(self):
        self.need('<')
        out = [self.type()]
        while self.eat(','):
            out.append(self.type())
        self.need('>')
        return out

    # -- declarations

    def using(self):
        n = ''
        while not self.eat(';'):
            if self.c.k == 'eof':
                raise Bad('line %d: end of file' % self.c.line)
            n += self.c.v
            self.i += 1
        self.usings.append(n)

    def file(self):
        out = []
        self.usings = []
        self.ns = ''
        while self.c.k != 'eof':
            if self.eat('using'):
                self.using()
            elif self.eat('namespace'):
                self.ns = ''
                while not self.at('{', ';'):
                    if self.c.k == 'eof':
                        raise Bad('line %d: end of file' % self.c.line)
                    self.ns += self.c.v
                    self.i += 1
                if self.eat(';'):
                    continue
                self.need('{')
                while not self.eat('}'):
                    if self.eat('using'):
                        self.using()
                        continue
                    out.append(self.klass())
                    out[-1].ns = self.ns
            else:
                out.append(self.klass())
                out[-1].ns = ''
        for c in out:
            c.usings = self.usings
        return out

    def attrs(self):
        while self.at('['):
            d = 0
            while True:
                d += self.at('[') - self.at(']')
                self.i += 1
                if not d:
                    break

    def mods(self):
        out = set()
        self.attrs()
        while self.c.k == 'id' and self.c.v in MODS:
            out.add(self.c.v)
            self.i += 1
        return out

    def klass(self, mods=None):
        mods = self.mods() if mods is None else mods
        if not self.at('class', 'struct', 'interface', 'enum'):
            raise Bad('line %d: expected a type, found %r' % (self.c.line, self.c.v))
        kind = self.c.v
        self.i += 1
        c = Class(kind, self.c.v, self.c.line)
        self.ident()
        c.mods = mods
        if self.eat('<'):
            while not self.eat('>'):
                if self.at('in', 'out'):
                    self.i += 1
                c.tparams.append(self.ident())
                self.sep('>')
        if self.eat(':'):
            c.bases.append(self.type())
            while self.eat(','):
                c.bases.append(self.type())
        self.where()
        self.need('{')
        if kind == 'enum':
            n = 0
            while not self.eat('}'):
                self.attrs()
                name = self.ident()
                init = self.expr() if self.eat('=') else None
                c.values.append((name, init))
                self.eat(',')
        else:
            while not self.eat('}'):
                for m in self.member(c):
                    if isinstance(m, Class):
                        m.outer = c
                    else:
                        m.cls = c
                    c.members.append(m)
        self.eat(';')
        return c

    def where(self):
        while self.at('where'):
            while not self.at('{', ';', '=>'):
                self.i += 1
                if self.at('where'):
                    break

    def params(self, close=')'):
        out = []
        while not self.eat(close):
            self.attrs()
            mods = set()
            while self.at('this', 'ref', 'out', 'in', 'params'):
                mods.add(self.c.v)
                self.i += 1
            t = self.type()
            name = self.ident()
            d = self.expr() if self.eat('=') else None
            out.append(Param(t, name, mods, d))
            self.sep(close)
        return out

    def body(self):
        if self.eat(';'):
            return None
        if self.at('=>'):
            line = self.c.line
            self.i += 1
            e = self.throw_or_expr()
            self.need(';')
            return ('block', line, [e if e[0] == 'throw' else ('return', line, e, True)])
        return self.block()

    def throw_or_expr(self):
        if self.at('throw'):
            line = self.c.line
            self.i += 1
            return ('throw', line, self.expr())
        return self.expr()

    def member(self, c):
        mods = self.mods()
        line = self.c.line
        if self.at('class', 'struct', 'interface', 'enum'):
            return [self.klass(mods)]
        if self.eat('event'):
            t = self.type()
            n = self.ident()
            init = self.expr() if self.eat('=') else None
            self.need(';')
            return [Member('event', n, line, mods=mods, type=t, init=init)]
        if self.c.v == c.name and self.t[self.i + 1].v == '(':
            self.i += 2
            m = Member('ctor', c.name, line, mods=mods, params=self.params())
            if self.eat(':'):
                which = self.c.v
                self.i += 1
                self.need('(')
                m.chain = (which, self.args(')'))
            m.body = self.body()
            return [m]
        t = self.type()
        if self.at('this') and self.t[self.i + 1].v == '[':
            self.i += 2
            m = Member('indexer', 'this', line, mods=mods, type=t, params=self.params(']'))
            self.accessors(m)
            return [m]
        name = self.ident()
        tps = []
        if self.at('.'):  # explicit interface implementation
            self.i += 1
            name = self.ident()
        if self.eat('<'):
            while not self.eat('>'):
                tps.append(self.ident())
                self.sep('>')
        if self.eat('('):
            m = Member('method', name, line, mods=mods, type=t, tparams=tps, params=self.params())
            self.where()
            m.body = self.body()
            return [m]
        if self.at('{') or self.at('=>'):
            m = Member('property', name, line, mods=mods, type=t)
            self.accessors(m)
            if self.eat('='):
                m.init = self.expr()
                self.need(';')
            return [m]
        out = []
        while True:
            m = Member('const' if 'const' in mods else 'field', name, line, mods=mods, type=t)
            if self.eat('='):
                m.init = self.expr()
            out.append(m)
            if not self.eat(','):
                break
            name = self.ident()
        self.need(';')
        return out

    def accessors(self, m):
        m.get = m.set = None
        m.auto = False
        if self.at('=>'):
            m.get = self.body()
            return
        self.need('{')
        while not self.eat('}'):
            self.mods()
            which = self.ident()
            if self.eat(';'):
                m.auto = True
                setattr(m, which + '_auto', True)
            else:
                setattr(m, which, self.body())

    # -- statements

    def block(self):
        line = self.c.line
        self.need('{')
        out = []
        while not self.eat('}'):
            out.append(self.stmt())
        return ('block', line, out)

    def stmt(self):
        line = self.c.line
        if self.at('{'):
            return self.block()
        if self.eat(';'):
            return ('block', line, [])
        if self.eat('if'):
            self.need('(')
            c = self.expr()
            self.need(')')
            a = self.stmt()
            b = self.stmt() if self.eat('else') else None
            return ('if', line, c, a, b)
        if self.eat('while'):
            self.need('(')
            c = self.expr()
            self.need(')')
            return ('while', line, c, self.stmt())
        if self.eat('do'):
            b = self.stmt()
            self.need('while')
            self.need('(')
            c = self.expr()
            self.need(')')
            self.need(';')
            return ('do', line, c, b)
        if self.eat('for'):
            self.need('(')
            init = []
            if not self.at(';'):
                init = [self.decl_or_expr()]
                while self.eat(','):
                    init.append(('expr', line, self.expr()))
            self.need(';')
            c = None if self.at(';') else self.expr()
            self.need(';')
            step = []
            while not self.at(')'):
                step.append(('expr', line, self.expr()))
                self.eat(',')
            self.need(')')
            return ('for', line, init, c, step, self.stmt())
        if self.eat('foreach'):
            self.need('(')
            t = self.type()
            n = self.ident()
            self.need('in')
            e = self.expr()
            self.need(')')
            return ('foreach', line, t, n, e, self.stmt())
        if self.eat('switch'):
            self.need('(')
            e = self.expr()
            self.need(')')
            self.need('{')
            secs = []
            while not self.eat('}'):
                labels = []
                while self.at('case', 'default'):
                    if self.eat('default'):
                        labels.append(None)
                    else:
                        self.i += 1
                        labels.append(self.expr())
                    self.need(':')
                body = []
                while not self.at('case', 'default', '}'):
                    body.append(self.stmt())
                secs.append((labels, body))
            return ('switch', line, e, secs)
        if self.eat('return'):
            e = None if self.at(';') else self.expr()
            self.need(';')
            return ('return', line, e, False)
        if self.eat('throw'):
            e = None if self.at(';') else self.expr()
            self.need(';')
            return ('throw', line, e)
        if self.eat('break'):
            self.need(';')
            return ('break', line)
        if self.eat('continue'):
            self.need(';')
            return ('continue', line)
        if self.eat('lock'):
            self.need('(')
            self.expr()
            self.need(')')
            return self.stmt()
        if self.eat('try'):
            b = self.block()
            catches = []
            fin = None
            while self.eat('catch'):
                if self.eat('('):
                    self.type()
                    if self.c.k == 'id':
                        self.ident()
                    self.need(')')
                catches.append(self.block())
            if self.eat('finally'):
                fin = self.block()
            return ('try', line, b, catches, fin)
        if self.at('using', 'goto', 'unchecked', 'checked'):
            raise Bad('line %d: %s' % (line, self.c.v))
        self.eat('const')
        s = self.decl_or_expr()
        self.need(';')
        return s

    def decl_or_expr(self):
        line = self.c.line
        d = self.attempt(self.decl)
        if d is not None:
            return d
        return ('expr', line, self.expr())

    def decl(self):
        line = self.c.line
        if self.at('var') and self.t[self.i + 1].v == '(':
            self.i += 2
            names = [self.ident()]
            while self.eat(','):
                names.append(self.ident())
            self.need(')')
            self.need('=')
            return ('decltuple', line, names, self.expr())
        t = self.type()
        names = []
        n = self.ident()
        if not self.at('=', ';', ','):
            raise Bad('not a declaration')
        while True:
            names.append((n, self.expr() if self.eat('=') else None))
            if not self.eat(','):
                break
            n = self.ident()
        if not self.at(';'):
            raise Bad('not a declaration')
        return ('decl', line, t, names)

    # -- expressions

    def expr(self):
        line = self.c.line
        lam = self.attempt(self.lam)
        if lam is not None:
            return lam
        a = self.cond()
        for op in ('=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '??='):
            if self.at(op):
                self.i += 1
                b = self.throw_or_expr()
                return ('assign', line, op[:-1], a, b)
        if self.at('>') and self.t[self.i + 1].v == '>=' and self.t[self.i + 1].pos == self.c.pos + 1:
            self.i += 2
            return ('assign', line, '>>', a, self.expr())
        return a

    def lam(self):
        line = self.c.line
        if self.c.k == 'id' and self.t[self.i + 1].v == '=>':
            ps = [self.ident()]
        else:
            self.need('(')
            ps = []
            while not self.eat(')'):
                if self.c.k == 'id' and self.t[self.i + 1].v in (',', ')'):
                    ps.append(self.ident())
                else:
                    self.type()
                    ps.append(self.ident())
                self.eat(',')
            if not self.at('=>'):
                raise Bad('not a lambda')
        self.need('=>')
        if self.at('{'):
            return ('lambda', line, ps, self.block())
        e = self.throw_or_expr()
        return ('lambda', line, ps, ('block', line, [e if e[0] == 'throw' else ('return', line, e, True)]))

    def cond(self):
        line = self.c.line
        a = self.bin(0)
        if self.eat('?'):
            b = self.throw_or_expr()
            self.need(':')
            return ('cond', line, a, b, self.throw_or_expr())
        return a

    LEVELS = [['??'], ['||'], ['&&'], ['|'], ['^'], ['&'], ['==', '!='], ['<', '>', '<=', '>=', 'is', 'as'], ['<<', '>>'], ['+', '-'],
              ['*', '/', '%']]

    def bin(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        line = self.c.line
        a = self.bin(lv + 1)
        if lv == 0:
            if self.eat('??'):
                return ('coalesce', line, a, self.at('throw') and self.throw_or_expr() or self.bin(0))
            return a
        while True:
            op = self.c.v if self.c.k in ('op', 'id') else None
            if op == '>' and self.t[self.i + 1].v == '>' and self.t[self.i + 1].pos == self.c.pos + 1:
                op = '>>'
            if op not in self.LEVELS[lv]:
                return a
            self.i += 2 if op == '>>' else 1
            if op in ('is', 'as'):
                if op == 'is' and self.at('null'):
                    self.i += 1
                    a = ('bin', line, '==', a, ('null', line))
                    continue
                neg = op == 'is' and self.eat('not')
                if neg and self.at('null'):
                    self.i += 1
                    a = ('bin', line, '!=', a, ('null', line))
                    continue
                t = self.type(nullable=False)
                name = self.ident() if op == 'is' and self.c.k == 'id' and self.c.v not in KEYWORDS else None
                a = (op, line, a, t, name) if not neg else ('un', line, '!', (op, line, a, t, name))
            else:
                a = ('bin', line, op, a, self.bin(lv + 1))

    def unary(self):
        line = self.c.line
        for op in ('!', '-', '+', '~', '++', '--'):
            if self.at(op):
                self.i += 1
                return ('un' if op in '!-+~' else 'pre', line, op, self.unary())
        if self.at('('):
            c = self.attempt(self.cast)
            if c is not None:
                return c
        return self.postfix()

    def cast(self):
        line = self.c.line
        self.need('(')
        t = self.type()
        self.need(')')
        n = self.c
        if not (n.k in ('num', 'str', 'chr') or n.k == 'id' and n.v not in ('is', 'as', 'in') or n.k == 'op' and n.v in '(!~'):
            if not (n.k == 'op' and n.v == '-' and t.name in ('int', 'uint', 'long', 'ulong', 'byte', 'sbyte', 'short', 'ushort')):
                raise Bad('not a cast')
        return ('cast', line, t, self.unary())

    def args(self, close):
        out = []
        while not self.eat(close):
            name = None
            if self.c.k == 'id' and self.t[self.i + 1].v == ':' and self.t[self.i + 1].k == 'op':
                name = self.ident()
                self.i += 1
            mod = None
            if self.at('ref', 'out', 'in'):
                mod = self.c.v
                self.i += 1
                if mod == 'out' and self.c.k == 'id' and self.t[self.i + 1].k == 'id':
                    self.type()
                    n = self.ident()
                    out.append((name, mod, ('outvar', self.c.line, n)))
                    self.sep(close)
                    continue
            out.append((name, mod, self.expr()))
            self.sep(close)
        return out

    def tryargs(self):
        a = self.targs()
        if not (self.c.k == 'op' and self.c.v in '()]};,.?:=!' or self.at('==', '!=') or self.c.k == 'eof'):
            raise Bad('not type arguments')
        return a

    def postfix(self):
        line = self.c.line
        e = self.primary()
        while True:
            line = self.c.line
            if self.at('.') or self.at('?.'):
                q = self.c.v == '?.'
                self.i += 1
                n = self.ident()
                ta = self.attempt(self.tryargs) if self.at('<') else None
                e = ('member', line, e, n, q, tuple(ta or ()))
            elif self.at('('):
                self.i += 1
                e = ('call', line, e, self.args(')'))
            elif self.at('['):
                self.i += 1
                e = ('index', line, e, self.args(']'))
            elif self.at('++', '--'):
                e = ('post', line, self.c.v, e)
                self.i += 1
            elif self.at('!') and self.t[self.i + 1].v in ('.', ';', ')', ',', '['):
                self.i += 1  # the null-forgiving operator
            elif self.at('switch'):
                raise Bad('line %d: switch expression' % line)
            else:
                return e

    def primary(self):
        c = self.c
        line = c.line
        if c.k == 'num':
            self.i += 1
            return ('num', line, c.v)
        if c.k == 'str':
            self.i += 1
            return ('str', line, c.v)
        if c.k == 'chr':
            self.i += 1
            return ('chr', line, c.v)
        if self.eat('('):
            e = self.expr()
            if self.at(','):
                items = [e]
                while self.eat(','):
                    if self.c.k == 'id' and self.t[self.i + 1].v == ':':
                        self.i += 2
                    items.append(self.expr())
                self.need(')')
                return ('tuple', line, items)
            self.need(')')
            return e
        if self.eat('this'):
            return ('this', line)
        if self.eat('base'):
            return ('base', line)
        if self.eat('null'):
            return ('null', line)
        if self.eat('true'):
            return ('bool', line, True)
        if self.eat('false'):
            return ('bool', line, False)
        if self.eat('default'):
            if self.eat('('):
                t = self.type()
                self.need(')')
                return ('default', line, t)
            return ('default', line, None)
        if self.eat('typeof'):
            self.need('(')
            t = self.type()
            self.need(')')
            return ('typeof', line, t)
        if self.eat('nameof'):
            self.need('(')
            self.expr()
            self.need(')')
            return ('str', line, '""')
        if self.eat('new'):
            return self.new(line)
        n = self.ident()
        ta = self.attempt(self.tryargs) if self.at('<') else None
        return ('name', line, n, tuple(ta or ()))

    def new(self, line):
        if self.at('['):  # new[] { ... }
            self.need('[')
            self.need(']')
            return ('newarray', line, None, None, self.initializer())
        name = self.ident()
        args = self.targs() if self.at('<') else ()
        while self.eat('.'):
            name = self.ident()
            args = self.targs() if self.at('<') else ()
        t = Type(name, args)
        if self.at('?'):
            self.i += 1
        if self.eat('['):
            size = None if self.at(']') else self.expr()
            self.need(']')
            init = self.initializer() if self.at('{') else None
            return ('newarray', line, t, size, init)
        a = []
        if self.eat('('):
            a = self.args(')')
        init = self.initializer() if self.at('{') else None
        return ('new', line, t, a, init)

    def initializer(self):
        self.need('{')
        out = []
        while not self.eat('}'):
            out.append(self.initializer() if self.at('{') else self.expr())
            self.eat(',')
        return out


def parse(path):
    with open(path) as f:
        src = f.read()
    cs = P(src.lstrip('\ufeff')).file()

    def mark(c):
        c.file = path
        for m in c.nested():
            mark(m)
    for c in cs:
        mark(c)
    return cs


def load(root):
    """every class under a directory, and what could not be read"""
    classes, bad = [], []
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            if f.endswith('.cs'):
                p = os.path.join(d, f)
                try:
                    classes.extend(parse(p))
                except (Bad, IndexError, RecursionError) as e:
                    bad.append((p, str(e)))
    return classes, bad
