"""The resolved program: MIR facts written by the compiler driver."""
import json
import re


def strip_generics(p):
    """'std::vec::Vec::<T, A>::len' -> ['std', 'vec', 'Vec', 'len'] (impl blocks are dropped)."""
    out = []
    d = 0
    prev = ''
    for c in p:
        if c == '<':
            d += 1
        elif c == '>' and prev != '-':
            d -= 1
        elif d == 0:
            out.append(c)
        prev = c
    return [s for s in ''.join(out).split('::') if s]


def last(p):
    s = strip_generics(p)
    return s[-1] if s else p


class Body:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.id = j['id']
        self.path = j['path']
        self.name = j['name']
        self.crate = j['crate']
        self.kind = j['kind']
        self.span = j['span']
        self.argc = j['argc']
        self.spread = j.get('spread')
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.self_ty = j.get('self')
        self.impl_trait = last(j['impl_trait']) if 'impl_trait' in j else None
        self.trait = last(j['trait']) if 'trait' in j else None
        self._loops = None

    def __repr__(self):
        return 'Body(%s %s)' % (self.id, self.path)

    def succ(self, b):
        t = self.blocks[b]['term']
        k = t['k']
        if k == 'goto' or k == 'drop' or k == 'assert':
            return [t['t']]
        if k == 'call':
            return [] if t['t'] is None else [t['t']]
        if k == 'switch':
            r = [x[1] for x in t['v']]
            if t['o'] not in r:
                r.append(t['o'])
            return r
        return []

    def loops(self):
        """header -> set of blocks (natural loops of back edges found by DFS; merged per header)."""
        if self._loops is not None:
            return self._loops
        color = {}
        back = []
        stack = [(0, iter(self.succ(0)))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            n = next(it, None)
            if n is None:
                color[b] = 2
                stack.pop()
                continue
            if color.get(n) == 1:
                back.append((b, n))
            elif n not in color:
                color[n] = 1
                stack.append((n, iter(self.succ(n))))
        preds = {}
        for b in color:
            for s in self.succ(b):
                preds.setdefault(s, []).append(b)
        loops = {}
        for b, h in back:
            s = loops.setdefault(h, {h})
            work = [b]
            while work:
                x = work.pop()
                if x in s:
                    continue
                s.add(x)
                work.extend(preds.get(x, []))
        self._loops = loops
        return loops

    def sig(self):
        """a description that does not depend on line numbers"""
        p = self.prog
        st = p.tname(self.self_ty) if self.self_ty is not None else None
        tr = self.impl_trait or self.trait
        if tr and st:
            return '<%s as %s>::%s' % (st, tr, self.name)
        if st and not tr:
            return '%s::%s' % (st, self.name)
        return '::'.join(strip_generics(self.path)) or self.path


class Prog:
    def __init__(self, path):
        with open(path) as f:
            j = json.load(f)
        self.crate = j['crate']
        self.types = j['types']
        self.bodies = {b['id']: Body(self, b) for b in j['bodies']}
        self.adts = {a['def']: a for a in j['adts']}
        self.impls = [i for i in j['impls'] if 'is_trait' not in i]
        self.traits = {last(i['is_trait']): i for i in j['impls'] if 'is_trait' in i}
        self.roots = j['roots']
        self.public = {r['id'] for r in self.roots if r.get('vis') == 'pub'}
        for i in j['impls']:
            for it in i['items']:
                if 'body' in it and (it.get('vis') == 'pub' or 'is_trait' in i):
                    self.public.add(it['body'])
        self._tn = {}
        self._keys = {}

    # ---- types
    def t(self, i):
        return self.types[i]

    def tname(self, i):
        """type name without module paths"""
        r = self._tn.get(i)
        if r is None:
            r = re.sub(r'\{closure@[^}]*\}', '{closure}', self.types[i]['s'])
            r = re.sub(r'\b(?:[A-Za-z_][A-Za-z0-9_]*|r#[a-z]+)::', '', r)
            r = re.sub(r"'(?:_|[a-z]+) ?", '', r)
            self._tn[i] = r
        return r

    def adt_of(self, i):
        t = self.types[i]
        return self.adts.get(t['def']) if t['k'] == 'adt' else None

    def tkey(self, i):
        """short constructor name of a type"""
        t = self.types[i]
        k = t['k']
        if k == 'adt':
            return last(t['def'])
        if k == 'int':
            return t['n']
        if k == 'ref':
            return '&' + self.tkey(t['t'])
        if k == 'array':
            return 'array'
        if k == 'tuple':
            return 'tuple'
        if k == 'param':
            return t['n']
        return k

    def key(self, f):
        """canonical name of a callee: Trait::method, Type::method or module::function"""
        k = id(f)
        r = self._keys.get(k)
        if r is None:
            if 'trait' in f:
                r = last(f['trait']) + '::' + f['name']
            else:
                s = strip_generics(f['path'])
                r = '::'.join(s[-2:])
                if s[-2] == 'num' and 'self' in f:
                    r = self.tkey(f['self']) + '::' + f['name']
                if 'self' in f and f.get('crate') == 'steit' or ('self' in f and f.get('crate') == self.crate):
                    r = self.tkey(f['self']) + '::' + f['name']
            self._keys[k] = (r, f)
        else:
            r = r[0]
        return r

    # ---- lookup
    def impl_items(self, trait=None, pred=None):
        for i in self.impls:
            tr = last(i['trait']) if 'trait' in i else None
            if tr == trait and (pred is None or pred(i)):
                yield i

    def find(self, ty, name, trait=None):
        """bodies of the method `name` of the type constructor `ty` (generic instance, i.e. the impl item)"""
        out = []
        for i in self.impls:
            tr = last(i['trait']) if 'trait' in i else None
            if tr != trait or self.tkey(i['self']) != ty:
                continue
            for it in i['items']:
                if it['name'] == name and it.get('body') in self.bodies:
                    out.append(self.bodies[it['body']])
        return out

    def find1(self, ty, name, trait=None):
        r = self.find(ty, name, trait)
        return r[0] if len(r) >= 1 else None

    def fn(self, *segs):
        """free function by trailing path segments (root instance)"""
        for r in self.roots:
            b = self.bodies.get(r['id'])
            if b and b.self_ty is None and not b.trait:
                s = strip_generics(b.path)
                if tuple(s[-len(segs):]) == segs:
                    return b
        return None

    def trait_default(self, trait, name):
        i = self.traits.get(trait)
        if i:
            for it in i['items']:
                if it['name'] == name and it.get('body') in self.bodies:
                    return self.bodies[it['body']]
        return None
