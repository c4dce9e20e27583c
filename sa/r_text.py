"""D04: generated sources are well nested."""
import terms
import text
from lab import *
from r_gen import adt_named, fidx, new_ip, sure
from core import guarded
from r_log import events
from terms import I, T, subst

OPEN = {'{': '}', '(': ')', '[': ']'}
CLOSE = {v: k for k, v in OPEN.items()}


def d04(chk):
    chk.rule('the text a generator writes, over all its paths and any number of repetitions of its loops, closes every bracket it opens, '
             'in order; a repetition leaves the open brackets as it found them')
    chk.rule('all lines that begin within one bracket have the indentation of the first of them, and a line that begins by closing a '
             'bracket has that of the line that opened it')
    for what, b, ip, s, its in texts(chk):
        guarded(chk, what, nest, chk, what, b, ip, s, its)
    chk.floor('texts', 8)
    chk.floor('lines', 400)
    chk.floor('brackets', 400)
    chk.floor('repetitions', 40)


def writer_parts(p):
    new = end = None
    for i in p.impls:
        if 'trait' not in i and p.tname(i['self']) == 'Writer':
            for it in i['items']:
                b = p.bodies.get(it.get('body'))
                if b is not None and b.name == 'new':
                    new = b
                elif b is not None and b.name == 'end':
                    end = b
    return new, end


def gens(p):
    return [b for b in p.bodies.values()
            if b.name in ('gen_struct', 'gen_enum') and b.impl_trait and last(b.impl_trait) == 'Generator'
            and b.kind.lower() != 'closure']


def indent_size(ip, p, b):
    for c in p.bodies.values():
        if c.name == 'INDENT_SIZE' and c.sig().split('::')[0] == b.sig().split('::')[0]:
            outs = ip.run(c, [], E.State())
            if len(outs) == 1 and outs[0][2].op == 'int':
                return outs[0][2]
    return None


def texts(chk, hooks=True):
    """the texts written by the generators: (what, body, interpreter, state, items)"""
    w = World.get()
    p = w.steit
    new, end = writer_parts(p)
    bs = gens(p)
    if not bs or new is None or end is None:
        chk.unknown('generators', 'not found')
    for b in sorted(bs, key=lambda b: b.name) if new and end else []:
        ip = new_ip()
        ip.budget = 3000000
        if hooks:
            ip.hooks['NameMeta::csharp'] = csharp_name
            for f in ('uncap_first_char', 'to_camel_case', 'to_snake_case'):
                ip.hooks['str_util::' + f] = lambda c, f=f: c.ret(T('app', f, c.ip.deep(c.st, c.args[0])))
        try:
            n = indent_size(ip, p, b)
            (k, s, v), = ip.run(new, [n or sym('indent_size')], E.State())
            args = [sym('arg%d' % i) for i in range(b.argc)]
            W = None
            for a, t in zip(args, b.locals[1:b.argc + 1]):
                ip.typed(a, p, t)
                if p.tname(t).lstrip('&').replace('mut ', '') == 'Writer':
                    W = a
            if W is None:
                chk.unknown(b.sig(), 'the writer')
                continue
            ip.store(s, W, v)
            outs = ip.run(b, args, s)
        except (E.Unknown, E.Budget, ValueError) as x:
            chk.unknown(b.sig(), str(x))
            continue
        chk.saw(ip, outs)
        for n, (k, s, v) in enumerate(outs):
            if k != 'ret':
                continue
            chk.count('texts')
            r = ip.run(end, [ip.load(s, W)], s)
            if len(r) != 1 or r[0][0] != 'ret':
                chk.unknown(b.sig(), 'the end of the text')
                continue
            its = text.items(ip, ip.deep(r[0][1], r[0][2]))
            if its and its[0][0] == 'hole':
                chk.unknown(b.sig(), 'the text: ' + str(its[0][1])[:100])
                continue
            yield b.sig(), b, ip, s, its


def csharp_name(c):
    """the name for the client, transformed as asked"""
    n = T('app', 'csname', c.ip.deep(c.st, c.args[0]))
    if len(c.args) == 1:
        return c.ret(n)
    return c.ip.call_value(c.st, c.fr, c.args[1], [n], c.dty, c.sp)


class Bad(Exception):
    pass


class Scan:
    """state: stack of frames (bracket, indentation of its line, indentation of the lines within | None),
    the indentation of the current line, whether nothing of it has been seen but spaces, and the values given
    to the counters of repetitions"""

    def __init__(self, chk, ip, s):
        self.chk, self.ip, self.s = chk, ip, s
        self.bounds = {}
        for e in events(s.trace()):
            if e[0] == 'loop' and e[2].op == 'kappa':
                self.bounds[e[2].a[0]] = e[3]

    def relevant(self, its):
        """the counters that indentation depends on"""
        todo = [x[1] for x in text.walk(its) if x[0] == 'hole']
        todo = [y for t in todo for y in terms.subterms(t) if y.op == 'srep']
        self.rel = set()
        while todo:
            for x in terms.subterms(todo.pop()):
                if x.op in ('phi', 'kappa') and x not in self.rel:
                    self.rel.add(x)
                    if x in self.ip.phis:
                        i, u, _ = self.ip.phis[x]
                        todo += [i] + list(u or [])

    def run(self, its, st):
        """the states after the items"""
        sts = [st]
        for i in its:
            if i[0] == 'loop':
                self.chk.count('repetitions')
                out = []
                for x in sts:
                    for y in self.loop(i, x):
                        if y not in out:
                            out.append(y)
                if len(out) > 64:
                    raise E.Unknown('repetitions')
                sts = out
            elif i[0] == 'lit':
                sts = [self.lit(i[1], x) for x in sts]
            elif i[0] == 'hole':
                sts = [self.hole(i[1], x) for x in sts]
            else:
                raise E.Unknown('text')
        return sts

    def lit(self, t, st):
        stack, ind, head, env = st
        for c in t:
            if c == '\n':
                ind, head = 0, True
                continue
            if c == ' ' and head:
                ind = ind + 1 if ind is not None else None
                continue
            if head:
                head = False
                stack = self.line(stack, ind, c)
            if c in OPEN:
                stack = stack + ((c, ind, None),)
                self.chk.count('brackets')
            elif c in CLOSE:
                if not stack:
                    raise Bad('closes a bracket that was not opened: ' + c)
                if stack[-1][0] != CLOSE[c]:
                    raise Bad('closes %s with %s' % (stack[-1][0], c))
                stack = stack[:-1]
        return stack, ind, head, env

    def hole(self, t, st):
        stack, ind, head, env = st
        while t.op == 'disp':
            t = t.a[-1]
        if t.op == 'srep' and t.a[0].op == 'str':
            n = subst(t.a[1], dict(env)) if env else t.a[1]
            if n.op != 'int':
                raise E.Unknown('indentation ' + str(n)[:60])
            return self.lit(t.a[0].a[0] * n.a[0], st)
        for x in terms.subterms(t):
            if x.op == 'str' and any(c in '{}()[]\n' for c in x.a[0]) or x.op == 'srep':
                raise E.Unknown('a name built of ' + str(x)[:60])
        if head:
            head = False
            stack = self.line(stack, ind, None)
        return stack, ind, head, env

    def line(self, stack, ind, c):
        """a line begins with c"""
        self.chk.count('lines')
        if not stack:
            if ind:
                raise Bad('a line outside every bracket is indented by %d%s' % (ind, ' (closing)' if c in CLOSE else ''))
            return stack
        br, own, within = stack[-1]
        if c in CLOSE:
            if ind is not None and own is not None and ind != own:
                raise Bad('the line that closes a %s is indented by %d, the one that opened it by %d' % (br, ind, own))
            return stack
        if ind is None:
            return stack
        if within is None:
            return stack[:-1] + ((br, own, ind),)
        if within != ind:
            raise Bad('lines of one block are indented by %d and %d' % (within, ind))
        return stack

    def loop(self, i, st):
        lid = i[1].a[0]
        bound = self.bounds.get(lid)
        sib = [q for q in self.ip.phis if q.a[0] == lid and q in self.rel]

        def enter(st, n):
            env = dict(st[3])
            env[T('kappa', lid)] = I(n)
            if n == 0:
                for q in sib:
                    v = self.ip.phis[q][0]
                    if v.op not in ('str', 'cat', 'arr', 'adt'):
                        env[q] = subst(v, env)
            return st[:3] + (tuple(env.items()),)

        def step(st, alt, k):
            old = dict(st[3])
            out = []
            for r in self.run(alt, st):
                env = dict(r[3])
                for q in sib:
                    ups = self.ip.phis[q][1]
                    if q in old:
                        env[q] = subst(ups[k], old) if ups is not None and k < len(ups) else q
                out.append(r[:3] + (tuple(env.items()),))
            return out

        def leave(st, n):
            env = dict(st[3])
            if bound is not None and bound.op != 'int':
                env[bound] = I(n)
            return st[:3] + (tuple(env.items()),)

        def feasible(n):
            if bound is None:
                return True
            b = subst(bound, dict(st[3])) if st[3] else bound
            return self.s.decide(terms.LT(I(n - 1), b)) is not False

        for k, alt in enumerate(i[2]):
            if feasible(1):
                for r in step(enter(st, 0), alt, k):
                    if [x[0] for x in r[0]] != [x[0] for x in st[0]] or \
                            [x[:2] for x in r[0][:-1]] != [x[:2] for x in st[0][:-1]]:
                        raise Bad('a repetition leaves %d brackets open where it found %d' % (len(r[0]), len(st[0])))
        first = enter(st, 0)
        moved = {q for q, v in first[3] if q in sib
                 for k in range(len(i[2])) for r in [self.ip.phis[q][1]]
                 if r is None or k >= len(r) or subst(r[k], dict(first[3])) is not v}
        if not moved and T('kappa', lid) not in self.rel:
            # every repetition begins with the same counters: one joined state
            cur = first
            for n in range(4):
                nxt = cur
                for k, alt in enumerate(i[2]):
                    if n and not feasible(2) or not feasible(1):
                        continue
                    for r in self.run(alt, cur):
                        nxt = self.join(nxt, r[:3] + (cur[3],))
                if nxt == cur:
                    return [cur]
                cur = nxt
            raise E.Unknown('repetition')
        # the counters change: no, one and two repetitions of each kind, one after the other
        out = [leave(first, 0)] if not (bound is not None and self.s.decide(terms.LT(I(0), bound)) is True) else []
        for k, alt in enumerate(i[2]):
            cur = [first]
            for n in (1, 2):
                if not feasible(n):
                    break
                cur = [y for x in cur for y in step(enter_n(x, lid, n - 1), alt, k)]
                for x in cur:
                    if leave(x, n) not in out:
                        out.append(leave(x, n))
        return out

    @staticmethod
    def join(a, b):
        st = tuple((x[0], x[1] if x[1] == y[1] else None, y[2] if x[2] is None else x[2]) for x, y in zip(a[0], b[0]))
        return st, a[1] if a[1] == b[1] else None, a[2] and b[2], a[3]


def enter_n(st, lid, n):
    env = dict(st[3])
    env[T('kappa', lid)] = I(n)
    return st[:3] + (tuple(env.items()),)


def nest(chk, what, b, ip, s, its):
    sc = Scan(chk, ip, s)
    sc.relevant(its)
    try:
        sts = sc.run(its, ((), 0, True, ()))
    except Bad as x:
        chk.bad(what + ':nest:' + str(x).split(' by ')[0][:60], '%s: the generated text %s' % (what, x), b.span)
        return
    for st in sts:
        if st[0]:
            chk.bad(what + ':open', '%s: the generated text leaves %d brackets open' % (what, len(st[0])), what)
            return
    chk.ok()
