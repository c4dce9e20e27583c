"""the text a path has written, as literals, holes and repetitions"""
import terms
from terms import T


class NoText(Exception):
    pass


def items(ip, t, open_=()):
    """[('lit', str) | ('hole', term) | ('loop', phi, [items])] of a string term"""
    while t.op in ('deref', 'ref') or t.op == 'disp' and t.a[0] == 'd' and t.a[1].op in (
            'str', 'cat', 'phi', 'deref', 'ref', 'disp', 'srep'):
        u = t.a[-1]
        if t.op in ('deref', 'ref') and u.op not in ('str', 'cat', 'phi', 'deref', 'ref', 'disp'):
            return [('hole', t)]
        t = u
    if t.op == 'str':
        return [('lit', t.a[0])] if t.a[0] else []
    if t.op == 'cat':
        out = []
        for x in t.a:
            for i in items(ip, x, open_):
                if i[0] == 'lit' and out and out[-1][0] == 'lit':
                    out[-1] = ('lit', out[-1][1] + i[1])
                else:
                    out.append(i)
        return out
    if t.op == 'phi':
        if t in open_:
            return [('start', t)]
        if t not in ip.phis:
            return [('hole', t)]
        init, ups, _ = ip.phis[t]
        if ups is None:
            return [('hole', t)]
        alts = []
        for u in ups:
            a = items(ip, u, open_ + (t,))
            if not a or a[0] != ('start', t) or any(x == ('start', t) for x in walk(a[1:])):
                return [('hole', t)]
            alts.append(a[1:])
        return items(ip, init, open_) + [('loop', t, alts)]
    return [('hole', t)]


def walk(its):
    for i in its:
        yield i
        if i[0] == 'loop':
            for a in i[2]:
                yield from walk(a)


def show(its, ind=''):
    out = ''
    for i in its:
        if i[0] == 'lit':
            out += i[1]
        elif i[0] == 'hole':
            out += '<%s>' % str(i[1])[-28:]
        elif i[0] == 'loop':
            out += '[[' + '||'.join(show(a) for a in i[2]) + ']]'
        else:
            out += '<<start>>'
    return out
