"""Verdict bookkeeping shared by the rules."""
import json
import os
import time
import traceback

from terms import contains, T, I, EQ
import engine as E
from prog import Prog, last
import facts as F

HERE = F.HERE


class World:
    """the programs under analysis"""
    _inst = None

    def __init__(self):
        self.dir = F.facts()
        self.steit = Prog(self.dir + '/steit.json')
        self.corpus = None
        self.corpus_err = None
        if os.path.exists(self.dir + '/corpus.json'):
            self.corpus = Prog(self.dir + '/corpus.json')
        else:
            self.corpus_err = open(self.dir + '/corpus.err').read()
        self.oracle = json.load(open(HERE + '/corpus/oracle.json'))
        self.progs = {'steit': self.steit}
        if self.corpus:
            self.progs['corpus'] = self.corpus

    @classmethod
    def get(cls):
        if cls._inst is None:
            cls._inst = cls()
        return cls._inst


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.thorough = False
        self.t0 = time.time()
        self.viol = []
        self.unk = []
        self.oblig = 0
        self.held = 0
        self.sites = {}
        self.functions = set()
        self.paths = 0
        self.calls = 0
        self.rules = []
        self.notes = []
        self.samples = []

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def count(self, kind, n=1):
        self.sites[kind] = self.sites.get(kind, 0) + n

    def saw(self, ip, outs=None):
        self.functions |= ip.functions
        self.calls += ip.calls
        if outs is not None:
            self.paths += len(outs)

    def ok(self, what=None):
        self.oblig += 1
        self.held += 1

    def bad(self, key, msg, where=None, detail=None):
        """a definite violation; `key` identifies it (function and construct, not line numbers)"""
        self.oblig += 1
        for v in self.viol:
            if v['key'] == key:
                return
        self.viol.append({'key': key, 'message': msg, 'where': where, 'detail': detail})

    def that(self, holds, key, msg, where=None):
        """an obligation decided either way"""
        if holds:
            self.ok()
        else:
            self.bad(key, msg, where)

    def unknown(self, what, why):
        self.oblig += 1
        self.unk.append({'obligation': what, 'reason': str(why)[:400]})

    def floor(self, kind, n):
        """fail closed when the construct the rule is about is no longer found"""
        if self.sites.get(kind, 0) < n:
            if self.unk:
                # may have been missed for want of understanding, which is not evidence of absence
                self.unknown('floor:' + kind, 'only %d of %d found' % (self.sites.get(kind, 0), n))
                return
            self.bad('floor:' + kind, 'only %d of at least %d %s found: the construct this property is about is gone '
                     'or unrecognisable' % (self.sites.get(kind, 0), n, kind))


def definite(*ts):
    """terms the analysis has no doubt about"""
    for t in ts:
        if t is None or t.top:
            return False
        if contains(t, lambda x: x.top or (x.op in ('res', 'phi', 'pushsome', 'pushn_', 'oneof') or
                                            (x.op == 'app' and (x.a[0] in UNSURE or unmodelled(x.a[0]))))):
            return False
    return True


UNSURE = {'unmodelled', 'join_values'}


def unmodelled(head):
    return head in E.UNMODELLED or ':' in head and head[:head.rindex(':')] in E.UNMODELLED


def guarded(chk, what, fn, *a, **k):
    """run one obligation; whatever the analysis cannot digest is reported as undecided, never as a violation"""
    try:
        return fn(*a, **k)
    except E.Unknown as e:
        chk.unknown(what, 'analysis limit: %s' % e)
    except RecursionError:
        chk.unknown(what, 'analysis limit: recursion')
    except Exception as e:  # noqa
        tb = traceback.format_exc().strip().splitlines()
        chk.unknown(what, 'analysis error: %s (%s)' % (e, ' | '.join(tb[-4:-1])))
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
    return None


def ser_impls(prog, trait):
    """(impl, self name) of every implementation of a trait that belongs to this crate"""
    out = []
    for i in prog.impls:
        if 'trait' in i and last(i['trait']) == trait and not i['trait'].startswith('serde'):
            out.append((i, prog.tname(i['self'])))
    return out


def item(prog, impl, name):
    for it in impl['items']:
        if it['name'] == name and it.get('body') in prog.bodies:
            return prog.bodies[it['body']]
    return None


def own_wire(prog, impl_self):
    for i in prog.impls:
        if 'trait' in i and last(i['trait']) == 'HasWireType' and prog.tname(i['self']) == impl_self:
            for it in i['items']:
                if it['name'] == 'WIRE_TYPE' and it.get('body') in prog.bodies:
                    b = prog.bodies[it['body']]
                    ip = E.Interp()
                    ip.progs = World.get().progs
                    try:
                        outs = ip.run(b, [], E.State())
                    except E.Unknown:
                        return None
                    if len(outs) == 1 and outs[0][0] == 'ret':
                        v = outs[0][2]
                        return v
    return None


_wire = {}


def wire_of(name):
    """the wire type of a type given by name: a constant, or a symbol for a type parameter"""
    while name.startswith('&'):
        name = name[1:].replace('mut ', '', 1) if name.startswith('&mut ') else name[1:]
    if name in _wire:
        return _wire[name]
    r = T('app', 'const', 'HasWireType::WIRE_TYPE', name)
    _wire[name] = r
    head, _, rest = name.partition('<')
    if name.startswith('[') or name.startswith('('):
        head = name[0]
    for prog in World.get().progs.values():
        for i in prog.impls:
            if 'trait' not in i or last(i['trait']) != 'HasWireType':
                continue
            n = prog.tname(i['self'])
            h = n[0] if n[0] in '[(' else n.partition('<')[0]
            if h != head or (head in '[(' and not name.strip('[(')):
                continue
            v = own_wire(prog, n)
            if v is None:
                continue
            if v.op == 'app' and v.a[0] == 'const' and v.a[2] != name and rest:
                v = wire_of(rest[:-1])
            _wire[name] = v
            return v
    return r


E.WIRE_OF.append(wire_of)


def writes(trace):
    return [e for e in trace if e[0] == 'write']


def is_ok(v, s=None):
    """outcome value Ok(..): True, Err(..): False, unknown: None"""
    if v.op == 'adt' and v.a[0] == E.RESULT:
        return v.a[1] == 0
    if s is not None:
        d = s.decide(EQ(T('discr', v), I(0)))
        if d is None and s.decide(EQ(T('discr', v), I(1))) is True:
            return False
        return d
    return None


def failed(trace):
    """the path contains a failed I/O operation (outside summarised loops)"""
    return [e for e in trace if e[0] == 'io-fail']


def loc(sp):
    return sp or ''
