"""Byte-level effect summaries of the core (buffer, object layer, file
structure, renumbering): no token abstraction, every byte appended or patched
is an effect."""
from terms import *
from engine import Diverge, Engine, canon, Unsupported, CallBody
from models import M, rd, loc, kref
from levela import fidx, deep, strip_ty

HB = {}


def hook(*ps):
    def d(f):
        for p in ps:
            HB[p] = f
        return f
    return d


def buf_effect(e, st, a, piece):
    """Append an abstract piece to a Buf and forget what the limits are."""
    r, p = e.deref(st, a)
    names = fidx(e, 'buf::Buf')
    i, l = names.index('inner'), names.index('limits')
    e.vec_update(st, r, p + (('f', i, 'inner', None),), piece)
    lp = p + (('f', l, 'limits', None),)
    old = e.read(st, r, lp)
    e.write(st, r, lp, ('regd', piece, old))


@hook('object::sealed::Sealed::write')
def sealed_write(e, st, c):
    if c.callee['kind'] != 'unresolved':
        return NotImplemented
    t = e.p.types[c.callee['targs'][0]]
    ty, v = strip_ty(e, t, c.args[0], st)
    buf_effect(e, st, c.args[1], ('val', ty, deep(e, st, v)))
    return UNIT


def known_write(ty):
    def f(e, st, c):
        v = c.args[0]
        buf_effect(e, st, c.args[1], ('val', ty, deep(e, st, v)))
        return UNIT
    return f


for _n in ('Name', 'Str', 'TextStr', 'TextStrWithLang', 'Date'):
    HB['<object::%s as object::sealed::Sealed>::write' % _n] = known_write('object::' + _n)


@hook('object::Writer::start')
def user_start(e, st, c):
    if c.callee['kind'] != 'unresolved':
        return NotImplemented
    e.emit(('start', ('obj',), deep(e, st, c.args[0])))
    return ('uw', deep(e, st, c.args[0]))


@hook('renumber::extract_object')
def extract_object(e, st, c):
    return ('call', 'extract_object', (rd(c, c.args[0]),))


@hook('renumber::patch_object')
def patch_object(e, st, c):
    s = rd(c, c.args[0])
    e.emit(('cb', 'patch_object', s))
    buf_effect(e, st, c.args[1], ('call', 'patch_object', (s,)))
    return UNIT


class EB(Engine):
    def __init__(self, prog):
        Engine.__init__(self, prog, M, HB)
        self._fidx = {}


# Byte level with numbers as single pieces: keeps many-number writers small.
HD = dict(HB)


def _num(kind):
    def f(e, st, c):
        buf_effect(e, st, c.args[0], ('val', kind, deep(e, st, c.args[1])))
        return UNIT
    return f


for _n in ('push_float', 'push_int', 'push_decimal'):
    HD['buf::Buf::' + _n] = _num(_n)


class ED(Engine):
    def __init__(self, prog):
        Engine.__init__(self, prog, M, HD)
        self._fidx = {}


# Intermediate level: object-layer calls are single tokens, but tokens are
# pieces of the buffer, so buffer lengths (file offsets) taken before and after
# them are told apart.
import levela

TOK = {'prim', 'open', 'close', 'key', 'slot', 'start', 'operator', 'indirect'}
HC = {k: v for k, v in levela.H.items() if not k.startswith('buf::Buf') and not k.startswith('<buf::Buf')}
HC.update({k: v for k, v in HB.items() if k != 'object::Writer::start'})


class EC(Engine):
    def __init__(self, prog):
        Engine.__init__(self, prog, M, HC)
        self._fidx = {}

    def dispatch(self, st, *a):
        self._st = st
        return Engine.dispatch(self, st, *a)

    def push_call(self, st, *a, **kw):
        self._st = st
        return Engine.push_call(self, st, *a, **kw)

    def emit(self, ev):
        if ev[0] in TOK:
            buf_effect(self, self._st, ev[1], ('tok', ev[0]) + tuple(ev[2:]))
        else:
            Engine.emit(self, ev)


# Outer level: every callee already known to be the reviewed function is a call
# of unknown effect.  Equality here is equality; a difference here is not one.
class Outer:
    OK = frozenset()          # names (in that program's graph) of such functions
    NAME = staticmethod(lambda k: k)
    _elig = None


    def eligible(self, key):
        if self._elig is None:
            self._elig = {}
        e = self._elig.get(key)
        if e is None:
            f = self.p.fns.get(key)
            e = False
            if f and f.get('local') and f.get('dkind') != 'Closure' and f.get('locals') and \
                    self.NAME(key) in self.OK:
                ls = f['locals'][:f['args'] + 1]
                e = not self.has_mut(ls[0]) and not any(self.has_closure(x) for x in ls) and \
                    not (self.is_scalar(ls[0]) and not any(self.has_mut(x) for x in ls[1:]))
            self._elig[key] = e
        return e

    def push_call(self, st, key, args, dest, target, kind='call'):
        self._st = st
        if self.hooks.get(canon(self.p.fns[key]['path'])) is None and self.eligible(key) and len(args) == self.p.fns[key]['args']:
            f = self.p.fns[key]
            muts = []
            try:
                for i, a in enumerate(args):
                    self.mut_places(st, a, f['locals'][i + 1], muts, 0)
            except Unsupported:
                muts = None
            if muts is not None:
                nm = self.NAME(key)
                av = self.havoc(st, nm, self.fprint(self.held(st, nm, self.shown(st, args), muts)), muts)
                if kind == 'task':
                    return
                v = ('call', nm, av)
                t = self.p.types[f['locals'][0]]
                if t['k'] == 'tuple' and not t['elems']:
                    v = UNIT
                if t['k'] in ('int', 'uint', 'bool', 'char'):
                    set_ty(v, t['s'])
                r, p = dest
                self.write(st, r, p, v)
                if target is None:
                    raise Diverge()
                self.goto(st, target)
                return
        return super().push_call(st, key, args, dest, target, kind=kind)


class EO(Outer, EC):
    pass


class Eo(Outer, EB):
    def __init__(self, prog):
        Engine.__init__(self, prog, M, {})
        self._fidx = {}
