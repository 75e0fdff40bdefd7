"""Interprocedural effect analysis over MIR.

`Engine.analyse(fn)` interprets the (polymorphic, drop-elaborated) MIR of a
function abstractly: parameters are opaque names, every branch the abstract
state cannot decide is followed both ways, loops are cut at their heads and
iterated to a fixpoint (values that keep changing are widened to a `phi`
name), calls are inlined through resolved callees.  The result is the effect
automaton of the function: for every path, which effects (appends, patches,
reads, calls into user code, panics) happen in which order, on what facts
about the inputs.

Nothing is executed and no solver is involved.
"""
import hashlib
import sys
import re
from terms import *

sys.setrecursionlimit(200000)

KLIMIT = 6


def canon(p):
    """Path without generic arguments and lifetimes."""
    if p is None:
        return p
    r = _canon.get(p)
    if r is None:
        r = p
        while True:
            q = re.sub(r"::<(?!impl )[^<>]*>", '', r)
            q = re.sub(r"<'[^<>]*>", '', q)
            q = re.sub(r"'[a-z_0-9]+ ?", '', q)
            if q == r:
                break
            r = q
        _canon[p] = r
    return r


_canon = {}


class Unsupported(Exception):
    pass


class NeedFork(Exception):
    """Facts must be refined: term -> list of disjoint domains."""

    def __init__(self, atom, parts):
        self.atom = atom
        self.parts = parts


class Restart(Exception):
    pass


class Panic(Exception):
    def __init__(self, msg):
        self.msg = msg


class Diverge(Exception):
    pass


class ReadFork(Exception):
    """Next element of an unknown sequence: alternatives some / end."""

    def __init__(self, src, some_f, none_f):
        self.src = src
        self.some_f = some_f
        self.none_f = none_f
        self.dest = None
        self.target = None


class CallBody(Exception):
    """Model result: run this body instead."""

    def __init__(self, key, args):
        self.key = key
        self.args = args


class Redispatch(Exception):
    """A model asks to call another function instead."""

    def __init__(self, callee, args):
        self.callee, self.args2 = callee, args


class Frame:
    __slots__ = ('key', 'bb', 'locals', 'dest', 'target', 'active', 'pending', 'kind', 'si')

    def __init__(self, key):
        self.key = key
        self.bb = 0
        self.si = -1
        self.locals = {}
        self.dest = None
        self.target = None
        self.active = {}
        self.pending = []
        self.kind = 'call'

    def copy(self):
        f = Frame.__new__(Frame)
        f.key = self.key
        f.bb = self.bb
        f.si = self.si
        f.locals = dict(self.locals)
        f.dest = self.dest
        f.target = self.target
        f.active = dict(self.active)
        f.pending = list(self.pending)
        f.kind = self.kind
        return f


class State:
    __slots__ = ('frames', 'heap', 'facts', 'cur', 'forks', 'nfresh')

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        s.cur = dict(self.cur)
        s.forks = self.forks
        s.nfresh = self.nfresh
        return s


# ------------------------------------------------------------------ values
def pieces_of(v):
    """View a Vec value as pieces."""
    if v[0] == 'pieces':
        return v
    if v[0] in ('bytes',):
        return ('pieces', (('new', 0), ('b', v[1])))
    return ('pieces', (('init', v),))


def origin(pv):
    return pv[1][0]


def pieces_add(pv, pc):
    ps = pv[1]
    if pc[0] == 'one' and pc[1][0] == 'int' and 0 <= pc[1][1] < 256 and pc[2]:
        pc = ('b', bytes([pc[1][1]]))
    if pc[0] == 'b':
        if not pc[1]:
            return pv
        if ps[-1][0] == 'b':
            return ('pieces', ps[:-1] + (('b', ps[-1][1] + pc[1]),))
    return ('pieces', ps + (pc,))


class Engine:
    def __init__(self, prog, models, hooks=None, assume=None, entry_facts=None):
        import models as _m
        self.panic_model = _m.panic_model
        self.p = prog
        self.models = models
        self.seq = _m.seq
        self.hooks = hooks or {}
        self.entry_facts = entry_facts
        self.assumed = {}
        self.opaque_calls = {}
        self._fpmemo = {}
        self._hasmut = {}
        self.inlined = set()
        self.max_steps = 400000
        self._live = {}
        self.trace_fn = None

    # -------------------------------------------------------------- analyse
    def analyse(self, key, args=None, pre=None):
        """-> (root tree, {node id: tree})"""
        self.cuts = set()
        self.masks = {}
        for attempt in range(400):
            self.nodes = {}
            self.node_trees = {}
            self.node_vals = {}
            self.node_st = {}
            self.node_par = {}
            self.nsteps = 0
            st = State()
            st.frames = []
            st.heap = {}
            st.facts = {}
            st.cur = {}
            st.forks = 0
            st.nfresh = 0
            f = self.p.fns[key]
            fr = Frame(key)
            for i in range(f['args']):
                ty = f['locals'][i + 1]
                if args and i < len(args) and args[i] is not None:
                    v = args[i]
                else:
                    v = self.opaque(('sym', '$%d' % (i + 1)), ty)
                fr.locals[i + 1] = v
            st.frames.append(fr)
            if pre:
                pre(self, st)
            try:
                self.work = []
                root = self.run(st)
                while self.work:
                    nid, s2 = self.work.pop()
                    self.node_trees[nid] = self.run(s2, at_node=nid)
                return root, self.node_trees
            except Restart:
                continue
        raise Unsupported('no fixpoint')

    # ------------------------------------------------------------ opaque by type
    def opaque(self, t, tyid):
        ty = self.p.types[tyid]
        k = ty['k']
        if k in ('int', 'uint', 'bool', 'char'):
            set_ty(t, ty['s'])
            return t
        if k == 'tuple' and not ty['elems']:
            return UNIT
        if k == 'fndef':
            return ('zst',)
        if k == 'adt' and ty['akind'] == 'enum':
            return t
        return t

    # -------------------------------------------------------------------- facts
    def domain(self, st, atom):
        d = st.facts.get(atom)
        if d is not None:
            return d
        if atom[0] == 'discr':
            ds = DISCR.get(atom)
            if ds:
                return iv_of(ds)
        if atom[0] == 'len':
            return ((0, 2**63 - 1),)
        ty = TYOF.get(atom)
        if ty:
            d = iv_full(ty)
            if atom[0] == 'cast' and atom[2] in INT_RANGE:
                lo, hi = INT_RANGE[atom[2]]
                tl, th = INT_RANGE[atom[1]]
                if tl <= lo and hi <= th:
                    d = ((lo, hi),)
            if atom[0] == 'pos':
                d = ((0, 2**63 - 1),)
            if atom[0] == 'lin' and atom[3] in INT_RANGE:
                lo = hi = atom[2]
                for x, c in atom[1]:
                    dx = self.domain(st, x)
                    if dx is None or dx[0] == 'fset':
                        return d
                    a, b = dx[0][0] * c, dx[-1][1] * c
                    lo, hi = lo + min(a, b), hi + max(a, b)
                tl, th = INT_RANGE[atom[3]]
                if tl <= lo and hi <= th:
                    d = ((lo, hi),)
            return d
        return None

    def value_of(self, st, t):
        """Constant value of an int term if the facts determine it."""
        if t[0] == 'int':
            return t[1]
        a = small_atom(t)
        if a not in (None, False):
            d = self.domain(st, a)
            if d and iv_size(d) <= 256:
                r = None
                for v in iv_vals(d):
                    x = ev(t, a, v)
                    if r is None:
                        r = x
                    elif r != x:
                        return None
                return r
            return None
        d = st.facts.get(t)
        if d and len(d) == 1 and d[0][0] == d[0][1]:
            return d[0][0]
        if t[0] == 'bin' and t[1] in CMP:
            r = self.cmp_state(st, t)
            if isinstance(r, bool):
                return int(r)
        if t[0] == 'not':
            v = self.value_of(st, t[1])
            return None if v is None else 1 - v
        if t[0] == 'discr':
            d = self.domain(st, t)
            if d and len(d) == 1 and d[0][0] == d[0][1]:
                return d[0][0]
        return None

    def cmp_state(self, st, t):
        """bool if decided; (atom, parts) if splittable on an atom; None otherwise.
        parts: list of (domain, truth)."""
        op, a, b, ty = t[1], t[2], t[3], t[4]
        if ty == 'float':
            # atom op const
            if b[0] == 'flt' or a[0] == 'flt':
                if b[0] == 'flt':
                    atom, c, o = a, flt(b[1], b[2]), op
                else:
                    atom, c = b, flt(a[1], a[2])
                    o = {'Lt': 'Gt', 'Le': 'Ge', 'Eq': 'Eq', 'Ne': 'Ne'}[op]
                if c != c:
                    return op == 'Ne'
                neg = o == 'Ne'
                if neg:
                    o = 'Eq'
                d = st.facts.get(atom) or FFULL
                yes, no = f_cut(d, o, c)
                if f_empty(no):
                    return not neg
                if f_empty(yes):
                    return neg
                return atom, [(yes, not neg), (no, neg)]
            return None
        if a[0] == 'int' or b[0] == 'int':
            if b[0] == 'int':
                atom, c, o = a, b[1], op
            else:
                atom, c = b, a[1]
                o = {'Lt': 'Gt', 'Le': 'Ge', 'Eq': 'Eq', 'Ne': 'Ne'}[op]
            # single-term linear atom: shift the constant
            d = self.domain(st, atom)
            if d is None:
                return None
            big = 2**130
            yes = {'Lt': ((-big, c - 1),), 'Le': ((-big, c),), 'Gt': ((c + 1, big),),
                   'Ge': ((c, big),), 'Eq': ((c, c),),
                   'Ne': ((-big, c - 1), (c + 1, big))}[o]
            y = iv_inter(d, yes)
            n = iv_minus(d, yes)
            if not n:
                return True
            if not y:
                return False
            return atom, [(y, True), (n, False)]
        da, db = self.domain(st, a), self.domain(st, b)
        if da and db:
            alo, ahi, blo, bhi = da[0][0], da[-1][1], db[0][0], db[-1][1]
            if op == 'Lt':
                if ahi < blo:
                    return True
                if alo >= bhi:
                    return False
            if op == 'Le':
                if ahi <= blo:
                    return True
                if alo > bhi:
                    return False
            if op in ('Eq', 'Ne') and not iv_inter(da, db):
                return op == 'Ne'
        # known orderings: a<b decides a==b, a<=b, b<a ...
        for fact in (('bin', 'Lt', a, b, ty), ('bin', 'Lt', b, a, ty)):
            d = st.facts.get(fact)
            if d == ((1, 1),):
                x, y = fact[2], fact[3]
                if op == 'Lt':
                    return (a, b) == (x, y)
                if op == 'Le':
                    return (a, b) == (x, y)
                if op == 'Eq':
                    return False
                if op == 'Ne':
                    return True
        d = st.facts.get(mk_cmp('Eq', a, b, 'i128'))
        if d == ((1, 1),):
            return op in ('Eq', 'Le')
        for fact in (('bin', 'Le', a, b, ty), ('bin', 'Le', b, a, ty)):
            d = st.facts.get(fact)
            if d == ((1, 1),) and op == 'Lt' and (b, a) == (fact[2], fact[3]):
                return False
        # Lt(a,b) false known => Le(b,a)
        d = st.facts.get(('bin', 'Lt', a, b, ty))
        if d == ((0, 0),) and op == 'Le' and False:
            return None
        return None

    def decide(self, st, t, parts=None):
        """Value of an int/bool term; raises NeedFork if the facts must be split."""
        v = self.value_of(st, t)
        if v is not None:
            return v
        if t[0] == 'ite':
            n = self.decide(st, t[1])
            for d, k in t[2]:
                if iv_inter(d, ((n, n),)):
                    return self.decide(st, k, parts)
            raise Unsupported('ite')
        a = small_atom(t)
        if a not in (None, False):
            d = self.domain(st, a)
            if d:
                groups = {}
                for v in iv_vals(d):
                    groups.setdefault(ev(t, a, v), []).append(v)
                if len(groups) > 16 and parts:
                    g2 = {}
                    for k, vs in groups.items():
                        g2.setdefault(k if k in parts else 'else', []).extend(vs)
                    groups = g2
                    if len(groups) == 1 and 'else' in groups:
                        # none of the listed values is possible
                        return ('in', ((-2**140, -2**140),))
                raise NeedFork(a, [iv_of(vs) for k, vs in sorted(groups.items(), key=lambda x: str(x[0]))])
        if t[0] == 'bin' and t[1] in CMP:
            r = self.cmp_state(st, t)
            if isinstance(r, tuple):
                raise NeedFork(r[0], [d for d, _ in r[1]])
            # canonical orientation of undecidable comparisons
            raise NeedFork(t, [((1, 1),), ((0, 0),)])
        if t[0] == 'not':
            return 1 - self.decide(st, t[1])
        if t[0] == 'bin' and t[4] == 'bool' and t[1] in ('BitAnd', 'BitOr', 'BitXor'):
            x = self.decide(st, t[2])
            if t[1] == 'BitAnd' and not x:
                return 0
            if t[1] == 'BitOr' and x:
                return 1
            y = self.decide(st, t[3])
            return x ^ y if t[1] == 'BitXor' else y
        d = self.domain(st, t)
        if d is not None and parts is not None:
            rest = d
            ds = []
            for c in parts:
                y = iv_inter(rest, ((c, c),))
                if y:
                    ds.append(y)
                    rest = iv_minus(rest, y)
            if rest:
                ds.append(rest)
            if len(ds) == 1:
                return ('in', ds[0])
            raise NeedFork(t, ds)
        if d is not None and iv_size(d) <= 256:
            raise NeedFork(t, [((v, v),) for v in iv_vals(d)])
        raise NeedFork(t, [((1, 1),), ((0, 0),)])

    # ------------------------------------------------------------------- places
    def place(self, st, pl, fr=None):
        """-> (root, path, tyid)"""
        depth = len(st.frames) - 1
        fr = st.frames[depth]
        fn = self.p.fns[fr.key]
        local, proj = pl
        root = ('L', depth, local)
        path = ()
        ty = fn['locals'][local] if fn.get('locals') else None
        variant = None
        for x in proj:
            if x == '*':
                v = self.read(st, root, path)
                root, path = self.deref(st, v)
                t = self.p.types[ty] if ty is not None else None
                ty = t.get('elem') if t else None
            elif x[0] == 'f':
                name = str(x[1])
                vname = None
                t = self.p.types[ty] if ty is not None else None
                if t and t['k'] == 'adt':
                    vi = variant if variant is not None else 0
                    try:
                        vv = t['variants'][vi]
                        name = vv['fields'][x[1]][0]
                        if t['akind'] == 'enum':
                            vname = vv['name']
                    except (IndexError, KeyError):
                        pass
                path = path + (('f', x[1], name, vname),)
                ty = x[2]
                variant = None
            elif x[0] == 'd':
                variant = x[1]
            elif x[0] == 'i':
                iv = self.read(st, ('L', depth, x[1]), ())
                path = path + (('i', iv),)
                t = self.p.types[ty] if ty is not None else None
                ty = t.get('elem') if t else None
            elif x[0] == 'c':
                if x[3]:
                    path = path + (('i', mk_bin('Sub', self.len_of(st, root, path), ('int', x[1]), 'usize')),)
                else:
                    path = path + (('i', ('int', x[1])),)
                t = self.p.types[ty] if ty is not None else None
                ty = t.get('elem') if t else None
            elif x[0] == 's':
                ln = self.len_of(st, root, path)
                hi = mk_bin('Sub', ln, ('int', x[2]), 'usize') if x[3] else ('int', x[2])
                path = path + (('s', ('int', x[1]), hi),)
            else:
                raise Unsupported('proj %r' % (x,))
        return root, path, ty

    def deref(self, st, v):
        if v[0] == 'ref':
            return v[1], v[2]
        return ('P', v), ()

    def root_value(self, st, root):
        k = root[0]
        if k == 'L':
            fr = st.frames[root[1]]
            if root[2] not in fr.locals:
                return ('uninit',)
            return fr.locals[root[2]]
        if k == 'K':
            return root[1]
        if k == 'P':
            v = st.heap.get(root)
            if v is not None:
                return v
            t = root[1]
            if t[0] == 'itref':
                return ('it', t[1])
            if t[0] == 'addr':
                return t[1]
            return ('deref', t)
        raise Unsupported('root %r' % (root,))

    def read(self, st, root, path, tyid=None):
        v = self.root_value(st, root)
        for s in path:
            v = self.proj(st, v, s)
        if tyid is not None:
            ty = self.p.types[tyid]
            if ty['k'] in ('int', 'uint', 'bool', 'char'):
                set_ty(v, ty['s'])
                c = st.facts.get(v)
                if c and v[0] != 'int' and len(c) == 1 and c[0] != 'fset' and c[0][0] == c[0][1]:
                    return ('int', c[0][0])
        return v

    def proj(self, st, v, s):
        k = v[0]
        if s[0] == 'f':
            if k == 'agg':
                if s[1] < len(v[2]):
                    return v[2][s[1]]
                raise Unsupported('field %r of %r' % (s, v))
            if k == 'upd':
                for st_, val in v[2]:
                    if st_ == s:
                        return val
                return self.proj(st, v[1], s)
            if k == 'iter' or k == 'pieces' or k == 'bytes':
                return ('fld', s[3], s[2], v)
            if k == 'ref':
                return ('fld', s[3], s[2], v)
            return ('fld', s[3], s[2], v)
        if s[0] == 'i':
            i = s[1]
            if k == 'upd':
                for st_, val in v[2]:
                    if st_ == s:
                        return val
                return self.proj(st, v[1], s)
            return self.index(st, v, i)
        if s[0] == 's':
            return self.subslice(st, v, s[1], s[2])
        raise Unsupported('step %r' % (s,))

    def index(self, st, v, i):
        k = v[0]
        n = None
        if i[0] == 'int':
            n = i[1]
        else:
            c = self.value_of(st, i)
            if c is not None:
                n = c
        if n is not None:
            if k == 'bytes':
                if 0 <= n < len(v[1]):
                    return ('int', v[1][n])
                raise Panic('index out of bounds')
            if k == 'arr':
                if 0 <= n < len(v[1]):
                    return v[1][n]
                raise Panic('index out of bounds')
            if k == 'pieces' and len(v[1]) == 2 and v[1][0][0] == 'new' and v[1][1][0] == 'b':
                if n < len(v[1][1][1]):
                    return ('int', v[1][1][1][n])
            if k == 'pieces' and v[1][0][0] == 'new' and all(x[0] == 'one' for x in v[1][1:]):
                if n < len(v[1]) - 1:
                    return v[1][1 + n][1]
            i = ('int', n)
        if k == 'bytes' or (k == 'arr' and all(x[0] == 'int' for x in v[1])):
            tbl = tuple(v[1]) if k == 'bytes' else tuple(x[1] for x in v[1])
            a = small_atom(strip_widen(i))
            if a not in (None, False):
                return set_ty(('lut', tbl, i), 'u8' if max(tbl, default=0) < 256 and min(tbl, default=0) >= 0 else 'i32')
        if k == 'arr' and a_small(i) and len(v[1]) <= 64:
            n = self.decide(st, i)
            return self.index(st, v, ('int', n)) if isinstance(n, int) else ('idx', v, i)
        if k == 'pieces' and len(v[1]) == 1 and v[1][0][0] == 'init':
            return self.index(st, v[1][0][1], i)
        if k == 'subs':
            return self.index(st, v[1], mk_bin('Add', v[2], i, 'usize'))
        if i[0] == 'pos' and i[1] == v:
            return ('it', v)
        return ('idx', v, i)

    def subslice(self, st, v, lo, hi):
        l, h = self.value_of(st, lo), self.value_of(st, hi)
        if v[0] == 'pieces' and len(v[1]) == 1 and v[1][0][0] == 'init':
            v = v[1][0][1]
        if v[0] == 'bytes' and l is not None and h is not None:
            if not (0 <= l <= h <= len(v[1])):
                raise Panic('slice out of bounds')
            return ('bytes', v[1][l:h])
        if v[0] == 'arr' and l is not None and h is not None:
            if not (0 <= l <= h <= len(v[1])):
                raise Panic('slice out of bounds')
            return ('arr', v[1][l:h])
        if lo == ('int', 0) and hi == self.len_val(st, v):
            return v
        if v[0] == 'subs':
            return self.subslice(st, v[1], mk_bin('Add', v[2], lo, 'usize'), mk_bin('Add', v[2], hi, 'usize'))
        return ('subs', v, lo, hi)

    def len_of(self, st, root, path):
        return self.len_val(st, self.read(st, root, path))

    def len_val(self, st, v):
        k = v[0]
        if k == 'bytes':
            return ('int', len(v[1]))
        if k == 'arr':
            return ('int', len(v[1]))
        if k == 'subs':
            return mk_bin('Sub', v[3], v[2], 'usize')
        if k == 'pieces':
            ps = v[1]
            n = ('int', 0)
            if ps[0][0] == 'init':
                n = self.len_val(st, ps[0][1])
            for x in ps[1:]:
                if x[0] == 'b':
                    n = mk_bin('Add', n, ('int', len(x[1])), 'usize')
                elif x[0] == 'one':
                    n = mk_bin('Add', n, ('int', 1), 'usize')
                else:
                    n = mk_bin('Add', n, set_ty(('plen', x), 'usize'), 'usize')
            return n
        if v in ARRLEN:
            return ('int', ARRLEN[v])
        if k == 'utf8':
            return self.len_val(st, v[1])
        if k == 'upd' and all(x[0][0] == 'i' for x in v[2]):
            return self.len_val(st, v[1])
        r = ('len', v)
        TYOF[r] = 'usize'
        return r

    # ------------------------------------------------------------------- writes
    def write(self, st, root, path, val):
        if root[0] == 'K':
            raise Unsupported('write to constant')
        if not path:
            nv = val
        else:
            nv = self.update(st, self.root_value(st, root), path, val)
        if root[0] == 'L':
            st.frames[root[1]].locals[root[2]] = nv
        elif root[0] == 'P' and root[1][0] not in ('itref', 'addr') and nv == ('deref', root[1]):
            st.heap.pop(root, None)
        else:
            st.heap[root] = nv

    def update(self, st, v, path, val):
        if not path:
            return val
        s = path[0]
        k = v[0]
        if k == 'pieces' or (s[0] == 'i' and k not in ('arr', 'bytes', 'upd', 'uninit')):
            if s[0] in ('i', 's'):
                pv = pieces_of(v)
                rest = path[1:]
                if rest:
                    val = self.update(st, self.index(st, v, s[1]), rest, val)
                self.emit(('patch', origin(pv), s, val))
                return v
        if s[0] == 'f':
            if k == 'agg':
                fs = list(v[2])
                if s[1] >= len(fs):
                    raise Unsupported('update field')
                fs[s[1]] = self.update(st, fs[s[1]], path[1:], val)
                return ('agg', v[1], tuple(fs))
            cur = self.proj(st, v, s) if k != 'uninit' else ('uninit',)
            nv = self.update(st, cur, path[1:], val)
            if k == 'upd':
                base, ups = v[1], dict(v[2])
            else:
                base, ups = v, {}
            if base[0] != 'uninit' and self.proj(st, base, s) == nv:
                ups.pop(s, None)
            else:
                ups[s] = nv
            if not ups:
                return base
            return ('upd', base, tuple(sorted(ups.items(), key=lambda x: key(x[0]))))
        if s[0] == 'i':
            n = self.value_of(st, s[1])
            if k == 'bytes':
                v = ('arr', tuple(('int', b) for b in v[1]))
                k = 'arr'
            if k == 'arr' and n is not None:
                es = list(v[1])
                if n >= len(es):
                    raise Panic('index out of bounds')
                es[n] = self.update(st, es[n], path[1:], val)
                return ('arr', tuple(es))
            cur = self.proj(st, v, s) if k != 'uninit' else ('uninit',)
            nv = self.update(st, cur, path[1:], val)
            base, ups = (v[1], dict(v[2])) if k == 'upd' else (v, {})
            ups[s] = nv
            return ('upd', base, tuple(sorted(ups.items(), key=lambda x: key(x[0]))))
        if s[0] == 's':
            # writing through a sub-slice of an array
            lo = self.value_of(st, s[1])
            if k in ('arr', 'bytes') and lo is not None and len(path) > 1 and path[1][0] == 'i':
                n = self.value_of(st, path[1][1])
                if n is not None:
                    return self.update(st, v, (('i', ('int', lo + n)),) + path[2:], val)
            if len(path) > 1 and path[1][0] == 'i':
                return self.update(st, v, (('i', mk_bin('Add', s[1], path[1][1], 'usize')),) + path[2:], val)
        raise Unsupported('update %r at %r' % (k, s))

    # ------------------------------------------------------------------- events
    def emit(self, e):
        self.events.append(e)

    def vec_update(self, st, root, path, pc):
        """Append a piece to the Vec at a location."""
        v = pieces_of(self.read(st, root, path))
        self.emit(('app', origin(v), self.here(st, pc)))
        nv = pieces_add(v, pc)
        st.cur[origin(v)] = nv
        self.write(st, root, path, nv)

    def here(self, st, t):
        """Name positions relative to the current contents of each buffer."""
        def f(x):
            return None
        if t[0] != 'one':
            return t
        for o, pv in st.cur.items():
            ln = self.len_val(st, pv)
            if ln[0] == 'int':
                continue
            t = subst(t, lambda x: ('here', o) if x == ln else None)
        return t

    # ----------------------------------------------------------------- operands
    def operand(self, st, o):
        k = o[0]
        if k in ('c', 'm'):
            r, p, ty = self.place(st, o[1])
            return self.read(st, r, p, ty)
        if k == 'k':
            return self.const(o[2], o[1])
        if k == 'rc':
            return FALSE
        raise Unsupported('operand %r' % (o,))

    def const(self, c, tyid):
        k = c[0]
        ty = self.p.types[tyid] if tyid is not None else None
        if k == 'int':
            n = c[1]
            return ('int', n)
        if k == 'bool':
            return ('int', 1 if c[1] else 0)
        if k == 'char':
            return ('int', c[1] if isinstance(c[1], int) else ord(c[1]))
        if k == 'float':
            return ('flt', c[1], c[2])
        if k == 'str':
            return ('ref', ('K', ('bytes', bytes(c[1]))), ())
        if k == 'slice':
            return ('ref', ('K', self.arrconst(c[1], ty)), ())
        if k == 'ref':
            v = self.const(c[2], c[1])
            return ('ref', ('K', v), ())
        if k == 'arr':
            return self.arrconst(c[1], ty)
        if k == 'adt':
            fs = []
            vi = c[1]
            for i, x in enumerate(c[2]):
                ft = None
                try:
                    ft = ty['variants'][vi]['fields'][i][1]
                except Exception:
                    pass
                fs.append(self.const(x, ft))
            return ('agg', vi, tuple(fs))
        if k == 'tuple':
            es = ty.get('elems') if ty else None
            return ('agg', 0, tuple(self.const(x, es[i] if es and i < len(es) else None)
                                    for i, x in enumerate(c[1])))
        if k in ('fn', 'zst'):
            if ty and ty['k'] == 'closure':
                return ('agg', 0, ())
            return ('fnv', tyid) if k == 'fn' else ('agg', 0, ())
        if k == 'fnptr':
            return ('fnptr', repr(c[1:]))
        if k == 'named':
            return self.const(c[2], tyid)
        if k == 'assoc':
            t = ('assoc', c[1])
            if ty and ty['s'] in INT_RANGE:
                set_ty(t, ty['s'])
            return t
        if k == 'static':
            return ('ref', ('P', ('static', str(c[1:]))), ())
        return ('unk', repr(c))

    def arrconst(self, xs, ty):
        et = ty.get('elem') if ty else None
        if ty and ty['k'] == 'ref':
            et = None
        vs = tuple(self.const(x, et) for x in xs)
        u8 = et is not None and self.p.types[et]['s'] == 'u8'
        if u8 and vs and all(v[0] == 'int' and 0 <= v[1] < 256 for v in vs):
            return ('bytes', bytes(v[1] for v in vs))
        return ('arr', vs)

    # ------------------------------------------------------------------ rvalues
    def tyname(self, tyid):
        return self.p.types[tyid]['s']

    def rvalue(self, st, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(st, rv[1])
        if k == 'ref' or k == 'rawptr':
            r, p, _ = self.place(st, rv[1])
            # &*r where r is opaque: the same pointer
            if not p and r[0] == 'P':
                return r[1] if r[1][0] not in ('itref', 'addr') else ('ref', r, p)
            return ('ref', r, p)
        if k == 'repeat':
            v = self.operand(st, rv[1])
            n = rv[2]
            if isinstance(n, int) and n <= 4096:
                return ('arr', (v,) * n)
            return ('unk', 'repeat')
        if k == 'agg':
            kind, tyid, variant, ops = rv[1], rv[2], rv[3], rv[4]
            vs = tuple(self.operand(st, o) for o in ops)
            if kind == 'array':
                t = self.p.types[tyid]
                if vs and all(v[0] == 'int' for v in vs) and t.get('elem') is not None and \
                        self.tyname(t['elem']) == 'u8':
                    return ('bytes', bytes(v[1] for v in vs))
                return ('arr', vs)
            if kind == 'rawptr':
                return vs[0]
            if len(rv) > 5 and rv[5] is not None:
                return ('unk', 'union')
            if kind == 'adt':
                t = self.p.types[tyid]
                nf = len(t['variants'][variant or 0]['fields'])
                if len(vs) < nf:
                    raise Unsupported('struct update syntax')
            return ('agg', variant or 0, vs)
        if k == 'discr':
            r, p, ty = self.place(st, rv[1])
            v = self.read(st, r, p)
            return self.discr(st, v, rv[2] if len(rv) > 2 else ty)
        if k == 'cast':
            v = self.operand(st, rv[2])
            return self.cast(st, rv[1], v, rv[3], rv[4])
        if k == 'bin':
            a, b = self.operand(st, rv[2]), self.operand(st, rv[3])
            return self.binop(st, rv[1], a, b, self.tyname(rv[4]))
        if k == 'un':
            a = self.operand(st, rv[2])
            if rv[1] == 'PtrMetadata':
                r, p = self.deref(st, a)
                return self.len_of(st, r, p)
            return mk_un(rv[1], a, self.tyname(rv[3]))
        if k == 'len':
            r, p, _ = self.place(st, rv[1])
            return self.len_of(st, r, p)
        raise Unsupported('rvalue %r' % (k,))

    def discr(self, st, v, tyid):
        t = self.p.types[tyid]
        if v[0] == 'agg' and t['k'] == 'adt':
            d = t['variants'][v[1]].get('discr')
            return ('int', d if d is not None else v[1])
        if v[0] == 'ref' or v[0] == 'bytes':
            return ('unk', 'discr')
        d = ('discr', v)
        if t['k'] == 'adt':
            DISCR[d] = tuple(x['discr'] if x.get('discr') is not None else i
                             for i, x in enumerate(t['variants']))
            if DISCR[d] and min(DISCR[d]) >= 0 and max(DISCR[d]) < 256 and d not in TYOF:
                TYOF[d] = 'u8'
        return d

    def cast(self, st, kind, v, to, frm):
        if kind in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
            return mk_cast(v, self.tyname(to), self.tyname(frm))
        if kind.startswith('PointerCoercion'):
            if 'ClosureFnPointer' in kind:
                return ('clptr', frm, v)
            if 'Unsize' in kind:
                self.note_array(st, v, frm)
            return v
        if kind == 'Transmute':
            a, b = self.p.types[to], self.p.types[frm]
            if a['k'] in ('ref', 'ptr') and b['k'] in ('ref', 'ptr'):
                return v
            if a['k'] in ('int', 'uint') and b['k'] == 'adt':
                if v[0] == 'nz':
                    return v[1]
                return set_ty(('fld', None, 'bits', v), a['s'])
            if v[0] == 'flt' and a['k'] in ('int', 'uint'):
                return ('int', v[1])
            ints = ('int', 'uint')
            if a['k'] == 'array' and b['k'] in ints and v[0] == 'int' and self.tyname(a['elem']) == 'u8':
                n = a.get('len')
                if isinstance(n, int):
                    return ('bytes', (v[1] % 256 ** n).to_bytes(n, 'little'))
            if a['k'] in ints and b['k'] == 'array':
                if v[0] == 'bytes':
                    n = int.from_bytes(v[1], 'little')
                    return ('int', wrap(n, a['s']))
                if v[0] == 'transmute' and TYOF.get(v[1]) in INT_RANGE and \
                        iv_size(iv_full(TYOF[v[1]])) == iv_size(iv_full(a['s'])):
                    return mk_cast(v[1], a['s'], TYOF[v[1]])
            r = ('transmute', v)
            return set_ty(r, a['s'])
        if kind in ('PtrToPtr', 'FnPtrToPtr'):
            return v
        return ('castk', kind, v)

    def note_array(self, st, v, ty):
        """Remember the length of an array only known by its type."""
        t = self.p.types[ty]
        if t['k'] in ('ref', 'ptr') and 'elem' in t:
            t = self.p.types[t['elem']]
            if t['k'] == 'array' and isinstance(t.get('len'), int) and t['len'] <= 16:
                try:
                    x = self.read(st, *self.deref(st, v))
                except (Unsupported, Panic):
                    return
                if x[0] in ('sym', 'fld', 'deref', 'idx', 'phi'):
                    ARRLEN[x] = t['len']

    def binop(self, st, op, a, b, ty):
        if op.endswith('WithOverflow'):
            o = op[:-12]
            r = mk_bin(o, a, b, ty)
            if a[0] == 'int' and b[0] == 'int':
                n = {'Add': a[1] + b[1], 'Sub': a[1] - b[1], 'Mul': a[1] * b[1]}[o]
                return ('agg', 0, (r, ('int', int(wrap(n, ty) != n))))
            ov = ('ovf', o, a, b, ty)
            TYOF[ov] = 'bool'
            return ('agg', 0, (r, ov))
        if op == 'Cmp':
            return ('cmp3', a, b)
        if op == 'Offset':
            return ('ptroff', a, b)
        if op in CMP and ty not in INT_RANGE and ty not in ('f32', 'f64'):
            if a == b:
                return ('int', int(op in ('Eq', 'Le', 'Ge')))
        return mk_bin(op, a, b, ty)

    # ---------------------------------------------------------------- liveness
    def live_in(self, key):
        r = self._live.get(key)
        if r is not None:
            return r
        fn = self.p.fns[key]
        blocks = fn['blocks']
        succ, pred, bodies = self.p.cfg(key)
        always = set()
        use, deff = {}, {}

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for x in p[1]:
                if isinstance(x, list) and x[0] == 'i' and x[1] not in d:
                    u.add(x[1])

        def op_use(o, u, d):
            if o[0] in ('c', 'm'):
                pl_use(o[1], u, d)
        for i in succ:
            u, d = set(), set()
            b = blocks[i]
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] in ('ref', 'rawptr'):
                        pl_use(rv[1], u, d)
                        if '*' not in rv[1][1]:
                            always.add(rv[1][0])
                    elif rv[0] in ('discr', 'len'):
                        pl_use(rv[1], u, d)
                    elif rv[0] == 'agg':
                        for o in rv[4]:
                            op_use(o, u, d)
                    else:
                        for o in rv[1:]:
                            if isinstance(o, list) and o and o[0] in ('c', 'm', 'k'):
                                op_use(o, u, d)
                    if s[1][1]:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == 'sd':
                    pl_use(s[1], u, d)
            t = b['t']
            if t[0] == 'switch':
                op_use(t[1], u, d)
            elif t[0] == 'drop':
                pl_use(t[1], u, d)
            elif t[0] == 'call':
                op_use(t[1], u, d)
                for o in t[2]:
                    op_use(o, u, d)
                if t[3][1]:
                    pl_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif t[0] == 'assert':
                op_use(t[1], u, d)
            elif t[0] == 'ret':
                if 0 not in d:
                    u.add(0)
            use[i], deff[i] = u, d
        live = {i: set() for i in succ}
        ch = True
        while ch:
            ch = False
            for i in succ:
                out = set()
                for x in succ[i]:
                    out |= live.get(x, set())
                n = use[i] | (out - deff[i])
                if n != live[i]:
                    live[i] = n
                    ch = True
        r = (live, always)
        self._live[key] = r
        return r

    # -------------------------------------------------------------- state keys
    def prune(self, st):
        """Forget dead locals and facts about values nothing holds any more."""
        for d, fr in enumerate(st.frames):
            live, always = self.live_in(fr.key)
            if d == len(st.frames) - 1:
                lv = live.get(fr.bb, set())
            else:
                blk = self.p.fns[fr.key]['blocks'][fr.bb]
                lv = set()
                tgt = fr.target_bb() if False else None
                t = blk['t']
                if t[0] == 'call' and t[4] is not None:
                    lv = live.get(t[4], set())
                    if t[3][1]:
                        lv = lv | {t[3][0]}
                elif t[0] == 'drop':
                    lv = live.get(t[3], set()) | {t[1][0]}
            for n in list(fr.locals):
                if n not in lv and n not in always:
                    del fr.locals[n]
        held = None
        for a in list(st.facts):
            if self.transient(a):
                if held is None:
                    held = self.held_terms(st)
                if not any(x in held for x in walk(a) if x[0] in ('it', 'phi', 'pos')):
                    del st.facts[a]

    def held_terms(self, st):
        h = set()
        for fr in st.frames:
            for v in fr.locals.values():
                for x in walk(v):
                    if x[0] in ('it', 'phi', 'pos'):
                        h.add(x)
                    elif x[0] == 'itref':
                        h.add(('it', x[1]))
        for v in st.heap.values():
            for x in walk(v):
                if x[0] in ('it', 'phi', 'pos'):
                    h.add(x)
        return h

    def transient(self, a):
        return mentions(a, 'tr', lambda x: x[0] in ('it', 'phi', 'pos', 'prev'))

    def locations(self, st):
        for d, fr in enumerate(st.frames):
            for n, v in fr.locals.items():
                yield ('L', d, n), v
        for r, v in st.heap.items():
            yield r, v

    def set_loc(self, st, loc, v):
        if loc[0] == 'L':
            st.frames[loc[1]].locals[loc[2]] = v
        else:
            st.heap[loc] = v

    def get_loc(self, st, loc):
        if loc[0] == 'L':
            return st.frames[loc[1]].locals.get(loc[2])
        return st.heap.get(loc)

    def ctx(self, st):
        return tuple((f.key, f.bb) for f in st.frames)

    def state_key(self, st):
        return (self.ctx(st),
                tuple(tuple(sorted(f.locals.items())) for f in st.frames),
                tuple(tuple(sorted(f.active)) for f in st.frames),
                tuple(sorted(st.heap.items(), key=repr)),
                tuple(sorted(st.facts.items(), key=repr)))

    # ------------------------------------------------------------------ running
    def run(self, st, at_node=None):
        """Explore from a state; returns a tree."""
        saved = getattr(self, 'events', None)
        self.events = []
        try:
            if at_node is not None:
                self._skip_cut = True
            else:
                self._skip_cut = False
            end = self.loop(st)
            return ('seq', tuple(self.events), end)
        finally:
            self.events = saved

    def branch(self, st, atom, parts):
        kids = []
        for d in parts:
            s2 = st.copy()
            s2.facts[atom] = d
            s2.forks += 1
            if not self.refine(s2, atom, d):
                continue
            kids.append((d, self.run(s2)))
        return ('branch', atom, tuple(kids))

    def refine(self, st, atom, d):
        """Derive consequences of a new fact; False if contradictory."""
        if atom[0] == 'bin' and atom[1] in CMP and atom[4] != 'float':
            a, b = atom[2], atom[3]
            da, db = self.domain(st, a), self.domain(st, b)
            if da and db and d in (((1, 1),), ((0, 0),)):
                op = atom[1]
                if d == ((0, 0),):
                    op = {'Lt': 'GeX', 'Le': 'GtX', 'Eq': 'Ne', 'Ne': 'Eq'}[op]
                big = 2**130
                if op == 'Lt':
                    na, nb = iv_inter(da, ((-big, db[-1][1] - 1),)), iv_inter(db, ((da[0][0] + 1, big),))
                elif op == 'Le':
                    na, nb = iv_inter(da, ((-big, db[-1][1]),)), iv_inter(db, ((da[0][0], big),))
                elif op == 'GeX':
                    na, nb = iv_inter(da, ((db[0][0], big),)), iv_inter(db, ((-big, da[-1][1]),))
                elif op == 'GtX':
                    na, nb = iv_inter(da, ((db[0][0] + 1, big),)), iv_inter(db, ((-big, da[-1][1] - 1),))
                elif op == 'Eq':
                    na = nb = iv_inter(da, db)
                else:
                    na, nb = da, db
                if not na or not nb:
                    return False
                if na != da and a[0] != 'int':
                    st.facts[a] = na
                if nb != db and b[0] != 'int':
                    st.facts[b] = nb
        return True

    def loop(self, st):
        while True:
            self.nsteps += 1
            if self.nsteps > self.max_steps:
                raise Unsupported('step limit')
            fr = st.frames[-1]
            if fr.pending:
                kind = fr.pending.pop(0)
                self.push_call(st, kind[0], kind[1], None, None, kind='task')
                continue
            if fr.kind == 'after':
                pass
            fn = self.p.fns[fr.key]
            if fr.si < 0:
                fr.si = 0
                r = self.enter_block(st, fr)
                if r is not None:
                    return r
                fr = st.frames[-1]
            blk = fn['blocks'][fr.bb]
            try:
                # statements
                ss = blk['s']
                while fr.si < len(ss):
                    s = ss[fr.si]
                    self.stmt(st, s)
                    fr.si += 1
                r = self.term(st, fr, fn, blk['t'])
                if r is not None:
                    return r
            except NeedFork as nf:
                return self.branch(st, nf.atom, nf.parts)
            except ReadFork as rf:
                s1, s2 = st.copy(), st.copy()
                s1.forks += 1
                s2.forks += 1
                t1 = self.run_after(s1, rf, rf.some_f)
                t2 = self.run_after(s2, rf, rf.none_f)
                return ('read', rf.src, t1, t2)
            except Panic as pn:
                return ('panic', pn.msg)
            except Diverge:
                return ('div',)

    def run_after(self, st, rf, f):
        saved = self.events
        self.events = []
        try:
            self.finish_call(st, f(st), rf.dest, rf.target)
            end = self.loop(st)
            return ('seq', tuple(self.events), end)
        finally:
            self.events = saved

    def stmt(self, st, s):
        if s[0] == '=':
            v = self.rvalue(st, s[2])
            r, p, ty = self.place(st, s[1])
            self.write(st, r, p, v)
        elif s[0] == 'dead':
            st.frames[-1].locals.pop(s[1], None)
        elif s[0] == 'sd':
            r, p, ty = self.place(st, s[1])
            self.write(st, r, p, ('agg', s[2], ()))
        elif s[0] == 'intr':
            pass
        else:
            raise Unsupported('stmt %r' % (s[0],))

    def goto(self, st, bb):
        fr = st.frames[-1]
        fr.bb = bb
        fr.si = -1

    # ------------------------------------------------------------- loop cutting
    def enter_block(self, st, fr):
        succ, pred, bodies = self.p.cfg(fr.key)
        bb = fr.bb
        for h in list(fr.active):
            if bb not in bodies[h]:
                del fr.active[h]
        skip = self._skip_cut
        self._skip_cut = False
        if bb not in bodies:
            return None
        ctx = self.ctx(st)
        back = bb in fr.active
        if skip:
            fr.active[bb] = (st.forks, 0, fr.active.get(bb, (0, 0, None))[2])
            return None
        if not back:
            fr.active[bb] = (st.forks, 0, None)
            if ctx not in self.cuts:
                return None
        else:
            f0, cnt, _ = fr.active[bb]
            if ctx not in self.cuts:
                if st.forks != f0:
                    self.cuts.add(ctx)
                    raise Restart()
                if cnt > 3000:
                    raise Unsupported('unbounded concrete loop')
                fr.active[bb] = (st.forks, cnt + 1, None)
                return None
        # a cut point: name the state
        parent = fr.active[bb][2] if back else None
        fr.active[bb] = (0, 0, None)
        self.prune(st)
        self.binds = []
        self.mask(st, ctx, back)
        binds = tuple(self.binds)
        k = self.state_key(st)
        nid = self.nodes.get(k)
        if nid is None:
            # the states this one descends from (the same run of the loop), or the
            # other states in which the loop is entered
            allv = self.node_vals.setdefault(ctx, [])
            if parent is not None:
                sib = []
                x = parent
                while x is not None:
                    sib.insert(0, self.node_st[x])
                    x = self.node_par[x]
            else:
                sib = [s for s, p in allv if p is None]
            lim = KLIMIT
            if len(sib) >= 2:
                how = self.counts(sib[-1], st)
                if how is None and any(self.counts(x, st) == 'position' for x in sib):
                    how = 'position'
                lim = {'number': 2, 'position': 2 * KLIMIT, None: KLIMIT}[how]
            if len(sib) >= lim or parent is not None and sum(1 for _, p in allv if p is not None) >= lim:
                self.widen(ctx, sib, st)
                raise Restart()
            if len(allv) >= 6 * KLIMIT:
                self.widen(ctx, [s for s, _ in allv], st)
                raise Restart()
            nid = len(self.nodes)
            self.nodes[k] = nid
            s2 = st.copy()
            allv.append((s2, parent))
            self.node_st[nid] = s2
            self.node_par[nid] = parent
            s3 = st.copy()
            s3.frames[-1].active[bb] = (0, 0, nid)
            s3.frames[-1].si = -1
            self.work.append((nid, s3))
        return ('goto', nid, binds)

    def diff(self, a, b, path, out):
        if a == b:
            return
        if a is None or b is None:
            out.add(path)
            return
        if a[0] == b[0] == 'agg' and a[1] == b[1] and len(a[2]) == len(b[2]):
            for i, (x, y) in enumerate(zip(a[2], b[2])):
                self.diff(x, y, path + (i,), out)
            return
        if a[0] == b[0] == 'arr' and len(a[1]) == len(b[1]):
            for i, (x, y) in enumerate(zip(a[1], b[1])):
                self.diff(x, y, path + (i,), out)
            return
        if 'upd' in (a[0], b[0]):
            ba = a[1] if a[0] == 'upd' else a
            bb = b[1] if b[0] == 'upd' else b
            if ba == bb:
                ua = dict(a[2]) if a[0] == 'upd' else {}
                ub = dict(b[2]) if b[0] == 'upd' else {}
                for s in sorted(set(ua) | set(ub), key=repr):
                    self.diff(ua.get(s) or self.proj(None, ba, s), ub.get(s) or self.proj(None, bb, s),
                              path + (s,), out)
                return
        if a[0] == b[0] == 'iter' and a[1] == b[1]:
            if a[2] != b[2]:
                out.add(path + ('src',))
            if a[3] != b[3]:
                out.add(path + ('pos',))
            return
        if a[0] == b[0] == 'pieces' and a[1][:2] == b[1][:2]:
            out.add(path + ('tail',))
            return
        out.add(path)

    def counts(self, last, st):
        """Do the two states at a loop head differ in a number that is not the position in
        something of known length?"""
        hit = None
        for loc in set(l for l, _ in self.locations(last)) & set(l for l, _ in self.locations(st)):
            a, b = self.get_loc(last, loc), self.get_loc(st, loc)
            if a == b:
                continue
            o = set()
            self.diff(a, b, (), o)
            for p in o:
                if p and p[-1] == 'pos':
                    return 'position'
                if p and p[-1] in ('tail', 'src'):
                    continue
                x, y = self.at_path(a, p), self.at_path(b, p)
                if x is None or y is None:
                    continue
                if p:
                    par = self.at_path(b, p[:-1])
                    if par is not None and par[0] == 'agg' and len(par[2]) == 2 and all(z[0] == 'int' for z in par[2]) \
                            and self.leaf_ty(st, loc, p) != 'bool' and par[2][1][1] - par[2][0][1] <= KLIMIT:
                        return 'position'
                if self.numeric(x) and self.numeric(y) and self.leaf_ty(st, loc, p) not in ('bool', None):
                    hit = 'number'
        return hit

    def numeric(self, x):
        return x[0] in ('int', 'lin', 'phi')

    def at_path(self, v, p):
        for s in p:
            if v[0] in ('agg', 'arr') and isinstance(s, int):
                v = (v[2] if v[0] == 'agg' else v[1])[s]
            elif v[0] == 'upd':
                v = dict(v[2]).get(s)
                if v is None:
                    return None
            else:
                return None
        return v

    def widen(self, ctx, sibs, st):
        m = self.masks.setdefault(ctx, set())
        out = set()
        last = sibs[-1]
        for other in sibs[:-1][-3:] + [st]:
            for loc in set(l for l, _ in self.locations(last)) | set(l for l, _ in self.locations(other)):
                o = set()
                self.diff(self.get_loc(last, loc), self.get_loc(other, loc), (), o)
                out |= {(loc, p) for p in o}
        new = out - m
        # positions in sequences of known length stay concrete as long as something else varies
        new = {x for x in new if not (x[1] and x[1][-1] == 'pos')} or new
        if not new:
            # the states differ in facts only
            fm = set()
            for other in sibs + [st]:
                for a in set(last.facts) ^ set(other.facts):
                    fm.add(('fact', a))
                for a in last.facts:
                    if other.facts.get(a) != last.facts[a]:
                        fm.add(('fact', a))
            new = fm - m
            if not new:
                raise Unsupported('cannot widen')
        m |= new

    def mask(self, st, ctx, back):
        m = self.masks.get(ctx, ())
        if back:
            # buffers that grew during the iteration are always widened
            snap = st.frames[-1].active
        changed = set()
        for loc, v in list(self.locations(st)):
            self.bufbinds = []
            nv = self.mask_pieces(v, ctx, loc, (), m)
            for ph, old in self.bufbinds:
                if (ph, old) not in self.binds:
                    self.binds.append((ph, old))
            if nv != v:
                self.set_loc(st, loc, nv)
                for x in walk(nv):
                    if x[0] == 'pieces' and x[1] and x[1][0] in st.cur:
                        st.cur[x[1][0]] = x
        lid = ctx
        for loc, v in list(self.locations(st)):
            for p in self.open_iters(st, v, ()):
                if (loc, p) not in m:
                    m = self.masks.setdefault(ctx, set())
                    m.add((loc, p))
        whole = set()
        for ent in sorted(m, key=lambda e: (len(e[1]) if e[0] != 'fact' and isinstance(e[1], tuple) else 0, repr(e))):
            if ent[0] == 'fact':
                st.facts.pop(ent[1], None)
                continue
            loc, path = ent
            if any((loc, path[:i]) in whole for i in range(len(path))):
                continue  # part of a place that is named as a whole
            v = self.get_loc(st, loc)
            if v is None:
                continue
            ph = ('phi', self.lname(ctx), loc[1:] if loc[0] == 'L' else loc, path)
            nv, old = self.mask_at(v, path, ph)
            if nv is None:
                continue
            self.binds.append((ph, old))
            whole.add((loc, path))
            if old != ph:
                changed.add(ph)
                if old in TYOF and ph not in TYOF:
                    TYOF[ph] = TYOF[old]
                elif old[0] == 'int' and ph not in TYOF:
                    ty = 'usize' if path and path[-1] == 'pos' else self.leaf_ty(st, loc, path)
                    if ty:
                        TYOF[ph] = ty
                self.set_loc(st, loc, nv)
        if changed:
            for a in list(st.facts):
                if any(x in changed for x in walk(a)):
                    del st.facts[a]
            # stale copies of the previous iteration's phi
            mine = {(e[0], e[1]) for e in m if e[0] != 'fact'}
            add = set()
            for loc, v in self.locations(st):
                for p, leaf in self.leaves(v, ()):
                    if (loc, p) in mine:
                        continue
                    if any((loc, p[:i]) in mine for i in range(len(p))):
                        continue
                    if any(x in changed for x in walk(leaf)):
                        add.add((loc, p))
            if add:
                self.masks.setdefault(ctx, set()).update(add)
                raise Restart()

    def open_iters(self, st, v, path):
        """Iterators over sequences of unknown length standing at a constant position."""
        if v[0] == 'iter':
            if v[3][0] == 'int' and v[2][0] in ('ref', 'rv'):
                ref = v[2] if v[2][0] == 'ref' else v[2][2]
                try:
                    x = self.read(st, ref[1], ref[2]) if ref[0] == 'ref' else ('deref', ref)
                except (Unsupported, Panic):
                    return
                if self.seq(x) is None:
                    yield path + ('pos',)
            elif v[3][0] == 'int':
                yield path + ('pos',)
        elif v[0] == 'agg':
            for i, x in enumerate(v[2]):
                yield from self.open_iters(st, x, path + (i,))
        elif v[0] == 'upd':
            for s, x in v[2]:
                yield from self.open_iters(st, x, path + (s,))

    def lname(self, ctx):
        if not hasattr(self, '_ln'):
            self._ln = {}
        return self._ln.setdefault(ctx, 'L%d' % len(self._ln))

    def leaf_ty(self, st, loc, path):
        if loc[0] != 'L':
            return None
        fr = st.frames[loc[1]]
        ty = self.p.fns[fr.key]['locals'][loc[2]]
        for s in path:
            t = self.p.types[ty]
            try:
                if t['k'] == 'adt':
                    i = s if isinstance(s, int) else s[1]
                    ty = t['variants'][0]['fields'][i][1]
                elif t['k'] == 'tuple':
                    ty = t['elems'][s if isinstance(s, int) else s[1]]
                elif t['k'] == 'closure':
                    ty = t['upvars'][s if isinstance(s, int) else s[1]]
                elif t['k'] == 'array':
                    ty = t['elem']
                else:
                    return None
            except (IndexError, KeyError, TypeError):
                return None
        n = self.p.types[ty]['s']
        return n if n in INT_RANGE else None

    def leaves(self, v, path):
        if v[0] == 'agg':
            for i, x in enumerate(v[2]):
                yield from self.leaves(x, path + (i,))
        elif v[0] == 'arr':
            for i, x in enumerate(v[1]):
                yield from self.leaves(x, path + (i,))
        elif v[0] == 'upd':
            for s, x in v[2]:
                yield from self.leaves(x, path + (s,))
        elif v[0] == 'pieces':
            if len(v[1]) > 2:
                yield path + ('tail',), v[1][-1]
        elif v[0] == 'iter':
            yield path + ('pos',), v[3]
            yield path + ('src',), v[2]
        else:
            yield path, v

    def mask_at(self, v, path, ph):
        """-> (new value, old leaf) or (None, None)."""
        if not path:
            if v[0] == 'pieces':
                return None, None
            return ph, v
        s = path[0]
        if v[0] == 'agg' and isinstance(s, int) and s < len(v[2]):
            nv, old = self.mask_at(v[2][s], path[1:], ph)
            if nv is None:
                return None, None
            return ('agg', v[1], v[2][:s] + (nv,) + v[2][s + 1:]), old
        if v[0] == 'arr' and isinstance(s, int) and s < len(v[1]):
            nv, old = self.mask_at(v[1][s], path[1:], ph)
            if nv is None:
                return None, None
            return ('arr', v[1][:s] + (nv,) + v[1][s + 1:]), old
        if isinstance(s, tuple) and s and s[0] in ('f', 'i'):
            if v[0] == 'upd':
                base, ups = v[1], dict(v[2])
            elif v[0] in ('agg', 'arr', 'pieces', 'bytes', 'iter'):
                return None, None
            else:
                base, ups = v, {}
            cur = ups.get(s) or self.proj(None, base, s)
            nv, old = self.mask_at(cur, path[1:], ph)
            if nv is None:
                return None, None
            ups[s] = nv
            return ('upd', base, tuple(sorted(ups.items(), key=lambda x: key(x[0])))), old
        if s == 'src' and v[0] == 'iter':
            if v[2][0] == 'ref' and v[2][1][0] == 'K' and not v[2][2]:
                return ('iter', v[1], ('ref', ('K', ph), ()), v[3]), v[2][1][1]
            if v[2][0] == 'ref' and v[2][1] == ('P', ph) and not v[2][2]:
                return v, ph
            return ('iter', v[1], ('ref', ('P', ph), ()), v[3]), v[2]
        if s == 'pos' and v[0] == 'iter':
            return ('iter', v[1], v[2], ph), v[3]
        return None, None

    def mask_pieces(self, v, ctx, loc, path, m=()):
        k = v[0]
        if k == 'pieces':
            ps = v[1]
            ph = ('phi', self.lname(ctx), 'buf', origin(v))
            tail = ()
            if len(ps) > 1:
                last = ps[-1]
                if last[0] == 'b':
                    tail = (('b', last[1][-1:]),)
                elif last[0] == 'phi':
                    tail = ()
                else:
                    tail = (('last', last),) if last[0] != 'last' else (last,)
                if tail and (loc, path + ('tail',)) in m:
                    tail = ()
                nv = ('pieces', (ps[0], ph) + tail)
                self.bufbinds.append((ph, ph if nv == v else ('bufmark', len(tail))))
                return nv
            self.bufbinds.append((ph, ('bufmark', 0)))
            return v
        if k == 'agg':
            n = tuple(self.mask_pieces(x, ctx, loc, path + (i,), m) for i, x in enumerate(v[2]))
            return v if n == v[2] else ('agg', v[1], n)
        if k == 'upd':
            n = tuple((s, self.mask_pieces(x, ctx, loc, path + (s,), m)) for s, x in v[2])
            return v if n == v[2] else ('upd', v[1], n)
        return v

    # --------------------------------------------------------------- terminators
    def term(self, st, fr, fn, t):
        k = t[0]
        if k == 'goto':
            self.goto(st, t[1])
            return None
        if k == 'switch':
            v = self.operand(st, t[1])
            vals = [x[0] for x in t[2]]
            n = self.decide(st, v, parts=vals)
            if isinstance(n, tuple):
                # inside one part: which?
                for c, bb in t[2]:
                    if iv_inter(n[1], ((c, c),)):
                        self.goto(st, bb)
                        return None
                self.goto(st, t[3])
                return None
            ty = self.tyname(t[4]) if len(t) > 4 and t[4] is not None else None
            for c, bb in t[2]:
                cc = wrap(c, ty) if ty in INT_RANGE else c
                if cc == n or c == n:
                    self.goto(st, bb)
                    return None
            self.goto(st, t[3])
            return None
        if k == 'ret':
            v = fr.locals.get(0, UNIT)
            st.frames.pop()
            if not st.frames:
                return ('ret', v, self.final(st))
            self.assign_ret(st, fr, v)
            return None
        if k == 'unreach':
            return ('div',)
        if k == 'drop':
            r, p, ty = self.place(st, t[1])
            steps = []
            if t[4] is not False or True:
                if self.p.drop_interest(t[2]):
                    self.drop_steps(st, r, p, t[2], steps)
            fr.bb = t[3]
            fr.si = -1
            fr.pending = steps
            return None
        if k == 'assert':
            v = self.operand(st, t[1])
            exp = 1 if t[2] else 0
            c = self.value_of(st, v)
            if c is not None and c != exp:
                raise Panic(t[3])
            if c is None:
                self.note_assume(fr.key, t[3], v)
                if v[0] == 'bin' and v[1] in CMP:
                    r = self.cmp_state(st, v)
                    if isinstance(r, tuple):
                        for d, tr in r[1]:
                            if tr == bool(exp):
                                st.facts[r[0]] = d
            self.goto(st, t[4])
            return None
        if k == 'call':
            return self.call(st, fr, t)
        raise Unsupported('terminator %r' % (t,))

    def final(self, st):
        """Observable memory at return: writes through references."""
        return tuple(sorted(((r, v) for r, v in st.heap.items()), key=repr))

    def note_assume(self, key, msg, v):
        self.assumed.setdefault((self.p.fns[key]['path'], msg), 0)
        self.assumed[(self.p.fns[key]['path'], msg)] += 1

    def assign_ret(self, st, callee_fr, v):
        if callee_fr.kind == 'task':
            return
        fr = st.frames[-1]
        if callee_fr.dest is not None:
            r, p = callee_fr.dest
            self.write(st, r, p, v)
        if callee_fr.target is None:
            raise Diverge()
        self.goto(st, callee_fr.target)

    def drop_steps(self, st, root, path, tyid, out):
        t = self.p.types[tyid]
        k = t['k']
        if not self.p.drop_interest(tyid):
            return
        if k == 'adt':
            if t['path'] == 'std::mem::ManuallyDrop':
                return
            if 'drop' in t and t['drop'] in self.p.fns and t['local']:
                out.append((t['drop'], [('ref', root, path)]))
            if t['akind'] == 'struct':
                for i, f in enumerate(t['variants'][0]['fields']):
                    self.drop_steps(st, root, path + (('f', i, f[0], None),), f[1], out)
                return
            v = self.read(st, root, path)
            if v[0] == 'agg':
                vv = t['variants'][v[1]]
                for i, f in enumerate(vv['fields']):
                    self.drop_steps(st, root, path + (('f', i, f[0], vv['name']),), f[1], out)
                return
            self.emit(('dropenum', v))
            return
        if k == 'tuple':
            for i, f in enumerate(t['elems']):
                self.drop_steps(st, root, path + (('f', i, str(i), None),), f, out)
            return
        if k == 'closure':
            for i, f in enumerate(t['upvars']):
                self.drop_steps(st, root, path + (('f', i, str(i), None),), f, out)
            return
        self.emit(('dropany', t['s']))

    # --------------------------------------------------------------------- calls
    def push_call(self, st, key, args, dest, target, kind='call'):
        fn = self.p.fns[key]
        h = self.hooks.get(canon(fn['path']))
        if h and kind == 'task':
            v = h(self, st, Call(self, st, {'key': key, 'path': fn['path']}, args, fn['path']))
            if v is not NotImplemented:
                return
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        self.inlined.add(key)
        fr = Frame(key)
        fr.kind = kind
        n = fn['args']
        if fn.get('dkind') == 'Closure' and fn.get('spread') is None and len(args) == 2 and \
                (n != 2 or self.is_tuple_arg(fn, args)):
            tup = args[1]
            cnt = n - 1
            args = [args[0]] + [self.proj(st, tup, ('f', i, str(i), None)) for i in range(cnt)]
        if fn.get('dkind') == 'Closure' and args:
            ct = self.p.types[fn['locals'][1]]
            if ct['k'] in ('ref',) and args[0][0] not in ('ref',) and args[0][0] == 'agg':
                # called by value: give the body a reference to a temporary
                tmp = 100000 + len(st.frames)
                st.frames[-1].locals[tmp] = args[0]
                args = [('ref', ('L', len(st.frames) - 1, tmp), ())] + list(args[1:])
            elif ct['k'] == 'closure' and args[0][0] == 'ref':
                args = [self.read(st, args[0][1], args[0][2])] + list(args[1:])
        if fn.get('spread') is not None and len(args) != n:
            pass
        for i in range(n):
            fr.locals[i + 1] = args[i] if i < len(args) else ('unk', 'arg')
        fr.dest = dest
        fr.target = target
        st.frames.append(fr)

    def is_tuple_arg(self, fn, args):
        # body takes (env, x): the caller passes (env, (x,))
        return args[1][0] == 'agg' or True

    def call(self, st, fr, t):
        fop, ops, dest, target = t[1], t[2], t[3], t[4]
        if fop[0] == 'k':
            ty = self.p.types[fop[1]]
            callee = ty.get('callee')
        else:
            callee = None
        args = [self.operand(st, o) for o in ops]
        if callee is None:
            fv = self.operand(st, fop)
            if fv[0] == 'fnv':
                callee = self.p.types[fv[1]].get('callee')
            elif fv[0] == 'clptr':
                ct = self.p.types[fv[1]]
                fk = ct.get('fn')
                if fk in self.p.fns:
                    r, p, _ = self.place(st, dest)
                    self.push_call(st, fk, [fv[2]] + [('agg', 0, tuple(args))], (r, p), target)
                    return None
            if callee is None:
                callee = {'path': 'fnptr', 'kind': 'fnptr', 'name': 'fnptr'}
                args = [fv] + args
        tys = None
        if len(args) == len(ops):
            tys = [self.operand_ty(st, o) for o in ops]
        return self.dispatch(st, callee, args, dest, target, tys)

    def operand_ty(self, st, o):
        if o[0] == 'k':
            return o[1]
        if o[0] in ('c', 'm'):
            return self.place(st, o[1])[2]
        return None

    def dispatch(self, st, callee, args, dest, target, tys=None):
        path = callee.get('rpath') or callee.get('path')
        c = Call(self, st, callee, args, path)
        c.dest, c.target = dest, target
        c.tys = tys
        if callee['kind'] == 'ctor':
            v = ('agg', callee.get('variant', 0), tuple(args))
            return self.finish_call(st, v, dest, target)
        cands = [self.hooks.get(canon(nm)) for nm in (path, callee.get('path'))]
        cands += [self.models.get(nm) for nm in (path, callee.get('path'))]
        cands.append(self.panic_model(path))
        for m in cands:
            if m:
                try:
                    v = m(self, st, c)
                except CallBody as cb:
                    v = self.scalar_call(cb.key, cb.args, st)
                    if v is not None:
                        return self.finish_call(st, v, dest, target)
                    r, p, _ = self.place(st, dest)
                    self.push_call(st, cb.key, cb.args, (r, p), target)
                    return None
                except Redispatch as rd:
                    return self.dispatch(st, rd.callee, rd.args2, dest, target)
                except ReadFork as rf:
                    rf.dest, rf.target = dest, target
                    raise
                if v is not NotImplemented:
                    return self.finish_call(st, v, dest, target)
        key = callee.get('key')
        if callee.get('dkey') in self.p.fns and not callee.get('rlocal'):
            key = callee['dkey']
        if key in self.p.fns:
            if any(f.key == key for f in st.frames):
                return self.finish_call(st, self.recursive(st, c), dest, target)
            v = self.scalar_call(key, args, st)
            if v is not None:
                return self.finish_call(st, v, dest, target)
            r, p, _ = self.place(st, dest)
            self.push_call(st, key, args, (r, p), target)
            return None
        v = self.opaque_call(st, c)
        return self.finish_call(st, v, dest, target)

    def finish_call(self, st, v, dest, target):
        r, p, ty = self.place(st, dest)
        if ty is not None:
            tn = self.p.types[ty]
            if tn['k'] in ('int', 'uint', 'bool', 'char') and v[0] not in ('int',):
                set_ty(v, tn['s'])
        self.write(st, r, p, v)
        if target is None:
            raise Diverge()
        self.goto(st, target)
        return None

    def age(self, st, src):
        """A new element of `src` is about to be read: rename the old one."""
        old = (('it', src), ('pos', src), ('itref', src))

        def hit(x):
            return x in old

        def f(x):
            if x == old[2]:
                return ('addr', ('prev', old[0]))
            if x in old:
                r = ('prev', x)
                if x in TYOF:
                    TYOF[r] = TYOF[x]
                return r
            return None
        held = False
        for loc, v in list(self.locations(st)):
            if mentions(v, ('age', src), hit):
                held = True
                self.set_loc(st, loc, subst(v, f))
        for a in list(st.facts):
            if mentions(a, ('age', src), hit):
                d = st.facts.pop(a)
                if held:
                    st.facts[subst(a, f)] = d

    def array_map_body(self, c):
        """Synthetic body of `[x_0, ..].map(f)`: [f(x_0), ..], in order."""
        n = (c.callee.get('cargs') or [None])[0]
        ta = c.callee.get('targs') or []
        if not isinstance(n, int) or n > 16 or len(ta) != 3 or not all(isinstance(t, int) for t in ta):
            raise Unsupported('array map')
        T = self.p.types
        k = '$map:%s %d' % (c.callee.get('key') or c.callee.get('full'), n)
        if k in self.p.fns:
            return k
        tt, ft, ut = ta
        f = T[ft]
        cal = {'path': 'std::ops::FnMut::call_mut', 'name': 'call_mut', 'targs': [], 'kind': 'unresolved'}
        if f['k'] == 'closure':
            cal = dict(cal, kind='item', key=f.get('fn'))
        elif f['k'] == 'fndef':
            cal = dict(cal, kind='item')
        elif f['k'] != 'param':
            raise Unsupported('array map over ' + f['k'])

        def add(t):
            T.append(t)
            return len(T) - 1
        unit = add({'s': '()', 'k': 'tuple', 'elems': []})
        fd = add({'s': 'fndef', 'k': 'fndef', 'callee': cal})
        arr = add({'s': '[T; N]', 'k': 'array', 'elem': tt, 'len': n})
        out = add({'s': '[U; N]', 'k': 'array', 'elem': ut, 'len': n})
        tup = add({'s': '(T,)', 'k': 'tuple', 'elems': [tt]})
        rf = add({'s': '&mut F', 'k': 'ref', 'elem': ft})
        blocks = []
        for i in range(n):
            blocks.append({'s': [['=', [3, []], ['agg', 'tuple', tup, 0, [['c', [1, [['c', i, n, False]]]]]], 0],
                                 ['=', [4, []], ['ref', [2, []]], 0]],
                           't': ['call', ['k', fd, ['zst']], [['c', [4, []]], ['c', [3, []]]], [5 + i, []], i + 1], 'l': 0})
        blocks.append({'s': [['=', [0, []], ['agg', 'array', out, 0, [['c', [5 + i, []]] for i in range(n)]], 0]],
                       't': ['ret'], 'l': 0})
        self.p.fns[k] = {'key': k, 'path': '$map', 'local': False, 'args': 2, 'dkind': 'Fn',
                         'locals': [out, arr, ft, tup, rf] + [ut] * n, 'names': [], 'blocks': blocks}
        return k

    def extend_body(self, c):
        """Synthetic body of `vec.extend(iter)`: for x in iter { vec.push(x) }."""
        ic, nc = c.callee.get('icallee'), c.callee.get('ncallee')
        if not ic or not nc:
            raise Unsupported('extend')
        k = '$extend:' + str(c.callee.get('full') or c.path) + str(c.callee.get('targs'))
        if k in self.p.fns:
            return k
        T = self.p.types

        def fndef(callee):
            T.append({'s': 'fndef', 'k': 'fndef', 'callee': callee})
            return len(T) - 1
        T.append({'s': '()', 'k': 'tuple', 'elems': []})
        unit = len(T) - 1
        T.append({'s': 'std::option::Option<X>', 'k': 'adt', 'path': 'std::option::Option', 'akind': 'enum',
                  'local': False, 'targs': [],
                  'variants': [{'name': 'None', 'discr': 0, 'fields': []},
                               {'name': 'Some', 'discr': 1, 'fields': [['0', unit]]}]})
        opt = len(T) - 1
        T.append({'s': '&mut It', 'k': 'ref', 'elem': unit})
        rf = len(T) - 1
        T.append({'s': 'It', 'k': 'opaque'})
        itt = len(T) - 1
        for x in (ic, nc):
            for n in ('path', 'rpath'):
                if n in x:
                    from prog import norm
                    x[n] = norm(x[n])
        # was the item a reference (Extend<&T>)?
        byref = '&' in c.path.split('Extend')[-1]
        push = {'path': 'std::vec::Vec::<T, A>::push', 'kind': 'item', 'name': 'push',
                'targs': [t for t in (c.callee.get('cargs') or []) + (c.callee.get('targs') or [])
                          if isinstance(t, int) and T[t]['s'] == 'u8'][:1] or c.callee.get('targs', [])[:1]}
        x = ['c', [4, [['d', 1], ['f', 0, unit]]]]
        if byref:
            x = ['c', [4, [['d', 1], ['f', 0, rf], '*']]]
        blocks = [
            {'s': [], 't': ['call', ['k', fndef(ic), ['zst']], [['m', [2, []]]], [3, []], 1], 'l': 0},
            {'s': [['=', [5, []], ['ref', [3, []]], 0]],
             't': ['call', ['k', fndef(nc), ['zst']], [['c', [5, []]]], [4, []], 2], 'l': 0},
            {'s': [['=', [6, []], ['discr', [4, []], opt], 0]],
             't': ['switch', ['c', [6, []]], [[0, 4]], 3, None], 'l': 0},
            {'s': [], 't': ['call', ['k', fndef(push), ['zst']], [['c', [1, []]], x], [7, []], 1], 'l': 0},
            {'s': [['=', [0, []], ['agg', 'tuple', unit, 0, []], 0]], 't': ['ret'], 'l': 0},
        ]
        self.p.fns[k] = {'key': k, 'path': '$extend', 'local': False, 'args': 2, 'dkind': 'Fn',
                         'locals': [unit, rf, itt, itt, opt, rf, unit, unit], 'names': [], 'blocks': blocks}
        return k

    def recursive(self, st, c):
        """A recursive call: by induction it has the effect under analysis;
        record it as one unit on the buffer it is given."""
        bufs = []
        for a in c.args:
            if a[0] == 'ref':
                try:
                    v = self.read(st, a[1], a[2])
                except Unsupported:
                    continue
                if v[0] == 'pieces':
                    bufs.append((a, v))
        vals = []
        for a in c.args:
            if any(a is b for b, _ in bufs):
                continue
            vals.append(a)
        vals = self.shown(st, vals)
        if len(bufs) > 1:
            raise Unsupported('recursion over several buffers')
        if bufs:
            a, v = bufs[0]
            self.vec_update(st, a[1], a[2], ('rec', canon(c.path), tuple(vals)))
            return UNIT
        muts = []
        fn = self.p.fns.get(c.callee.get('key')) or {}
        ls = fn.get('locals') or []
        for i, a in enumerate(c.args):
            self.mut_places(st, a, ls[i + 1] if i + 1 < len(ls) else None, muts, 0)
        if muts:
            rv = self.havoc(st, 'rec ' + canon(c.path), self.fprint(self.held(st, canon(c.path), tuple(vals), muts)), muts)
            return ('call', canon(c.path), rv)
        self.emit(('rec', canon(c.path), tuple(vals)))
        return ('call', canon(c.path), tuple(vals))

    def deepval(self, st, v, d=0):
        if d > 6:
            return v
        if v[0] == 'ref':
            try:
                return self.deepval(st, self.read(st, v[1], v[2]), d + 1)
            except Unsupported:
                return v
        if v[0] == 'agg':
            return ('agg', v[1], tuple(self.deepval(st, x, d + 1) for x in v[2]))
        if v[0] == 'upd':
            return ('upd', v[1], tuple((s, self.deepval(st, x, d + 1)) for s, x in v[2]))
        return v

    def shown(self, st, args):
        """The arguments of an unknown call by value, with what earlier writes left in the
        memory they lead to."""
        av = tuple(self.deepval(st, a) for a in args)
        if not st.heap:
            return av
        ptrs = set()
        for a in args:
            for x in walk(a):
                if x[0] in ('sym', 'fld', 'call', 'it', 'idx', 'itref', 'addr', 'deref', 'phi'):
                    ptrs.add(x)
        now = []
        for root, v in st.heap.items():
            t = root[1]
            if root[0] != 'P' or v == ('deref', t):
                continue
            if t in ptrs or any(x in ptrs for x in walk(t)):
                now.append((root, self.deepval(st, v)))
        if not now:
            return av
        return av + (('now', tuple(sorted(now, key=lambda x: repr(x[0])))),)

    def is_scalar(self, tyid):
        t = self.p.types[tyid]
        if t['k'] in ('int', 'uint', 'bool', 'char'):
            return True
        return t['k'] == 'adt' and t['akind'] == 'enum' and \
            all(self.is_scalar(f[1]) for v in t['variants'] for f in v['fields'])

    def scalar_call(self, key, args, st):
        """Calls of pure functions on one small value become lookup tables."""
        fn = self.p.fns[key]
        clos = fn.get('dkind') == 'Closure'
        if clos:
            if fn['args'] != 2 or len(args) != 2:
                return None
            ct = self.p.types[fn['locals'][1]]
            if ct['k'] in ('ref',):
                ct = self.p.types[ct['elem']]
            if ct['k'] != 'closure' or ct['upvars']:
                return None
            arg = args[1]
            if arg[0] == 'agg' and len(arg[2]) == 1:
                arg = arg[2][0]
            pi = 2
        else:
            if fn['args'] != 1 or len(args) != 1:
                return None
            arg = args[0]
            pi = 1
        pt = self.p.types[fn['locals'][pi]]
        byref = pt['k'] == 'ref'
        if byref:
            if not self.is_scalar(pt['elem']) or '&mut' in pt['s']:
                return None
        elif not self.is_scalar(fn['locals'][pi]):
            return None
        rt = self.p.types[fn['locals'][0]]
        if rt['k'] not in ('int', 'uint', 'bool', 'char'):
            return None
        cache = self.p.__dict__.setdefault('_scalar', {})
        par = ('sym', '@%d:%s' % (pi, key))
        sym = ('deref', par) if byref else par
        if key not in cache:
            cache[key] = None
            if len(fn['blocks']) < 200:
                e = Engine(self.p, self.models, {})
                e.max_steps = 4000
                try:
                    root, nodes = e.analyse(key, [None] * (pi - 1) + [e.opaque(par, fn['locals'][pi])])
                    if not nodes:
                        cache[key] = self.scalar_tbl(root, sym) or self.scalar_tree(root)
                except Unsupported:
                    pass
        t = cache[key]
        if t is None:
            return None
        if byref:
            r, p = self.deref(st, arg)
            arg = self.read(st, r, p)
        if t[0] == 'tbl':
            a = small_atom(arg)
            if a is None:
                return None
            for v in (iv_vals(iv_full(TYOF[a])) if a is not False else (None,)):
                n = ev(arg, a, v)
                if n is None or not 0 <= n < len(t[1]) or t[1][n] is None:
                    return None
            if a is False:
                return ('int', t[1][ev(arg, None, None)])
            return set_ty(('lut', tuple(x or 0 for x in t[1]), arg), rt['s'])
        self._scsym = sym
        return self.scalar_apply(t, arg, rt['s'])

    def scalar_tbl(self, root, sym):
        """Function of one byte, tabulated (None where it panics)."""
        ty = TYOF.get(sym)
        if not ty or BITS[ty] > 8 or INT_RANGE[ty][0] < 0:
            return None
        tbl = []
        for v in range(INT_RANGE[ty][1] + 1):
            t = root
            while True:
                if t[1]:
                    return None
                end = t[2]
                if end[0] == 'panic':
                    tbl.append(None)
                    break
                if end[0] == 'ret':
                    if end[2] or small_atom(end[1]) not in (False, sym):
                        return None
                    tbl.append(ev(end[1], sym, v))
                    break
                if end[0] != 'branch' or small_atom(end[1]) != sym:
                    return None
                x = ev(end[1], sym, v)
                for d, k in end[2]:
                    if iv_inter(d, ((x, x),)):
                        t = k
                        break
                else:
                    return None
        return ('tbl', tuple(tbl))

    def scalar_tree(self, t):
        """effect tree -> ('int', n) | ('ite', atom, ((dom, sub), ..)) or None."""
        if t[1]:
            return None
        end = t[2]
        if end[0] == 'ret' and end[1][0] == 'int' and not end[2]:
            return end[1]
        if end[0] == 'branch' and (small_atom(end[1]) not in (None, False) or end[1][0] == 'discr'):
            arms = []
            for d, k in end[2]:
                x = self.scalar_tree(k)
                if x is None:
                    return None
                arms.append((d, x))
            return ('ite', end[1], tuple(arms))
        return None

    def scalar_apply(self, t, arg, rty):
        if t[0] == 'int':
            return t
        atom = self.reproj(t[1], arg)
        if atom[0] == 'int':
            for d, k in t[2]:
                if iv_inter(d, ((atom[1], atom[1]),)):
                    return self.scalar_apply(k, arg, rty)
            return None
        if all(k[0] == 'int' for _, k in t[2]):
            sa = small_atom(atom)
            if sa not in (None, False):
                n = max(d[-1][1] for d, _ in t[2])
                if t[2][0][0][0][0] >= 0 and n < 256:
                    tbl = [None] * (n + 1)
                    for d, k in t[2]:
                        for v in iv_vals(d):
                            tbl[v] = k[1]
                    if None not in tbl or atom[0] == 'discr':
                        fill = next(x for x in tbl if x is not None)
                        return set_ty(('lut', tuple(fill if x is None else x for x in tbl), atom), rty)
        arms = []
        for d, k in t[2]:
            x = self.scalar_apply(k, arg, rty)
            if x is None:
                return None
            arms.append((d, x))
        return set_ty(('ite', atom, tuple(arms)), rty)

    def reproj(self, t, arg):
        """A term over the parameter, re-evaluated on the argument."""
        if t == self._scsym:
            return arg
        if t[0] == 'fld':
            b = self.reproj(t[3], arg)
            if b[0] == 'agg':
                return b[2][int(t[2])] if t[2].isdigit() and int(t[2]) < len(b[2]) else ('fld', t[1], t[2], b)
            r = ('fld', t[1], t[2], b)
            if t in TYOF:
                set_ty(r, TYOF[t])
            return r
        if t[0] == 'discr':
            b = self.reproj(t[1], arg)
            if b[0] == 'agg':
                return ('int', DISCR[t][b[1]] if t in DISCR and b[1] < len(DISCR[t]) else b[1])
            r = ('discr', b)
            if t in DISCR:
                DISCR[r] = DISCR[t]
            if t in TYOF:
                set_ty(r, TYOF[t])
            return r
        return subst(t, lambda x: arg if x == self._scsym else None)

    PURE = {'char::is_ascii_alphanumeric', 'std::io::Cursor::<T>::new', 'std::io::Cursor::<T>::position',
            'char::encode_utf16', 'fnptr'}

    def opaque_call(self, st, c):
        """A call we have no body or model for: its results, and what it leaves
        in everything it gets by `&mut`, are unknown functions of its arguments;
        it may have effects of its own, so it is logged."""
        self.opaque_calls[c.path] = self.opaque_calls.get(c.path, 0) + 1
        tys = c.tys if c.tys is not None and len(c.tys) == len(c.args) else [None] * len(c.args)
        muts = []
        for i, a in enumerate(c.args):
            if tys[i] is not None and self.has_closure(tys[i]):
                raise Unsupported('opaque call of %s with a closure' % c.path)
            self.mut_places(st, a, tys[i], muts, 0)
        if canon(c.path) in self.PURE and not muts:
            return ('call', c.path, tuple(self.pointee(st, a) for a in c.args))
        av = self.fprint(self.held(st, c.path, self.shown(st, c.args), muts))
        rv = self.havoc(st, c.path, av, muts)
        return ('call', c.path, rv)

    NAMES = ('phi', 'it', 'itref', 'pos', 'loc', 'new', 'prev', 'bufmark', 'here')

    def fprint(self, av):
        """Arguments of an unknown call, by value; large closed parts by fingerprint."""
        memo = self._fpmemo

        def go(x):
            # -> (term, size, names)
            r = memo.get(id(x))
            if r is not None and r[0] is x:
                return r[1]
            if not isinstance(x, tuple):
                out = (x, 1, False)
            else:
                n, nm, ys = 1, False, []
                for y in x:
                    y, m, q = go(y)
                    ys.append(y)
                    n += m
                    nm = nm or q
                y = tuple(ys)
                if x and isinstance(x[0], str):
                    if x[0] in self.NAMES and len(x) > 1 and x != ('new', 0):
                        out = (x, n, True)
                    elif n > 60 and not nm:
                        h = hashlib.md5(repr(y).encode()).hexdigest()
                        FPRINT[h] = y
                        out = (('av', h), 3, False)
                    else:
                        out = (y, n, nm)
                else:
                    out = (y, n, nm)
            memo[id(x)] = (x, out)
            return out
        t, n, nm = go(av)
        if n > 30000:
            raise Unsupported('opaque call: large arguments')
        return t

    def held(self, st, path, av, muts):
        """Buffers an unknown call is shown: what they hold is the history of effects on
        them, so it is enough to record the moment in that history."""
        mine = []
        for kind, root, pa, ty in muts:
            if kind == 'vec':
                mine.append(origin(pieces_of(self.read(st, root, pa))))
        seen = []

        def f(x):
            if x[0] == 'pieces' and x[1] and st.cur.get(x[1][0]) == x:
                if x[1][0] not in mine and x[1][0] not in seen:
                    seen.append(x[1][0])
                return ('held', x[1][0])
            return None
        if any(x[0] == 'pieces' for x in walk(av)):
            av = subst(av, f)
        for o in seen:
            self.emit(('app', o, ('seen', path)))
        return av

    def havoc(self, st, path, av, muts):
        """The effects of an unknown call; returns what its results depend on: its
        arguments and how far each buffer it can see has got."""
        self.emit(('ocall', path, av))
        ver = []
        for kind, root, pa, ty in muts:
            if kind == 'vec':
                ps = pieces_of(self.read(st, root, pa))[1]
                ver.append(('ver', ps[:2], len(ps)))
        rv = self.fprint((av, tuple(ver))) if ver else av
        seen = []
        for n, (kind, root, pa, ty) in enumerate(muts):
            if (root, pa) in seen or root[0] == 'K':
                continue  # constants are not written
            seen.append((root, pa))
            if kind == 'vec':
                self.vec_update(st, root, pa, ('ocall', path, n, av))
            else:
                v = ('call', path + '!%d' % n, rv)
                t = self.p.types[ty] if ty is not None else None
                if t is not None and t['k'] in ('int', 'uint', 'bool', 'char'):
                    set_ty(v, t['s'])
                self.write(st, root, pa, v)
        return rv

    def has_mut(self, ty, seen=()):
        """May a value of this type hold a mutable reference?"""
        if ty in seen:
            return False
        c = self._hasmut.get(ty)
        if c is None:
            t = self.p.types[ty]
            seen = seen + (ty,)
            k = t['k']
            if k in ('ref', 'ptr'):
                c = bool(t.get('mut')) or self.has_mut(t['elem'], seen)
            elif k == 'closure':
                c = any(self.has_mut(x, seen) for x in t['upvars'])
            elif k == 'tuple':
                c = any(self.has_mut(x, seen) for x in t['elems'])
            elif k == 'adt':
                sub = list(t.get('targs') or ())
                if t.get('local') or t['path'].startswith('std::option'):
                    sub += [f[1] for v in t['variants'] for f in v['fields']]
                c = any(isinstance(x, int) and self.has_mut(x, seen) for x in sub)
            elif 'elem' in t:
                c = self.has_mut(t['elem'], seen)
            else:
                c = k in ('dyn', 'fnptr')
            if len(seen) == 1:
                self._hasmut[ty] = c
        return c

    def has_closure(self, ty, seen=()):
        t = self.p.types[ty]
        if t['k'] == 'closure' or (t['k'] == 'fndef' and not t.get('callee', {}).get('key')):
            return True
        if ty in seen or len(seen) > 8:
            return False
        seen = seen + (ty,)
        sub = list(t.get('targs') or ()) + list(t.get('elems') or ())
        if isinstance(t.get('elem'), int):
            sub.append(t['elem'])
        return any(isinstance(x, int) and self.has_closure(x, seen) for x in sub)

    def mut_places(self, st, a, ty, out, d):
        """The places a call can write through the value `a` of type `ty`."""
        if d > 12:
            raise Unsupported('opaque call: deep argument')
        t = self.p.types[ty] if ty is not None else None
        if t is None:
            if a[0] == 'ref':
                v = self.read(st, a[1], a[2])
                out.append(('vec' if v[0] == 'pieces' else 'leaf', a[1], a[2], None))
                self.mut_places(st, v, None, out, d + 1)
            else:
                for x in a[1:]:
                    if isinstance(x, tuple) and x and isinstance(x[0], str):
                        self.mut_places(st, x, None, out, d + 1)
                    elif isinstance(x, tuple):
                        for y in x:
                            if isinstance(y, tuple) and y and isinstance(y[0], str):
                                self.mut_places(st, y, None, out, d + 1)
            return
        k = t['k']
        if k == 'ref':
            if t.get('mut'):
                r, p, _ = self.target_of(st, a)
                self.mut_targets(st, r, p, t['elem'], out, d + 1)
            elif a[0] == 'clptr':
                self.mut_places(st, a, None, out, d + 1)
            return
        if k not in ('adt', 'tuple', 'closure') and a[0] in ('agg', 'ref', 'clptr', 'iter'):
            # a value whose type the body does not know
            return self.mut_places(st, a, None, out, d + 1)
        if not self.has_mut(ty):
            return
        if k in ('adt', 'tuple', 'closure'):
            if a[0] not in ('agg', 'upd', 'fld', 'sym', 'call', 'it', 'idx'):
                raise Unsupported('opaque call: %s as %s' % (t['s'], a[0]))
            if a[0] == 'agg' and len(a[2]) != len(t['elems'] if k == 'tuple' else t['upvars'] if k == 'closure' else
                                               t['variants'][a[1]]['fields'] if a[1] < len(t['variants']) else ()):
                raise Unsupported('opaque call: %s' % t['s'])
        if k == 'adt' and a[0] != 'agg' and t['akind'] != 'struct':
            raise Unsupported('opaque call: %s' % t['s'])
        if k == 'adt' and not t.get('local') and a[0] != 'agg':
            raise Unsupported('opaque call: %s' % t['s'])
        if k == 'adt' and a[0] == 'agg':
            vs = t['variants']
            sub = [(x, f[1]) for x, f in zip(a[2], vs[a[1]]['fields'])] if a[1] < len(vs) else [(x, None) for x in a[2]]
        elif k == 'adt':
            sub = [(self.proj(st, a, ('f', i, f[0], None)), f[1]) for i, f in enumerate(t['variants'][0]['fields'])]
        elif k in ('tuple', 'closure'):
            sub = [(self.proj(st, a, ('f', i, str(i), None)), f) for i, f in enumerate(t['elems' if k == 'tuple' else 'upvars'])]
        else:
            raise Unsupported('opaque call: %s' % t['s'])
        for x, f in sub:
            self.mut_places(st, x, f, out, d + 1)

    def target_of(self, st, a):
        if a[0] == 'ref':
            return a[1], a[2], None
        return ('P', a), (), None

    def mut_targets(self, st, r, p, ty, out, d):
        """Everything reachable for writing at a place."""
        t = self.p.types[ty]
        if d > 12:
            raise Unsupported('opaque call: deep argument')
        if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'alloc::vec::Vec'):
            out.append(('vec', r, p, ty))
            if self.has_mut(ty):
                raise Unsupported('opaque call: %s' % t['s'])
            return
        if t['k'] == 'ref' and t.get('mut'):
            # what is borrowed stays borrowed; what it points to may change
            r2, p2, _ = self.target_of(st, self.read(st, r, p))
            return self.mut_targets(st, r2, p2, t['elem'], out, d + 1)
        if t['k'] == 'adt' and t['akind'] == 'struct' and t.get('local'):
            for i, f in enumerate(t['variants'][0]['fields']):
                self.mut_targets(st, r, p + (('f', i, f[0], None),), f[1], out, d + 1)
            return
        if t['k'] == 'tuple':
            for i, f in enumerate(t['elems']):
                self.mut_targets(st, r, p + (('f', i, str(i), None),), f, out, d + 1)
            return
        if t['k'] in ('param', 'alias', 'opaque') or self.has_mut(ty):
            v = self.read(st, r, p)
            if v[0] == 'pieces':
                out.append(('vec', r, p, None))
            elif v[0] == 'agg':
                out.append(('leaf', r, p, None))
                self.mut_places(st, v, None, out, d + 1)
            elif self.has_mut(ty):
                raise Unsupported('opaque call: %s' % t['s'])
            else:
                out.append(('leaf', r, p, ty))
            return
        out.append(('leaf', r, p, ty))

    def pointee(self, st, a):
        """What a (possibly reference) argument denotes, by value."""
        if a[0] == 'ref':
            v = self.read(st, a[1], a[2])
            if v[0] in ('ref',):
                return self.pointee(st, v)
            return v
        return a


def a_small(i):
    a = small_atom(strip_widen(i))
    return a not in (None, False)


class Call:
    __slots__ = ('eng', 'st', 'callee', 'args', 'path', 'dest', 'target', 'tys')

    def __init__(self, eng, st, callee, args, path):
        self.eng = eng
        self.st = st
        self.callee = callee
        self.args = args
        self.path = path
        self.dest = None
        self.target = None
        self.tys = None

    def targ(self, i):
        ts = self.callee.get('targs') or []
        return self.eng.p.types[ts[i]] if i < len(ts) else None
