"""Equivalence of two effect summaries (trees with loops).

Both summaries are walked in lock step.  A branch on either side splits the
facts; each side then follows the arm the facts select, so the order and the
nesting of tests do not matter.  Effects are compared per sink (effects on
different buffers commute), byte by byte, so how a string is cut into writes
does not matter.  Loops are closed coinductively; loop variables and fresh
buffers are matched up to renaming.
"""
from terms import *
import sys, time

sys.setrecursionlimit(200000)


class Mismatch(Exception):
    def __init__(self, msg, path):
        Exception.__init__(self, msg)
        self.msg = msg
        self.path = path


class NewHyp(Exception):
    pass


class NeedSplit(Exception):
    def __init__(self, atom, parts):
        self.atom = atom
        self.parts = parts


def renamable(x):
    return x[0] == 'phi' or (x[0] == 'new' and (isinstance(x[1], int) or isinstance(x[1], str)))


def subst_tree(t, f):
    """Apply a renaming everywhere in a tree."""
    memo = {}

    def go(x):
        if not isinstance(x, tuple):
            return x
        k = id(x)
        r = memo.get(k)
        if r is not None:
            return r[0]
        if x and isinstance(x[0], str):
            y = f(x)
            if y is not None:
                memo[k] = (y, x)
                return y
        y = tuple(go(z) for z in x)
        if y == x:
            y = x
        elif x in TYOF:
            set_ty(y, TYOF[x])
            if x in DISCR:
                DISCR[y] = DISCR[x]
        memo[k] = (y, x)
        return y
    return go(t)


def f_inter_set(a, b):
    out = []
    for lo, lop, hi, hop in a[1]:
        for l2, lo2, h2, ho2 in b[1]:
            x, xo = max((lo, lop), (l2, lo2))
            y, yo = min((hi, -hop), (h2, -ho2))
            yo = -yo
            if x < y or (x == y and not xo and not yo):
                out.append((x, xo, y, yo))
    return ('fset', tuple(out), a[2] and b[2])


def dom_inter(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if (a and a[0] == 'fset') != (b and b[0] == 'fset'):
        return a
    if a and a[0] == 'fset':
        return f_inter_set(a, b)
    return iv_inter(a, b)


def dom_empty(d):
    if d and d[0] == 'fset':
        return f_empty(d)
    return not d


class Side:
    __slots__ = ('tree', 'i', 'env')

    def __init__(self, tree, i, env):
        self.tree = tree
        self.i = i
        self.env = env


def sink_of(e):
    k = e[0]
    if k == 'patch' and e[2][0] == 'i' and e[2][1][0] == 'int':
        return ('v', e[1], e[2][1][1])
    if k in ('app', 'patch', 'clear', 'pop', 'truncate'):
        return ('v', e[1])
    if k in ('prim', 'open', 'close', 'key', 'slot', 'start', 'operator', 'indirect', 'raw', 'val'):
        return ('s', e[1])
    if k == 'cb':
        return ('cb',)
    return ('x', k)


def atoms_of(e):
    """Event -> comparable units."""
    if e[0] == 'app':
        pc = e[2]
        if pc[0] == 'b':
            return [('b', x) for x in pc[1]]
        if pc[0] == 'one' and pc[1][0] == 'int' and pc[2] and 0 <= pc[1][1] < 256:
            return [('b', pc[1][1])]
        return [('a', pc)]
    if e[0] == 'raw':
        v = e[3]
        if e[2] in ('extend', 'push'):
            if v[0] == 'bytes':
                return [('b', x) for x in v[1]]
            if v[0] == 'int':
                return [('b', v[1])]
            if v[0] == 'arr':
                return [('b', x[1]) if x[0] == 'int' else ('r', 'push', x) for x in v[1]]
        return [('r', e[2], v)]
    return [(e[0],) + tuple(e[2:] if sink_of(e)[0] in 'vs' and e[0] != 'cb' else e[1:])]


class Equiv:
    def __init__(self, a, b, maxpairs=60000):
        self.ra, self.na = a
        self.rb, self.nb = b
        # local names of the two sides are kept apart
        def pr(x):
            if not renamable(x):
                return None
            return (x[0], str(x[1]) + "'") + tuple(subst_tree(z, pr) if isinstance(z, tuple) else z for z in x[2:])
        self.rb = subst_tree(self.rb, pr)
        self.nb = {n: subst_tree(t, pr) for n, t in self.nb.items()}
        self.fixed = False
        self.hyp = {}           # B renamable -> A renamable
        self.guesses = []
        self.banned = set()
        self.maxpairs = maxpairs
        self._ment = {}
        self._live = {}
        self.deadline = None

    def identity(self):
        """Loop variables that carry the same name on both sides."""
        na, nb = set(), set()
        for nodes, root, out in ((self.na, self.ra, na), (self.nb, self.rb, nb)):
            seen = set()
            st = [root] + list(nodes.values())
            while st:
                t = st.pop()
                if not isinstance(t, tuple) or id(t) in seen:
                    continue
                seen.add(id(t))
                if t and isinstance(t[0], str) and len(t) > 1 and renamable(t):
                    out.add(t)
                st.extend(t)

        def back(x):
            if not renamable(x):
                return None
            n = str(x[1])[:-1]
            return (x[0], n if x[0] == 'phi' or not n.isdigit() else int(n)) + \
                tuple(subst_tree(z, back) if isinstance(z, tuple) else z for z in x[2:])
        return {b: back(b) for b in nb if back(b) in na}

    def by_name(self):
        """Compare with loop variables matched by name."""
        self.fixed = True
        self.hyp = self.identity()
        self.memo = set()
        self._ment = {}
        self.n = 0
        try:
            self.pair(self.ra, 0, {}, self.rb, 0, {}, {}, {}, {}, ())
            return None
        except Mismatch as m:
            return m

    def run(self):
        first = None
        self.fixed = False
        self.hyp = {}
        self.guesses = []
        for _ in range(80):
            self.memo = set()
            self._ment = {}
            self.n = 0
            try:
                self.pair(self.ra, 0, {}, self.rb, 0, {}, {}, {}, {}, ())
                return None
            except NewHyp:
                continue
            except Mismatch as m:
                first = first or m
                if self.deadline and time.time() > self.deadline:
                    return first
                if not self.guesses:
                    return first
                g = self.guesses.pop()
                self.banned.add((tuple(self.guesses), g))
                self.hyp = {}
                for x in self.guesses:
                    self.hyp.update(x)
        return first or Mismatch('loop variables cannot be matched', ())

    # ---- naming
    def tr(self, t):
        """B term in A's names."""
        if not self.hyp:
            return t
        f = lambda x: self.hyp.get(x) if x[0] in ('phi', 'new') else None
        while True:
            # (a name may contain another one)
            r = subst(t, f)
            if r == t:
                return r
            t = r

    def same(self, a, b, learn=True):
        b2 = self.tr(b)
        if a == b2:
            return True
        if not learn or self.fixed:
            return False
        new = {}
        if self.unify(a, b2, new):
            if new:
                used = set(self.hyp.values())
                for k, v in new.items():
                    if v in used or k in self.hyp:
                        return False
                if len(set(new.values())) != len(new):
                    return False
                g = tuple(sorted(new.items(), key=repr))
                if (tuple(self.guesses), g) in self.banned:
                    return False
                self.guesses.append(g)
                self.hyp.update(new)
                raise NewHyp()
            return True
        return False

    def unify(self, a, b, new):
        if a == b:
            # identical names are fine unless they are local names of B
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple):
            return False
        if a and b and isinstance(a[0], str) and isinstance(b[0], str) and renamable(a) and renamable(b) and a[0] == b[0]:
            if b in self.hyp.values() or not str(b[1]).endswith("'") or str(a[1]).endswith("'"):
                return False
            if b in new:
                return new[b] == a
            new[b] = a
            return True
        if len(a) != len(b):
            return False
        return all(self.unify(x, y, new) for x, y in zip(a, b))

    # ---- facts
    def restrict(self, facts, posa, posb):
        rel = self.mention(posa, self.na, 'a') | self.mention(posb, self.nb, 'b')
        return tuple(sorted(((k, v) for k, v in facts.items() if k in rel), key=repr))

    def mention(self, pos, nodes, side):
        """Branch atoms live at a position (in the side's own names)."""
        live = self._live.get(side)
        if live is None:
            live = self.liveness(nodes)
            self._live[side] = live
        k = (id(pos), side)
        r = self._ment.get(k)
        if r is None:
            out = self.live_tree(pos, live)
            if side == 'b':
                out = {self.tr(x) for x in out}
            r = (out, pos)
            self._ment[k] = r
        return r[0]

    def liveness(self, nodes):
        live = {n: frozenset() for n in nodes}
        ch = True
        while ch:
            ch = False
            for n, t in nodes.items():
                x = self.live_tree(t, live)
                if x != live[n]:
                    live[n] = x
                    ch = True
        return live

    def live_tree(self, t, live):
        if t[0] == 'seq':
            return self.live_tree(t[2], live)
        if t[0] == 'branch':
            out = {t[1]}
            for _, kid in t[2]:
                out |= self.live_tree(kid, live)
            return frozenset(out)
        if t[0] == 'goto':
            ch = {ph for ph, old in t[2] if ph != old}
            l = live.get(t[1], frozenset())
            if ch:
                l = frozenset(a for a in l if not any(x in ch for x in walk(a)))
            return l
        if t[0] == 'read':
            src = t[1]
            it = (('it', src), ('pos', src))
            out = set()
            for a in self.live_tree(t[2], live) | self.live_tree(t[3], live):
                b = subst(a, lambda x: x[1] if x[0] == 'prev' and x[1] in it else (('dead',) if x in it else None))
                if not any(x[0] == 'dead' for x in walk(b)):
                    out.add(b)
            return frozenset(out)
        return frozenset()

    def age(self, facts, src):
        old = (('it', src), ('pos', src))
        if not any(mentions(a, ('age', src), lambda x: x in old or x == ('itref', src)) for a in facts):
            return facts
        out = {}
        for a, d in facts.items():
            if mentions(a, ('age', src), lambda x: x in old or x == ('itref', src)):
                a2 = subst(a, lambda x: ('prev', x) if x in old else None)
                if len(repr(a2)) < 4000 and repr(a2).count("'prev'") < 4:
                    out[a2] = d
            else:
                out[a] = d
        return out

    # ---- the walk
    def pair(self, ta, ia, enva, tb, ib, envb, facts, pa, pb, path):
        """ta/tb: seq trees; ia/ib: next event index; pa/pb: unmatched units per sink."""
        while True:
            self.n += 1
            if self.n > self.maxpairs or self.deadline and self.n % 64 == 0 and time.time() > self.deadline:
                self.deadline = self.deadline and 1
                raise Mismatch('comparison too large', path)
            # collect events
            pa, pb = dict(pa), dict(pb)
            if ia == 0:
                for e in ta[1]:
                    s = sink_of(e)
                    pa[s] = pa.get(s, ()) + tuple(atoms_of(e))
                ia = 1
            if ib == 0:
                for e in tb[1]:
                    s = self.tr(sink_of(e))
                    pb[s] = pb.get(s, ()) + tuple(atoms_of(e))
                ib = 1
            try:
                self.cancel(pa, pb, facts, path)
                if ta[2][0] == 'ret' and tb[2][0] == 'ret':
                    self.ends(ta[2], tb[2], pa, pb, facts, path)
                    return
            except NeedSplit as ns:
                for d in ns.parts:
                    f2 = dict(facts)
                    f2[ns.atom] = d
                    self.pair(ta, 1, enva, tb, 1, envb, f2, pa, pb, path + ((ns.atom, d),))
                return
            ea, eb = ta[2], tb[2]
            if ea[0] == 'div' or eb[0] == 'div':
                return
            # a branch decided by the facts?
            if ea[0] == 'branch':
                arms = self.arms(ea, facts, False)
                if len(arms) == 1 and arms[0][2]:
                    ta, ia = arms[0][1], 0
                    continue
            if eb[0] == 'branch':
                armb = self.arms(eb, facts, True)
                if len(armb) == 1 and armb[0][2]:
                    tb, ib = armb[0][1], 0
                    continue
            if ea[0] == 'branch' and eb[0] == 'branch':
                # may teach us the matching of loop variables
                self.same(ea[1], eb[1]) if self.has_local(ea[1]) or self.has_local(eb[1]) else None
            if ea[0] == 'branch':
                for d, kid, _ in arms:
                    f2 = dict(facts)
                    f2[ea[1]] = d
                    if not self.consistent(f2, ea[1], d):
                        continue
                    self.pair(kid, 0, enva, tb, ib, envb, f2, pa, pb, path + ((ea[1], d),))
                return
            if eb[0] == 'branch':
                at = self.tr(eb[1])
                for d, kid, _ in armb:
                    f2 = dict(facts)
                    f2[at] = d
                    if not self.consistent(f2, at, d):
                        continue
                    self.pair(ta, ia, enva, kid, 0, envb, f2, pa, pb, path + ((at, d),))
                return
            # loop heads
            if ea[0] == 'goto':
                # memoise here
                pos_b = tb
                env2, facts = self.bind(enva, ea, facts)
                k = (ea[1], id(tb), frozenset(pa.items()), frozenset(pb.items()))
                nt = self.na[ea[1]]
                fr = self.restrict(facts, nt, eb if eb[0] != 'seq' else eb)
                # hypothesised loop variables must have equal values
                if eb[0] == 'goto':
                    envb2, _ = self.bind(envb, eb, {}, True)
                    self.check_env(env2, envb2, path)
                    k = (ea[1], ('g', eb[1]), frozenset(pa.items()), frozenset(pb.items()))
                    if (k, fr) in self.memo:
                        return
                    self.memo.add((k, fr))
                    ta, ia, enva = nt, 0, env2
                    tb, ib, envb = self.nb[eb[1]], 0, envb2
                    continue
                if (k, fr) in self.memo:
                    return
                self.memo.add((k, fr))
                path = self.alone(path, 'a', ea[1], id(tb))
                ta, ia, enva = nt, 0, env2
                continue
            if eb[0] == 'goto':
                envb, _ = self.bind(envb, eb, {}, True)
                k = (id(ta), ('g', eb[1]), frozenset(pa.items()), frozenset(pb.items()))
                nt = self.nb[eb[1]]
                fr = self.restrict(facts, ea, nt)
                if (k, fr) in self.memo:
                    return
                self.memo.add((k, fr))
                path = self.alone(path, 'b', eb[1], id(ta))
                tb, ib = nt, 0
                continue
            if ea[0] == 'read' or eb[0] == 'read':
                if ea[0] != eb[0]:
                    raise Mismatch('%s where the reference has %s' % (self.show_end(ea), self.show_end(eb)), path)
                if not self.same(ea[1], eb[1]):
                    raise Mismatch('iterates over %s where the reference iterates over %s' %
                                   (show(ea[1]), show(eb[1])), path)
                f2 = self.age(facts, ea[1])
                self.pair(ea[2], 0, enva, eb[2], 0, envb, f2, pa, pb, path + (('next', ea[1]),))
                self.pair(ea[3], 0, enva, eb[3], 0, envb, f2, pa, pb, path + (('end', ea[1]),))
                return
            # both ended
            if ea[0] == 'panic' or eb[0] == 'panic':
                if ea[0] != eb[0]:
                    raise Mismatch('%s where the reference %s' % (self.show_end(ea), self.show_end(eb)), path)
                if not self.panic_ok(pa, pb):
                    pass
                return
            if ea[0] == 'div' or eb[0] == 'div':
                return
            raise Mismatch('%s where the reference %s' % (self.show_end(ea), self.show_end(eb)), path)

    def alone(self, path, w, node, other):
        """One side goes round a loop while the other stands still."""
        m = ('alone', (w, node, other))
        if path.count(m) >= 4:
            raise Mismatch('a loop where the other side has none', path)
        return path + (m,)

    def ends(self, ea, eb, pa, pb, facts, path):
        for s in set(pa) | set(pb):
            x, y = pa.get(s, ()), pb.get(s, ())
            if x or y:
                raise Mismatch('effects differ: %s where the reference has %s' % (showu(x), showu(y)), path)
        if not self.value_eq(norm_ret(ea[1]), norm_ret(eb[1]), facts):
            raise Mismatch('returns %s where the reference returns %s' % (show(ea[1]), show(eb[1])), path)
        ha, hb = dict(ea[2]), dict((self.tr(k), v) for k, v in eb[2])
        for k in sorted(set(ha) | set(hb), key=repr):
            if k not in ha or k not in hb:
                raise Mismatch('final state of %s differs' % show(k), path)
            if not self.value_eq(norm_ret(ha[k]), norm_ret(hb[k]), facts):
                raise Mismatch('final state of %s is %s where the reference has %s' %
                               (show(k), show(ha[k]), show(hb[k])), path)

    def value_eq(self, x, y, facts):
        """Equal as values under the facts; may ask for a case split."""
        if self.same(x, y):
            return True
        if x[0] == y[0] == 'av' or (x[0] in ('ocall', 'call') and y[0] == x[0] and x[:-1] == y[:-1]):
            ux, uy = unprint(x), unprint(y)
            n = 0
            for v in (ux, uy):
                for _ in walk(v):
                    n += 1
                    if n > 40000:
                        return False
            if (ux, uy) != (x, y):
                return self.value_eq(ux, uy, facts)
        y = self.tr(y)
        atoms = set()
        rx, ry = drop_noop(self.reduce(x, facts, atoms)), drop_noop(self.reduce(y, facts, atoms))
        if rx == ry or self.same(rx, ry):
            return True
        sx, sy = small_atom(rx), small_atom(ry)
        if sx is not None and sy is not None and (sx == sy or False in (sx, sy)) and (sx or sy):
            # both are functions of one small number: by enumeration
            a = sx or sy
            d = facts.get(a)
            if d is None or d[0] == 'fset':
                d = iv_full(TYOF[a]) if a in TYOF else None
            if d and iv_size(d) <= 256:
                try:
                    return all(ev(rx, a, v) == ev(ry, a, v) for v in iv_vals(d))
                except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
                    pass
        for a in sorted(atoms, key=repr):
            if a[0] == '$cut':
                d = self.range_of(a[1], facts)
                yes = iv_inter(d, ((-2**130, a[2]),))
                no = iv_minus(d, yes)
                if yes and no:
                    raise NeedSplit(a[1], [yes, no])
                continue
            d = facts.get(a)
            if d is None:
                if a[0] == 'bin' and a[1] in CMP:
                    raise NeedSplit(a, [((0, 0),), ((1, 1),)])
                if a in DISCR:
                    d = iv_of(DISCR[a])
                elif a in TYOF:
                    d = iv_full(TYOF[a])
            if d and d[0] != 'fset' and 1 < iv_size(d) <= 256:
                raise NeedSplit(a, [((v, v),) for v in iv_vals(d)])
        return False

    def reduce(self, t, facts, atoms):
        """Evaluate tables and conditionals the facts decide."""
        def f(x):
            if x[0] in ('int', 'bytes', 'flt', 'sym', 'ref'):
                return x if x[0] != 'ref' else None
            d = facts.get(x)
            if d and d[0] != 'fset' and iv_size(d) == 1 and (x in TYOF or x[0] in ('lin', 'bin')):
                return ('int', d[0][0])
            if x[0] in ('min', 'max') and len(x) == 4 and x[3] in INT_RANGE:
                r = self.pick(x, facts, atoms)
                if r is not None:
                    return self.reduce(r, facts, atoms)
            if x[0] in ('lut', 'bin', 'cast', 'lin', 'un', 'not', 'min', 'max'):
                a = small_atom(x)
                if a not in (None, False):
                    d = facts.get(a)
                    if d and d[0] != 'fset' and iv_size(d) == 1:
                        return ('int', ev(x, a, d[0][0]))
                    if x[0] == 'lut' or x == a:
                        atoms.add(a)
            elif x[0] == 'ite':
                d = facts.get(x[1])
                a = small_atom(x[1])
                if a not in (None, False):
                    da = facts.get(a)
                    if da and da[0] != 'fset' and iv_size(da) == 1:
                        d = ((ev(x[1], a, da[0][0]),) * 2,)
                live = [k for dk, k in x[2] if d is None or not dom_empty(dom_inter(d, dk))]
                if len(live) == 1:
                    return self.reduce(live[0], facts, atoms)
                atoms.add(a if a not in (None, False) else x[1])
            else:
                d = facts.get(x)
                if d and d[0] != 'fset' and iv_size(d) == 1 and x in TYOF:
                    return ('int', d[0][0])
            return None
        r = subst(t, f)
        if r != t and mentions(r, 'minmax', lambda x: x[0] in ('min', 'max')):
            return self.reduce(r, facts, atoms)
        return r

    def range_of(self, t, facts):
        if t[0] == 'int':
            return ((t[1], t[1]),)
        d = facts.get(t)
        if d is None and t in TYOF:
            d = iv_full(TYOF[t])
        return None if d is None or d[0] == 'fset' else d

    def pick(self, x, facts, atoms):
        """Which operand a min/max is, where the facts order them."""
        lo, ra, rb = x[0] == 'min', x[1], x[2]
        a, b = strip_widen(ra), strip_widen(rb)
        r = self.pick2(lo, a, b, facts, atoms)
        return None if r is None else (ra if r == 0 else rb)

    def pick2(self, lo, a, b, facts, atoms):
        da, db = self.range_of(a, facts), self.range_of(b, facts)
        if da and db:
            if da[-1][1] <= db[0][0]:
                return 0 if lo else 1
            if db[-1][1] <= da[0][0]:
                return 1 if lo else 0
            for s, o, do in ((a, b, da), (b, a, db)):
                if o[0] == 'int' and s[0] != 'int':
                    atoms.add(('$cut', s, o[1]))
            if a[0] == 'int' or b[0] == 'int':
                return None
        v = self.imply(('bin', 'Le', a, b, 'int'), facts)
        if v is None:
            v = self.imply(('bin', 'Le', b, a, 'int'), facts)
            v = None if v is None else 1 - v if v == 1 else 1
            if v == 0:
                return 1 if lo else 0
        if v is not None:
            return (0 if lo else 1) if v else (1 if lo else 0)
        atoms.add(('bin', 'Lt', a, b, 'int'))
        return None

    def panic_ok(self, pa, pb):
        return True

    def has_local(self, t):
        return any(renamable(x) for x in walk(t))

    def bind(self, env, g, facts, isb=False):
        env = dict(env)
        for ph, old in g[2]:
            env[ph] = old
        ch = [ph for ph, old in g[2] if old != ph]
        if ch and facts:
            f2 = {}
            for a, d in facts.items():
                if any(x in ch for x in walk(a)):
                    continue
                f2[a] = d
            facts = f2
        return env, facts

    def check_env(self, enva, envb, path):
        for b, a in list(self.hyp.items()):
            if b[0] != 'phi':
                continue
            if a in enva and b in envb:
                va, vb = enva[a], envb[b]
                if va == a and vb == b:
                    continue
                if va[0] == 'bufmark' or vb[0] == 'bufmark':
                    continue
                if not self.same(va, vb):
                    raise Mismatch('loop variable updated to %s where the reference has %s' % (show(va), show(vb)), path)

    def cancel(self, pa, pb, facts, path):
        for s in list(pa):
            x, y = pa[s], pb.get(s)
            if not y:
                # maybe the same sink under another (fresh) name
                if x and s[0] == 'v' and self.has_local(s):
                    for s2 in list(pb):
                        if s2 not in pa and pb[s2] and self.has_local(s2) and s2[0] == 'v':
                            self.same(s, s2)
                continue
            n = min(len(x), len(y))
            i = 0
            while i < n:
                if not self.unit_eq(x[i], y[i], facts):
                    raise Mismatch('emits %s where the reference emits %s' % (showu(x[i:i + 12]), showu(y[i:i + 12])), path)
                i += 1
            if i:
                pa[s], pb[s] = x[i:], y[i:]
                if not pa[s]:
                    del pa[s]
                if not pb[s]:
                    del pb[s]

    def unit_eq(self, x, y, facts):
        if x == y:
            return True
        if x[0] != y[0]:
            # a symbolic byte the facts pin down
            if x[0] == 'b' and y[0] == 'a' and y[1][0] == 'one':
                return self.pin(y[1][1], facts, True) == x[1]
            if y[0] == 'b' and x[0] == 'a' and x[1][0] == 'one':
                return self.pin(x[1][1], facts, False) == y[1]
            return False
        if x[0] == 'a' and x[1][0] == 'one' and y[1][0] == 'one':
            if self.same(x[1], y[1]):
                return True
            return self.pointwise(x[1][1], self.tr(y[1][1]), facts) or self.value_eq(x, y, facts)
        return self.value_eq(x, y, facts)

    def pin(self, t, facts, isb):
        t = self.tr(t) if isb else t
        a = small_atom(t)
        if a in (None, False):
            return None
        d = facts.get(a)
        if not d or d[0] == 'fset' or iv_size(d) > 256:
            return None
        vs = {ev(t, a, v) for v in iv_vals(d)}
        return vs.pop() if len(vs) == 1 else None

    def pointwise(self, x, y, facts):
        a, b = small_atom(x), small_atom(y)
        if a in (None, False) or a != b:
            return False
        d = facts.get(a) or (iv_full(TYOF[a]) if a in TYOF else None)
        if not d or iv_size(d) > 65536:
            return False
        return all(ev(x, a, v) == ev(y, a, v) for v in iv_vals(d))

    def arms(self, br, facts, isb):
        """[(domain, tree, decided)] still possible under the facts."""
        at = self.tr(br[1]) if isb else br[1]
        f = facts.get(at)
        neg = mk_not(at) if at[0] in ('bin', 'eq', 'seqeq', 'not') else None
        out = []
        for d, kid in br[2]:
            x = dom_inter(f, d)
            if dom_empty(x):
                continue
            out.append((x, kid, f is not None and x == f))
        if f is None and at[0] == 'bin' and at[1] in CMP and at[4] == 'int':
            v = self.imply(at, facts)
            if v is not None:
                out = [(x, kid, True) for x, kid, _ in out if x == ((v, v),)] or out
        if not out:
            # contradictory facts: nothing to compare
            out = [(d, kid, False) for d, kid in br[2]]
        return out

    def imply(self, at, facts):
        """Truth of a comparison implied by recorded comparisons of the same terms."""
        op, a, b = at[1], at[2], at[3]
        rel = None          # possible orderings of (a, b): subset of '<=>'
        poss = {'<', '=', '>'}

        def apply(o, x, y, truth):
            s = {'Lt': {'<'}, 'Le': {'<', '='}, 'Eq': {'='}, 'Ne': {'<', '>'}}[o]
            if (x, y) == (b, a):
                s = {{'<': '>', '>': '<', '=': '='}[q] for q in s}
            if not truth:
                s = {'<', '=', '>'} - s
            return s
        for o in ('Lt', 'Le', 'Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                d = facts.get(('bin', o, x, y, 'int'))
                if d == ((1, 1),):
                    poss &= apply(o, x, y, True)
                elif d == ((0, 0),):
                    poss &= apply(o, x, y, False)
        s = apply(op, a, b, True)
        if poss <= s:
            return 1
        if not (poss & s):
            return 0
        return None

    def consistent(self, facts, at, d):
        if at[0] == 'bin' and at[1] in CMP and at[4] == 'int' and d in (((0, 0),), ((1, 1),)):
            f = {k: v for k, v in facts.items() if k != at}
            v = self.imply(at, f)
            if v is not None and d != ((v, v),):
                return False
            # intervals
            da, db = facts.get(at[2]), facts.get(at[3])
            if at[2][0] == 'int':
                da = ((at[2][1], at[2][1]),)
            if at[3][0] == 'int':
                db = ((at[3][1], at[3][1]),)
            if da and db and da[0] != 'fset' and db[0] != 'fset':
                t = d == ((1, 1),)
                alo, ahi, blo, bhi = da[0][0], da[-1][1], db[0][0], db[-1][1]
                op = at[1]
                if op == 'Lt':
                    return alo < bhi if t else ahi >= blo
                if op == 'Le':
                    return alo <= bhi if t else ahi > blo
                if op == 'Eq' and t:
                    return bool(iv_inter(da, db))
        return True

    def show_end(self, e):
        if e[0] == 'panic':
            return 'panics (%s)' % e[1][:60]
        if e[0] == 'ret':
            return 'returns'
        if e[0] == 'read':
            return 'takes the next element of %s' % show(e[1])
        return e[0]


def drop_noop(t):
    """Without the updates that store what is already there."""
    if not isinstance(t, tuple) or not any(x[0] == 'upd' for x in walk(t)):
        return t
    if t[0] == 'upd':
        base = drop_noop(t[1])
        ups = []
        for s, v in t[2]:
            v = drop_noop(v)
            if not (s[0] == 'f' and v == ('fld', s[3], s[2], base)):
                ups.append((s, v))
        return ('upd', base, tuple(ups)) if ups else base
    if t[0] == 'agg':
        return ('agg', t[1], tuple(drop_noop(x) for x in t[2]))
    return t


def norm_ret(v):
    return v


# ------------------------------------------------------------------ rendering
def show(t, d=0):
    if not isinstance(t, tuple):
        return repr(t)
    if not t:
        return '()'
    k = t[0]
    if d > 12:
        return '…'
    s = lambda x: show(x, d + 1)
    if k == 'int':
        return str(t[1])
    if k == 'bytes':
        return repr(t[1])[1:]
    if k == 'sym':
        return t[1]
    if k == 'deref':
        return '*' + s(t[1])
    if k == 'fld':
        return '%s.%s%s' % (s(t[3]), (t[1] + '.') if t[1] else '', t[2])
    if k == 'flt':
        return repr(flt(t[1], t[2]))
    if k == 'agg':
        return ('%s(' % ('' if t[1] == 0 else '#%s' % t[1])) + ', '.join(s(x) for x in t[2]) + ')'
    if k == 'arr':
        return '[' + ', '.join(s(x) for x in t[1]) + ']'
    if k == 'it':
        return 'elem(%s)' % s(t[1])
    if k == 'bin':
        return '(%s %s %s)' % (s(t[2]), t[1], s(t[3]))
    if k == 'lin':
        return '(' + ' + '.join(('%s' % s(x) if c == 1 else '%d*%s' % (c, s(x))) for x, c in t[1]) + ' + %d)' % t[2]
    if k == 'cast':
        return '(%s as %s)' % (s(t[3]), t[1])
    if k == 'ref':
        return '&' + s(t[1]) + ''.join('.' + (x[2] if x[0] == 'f' else '[%s]' % s(x[1])) for x in t[2])
    if k == 'P':
        return s(t[1])
    if k == 'len':
        return 'len(%s)' % s(t[1])
    if isinstance(k, str):
        return k + '(' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'
    return '<' + ', '.join(s(x) if isinstance(x, tuple) else str(x) for x in t) + '>'


def showu(us):
    """Units -> text."""
    out = []
    buf = b''
    for u in us:
        if u[0] == 'b' and len(u) == 2 and isinstance(u[1], int):
            buf += bytes([u[1]])
            continue
        if buf:
            out.append(repr(buf)[1:])
            buf = b''
        out.append(' '.join(show(x) if isinstance(x, tuple) else str(x) for x in u))
    if buf:
        out.append(repr(buf)[1:])
    r = ' '.join(out)
    return (r[:300] + '…') if len(r) > 300 else (r or 'nothing')


def show_path(path):
    out = []
    for a, d in path[-8:]:
        if a == 'alone':
            continue
        if a in ('next', 'end'):
            out.append('%s of %s' % (a, show(d)))
        elif d and d[0] == 'fset':
            out.append('%s in float range' % show(a))
        else:
            ds = ','.join(str(l) if l == h else '%d..%d' % (l, h) for l, h in d[:4])
            out.append('%s=%s' % (show(a), ds))
    return '; '.join(out)[:600]
