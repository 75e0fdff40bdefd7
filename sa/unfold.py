"""Equivalence of two effect summaries by finite unfolding of their loops.

Used when the coinductive comparison (equiv.Equiv) cannot match the loop
variables of the two sides.  Loop variables are replaced by the values the
summary assigns them, elements of a sequence by (sequence, index), so a loop
over an index, an iterator chain and a hand-written `while` meet in the same
terms.  Every path with at most `bound` rounds per loop head is compared; the
result counts only if every branch of both summaries was taken on a compared
path (`uncovered` is empty on both sides).
"""
from terms import *
from models import name_end
from equiv import Equiv, Mismatch, NewHyp, NeedSplit, sink_of, atoms_of, dom_inter, dom_empty, show, showu

FULL = 2 ** 140


class Side:
    __slots__ = ('t', 'i', 'env', 'cnt', 'hist', 'vis', 'memo')

    def __init__(self, t):
        self.t, self.i, self.env, self.cnt, self.hist, self.vis = t, 0, {}, {}, {}, {}
        self.memo = {}

    def copy(self):
        s = Side(self.t)
        s.i = self.i
        s.env, s.cnt, s.hist, s.vis, s.memo = self.env, self.cnt, self.hist, self.vis, self.memo
        return s

    def at(self, t):
        s = self.copy()
        s.t, s.i = t, 0
        return s


def flat(units):
    """units -> pieces with adjacent bytes joined"""
    out = []
    for u in units:
        if u[0] == 'b':
            x = bytes([u[1]]) if isinstance(u[1], int) else u[1]
            if out and out[-1][0] == 'b':
                out[-1] = ('b', out[-1][1] + x)
            else:
                out.append(('b', x))
        elif u[0] == 'a':
            out.append(u[1])
        else:
            out.append(u)
    return tuple(out)


def norm_piece(p):
    if p[0] == 'one' and p[1][0] == 'int' and 0 <= p[1][1] < 256 and p[2]:
        return ('b', bytes([p[1][1]]))
    if p[0] == 'last':
        return p[1]
    return p


class Unfold(Equiv):
    def __init__(self, a, b, bound=3, maxpairs=60000):
        Equiv.__init__(self, a, b, maxpairs)
        self.bound = bound
        self.bounds = {}

    def run(self):
        for _ in range(40):
            self.n = 0
            self.cut = 0
            self.done = 0
            self.seen = {'a': set(), 'b': set()}
            self.arms = []
            try:
                self.walk(Side(self.ra), Side(self.rb), {}, {}, {}, ())
                return None
            except NewHyp:
                continue
            except Mismatch as m:
                return m
        return Mismatch('fresh buffers cannot be matched', ())

    def pick2(self, lo, a, b, facts, atoms):
        r = Equiv.pick2(self, lo, a, b, facts, atoms)
        if r is not None and (a[0] == 'int') != (b[0] == 'int'):
            c, x = (a, b) if a[0] == 'int' else (b, a)
            if mentions(x, 'len', lambda y: y[0] in ('len', 'plen')) and Equiv.pick2(self, lo, a, b, {}, set()) is None:
                self.bounds.setdefault((lo, c[1]), set()).add((a, b)[r][0] == 'int')
        return r

    def one_sided(self):
        """Constants that a length was always on one side of, in every unfolding."""
        return sorted(c for (lo, c), v in self.bounds.items() if len(v) == 1 and c > 0)

    def uncovered(self):
        out = []
        for w, root, nodes in (('a', self.ra, self.na), ('b', self.rb, self.nb)):
            seen = self.seen[w]
            st = [root] + list(nodes.values())
            while st:
                t = st.pop()
                if t[0] == 'seq':
                    st.append(t[2])
                elif t[0] == 'branch':
                    for i, (d, k) in enumerate(t[2]):
                        if (id(t), i) not in seen:
                            out.append((w, t[1], d, k))
                        else:
                            st.append(k)
                elif t[0] == 'read':
                    for i in (2, 3):
                        if (id(t), i) not in seen:
                            out.append((w, ('next' if i == 2 else 'end', t[1]), (), t[i]))
                        else:
                            st.append(t[i])
        return out

    def shapes(self, w, covered, named=False):
        """Every branch arm (test, value, own effects) up to the names of loop variables;
        the arms of one kind (taken / never taken)."""
        blank = lambda x: ('?',) if x[0] in ('phi', 'it', 'itref', 'pos', 'prev', 'pieces', 'new') else None
        out = {}
        seen = self.seen[w]
        st = [self.ra] + list(self.na.values()) if w == 'a' else [self.rb] + list(self.nb.values())
        while st:
            t = st.pop()
            if t[0] == 'seq':
                st.append(t[2])
                continue
            if t[0] == 'branch':
                kids = [(i, d, k) for i, (d, k) in enumerate(t[2])]
                g = t[1]
            elif t[0] == 'read':
                kids = [(2, 'next', t[2]), (3, 'end', t[3])]
                g = ('read',)
            else:
                continue
            g = repr(g if named else subst(g, blank))
            if g == "('?',)":
                g += '?' if covered else w  # a bare loop variable says nothing
            for i, d, k in kids:
                st.append(k)
                if ((id(t), i) in seen) == covered:
                    units = tuple(repr(x) for e in k[1] if e[0] != 'iter0' for x in atoms_of(subst(e, blank)))
                    out.setdefault((g, repr(d), units, k[2][0] if k[2][0] in ('panic', 'ret') else ''), []).append((t, i))
        return out

    def unknown_arms(self):
        """Arms not taken within the bound that are not copies of compared or unchanged code."""
        sh = {w: (self.shapes(w, True), self.shapes(w, False)) for w in 'ab'}
        nm = {w: (self.shapes(w, True, True), self.shapes(w, False, True)) for w in 'ab'}
        out = []
        for w, o in (('a', 'b'), ('b', 'a')):
            ok = set(sh[o][0]) | set(sh[o][1])
            # copies of one loop share the names of its variables
            own = {(id(t), i) for k, v in nm[w][1].items() if k in nm[w][0] for t, i in v}
            own |= {(id(t), i) for k, v in sh[w][1].items() if k in ok for t, i in v}
            out += [(w,) + k for k, v in nm[w][1].items() if any((id(t), i) not in own for t, i in v)]
        return out

    # ---- closed terms
    def ev(self, s, t):
        memo = s.memo
        env, cnt = s.env, s.cnt

        def go(x):
            if not isinstance(x, tuple) or not x:
                return x
            k = id(x)
            r = memo.get(k)
            if r is not None:
                return r[0]
            y = one(x)
            memo[k] = (y, x)
            return y

        def one(x):
            k = x[0]
            if not isinstance(k, str):
                return tuple(go(z) for z in x)
            if k in ('int', 'bytes', 'flt', 'sym'):
                return x
            if k == 'phi':
                v = env.get(x)
                return v if v is not None else x
            if k in ('it', 'itref', 'pos'):
                src = go(x[1])
                n = cnt.get(src, 0) - 1
                if n < 0:
                    return (k, src)
                return self.el(k, src, n)
            if k == 'prev':
                d = 0
                y = x
                while y[0] == 'prev':
                    d += 1
                    y = y[1]
                if y[0] in ('it', 'pos'):
                    src = go(y[1])
                    n = cnt.get(src, 0) - 1 - d
                    if n >= 0:
                        return self.el(y[0], src, n)
                return ('prev', go(x[1]))
            if k == 'pieces':
                return self.pieces(s, x, go)
            if k == 'plen':
                return self.plen(go(x[1]))
            if k == 'ref':
                n = tuple(go(z) if isinstance(z, tuple) else z for z in x)
                return n if n != x else x
            if k == 'bin' and x[1] in CMP:
                r = mk_cmp(x[1], go(x[2]), go(x[3]), 'f32' if x[4] == 'float' else 'i128')
                return r
            n = tuple(go(z) if isinstance(z, tuple) else z for z in x)
            if n == x:
                return x
            if n[0] in ('cast', 'bin', 'lin', 'un', 'not'):
                o = rebuild(n)
            elif n[0] == 'idx':
                o = self.el('it', n[1], n[2])
            elif n[0] == 'len':
                o = self.length(n[1])
            elif n[0] == 'deref':
                o = self.target(n[1])
            elif n[0] == 'lastof':
                o = name_end(self.strip(n[1])) or n
            elif n[0] == 'fld' and n[3][0] == 'agg' and str(n[2]).isdigit() and int(n[2]) < len(n[3][2]):
                o = n[3][2][int(n[2])]
            elif n[0] == 'discr' and n[1][0] == 'agg' and x in DISCR and isinstance(n[1][1], int) and n[1][1] < len(DISCR[x]):
                return ('int', DISCR[x][n[1][1]])
            elif n[0] == 'subs' and n[2] == ('int', 0) and n[3] == self.length(n[1]):
                o = n[1]
            elif n[0] == 'seq' and n[1][0] == 'iter' and n[1][1] == 'val' and n[1][2][0] == 'ref' and \
                    n[1][2][1][0] == 'K' and n[1][2][2] == () and n[1][3][0] == 'int':
                # what is left of a sequence that was advanced
                S, k0 = n[1][2][1][1], n[1][3]
                if S[0] == 'subs':
                    o = ('subs', S[1], mk_bin('Add', S[2], k0, 'usize'), S[3])
                else:
                    o = ('subs', S, k0, self.length(S))
            else:
                o = n
            if x in TYOF and o[0] != 'int':
                set_ty(o, TYOF[x])
            if x in DISCR:
                DISCR[o] = DISCR[x]
            return o
        if t[0] == 'idx':
            pass
        return go(t)

    def el(self, k, src, n):
        n = ('int', n) if isinstance(n, int) else n
        if k == 'pos':
            return n
        if src[0] == 'subs':
            return self.el(k, src[1], mk_bin('Add', src[2], n, 'usize'))
        if n[0] == 'int' and src[0] in ('arr', 'bytes') and 0 <= n[1] < len(src[1]):
            return src[1][n[1]] if src[0] == 'arr' else ('int', src[1][n[1]])
        r = ('idx', src, n)
        for kk in ('it',):
            t = TYOF.get((kk, src))
            if t and r not in TYOF:
                set_ty(r, t)
        return r if k == 'it' else ('addr', r)

    def target(self, r):
        if r[0] == 'ref':
            v = r[1]
            if v[0] == 'P':
                v = v[1][1] if v[1][0] == 'addr' else ('deref', v[1])
            elif v[0] == 'addr':
                v = v[1]
            elif v[0] == 'K':
                v = v[1]
            else:
                return ('deref', r)
            for s in r[2]:
                v = self.proj(v, s)
                if v is None:
                    return ('deref', r)
            return v
        if r[0] == 'addr':
            return r[1]
        return ('deref', r)

    def proj(self, v, s):
        if v[0] == 'agg':
            i = s if isinstance(s, int) else s[1]
            return v[2][i] if isinstance(i, int) and i < len(v[2]) else None
        if isinstance(s, tuple) and s[0] == 'i':
            return self.el('it', v, s[1])
        if isinstance(s, tuple) and s[0] == 's':
            lo, hi = s[1], s[2]
            if v[0] in ('bytes', 'arr') and lo[0] == hi[0] == 'int':
                return (v[0], v[1][lo[1]:hi[1]])
            if lo == ('int', 0) and hi == self.length(v):
                return v
            return ('subs', v, lo, hi)
        if isinstance(s, tuple) and s[0] == 'f':
            return ('fld', s[3], s[2], v)
        return None

    def length(self, v):
        if v[0] in ('arr', 'bytes'):
            return ('int', len(v[1]))
        if v[0] == 'subs':
            return mk_bin('Sub', v[3], v[2], 'usize')
        if v[0] == 'sorted':
            return self.length(v[2])
        if v[0] == 'pieces':
            n = ('int', 0)
            ps = v[1]
            if ps[0][0] == 'init':
                n = self.length(ps[0][1])
            for p in ps[1:]:
                n = mk_bin('Add', n, self.plen(p), 'usize')
            return n
        r = ('len', v)
        TYOF[r] = 'usize'
        return r

    def plen(self, p):
        p = norm_piece(p)
        if p[0] == 'b':
            return ('int', len(p[1]))
        if p[0] == 'one':
            return ('int', 1)
        if p[0] == 'units':
            n = ('int', 0)
            for q in p[1]:
                n = mk_bin('Add', n, self.plen(q), 'usize')
            return n
        r = ('plen', p)
        TYOF[r] = 'usize'
        return r

    def pieces(self, s, x, go):
        out = []
        for p in x[1][1:]:
            p = norm_piece(go(p))
            if p[0] == 'units':
                out.extend(p[1])
            else:
                out.append(p)
        u = []
        for p in out:
            if p[0] == 'b' and u and u[-1][0] == 'b':
                u[-1] = ('b', u[-1][1] + p[1])
            else:
                u.append(p)
        o = x[1][0]
        return ('pieces', (go(o),) + tuple(u))

    def bindto(self, s, g):
        env = dict(s.env)
        for ph, old in g[2]:
            if old == ph and ph in s.env:
                continue
            if old[0] == 'bufmark':
                h = s.hist.get(('v', self.ev(s, ph[3])), ())
                n = len(h) - old[1]
                env[ph] = ('units', flat(h[:n]))
            else:
                env[ph] = self.ev(s, old)
        s.env = env
        s.memo = {}

    # ---- canonical tests
    def canon(self, t):
        """-> (atom, f) with f: domain of the term -> domain of the atom"""
        if t[0] == 'not':
            a, f = self.canon(t[1])
            return a, lambda d: f(iv_of([1 - v for v in iv_vals(iv_inter(d, ((0, 1),)))]))
        if t[0] == 'bin' and t[1] in CMP and t[4] != 'float':
            op, a, b = t[1], t[2], t[3]
            if a[0] == 'int' and b[0] != 'int':
                c, x, flip = a[1], b, True
            elif b[0] == 'int' and a[0] != 'int':
                c, x, flip = b[1], a, False
            else:
                return t, lambda d: d
            if op == 'Lt':
                tr = ((c + 1, FULL),) if flip else ((-FULL, c - 1),)
            elif op == 'Le':
                tr = ((c, FULL),) if flip else ((-FULL, c),)
            elif op == 'Eq':
                tr = ((c, c),)
            else:
                tr = iv_minus(((-FULL, FULL),), ((c, c),))
            if x[0] == 'lin' and len(x[1]) == 1 and abs(x[1][0][1]) == 1 and x[1][0][0][0] in ('len', 'plen'):
                k = x[1][0][1]
                c0 = x[2]
                tr = tuple(sorted(((lo - c0, hi - c0) if k == 1 else (c0 - hi, c0 - lo)) for lo, hi in tr))
                x = x[1][0][0]

            def f(d, tr=tr):
                y = iv_inter(d, ((0, 1),))
                if y == ((1, 1),):
                    return tr
                if y == ((0, 0),):
                    return iv_minus(((-FULL, FULL),), tr)
                return ((-FULL, FULL),) if y else ()
            return x, f
        if t[0] == 'lin' and len(t[1]) == 1 and t[1][0][1] == 1 and t[1][0][0][0] in ('len', 'plen'):
            c0 = t[2]
            return t[1][0][0], lambda d: tuple((lo - c0, hi - c0) for lo, hi in d)
        a = small_atom(t)
        if a not in (None, False) and a != t and a[0] not in ('int',):
            d0 = iv_of(DISCR[a]) if a in DISCR else (iv_full(TYOF[a]) if a in TYOF else None)
            if d0 and iv_size(d0) <= 256:
                def g(d):
                    return iv_of([v for v in iv_vals(d0) if iv_inter(d, ((ev(t, a, v),) * 2,))])
                return a, g
        return t, lambda d: d

    def base(self, a):
        if a[0] in ('len', 'plen'):
            return ((0, 2 ** 63 - 1),)
        if a in DISCR:
            return iv_of(DISCR[a])
        if a in TYOF and TYOF[a] in INT_RANGE:
            return iv_full(TYOF[a])
        return None

    def choices(self, s, w, br, facts):
        """[(arm index, kid, atom, domain)] possible arms; decided when one is left."""
        t = self.ev(s, br[1])
        if w == 'b':
            t = self.tr(t)
        if mentions(t, 'minmax', lambda x: x[0] in ('min', 'max')):
            t = self.reduce(t, facts, set())
        if t[0] == 'int':
            for i, (d, k) in enumerate(br[2]):
                if iv_inter(d, ((t[1], t[1]),)):
                    return [(i, k, None, None)]
            return []
        if t[0] == 'flt':
            x = flt(t[1], t[2])
            for i, (d, k) in enumerate(br[2]):
                if d and d[0] == 'fset' and not f_empty(dom_inter(d, ('fset', ((x, True, x, True),), False))):
                    return [(i, k, None, None)]
        a, f = self.canon(t)
        out = []
        cur = facts.get(a)
        if cur is None:
            cur = self.base(a)
        for i, (d, k) in enumerate(br[2]):
            m = d if d and d[0] == 'fset' else f(d)
            x = dom_inter(cur, m)
            if dom_empty(x):
                continue
            out.append((i, k, a, x))
        if len(out) > 1 and a[0] == 'bin' and a[1] in CMP and a[4] == 'int':
            v = self.imply(a, facts)
            if v is not None:
                o2 = [o for o in out if o[3] == ((v, v),)]
                out = o2 or out
        return out

    # ---- the walk
    def load(self, s, w, pend, facts):
        if s.i == 0:
            s.i = 1
            hist = dict(s.hist)
            pend = dict(pend)
            for e in s.t[1]:
                if e[0] == 'iter0':
                    src = self.ev(s, e[1])
                    if s.cnt.get(src):
                        s.cnt = {**s.cnt, src: 0}
                        s.memo = {}
                    continue
                e2 = self.ev(s, e)
                us = [self.unit(u) for u in atoms_of(e2)]
                k = sink_of(e2)
                hist[k] = hist.get(k, ()) + tuple(us)
                kk = self.tr(k) if w == 'b' else k
                if mentions(kk, 'minmax', lambda x: x[0] in ('min', 'max')):
                    kk = self.reduce(kk, facts, set())
                pend[kk] = pend.get(kk, ()) + tuple(us)
            s.hist = hist
        return pend

    def strip(self, t):
        """Constants behind references are values."""
        def f(x):
            if x[0] == 'ref' and x[1][0] == 'K':
                v = self.target(x)
                return self.strip(v) if v[0] != 'deref' else None
            return None
        return subst(t, f) if mentions(t, 'kref', lambda x: x[0] == 'K') else t

    def unit(self, u):
        u = self.strip(u)
        if u[0] == 'a':
            p = norm_piece(u[1])
            if p[0] == 'b' and len(p[1]) == 1:
                return ('b', p[1][0])
            return ('a', p)
        return u

    def walk(self, A, B, facts, pa, pb, path):
        # arms count as compared when a path through them has been compared to its end
        mark = len(self.arms)
        try:
            self.walk1(A, B, facts, pa, pb, path)
        finally:
            del self.arms[mark:]

    def commit(self):
        self.done += 1
        for w, x in self.arms:
            self.seen[w].add(x)

    def walk1(self, A, B, facts, pa, pb, path):
        while True:
            self.n += 1
            if self.n > self.maxpairs:
                raise Mismatch('comparison too large', path)
            pa = self.load(A, 'a', pa, facts)
            pb = self.load(B, 'b', pb, facts)
            pa, pb = dict(pa), dict(pb)
            ea, eb = A.t[2], B.t[2]
            if ea[0] == 'div' or eb[0] == 'div':
                self.commit()
                return
            try:
                self.cancel(pa, pb, facts, path)
                if ea[0] == 'ret' and eb[0] == 'ret':
                    self.ends(self.evret(A, ea), self.evret(B, eb), pa, pb, facts, path)
                    self.commit()
                    return
            except NeedSplit as ns:
                for d in ns.parts:
                    f2 = dict(facts)
                    f2[ns.atom] = d
                    self.walk(A.copy(), B.copy(), f2, pa, pb, path + ((ns.atom, d),))
                return
            moved = False
            for w, S, e in (('a', A, ea), ('b', B, eb)):
                if e[0] == 'goto':
                    v = S.vis.get(e[1], 0) + 1
                    if v > self.bound + 1:
                        self.cut += 1
                        return
                    S.vis = {**S.vis, e[1]: v}
                    self.bindto(S, e)
                    S.t, S.i = (self.na if w == 'a' else self.nb)[e[1]], 0
                    moved = True
                    break
                if e[0] == 'branch':
                    ch = self.choices(S, w, e, facts)
                    if not ch:
                        return          # contradictory
                    if len(ch) == 1:
                        self.arms.append((w, (id(e), ch[0][0])))
                        if ch[0][2] is not None:
                            facts = dict(facts)
                            facts[ch[0][2]] = ch[0][3]
                        S.t, S.i = ch[0][1], 0
                        moved = True
                        break
                if e[0] == 'read':
                    src = self.ev(S, e[1])
                    if w == 'b':
                        src = self.tr(src)
                    n = S.cnt.get(src, 0)
                    ln = self.length(src)
                    a, f = self.canon(mk_cmp('Lt', ('int', n), ln, 'i128')) if ln[0] != 'int' else (None, None)
                    if ln[0] == 'int':
                        ch = [2 if n < ln[1] else 3]
                        doms = {}
                    else:
                        cur = facts.get(a) or self.base(a)
                        doms = {2: dom_inter(cur, f(((1, 1),))), 3: dom_inter(cur, f(((0, 0),)))}
                        ch = [x for x in (2, 3) if not dom_empty(doms[x])]
                    nxt = []
                    for x in ch:
                        S2 = S.at(e[x])
                        S2.cnt = {**S.cnt, src: n + 1 if x == 2 else 0}
                        S2.memo = {}
                        f2 = dict(facts)
                        if a is not None:
                            f2[a] = doms[x]
                        nxt.append((x, S2, f2))
                    here = len(self.arms)
                    for x, S2, f2 in nxt:
                        del self.arms[here:]
                        self.arms.append((w, (id(e), x)))
                        p2 = path + (('next' if x == 2 else 'end', src),)
                        if w == 'a':
                            self.walk(S2, B.copy(), f2, pa, pb, p2)
                        else:
                            self.walk(A.copy(), S2, f2, pa, pb, p2)
                    return
            if moved:
                continue
            for w, S, e in (('a', A, ea), ('b', B, eb)):
                if e[0] == 'branch':
                    ch = self.choices(S, w, e, facts)
                    here = len(self.arms)
                    for i, k, a, x in ch:
                        f2 = dict(facts)
                        f2[a] = x
                        if not self.consistent(f2, a, x):
                            continue
                        del self.arms[here:]
                        self.arms.append((w, (id(e), i)))
                        if w == 'a':
                            self.walk(S.at(k), B.copy(), f2, pa, pb, path + ((a, x),))
                        else:
                            self.walk(A.copy(), S.at(k), f2, pa, pb, path + ((a, x),))
                    return
            if ea[0] == 'panic' or eb[0] == 'panic':
                if ea[0] != eb[0]:
                    raise Mismatch('%s where the reference %s' % (self.show_end(ea), self.show_end(eb)), path)
                self.commit()
                return
            raise Mismatch('%s where the reference %s' % (self.show_end(ea), self.show_end(eb)), path)

    def cancel(self, pa, pb, facts, path):
        for s in list(pa):
            if not pb.get(s):
                if pa[s]:
                    Equiv.cancel(self, {s: pa[s]}, pb, facts, path)
                continue
            while pa.get(s) and pb.get(s):
                x, y = pa[s], pb[s]
                n = min(len(x), len(y))
                i = 0
                while i < n and x[i] == y[i]:
                    i += 1
                if i < n and not (self.sliced(x[i]) or self.sliced(y[i])) and self.unit_eq(x[i], y[i], facts):
                    i += 1
                elif i < n:
                    if x[i] != y[i] and (self.sliced(x[i]) or self.sliced(y[i])):
                        x, y = x[i:], y[i:]
                        i = 0
                        if self.sliced(x[0]):
                            x = self.expand(x[0], facts) + x[1:]
                        if self.sliced(y[0]):
                            y = self.expand(y[0], facts) + y[1:]
                    else:
                        raise Mismatch('emits %s where the reference emits %s' % (showu(x[i:i + 12]), showu(y[i:i + 12])), path)
                pa[s], pb[s] = x[i:], y[i:]
            for p in (pa, pb):
                if not p[s]:
                    del p[s]

    def sliced(self, u):
        return u[0] == 'a' and u[1][0] == 'ext' and u[1][1][0] == 'subs' and \
            (u[1][1][1][0] in ('arr', 'bytes') or u[1][1][1] in ARRLEN)

    def expand(self, u, facts):
        """Part of an array of known length, element by element."""
        _, base, lo, hi = u[1][1]
        n = mk_bin('Sub', hi, lo, 'usize')
        full = ARRLEN[base] if base in ARRLEN else len(base[1])
        d = facts.get(n)
        if n[0] != 'int' and not (d and d[0] != 'fset' and iv_size(d) == 1):
            raise NeedSplit(n, [((v, v),) for v in range(full + 1) if not d or iv_inter(d, ((v, v),))])
        k = n[1] if n[0] == 'int' else d[0][0]
        out = []
        for j in range(k):
            i = self.reduce(mk_bin('Add', lo, ('int', j), 'usize'), facts, set())
            out.append(self.unit(('a', ('one', self.el('it', base, i), True))))
        return tuple(out)

    def evret(self, s, e):
        return ('ret', self.ev(s, e[1]), tuple((self.ev(s, k), self.ev(s, v)) for k, v in e[2]))


def counts(t):
    """Constants that a tested loop variable (or length) starts with or is tested against."""
    out = set()
    init = {}
    tested = set()

    def loop(x):
        # a count: a loop variable or length, or a sum of them
        if x[0] == 'phi':
            tested.add(x)
        elif x[0] == 'lin':
            r = [loop(z) for z, _ in x[1]]
            return any(r)
        return x[0] in ('phi', 'len', 'plen', 'pos')
    st, seen = [t[0]] + list(t[1].values()), set()
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x or id(x) in seen:
            continue
        seen.add(id(x))
        if x[0] == 'goto':
            for k, v in (x[2].items() if isinstance(x[2], dict) else x[2]) if len(x) > 2 else ():
                if isinstance(v, tuple) and v and v[0] == 'int':
                    init.setdefault(k if k[0] == 'phi' else ('phi', x[1]) + tuple(k), set()).add(v[1])
        elif x[0] == 'bin' and len(x) > 3 and x[1] in CMP:
            for c, y in ((x[2], x[3]), (x[3], x[2])):
                if c[0] == 'int' and loop(y):
                    out.add(c[1])
        elif x[0] == 'branch' and loop(x[1]):
            for d, k in x[2]:
                for z in d if isinstance(d, tuple) else ():
                    if isinstance(z, tuple):
                        out.update(v for v in z if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 1 << 20)
        st.extend(y for y in x if isinstance(y, tuple))
    for k, v in init.items():
        if k in tested:
            out |= v
    return out


def ints(t):
    out = set()
    st, seen = [t[0]] + list(t[1].values()), set()
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if id(x) not in seen:
                seen.add(id(x))
                st.extend(x)
        elif isinstance(x, int) and not isinstance(x, bool):
            out.add(x)
    return out


def lowered(t, c, n):
    """The summary with the loop constant c lowered to n."""
    memo = {}

    def go(x):
        if isinstance(x, tuple):
            r = memo.get(id(x))
            if r is None:
                r = memo[id(x)] = (tuple(go(y) for y in x), x)
            return r[0]
        if isinstance(x, int) and not isinstance(x, bool) and c - 1 <= x <= c + 1:
            return x - c + n
        return x
    return (go(t[0]), {k: go(v) for k, v in t[1].items()}) + tuple(t[2:])


def check(cur, ref, pairs=60000, secs=None):
    """-> ('equal', info) | ('differs', msg, path) | ('unknown', why)"""
    last = None
    for bound in (3, 2, 1):
        u = Unfold(cur, ref, bound, pairs)
        m = u.run()
        if m is not None and m.msg == 'comparison too large':
            last = ('unknown', 'unfolding too large')
            continue
        if m is not None:
            return ('differs', m.msg, m.path)
        new = sorted(c for c in counts(cur) - counts(ref) if c > bound - 1)
        new = [c for c in new if c < 1 << 17]
        big = [c for c in new if c > 12]
        if u.done and len(big) == 1 and len(new) == 1 and not ints(ref) & {big[0] - 1, big[0], big[0] + 1}:
            # a count no unfolding reaches, that the reviewed function does not have: does a
            # small one in its place make a difference, at two sizes?
            ms = []
            for n in (2, 3):
                w = Unfold(lowered(cur, big[0], n), ref, n + 1, pairs)
                m = w.run()
                ms.append(m is not None and m.msg != 'comparison too large' and m)
            if all(ms):
                return ('differs', ms[0].msg + ' (after %d rounds, here lowered to 2)' % big[0], ms[0].path)
        new = [c for c in new if c <= 12]
        if new:
            # a small count the reviewed function does not have: go beyond it
            w = Unfold(cur, ref, new[-1] + 1, pairs)
            m = w.run()
            if m is not None and m.msg != 'comparison too large':
                return ('differs', m.msg, m.path)
            if m is not None:
                return ('unknown', 'loops counting to %s are beyond %d rounds' % (new[:4], bound))
            u, bound = w, new[-1] + 1
        un = u.uncovered()
        un = u.unknown_arms() if un else []
        if not un:
            cs = u.one_sided()
            if cs:
                # sizes beyond the bound matter: look there as well
                for c in cs[:2] if cs[0] <= 8 else ():
                    w = Unfold(cur, ref, c + 1, pairs)
                    m = w.run()
                    if m is not None and m.msg != 'comparison too large':
                        return ('differs', m.msg, m.path)
                    if m is None:
                        cs = [x for x in w.one_sided() if x <= c]
                if cs:
                    return ('unknown', 'sizes around %s are beyond %d rounds' % (cs[:4], bound))
            return ('equal', {'unfolded': bound, 'paths': u.done, 'cut': u.cut, 'pairs': u.n})
        if last is None:
            last = ('unknown', 'branches beyond %d rounds: %s' % (bound, '; '.join(str(x)[:200] for x in un[:4])))
        return last
    return last
