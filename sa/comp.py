"""Which functions of the current tree are the same program as in the
reviewed tree, and which have to be compared.

Every function body and every type of a dump gets a fingerprint that does not
depend on source positions, local debug names or the numbering of the type
table.  A function is *identical* when its own body and everything it can
reach (callees, closures, drop glue, types) is the same in both trees.  For the
rest, equality may be proved function by function: if a function is proved
equal to its reviewed version for all arguments and states, its callers need
not look into it.
"""
import re, hashlib

SPAN = re.compile(r'#[^#\s]*?\.rs:\d+:\d+: \d+:\d+ \(#\d+\)')
CLOS = re.compile(r'\{closure@[^{}]*\}')


class Graph:
    def __init__(self, prog):
        self.p = prog
        self.clos = {}
        for t in prog.types:
            if t['k'] == 'closure':
                self.clos[t['s']] = '{closure ' + t['path'] + '}'
        self._strip = {}
        self.local = {}          # node -> set of local hashes
        self.edges = {}          # node -> set of nodes
        self.keys = {}           # node -> [fn keys]
        self.tdone = {}
        for i in range(len(prog.types)):
            self.type_node(i)
        for k in prog.fns:
            self.fn_node(k)

    def strip(self, s):
        r = self._strip.get(s)
        if r is None:
            r = SPAN.sub('', s)
            r = CLOS.sub(lambda m: self.clos.get(m.group(0), m.group(0)), r)
            self._strip[s] = r
        return r

    def fname(self, k):
        return 'F ' + self.strip(k)

    def tname(self, i):
        return 'T ' + self.strip(self.p.types[i]['s'])

    def add(self, node, text, edges):
        h = hashlib.sha256(text.encode()).hexdigest()[:20]
        self.local.setdefault(node, set()).add(h)
        self.edges.setdefault(node, set()).update(edges)

    def type_node(self, i):
        t = self.p.types[i]
        E = set()
        N = lambda x: (E.add(self.tname(x)), self.strip(self.p.types[x]['s']))[1]

        def F(k):
            if k in self.p.fns:
                E.add(self.fname(k))
            return self.strip(k) if k else k

        def callee(c):
            o = {}
            for k, v in c.items():
                if k == 'targs':
                    o[k] = [N(x) for x in v]
                elif k in ('key', 'dkey'):
                    o[k] = F(v)
                elif k in ('icallee', 'ncallee'):
                    o[k] = callee(v)
                elif isinstance(v, str):
                    o[k] = self.strip(v)
                else:
                    o[k] = v
            return sorted(o.items(), key=lambda x: x[0])
        o = {}
        for k, v in t.items():
            if k == 'elem':
                v = N(v)
            elif k in ('targs', 'elems', 'upvars'):
                v = [N(x) for x in v]
            elif k == 'variants':
                v = [(x['name'], x['discr'], [(f[0], N(f[1])) for f in x['fields']]) for x in v]
            elif k in ('drop', 'fn'):
                v = F(v)
            elif k == 'callee':
                v = callee(v)
            elif isinstance(v, str):
                v = self.strip(v)
            o[k] = v
        self.add(self.tname(i), repr(sorted(o.items(), key=lambda x: x[0])), E)

    def fn_node(self, k):
        f = self.p.fns[k]
        E = set()
        T = lambda x: (E.add(self.tname(x)), 'T:' + self.strip(self.p.types[x]['s']))[1]

        def W(x):
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    h = x[0]
                    n = len(x)
                    if h == 'k' and n == 3 and isinstance(x[1], int):
                        return ['k', T(x[1]), W(x[2])]
                    if h == 'f' and n == 3 and isinstance(x[1], int) and isinstance(x[2], int):
                        return ['f', x[1], T(x[2])]
                    if h == 'ref' and n == 3 and isinstance(x[1], int):
                        return ['ref', T(x[1]), W(x[2])]
                    if h == 'cast' and n == 5:
                        return ['cast', x[1], W(x[2]), T(x[3]), T(x[4])]
                    if h == 'bin' and n == 5:
                        return ['bin', x[1], W(x[2]), W(x[3]), T(x[4])]
                    if h == 'un' and n == 4:
                        return ['un', x[1], W(x[2]), T(x[3])]
                    if h == 'discr' and n == 3:
                        return ['discr', W(x[1]), T(x[2])]
                    if h == 'agg' and n == 6:
                        return ['agg', x[1], T(x[2]), x[3], W(x[4]), x[5]]
                    if h == 'switch' and n == 5:
                        return ['switch', W(x[1]), x[2], x[3], T(x[4])]
                    if h == 'drop' and n == 5:
                        return ['drop', W(x[1]), T(x[2]), x[3], x[4]]
                    if h == '=' and n == 4:
                        return ['=', W(x[1]), W(x[2])]
                    if h == 'fnptr' and n == 3:
                        if x[1] in self.p.fns:
                            E.add(self.fname(x[1]))
                        return ['fnptr', self.strip(x[1])]
                return [W(y) for y in x]
            if isinstance(x, str):
                return self.strip(x)
            return x
        o = []
        for key in sorted(f):
            v = f[key]
            if key in ('names', 'span', 'key', 'item'):
                continue
            if key == 'locals':
                v = [T(x) for x in v]
            elif key == 'blocks':
                v = [b and [W(b['s']), W(b['t'])] for b in v]
            elif key == 'path':
                v = self.strip(v)
            o.append((key, v))
        n = self.fname(k)
        self.keys.setdefault(n, []).append(k)
        self.add(n, repr(o), E)

    def reach(self, starts):
        seen = set(starts)
        work = list(starts)
        while work:
            for m in self.edges.get(work.pop(), ()):
                if m not in seen:
                    seen.add(m)
                    work.append(m)
        return seen


class Comp:
    def __init__(self, ref, cur):
        self.R, self.C = Graph(ref), Graph(cur)
        R, C = self.R, self.C
        # a closure of a generic function stands for all its instances: those only one
        # of the programs has say nothing about the others (what an instance captures
        # is seen where it is made and in its body)
        for n in R.local:
            if n.startswith('T {closure') and n in C.local and R.edges[n] != C.edges[n] and R.local[n] & C.local[n]:
                a = {m for m in R.edges[n] if m in C.local}
                b = {m for m in C.edges[n] if m in R.local}
                if a == b and a:
                    R.edges[n], C.edges[n] = a, b
                    R.local[n] = C.local[n] = R.local[n] & C.local[n]
        self.same_local = {n for n in R.local if R.local[n] == C.local.get(n) and R.edges[n] == C.edges[n]}
        self.proved = set()
        self._ok()

    def _ok(self):
        """ok: proved, or unchanged with only ok successors (greatest fixpoint)."""
        ok = set(self.same_local) | self.proved
        rev = {}
        for n in ok:
            if n not in self.proved:
                for m in self.R.edges[n]:
                    rev.setdefault(m, []).append(n)
        work = [m for m in rev if m not in ok]
        while work:
            m = work.pop()
            for n in rev.get(m, ()):
                if n in ok and n not in self.proved:
                    ok.discard(n)
                    work.append(n)
        self.ok = ok

    def proved_equal(self, nodes):
        self.proved |= set(nodes)
        self._ok()

    def node(self, kref):
        return self.R.fname(kref)

    def pair(self, n):
        """(ref key, cur key) if the function exists exactly once in both."""
        a, b = self.R.keys.get(n, ()), self.C.keys.get(n, ())
        if len(a) == 1 and len(b) == 1:
            return a[0], b[0]

    def local_fn(self, n):
        p = self.pair(n)
        return bool(p) and self.R.p.fns[p[0]].get('local')


if __name__ == '__main__':
    import sys, time
    from prog import Prog
    t = time.time()
    a, b = Prog(sys.argv[1]), Prog(sys.argv[2])
    t1 = time.time()
    c = Comp(a, b)
    print(t1 - t, time.time() - t1, len(c.R.local), len(c.same_local), len(c.ok))
    for n in sorted(set(c.R.local) | set(c.C.local)):
        if n not in c.same_local:
            print('changed', n[:150], len(c.R.local.get(n, ())), len(c.C.local.get(n, ())))
