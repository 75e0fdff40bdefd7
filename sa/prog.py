"""Loader for the MIR dump: types, function bodies, CFG facts."""
import json, re

SELF_CRATE_STD = 'bitflags::__private::core::'


def norm(p):
    return p.replace(SELF_CRATE_STD, 'std::') if p else p


class Prog:
    def __init__(self, path, ref=None):
        """The program of a dump; in the private names of `ref`, if given."""
        self.aligned, self.loose = [], {}
        if ref is not None:
            import align
            d, self.aligned, self.loose = align.load(path, ref.raw)
        elif path.endswith('.xz'):
            import lzma
            with lzma.open(path) as f:
                d = json.load(f)
        else:
            with open(path) as f:
                d = json.load(f)
        self.raw = d
        self.types = d['types']
        self.fns = d['fns']
        self.api = d['api']
        self.adts = d['adts']
        self.consts = d['consts']
        self.impls = d['impls']
        for t in self.types:
            t['s'] = norm(t['s'])
            if 'path' in t:
                t['path'] = norm(t['path'])
            c = t.get('callee')
            if c:
                for k in ('path', 'rpath', 'full'):
                    if k in c:
                        c[k] = norm(c[k])
        for k, f in self.fns.items():
            f['key'] = k
            if 'path' in f:
                f['path'] = norm(f['path'])
        self._drop = {}
        self._cfg = {}
        self.by_path = {}
        for k, f in self.fns.items():
            self.by_path.setdefault(f.get('path'), []).append(k)
        self.api_by_path = {}
        for a in self.api:
            a['path'] = norm(a['path'])
            self.api_by_path.setdefault(a['path'], []).append(a)

    def ty(self, i):
        return self.types[i]

    # ---- does dropping a value of this type run code of the crate? ----
    def drop_interest(self, tid, seen=None):
        if tid in self._drop:
            return self._drop[tid]
        if seen is None:
            seen = set()
        if tid in seen:
            return False
        seen.add(tid)
        t = self.types[tid]
        k = t['k']
        r = False
        if k == 'adt':
            if t['path'] in ('std::mem::ManuallyDrop', 'std::marker::PhantomData'):
                r = False
            elif 'drop' in t and t['local']:
                r = True
            elif t['path'] in ('std::vec::Vec', 'std::boxed::Box', 'std::option::Option') or True:
                subs = [f[1] for v in t['variants'] for f in v['fields']]
                if not t['local']:
                    subs = subs + list(t['targs'])
                r = any(self.drop_interest(x, seen) for x in subs)
        elif k == 'tuple':
            r = any(self.drop_interest(x, seen) for x in t['elems'])
        elif k in ('array', 'slice'):
            r = self.drop_interest(t['elem'], seen)
        elif k == 'closure':
            r = any(self.drop_interest(x, seen) for x in t['upvars'])
        self._drop[tid] = r
        return r

    # ---- CFG: predecessors, loop heads, natural loop bodies ----
    def cfg(self, key):
        if key in self._cfg:
            return self._cfg[key]
        blocks = self.fns[key]['blocks']
        succ = {}
        for i, b in enumerate(blocks):
            if b is None:
                continue
            t = b['t']
            k = t[0]
            if k == 'goto':
                s = [t[1]]
            elif k == 'switch':
                s = [x[1] for x in t[2]] + [t[3]]
            elif k == 'drop':
                s = [t[3]]
            elif k == 'call':
                s = [t[4]] if t[4] is not None else []
            elif k == 'assert':
                s = [t[4]]
            else:
                s = []
            succ[i] = s
        pred = {i: [] for i in succ}
        for i, ss in succ.items():
            for x in ss:
                pred.setdefault(x, []).append(i)
        # DFS for back edges
        heads = {}
        color = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            adv = False
            for x in it:
                if color.get(x, 0) == 0:
                    color[x] = 1
                    stack.append((x, iter(succ.get(x, []))))
                    adv = True
                    break
                elif color[x] == 1:
                    heads.setdefault(x, set()).add(n)
            if not adv:
                color[n] = 2
                stack.pop()
        bodies = {}
        for h, tails in heads.items():
            body = {h}
            work = [t for t in tails]
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                work.extend(pred.get(x, []))
            bodies[h] = body
        r = (succ, pred, bodies)
        self._cfg[key] = r
        return r
