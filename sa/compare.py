"""Compare every public function of the current tree with the reviewed
reference, function by function, as effect summaries.

Both trees are analysed by the same engines on every run: the reference is the
MIR of the reviewed tree, the current one is dumped from /repo.  Equal means:
for every input, the same bytes at the same positions, the same recorded
offsets and limits, the same return value, the same set of panicking inputs.
"""
import signal, time, traceback, multiprocessing as mp
from engine import Unsupported, canon
from terms import reset_types
from levela import EA, H as HA
from levelb import EB, EC, ED, EO, Eo, HB, HC, HD
from equiv import Equiv, show_path
import unfold, comp

HBN = {canon(h) for h in HB}  # single steps at every level
NUM = {'buf::Buf::' + x for x in ('push_int', 'push_float', 'push_decimal')}  # single steps at level D
ENG = {'A': EA, 'B': EB, 'C': EC, 'D': ED, 'O': EO, 'o': Eo}


def has_read(t):
    if t[0] == 'seq':
        return has_read(t[2])
    if t[0] == 'branch':
        return any(has_read(k) for _, k in t[2])
    return t[0] == 'read'


def loop_sig(s):
    """The variables each loop of a summary goes round with."""
    out = {}
    stack, seen = [s[0]] + [s[1][k] for k in s[1]], set()
    while stack:
        t = stack.pop()
        if id(t) in seen or not isinstance(t, tuple) or not t:
            continue
        seen.add(id(t))
        if t[0] == 'goto':
            # ('phi', loop, (frame, local), projection): locals are numbered afresh by every edit
            out.setdefault(t[1], set()).update((str(x[0]), str(x[0][2:] if not (len(x[0]) > 2 and isinstance(x[0][2], tuple) and x[0][2] and isinstance(x[0][2][0], int)) else x[0][3:])) for x in t[2])
        elif t[0] == 'seq':
            stack.append(t[2])
        elif t[0] == 'branch':
            stack.extend(k for _, k in t[2])
        elif t[0] == 'read':
            stack.extend(x for x in t[1:] if isinstance(x, tuple))
    return sorted(tuple(sorted(y for _, y in v)) for v in out.values())


def has_unk(t):
    """Does a summary mention a value the engine has no term for?"""
    seen, stack = set(), [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple) or id(x) in seen:
            continue
        seen.add(id(x))
        if len(x) > 1 and x[0] == 'unk':
            return True
        stack.extend(x)
    return False


class Timeout(BaseException):  # not caught on the way
    pass


def _alarm(*a):
    raise Timeout()


def one(ref, cur, kref, kcur, level, steps, secs, pairs=60000):
    """-> ('equal',) | ('differs', msg, where) | ('undecided', why)"""
    reset_types()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(secs)
    n = {}
    try:
        e, e2 = ENG[level](ref), ENG[level](cur)
        if level in 'Oo':
            e.OK = e2.OK = CMP.ok
            e.NAME, e2.NAME = CMP.R.fname, CMP.C.fname
        e.max_steps = steps
        r = e.analyse(kref)
        e2.max_steps = steps
        c = e2.analyse(kcur)
        q = Equiv(c, r, pairs)
        q.deadline = time.time() + secs / 4
        m = q.by_name()
        n = {'steps': getattr(e2, 'steps', 0), 'pairs': q.n, 'nodes': len(c[1])}
        if m is None:
            return ('equal', n)
        loops = c[1] or r[1] or has_read(c[0]) or has_read(r[0])
        if loops:
            # another loop structure: compare finite unfoldings
            u = unfold.check(c, r)
            if u[0] == 'equal':
                return ('equal', dict(n, **u[1]))
            if u[0] == 'differs' and has_unk(c[0]) and not has_unk(r[0]):
                return ('undecided', 'not modelled: ' + u[1][:200])
            if u[0] == 'differs':
                return ('differs', u[1], show_path(u[2]))
            if ' are beyond ' in u[1]:
                # equal as far as the unfolding went
                return ('undecided', u[1][:300])
        m = q.run()
        if m is None:
            return ('equal', n)
        if loops and loop_sig(c) != loop_sig(r):
            # other loops, and too large to unfold: a mismatch may be one of form only
            return ('undecided', m.msg[:200] + ' [' + u[1][:300] + ', other loops]')
        if loops and m.msg != 'comparison too large':
            m.msg += ' [' + u[1][:300] + ']'
        if m.msg == 'comparison too large':
            return ('undecided', m.msg)
        if has_unk(c[0]) and not has_unk(r[0]):
            # computed with something outside the model
            return ('undecided', 'not modelled: ' + m.msg[:200])
        return ('differs', m.msg, show_path(m.path))
    except Timeout:
        return ('undecided', 'time budget of %d s' % secs)
    except Unsupported as x:
        return ('undecided', 'Unsupported: ' + str(x)[:200])
    except RecursionError:
        return ('undecided', 'recursion')
    except MemoryError:
        return ('undecided', 'memory')
    except Exception as x:
        signal.alarm(0)
        tb = traceback.extract_tb(x.__traceback__)[-1]
        return ('undecided', '%s: %s (%s:%d)' % (type(x).__name__, str(x)[:160], tb.filename.split('/')[-1], tb.lineno))
    finally:
        signal.alarm(0)


def outer(ref, cur, kref, kcur, l, steps, secs):
    """The outer level: decides equality only."""
    r = one(ref, cur, kref, kcur, l, steps, min(secs, 30))
    return r if r[0] == 'equal' else ('undecided',) + r[1:]


def kind(path):
    """Which levels, in order of preference."""
    p = path.lstrip('<&')
    h = p.split('::')[0]
    if h == 'object' and p.split('<')[0].split('::')[-1] in ('items', 'pairs'):
        return 'ADB'
    if h in ('buf', 'object'):
        return 'B'
    if h in ('Pdf', 'chunk', 'renumber', 'TrailerData', 'XRefStreamWriter', 'PlainXRefWriter'):
        return 'CDB'
    if h == 'content' and ('Operation' in p or p.endswith(('Content::op', 'Content::new', 'Content::with_settings', 'Content::finish',
                           'Content::with_capacity', 'Content::into_vec', 'Content::drop', 'Content::save_state', 'Content::restore_state', 'Content::save_state_checked'))):
        return 'B'
    return 'ADB'


REF = CUR = CMP = None
BAD = set()


def work(job):
    path, kref, kcur, levels, steps, secs, src = job
    t = time.time()
    trail = []
    for l in levels:
        if l == '/':
            # finer levels decided nothing: accept equality up to the differing single steps,
            # which are reported where they are defined
            if any(x[1] == 'differs' for x in trail):
                break
            continue
        r = outer(REF, CUR, kref, kcur, l, steps, secs) if l in 'Oo' else one(REF, CUR, kref, kcur, l, steps, secs)
        trail.append((l,) + r)
        if r[0] == 'equal':
            break
    eq = [x for x in trail if x[1] == 'equal']
    df = [x for x in trail if x[1] == 'differs']
    if eq:
        v = 'equal'
    elif df:
        v = 'differs'
    else:
        v = 'undecided'
    return {'path': path, 'verdict': v, 'trail': trail, 's': round(time.time() - t, 2)}


def roots(prog):
    """path -> api entry, for everything compared by itself."""
    out = {}
    for a in prog.api:
        if not a['key'] or a['key'] not in prog.fns or a.get('derived') or '::_::' in a['path']:
            continue
        p = canon(a['path'])
        out.setdefault(p, a)
    return out


def hooked(prog):
    """Functions the engines treat as single steps, with the level deciding them."""
    out = {}
    for h in list(HA) + list(HB) + list(HC) + list(HD):
        out[canon(h)] = None
    return set(out)


def prove(job):
    """Is this function, taken alone, equal to its reviewed version?"""
    node, kref, kcur, levels, steps, secs = job
    t = time.time()
    trail = []
    for l in levels:
        if l == '/' and any(x[1] == 'differs' for x in trail):
            break
        if l in '/!':
            continue
        r = outer(REF, CUR, kref, kcur, l, steps, secs) if l in 'Oo' else one(REF, CUR, kref, kcur, l, steps, secs)
        trail.append((l,) + r)
        if r[0] == 'equal':
            break
        if '!' in levels and l not in 'Oo' and 'time budget' in str(r[1]):
            break  # a private function: its callers are examined in any case
    return node, trail, round(time.time() - t, 2)


def run(ref, cur, paths, steps=200000, secs=120, procs=8, cost=None, progress=None, limit=560, stop=False):
    """Compare the named roots (all of them if None)."""
    global REF, CUR, CMP
    t0 = time.time()
    REF, CUR = ref, cur
    ra, ca = roots(ref), roots(cur)
    res = {}
    cmp = CMP = comp.Comp(ref, cur)
    want = [p for p in (ra if paths is None else paths) if p in ra]
    hk = hooked(ref)
    path_of = {}
    for k, f in ref.fns.items():
        path_of[cmp.R.fname(k)] = canon(f.get('path') or '')
    hk_set = {n for n, p in path_of.items() if p in hk}
    generic = {p: cmp.R.fname(a['key']) for p, a in ra.items()}
    rootnode = {p: cmp.R.fname(ra[p]['key']) for p in want}

    def covered(n):
        """Proved, or an instance the current program no longer has of a proved generic function."""
        return n in cmp.ok or (n not in cmp.C.keys and generic.get(path_of[n], n) in cmp.ok)
    scope = cmp.R.reach(list(rootnode.values()))
    tried = {}
    ctx = mp.get_context('fork')

    def levels(node, k):
        """Levels sound for this function: those that model a function as one step
        only while every such function in reach is the reviewed one."""
        bad = [m for m in cmp.R.reach([node]) if m in hk_set and not covered(m) and m != node]
        if bad:
            direct = set(cmp.R.edges[node])
            for t in list(direct):
                if t.startswith('T '):
                    direct |= cmp.R.edges[t]
            if any(m in direct and path_of[m] in NUM for m in bad):
                # the writers of single numbers: judged together with how the digits are made
                return 'oB/D' + k.strip('DB')
            return 'oDB/' + k.strip('DB')
        return ('o' if k == 'B' else 'O') + k

    final = set()
    byroot = {n: p for p, n in rootnode.items()}

    def settled(n, trail):
        """A function in scope differs at every level: the check has its answer."""
        if stop and n in byroot and byroot[n] in ca and trail and all(x[1] == 'differs' for x in trail if x[0] not in 'Oo') \
                and any(x[0] not in 'Oo' for x in trail):
            final.add(n)
        return bool(final)

    # 1. functions that changed, proved one by one, callees before callers
    while time.time() - t0 < limit / 2:
        todo, inst, grow = [], [], []
        for n in sorted(scope):
            if n in cmp.ok or n in tried or not n.startswith('F ') or not cmp.local_fn(n):
                continue
            kids = cmp.R.edges[n] | cmp.C.edges.get(n, set())
            g = generic.get(path_of[n], n)
            if g != n and cmp.local_fn(g):
                # an instance of a generic function: the generic one covers it, as far as
                # what it calls in place of the parameters is equal, too
                if g in cmp.ok and all(m in cmp.ok or m in cmp.R.edges[g] for m in kids):
                    inst.append(n)
                    continue
                if g not in cmp.ok and g not in tried:
                    grow.append(g)
                    continue
            waiting = False
            seen, stack = {n}, list(kids)
            while stack and not waiting:
                m = stack.pop()
                if m in seen or m in cmp.ok:
                    continue
                seen.add(m)
                if m.startswith('F ') and cmp.local_fn(m):
                    waiting = m not in tried and n not in cmp.R.edges[m]
                    # a callee that was tried and failed: its own callees were tried before it
                    continue
                stack.extend(cmp.R.edges.get(m, ()))
            if not waiting:
                todo.append(n)
        more = cmp.R.reach(grow) - scope
        scope |= more
        if inst:
            cmp.proved_equal(inst)
        if inst or more:
            continue
        todo = sorted(set(todo))
        if not todo:
            break
        jobs = []
        for n in todo:
            a, b = cmp.pair(n)
            k = 'B' if n in hk_set else kind(path_of[n])
            priv = path_of[n] in HBN and not (ra.get(path_of[n]) or {}).get('reachable')
            jobs.append((n, a, b, 'oCD' if priv else levels(n, k) + ('' if n in byroot else '!'), steps, 240 if priv else min(secs, 45)))
        with ctx.Pool(procs) as pool:
            for n, trail, s in pool.imap_unordered(prove, jobs):
                tried[n] = (trail, s)
                if settled(n, trail):
                    pool.terminate()
                    break
        if final:
            break
        cmp.proved_equal([n for n in todo if n in tried and tried[n][0] and tried[n][0][-1][1] == 'equal'])
    bad = {path_of[n] for n in hk_set & scope if not covered(n)}
    # 2. the roots
    js = []
    for p in want:
        if p not in ca:
            res[p] = {'path': p, 'verdict': 'missing', 'trail': [], 's': 0}
            continue
        n = rootnode[p]
        if n in tried and (n in cmp.ok or set(x[0] for x in tried[n][0]) >= set(levels(n, kind(p)).split('/')[0])
                           and not any(x[1] == 'undecided' and x[0] not in 'Oo' for x in tried[n][0])):
            tr, s = tried[n]
            if n in cmp.ok:
                v = 'equal'
            else:
                v = 'differs' if any(x[1] == 'differs' for x in tr) else 'undecided'
            res[p] = {'path': p, 'verdict': v, 'trail': tr, 's': s}
            continue
        if final:
            res[p] = {'path': p, 'verdict': 'undecided', 'trail': [('-', 'undecided', 'not examined: another function in scope differs')], 's': 0}
            continue
        js.append((p, ra[p]['key'], ca[p]['key'], levels(n, kind(p)) if n not in cmp.ok else kind(p)[0], steps,
                   min(secs, 15) if n in cmp.ok else min(secs, 90) if n in tried else secs, None))
    js.sort(key=lambda j: -(cost or {}).get(j[0], 0))
    with ctx.Pool(procs) as pool:
        it = pool.imap_unordered(work, js)
        left = {j[0] for j in js}
        while left:
            try:
                r = it.next(timeout=max(1, t0 + limit - time.time()))
            except StopIteration:
                break
            except mp.TimeoutError:
                pool.terminate()
                for p in left:
                    res[p] = {'path': p, 'verdict': 'undecided', 'trail': [('-', 'undecided', 'time limit of the check')], 's': 0}
                break
            left.discard(r['path'])
            res[r['path']] = r
    for p in want:
        r = res[p]
        if r['verdict'] != 'equal' and rootnode[p] in cmp.ok and p in ca:
            # the body and everything it reaches is the reviewed program, or proved equal to it
            r['verdict'] = 'equal'
            r['trail'] = list(r['trail']) + [('=', 'equal', {'steps': 0, 'pairs': 0})]
    # private functions that are modelled as one step: nothing else judges them
    for n in sorted(hk_set & scope):
        p = path_of[n]
        if n in cmp.ok or p in res or n not in tried or p not in HBN or (ra.get(p) or {}).get('reachable'):
            continue
        tr, s = tried[n]
        if any(x[1] == 'differs' for x in tr):
            res[p] = {'path': p, 'verdict': 'differs', 'trail': tr, 's': s, 'key': n}
    if cur.loose:
        # a private field with another name, and not only that: it may stand for something else
        for p, r in res.items():
            n = r.get('key') or rootnode.get(p)
            if r['verdict'] == 'differs' and n and any(m.startswith('T ' + t) for m in cmp.R.reach([n]) for t in cur.loose):
                r['verdict'] = 'undecided'
                r['trail'] = list(r['trail']) + [('-', 'undecided', 'a private field of %s is represented differently' % ', '.join(sorted(cur.loose)))]
    ok = sum(1 for p in want if rootnode[p] in cmp.ok)
    run.stats = {'unchanged_or_proved': ok, 'changed_functions_proved': sorted(n[2:] for n in cmp.proved)[:50],
                 'changed_functions_not_proved': sorted(n[2:] for n in tried if n not in cmp.ok)[:50]}
    return res, bad


run.stats = {}


if __name__ == '__main__':
    import sys, re, collections
    from prog import Prog
    ref = Prog(sys.argv[1])
    cur = Prog(sys.argv[2], ref)
    rx = re.compile(sys.argv[3]) if len(sys.argv) > 3 else None
    ps = [p for p in roots(ref) if not rx or rx.search(p)]
    t = time.time()
    res, bad = run(ref, cur, ps)
    print('bad', bad)
    for r in sorted(res.values(), key=lambda r: -r['s'])[:10]:
        print('slow', r['path'], r['s'], [(x[0], x[1]) for x in r['trail']])
    for r in res.values():
        if r['verdict'] != 'equal':
            print(r['verdict'], r['path'], r['trail'] and r['trail'][-1][2:], len(r['trail']))
    print(collections.Counter(r['verdict'] for r in res.values()), time.time() - t)
