#!/usr/bin/env python3
"""one.py VARIANT FUNCTION LEVEL [refactors|mutants]: show both summaries and the difference (debugging aid)."""
import time, os, re, shutil, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'sa'), os.path.join(V, 'selftest')]
import dump, compare, importlib
from prog import Prog
from equiv import *
from terms import reset_types


def tree(t, nodes, ind=0, w=200):
    for ev in t[1]:
        print(' ' * ind + (str(ev[0]) + ' ' + ' '.join(show(x) if isinstance(x, tuple) else str(x) for x in ev[1:]))[:w])
    e = t[2]
    if e[0] == 'branch':
        print(' ' * ind + 'if ' + show(e[1])[:w])
        for d, k in e[2]:
            print(' ' * ind + '= %s:' % (d,))
            tree(k, nodes, ind + 2, w)
    elif e[0] == 'read':
        print(' ' * ind + 'read ' + show(e[1])[:w])
        print(' ' * ind + 'some:')
        tree(e[2], nodes, ind + 2, w)
        print(' ' * ind + 'none:')
        tree(e[3], nodes, ind + 2, w)
    elif e[0] == 'goto':
        print(' ' * ind + 'goto %s' % (e[1],))
        for a, b in e[2]:
            if a != b:
                print(' ' * ind + '     %s := %s' % (show(a), show(b)[:w]))
    elif e[0] == 'ret':
        print(' ' * ind + 'ret %s' % show(e[1])[:w])
        for a, b in e[2]:
            print(' ' * ind + '    %s = %s' % (show(a), show(b)[:w]))
    else:
        print(' ' * ind + str(e)[:w])


def dump_sum(r):
    root, nodes = r
    tree(root, nodes)
    for n, t in nodes.items():
        print('NODE', n)
        tree(t, nodes, 2)


if __name__ == '__main__':
    name, fn, lvl = sys.argv[1:4]
    mod = importlib.import_module('mutants' if 'mutants' in sys.argv else 'refactors')
    ref = Prog(os.path.join(V, 'spec', 'reference.json.xz'))
    cache = '/tmp/one.%s.json' % re.sub(r'\W', '_', name)
    if name != '-' and not os.path.exists(cache):
        [(n, s, edits)] = [x for x in mod.E if x[0] == name]
        t = tempfile.mkdtemp(prefix='selftest.')
        shutil.copytree('/repo', os.path.join(t, 'r'), ignore=shutil.ignore_patterns('target', '.git'))
        for f, old, new in edits:
            p = os.path.join(t, 'r', 'src', f)
            s = open(p).read()
            assert old in s, old
            open(p, 'w').write(s.replace(old, new, 1))
        dump.dump(os.path.join(t, 'r'), cache)
        shutil.rmtree(t)
    cur = Prog(cache) if name != '-' else ref
    ra, ca = compare.roots(ref), compare.roots(cur)
    reset_types()
    e = compare.ENG[lvl](ref); e.max_steps = 200000
    r = e.analyse(ra[fn]['key'])
    e2 = compare.ENG[lvl](cur); e2.max_steps = 200000
    c = e2.analyse(ca[fn]['key'])
    if 'sum' in sys.argv:
        print('=== REFERENCE'); dump_sum(r)
        print('=== CURRENT'); dump_sum(c)
    q = Equiv(c, r)
    q.deadline = time.time() + 30
    m = q.by_name()
    print('by name', m and m.msg[:200])
    m = m and q.run()
    if 'unf' in sys.argv:
        import unfold
        t = time.time()
        u = unfold.check(c, r)
        print('UNFOLD', u[0], str(u[1])[:600], show_path(u[2]) if len(u) > 2 else '', '%.1fs' % (time.time() - t))
    print('EQUAL' if m is None else (m.msg[:600], show_path(m.path)), q.n, len(r[1]), len(c[1]))
