#!/usr/bin/env python3
"""Self test of the checker on edits that keep the behaviour (refactors.py) and on edits that
change it (mutants.py): run.py refactors|mutants [name-regex].  Works on scratch copies only."""
import glob, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, 'sa'), os.path.join(V, 'selftest')]
import dump, compare
from prog import Prog
import importlib

mod = importlib.import_module(sys.argv[1])
rx = re.compile(sys.argv[2] if len(sys.argv) > 2 else '.')
ref = Prog(os.path.join(V, 'spec', 'reference.json.xz'))
ra = compare.roots(ref)
bad = 0
lo, hi = map(int, os.environ.get("RANGE", "0:9999").split(":"))
for name, scope, edits in mod.E[lo:hi]:
    if not rx.search(name):
        continue
    t = tempfile.mkdtemp(prefix='selftest.')
    try:
        shutil.copytree('/repo', os.path.join(t, 'r'), ignore=shutil.ignore_patterns('target', '.git'))
        ok = True
        for f, old, new in edits:
            if f == '*':  # a regular expression, in all files
                for p in glob.glob(os.path.join(t, 'r', 'src', '*.rs')):
                    s = open(p).read()
                    open(p, 'w').write(re.sub(old, new, s))
                continue
            p = os.path.join(t, 'r', 'src', f)
            if old is None:  # a new file
                open(p, 'w').write(new(open(os.path.join(t, 'r', 'src', 'lib.rs')).read()))
                continue
            s = open(p).read()
            if s.count(old) < 1:
                print('%-40s EDIT DOES NOT APPLY: %s' % (name, old[:60]))
                ok = False
                break
            open(p, 'w').write(s.replace(old, new, 1))
        if not ok:
            bad += 1
            continue
        t0 = time.time()
        try:
            dump.dump(os.path.join(t, 'r'), os.path.join(t, 'd.json'))
        except dump.BuildError as e:
            print('%-40s DOES NOT BUILD: %s' % (name, [l for l in str(e).splitlines() if l.startswith('error')][:3]), str(e)[-300:] if '-v' in sys.argv else '')
            bad += 1
            continue
        cur = Prog(os.path.join(t, 'd.json'), ref)
        if os.environ.get('KEEP'):
            shutil.copy(os.path.join(t, 'd.json'), os.environ['KEEP'])
        req = [p for p in ra if ra[p]['reachable'] and re.search(scope, p)]
        res, badh = compare.run(ref, cur, req, 200000, 150, stop=mod.WANT != 'equal')
        st = compare.run.stats
        out = [res[p] for p in req if res[p]['verdict'] != 'equal']
        d = [r for r in out if r['verdict'] in ('differs', 'missing')]
        want = mod.WANT
        good = (not out) if want == 'equal' else bool(d)
        if not good:
            bad += 1
        print('%-40s %s %d fns %.0fs proved %d failed %d%s' % (name, 'ok' if good else 'FAIL', len(req), time.time() - t0, len(st["changed_functions_proved"]), len(st["changed_functions_not_proved"]), ' badhooks %s' % sorted(badh)[:3] if badh else ''), flush=True)
        for r in out[:4]:
            if want == 'equal':
                print('     ', r['verdict'], r['path'], [(x[0], x[1], str(x[2])[:230]) for x in r['trail']], flush=True)
            elif '-v' in sys.argv:
                print('     ', r['verdict'], r['path'], [(x[0], x[1], str(x[2])[:150]) for x in r['trail']][-1:])
    finally:
        shutil.rmtree(t, ignore_errors=True)
print('%d wrong' % bad)
sys.exit(bool(bad))
