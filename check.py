#!/usr/bin/env python3
"""check.py PROPERTY [--repo DIR]: decide one property on the current tree.

Exit 0: the property held on everything analysed.  Exit 1 with a line
"VIOLATION property=<id> replay=<file>": it does not hold."""
import json, os, re, sys, tempfile, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [VERIF, os.path.join(VERIF, 'sa')]
import props, dump, compare, rules
from prog import Prog

BUDGET = {'quick': (200000, 150), 'thorough': (600000, 500)}


def main():
    t0 = time.time()
    pid = sys.argv[1]
    repo = sys.argv[sys.argv.index('--repo') + 1] if '--repo' in sys.argv else '/repo'
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = {p['id']: p for p in props.P}[pid]
    fd, out = tempfile.mkstemp(prefix='mirdump.', suffix='.json')
    os.close(fd)
    os.unlink(out)
    ref = Prog(os.path.join(VERIF, 'spec', 'reference.json.xz'))
    try:
        dump.dump(repo, out)
        cur = Prog(out, ref)
    finally:
        if os.path.exists(out):
            os.unlink(out)
    ra = compare.roots(ref)
    ca = compare.roots(cur)
    sel = [p for p in ra if any(re.search(r, p) for r in P['roots'] if isinstance(r, str))]
    for r in P['roots']:
        if not any(re.search(r, p) for p in ra):
            raise SystemExit('property %s: pattern %s matches nothing in the reference' % (pid, r))
    # a private function may be restructured freely: it is judged through its callers
    required = [p for p in sel if ra[p]['reachable']]
    extra = [p for p in rules.extra_roots(P, ref, ra) if p not in required]
    required += extra
    steps, secs = BUDGET[tier]
    try:
        cost = json.load(open(os.path.join(VERIF, 'spec', 'cost.json')))
    except OSError:
        cost = {}
    res, bad = compare.run(ref, cur, required, steps, secs, procs=int(os.environ.get('SA_PROCS', '8')), cost=cost, stop=not any(re.match(r'known: property=%s ' % pid, l) for l in open(os.path.join(VERIF, 'known_findings.txt'))))
    viol = []
    private = [p for p in res if p not in required]
    for p in private:
        ca[p] = next((f for f in cur.fns.values() if compare.canon(f.get('path') or '') == p), None)
    for p in required + private:
        r = res[p]
        if r['verdict'] == 'differs':
            last = [x for x in r['trail'] if x[1] == 'differs']
            pick = last[0] if len(last) == 1 else last[-1] if last[-1][0] != 'B' else last[0]
            viol.append(('contract ' + p, ca[p], pick[2], pick[3], [list(map(str, x))[:4] for x in r['trail']]))
        elif r['verdict'] == 'missing':
            viol.append(('contract ' + p, ra[p], 'the function no longer exists', '', []))
    ctx = rules.Ctx(P, ref, cur, ra, ca, res, repo)
    rr = []
    for name in P['rules']:
        f = rules.RULES.get(name)
        if f is None:
            continue
        for o in f(ctx):
            rr.append((name,) + o)
            if o[1] == 'violated':
                viol.append(('%s %s' % (name, o[0]), o[3] if len(o) > 3 else None, o[2], '', []))
    # known findings
    known = {}
    kf = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid:
                known[m.group(2)] = m.group(3)
    new = []
    for v in viol:
        if v[0] in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (pid, v[0], known[v[0]]))
        else:
            new.append(v)
    und = [p for p in required if res[p]['verdict'] == 'undecided']
    n_eq = sum(1 for p in required if res[p]['verdict'] == 'equal')
    oblig = len(required) + len(rr)
    done = n_eq + sum(1 for x in rr if x[2] == 'holds')
    st = {'steps': 0, 'pairs': 0}
    for p in required:
        for x in res[p]['trail']:
            if x[1] == 'equal':
                st['steps'] += x[2].get('steps', 0)
                st['pairs'] += x[2].get('pairs', 0)
    lv = {}
    for p in required:
        if res[p]['verdict'] == 'equal':
            l = res[p]['trail'][-1][0]
            lv[l] = lv.get(l, 0) + 1
    byrule = {}
    for x in rr:
        d = byrule.setdefault(x[0], {})
        d[x[2]] = d.get(x[2], 0) + 1
    cov = {
        'explanation': 'Static effect analysis of the MIR of the current tree. %d public functions in scope (%d in the crate); for each, '
        'the summary of what it appends, records, returns and refuses, over all arguments and all prior states, was compared with the '
        'reviewed contract of that function: %d equal, %d different, %d undecided, %d missing. %d rule instances on the current tree: %s.'
        % (len(required), len(ca), n_eq, sum(1 for p in required if res[p]['verdict'] == 'differs'), len(und),
           sum(1 for p in required if res[p]['verdict'] == 'missing'), len(rr),
           '; '.join('%s %s' % (k, ', '.join('%d %s' % (n, s) for s, n in sorted(v.items()))) for k, v in sorted(byrule.items())) or 'none'),
        'functions': len(required), 'obligations': oblig, 'discharged': done,
        'decided_at_level': lv, 'branch_pairs_compared': st['pairs'],
        'modelled_steps_checked': sum(1 for p in compare.hooked(ref) if p in res and res[p]['verdict'] == 'equal'),
        'undecided': [{'function': p, 'why': [str(x[2])[:160] for x in res[p]['trail']]} for p in und][:50],
        'samples': sorted(required)[:5] + [list(map(str, x[:4])) for x in rr[:5]],
        'rule': 'one obligation per public function in scope (contract equality) and per rule instance of: ' + ', '.join(P['rules']),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': ['models of std, memchr, itoa and ryu functions in sa/models.py', 'the reviewed contract in spec/ states the intended behaviour',
                          'user callbacks (filters, mappings, iterators) are deterministic and do not touch the writer'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d functions, %d equal, %d undecided; rules %s; %.1f s' % (pid, len(required), n_eq, len(und), byrule, time.time() - t0))
    for u in und[:20]:
        print('  undecided %s: %s' % (u, '; '.join(str(x[2])[:120] for x in res[u]['trail'])))
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for key, a, msg, where, trail in new:
                span = a.get('span') if isinstance(a, dict) else a
                f.write('%s\n  at %s\n  %s\n' % (key, ':'.join(map(str, span)) if span else '?', msg))
                if where:
                    f.write('  when %s\n' % where)
                for x in trail:
                    f.write('    level %s\n' % ' | '.join(x))
            f.write('re-run: cd /verif && python3 check.py %s\n' % pid)
        for key, a, msg, where, trail in new[:10]:
            span = a.get('span') if isinstance(a, dict) else a
            print('  %s at %s: %s%s' % (key, ':'.join(map(str, span)) if span else '?', msg[:200], (' when ' + where[:200]) if where else ''))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    return 0


if __name__ == '__main__':
    try:
        sys.exit(main())
    except dump.BuildError as e:
        print('cannot build the tree:\n' + str(e))
        sys.exit(2)
