"""Names and layouts nobody outside the crate can see are free: before the comparison, the
private functions, private types and private fields of the current program which only changed
their name, and private fields which only changed their position, are given the reference's.
A wrong pairing can only make programs look different: what a function does is compared
whatever it is called."""
import json
import re
from prog import norm

WORD = r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])'


def split(path):
    """(everything before the last segment, last segment)"""
    depth, i = 0, len(path)
    for j in range(len(path) - 1, 0, -1):
        c = path[j]
        if c == '>' and path[j - 1] != '-':
            depth += 1
        elif c == '<':
            depth -= 1
        elif depth == 0 and path[j - 1:j + 1] == '::':
            return path[:j - 1], path[j + 1:]
    return '', path


def words(d):
    """last segments of all items, with how many items have them"""
    n = {}
    for a in d['api']:
        w = split(a['path'])[1]
        n[w] = n.get(w, 0) + 1
    for p in d['adts']:
        w = split(p)[1]
        n[w] = n.get(w, 0) + 1
    return n


def shape(a):
    return [(v['name'] if len(a['variants']) > 1 else '', [(f['name'], f['pub']) for f in v['fields']]) for v in a['variants']]


def renames(text, d, ref):
    """-> [(current word, reference word)]"""
    out = []
    nw, rw = words(d), words(ref)
    ident = re.compile(r'^[A-Za-z_][A-Za-z0-9_]*$')

    def take(c, r):
        if c != r and ident.match(c) and ident.match(r) and nw.get(c) == 1 and rw.get(r) == 1 and not nw.get(r) and not rw.get(c):
            out.append((c, r))
    cu = [p for p in d['adts'] if p not in ref['adts'] and not d['adts'][p]['reachable']]
    ru = [p for p in ref['adts'] if p not in d['adts'] and not ref['adts'][p]['reachable']]
    for r in ru:
        m = [c for c in cu if split(c)[0] == split(r)[0] and shape(d['adts'][c]) == shape(ref['adts'][r])]
        if len(m) == 1:
            take(split(m[0])[1], split(r)[1])
    if out:
        return out

    def sig(d, a):
        T = d['types']
        return tuple(T[i]['s'] for i in a['inputs']), T[a['output']]['s'] if isinstance(a['output'], int) else a['output']
    ca, ra = {a['path'] for a in d['api']}, {a['path'] for a in ref['api']}
    cu = [a for a in d['api'] if a['path'] not in ra and not a['reachable']]
    ru = [a for a in ref['api'] if a['path'] not in ca and not a['reachable']]
    groups = {}
    for i, (l, dd) in enumerate(((cu, d), (ru, ref))):
        for a in l:
            groups.setdefault((split(a['path'])[0], sig(dd, a)), ([], []))[i].append(a)
    for c, r in groups.values():
        if len(c) == len(r):
            c.sort(key=lambda a: a['span'][1])
            r.sort(key=lambda a: a['span'][1])
            for x, y in zip(c, r):
                take(split(x['path'])[1], split(y['path'])[1])
    return out


def layouts(d):
    """path of a local struct -> ([field names], [types])"""
    out = {}
    for t in d['types']:
        if t['k'] == 'adt' and t.get('local') and t.get('akind') == 'struct':
            f = t['variants'][0]['fields']
            out.setdefault(t['path'], {})[t['s']] = ([x[0] for x in f], [d['types'][x[1]]['s'] for x in f])
    return out


def owns(d, tid, seen=()):
    """Might dropping a value of this type run code?"""
    t = d['types'][tid]
    if t['k'] in ('int', 'uint', 'bool', 'float', 'char', 'ref', 'ptr', 'str'):
        return False
    if t['k'] in ('param', 'dyn', 'alias'):
        return True
    if tid in seen:
        return False
    if t['k'] == 'adt':
        if 'drop' in t and t.get('local'):
            return True
        s = seen + (tid,)
        return any(owns(d, x, s) for x in t.get('targs') or () if isinstance(x, int)) or \
            (bool(t.get('local')) and any(owns(d, f[1], s) for v in t['variants'] for f in v['fields']))
    if 'elem' in t:
        return owns(d, t['elem'], seen + (tid,))
    return any(owns(d, x, seen + (tid,)) for x in t.get('elems') or ())


def other(ty, a, b):
    """Does a type of program a mention a private type program b does not have?"""
    return any(p in ty and p not in b['adts'] and not x['reachable'] for p, x in a['adts'].items())


def fields(d, ref):
    """-> {path: permutation}: the current position of each field of the reference,
    and the names of fields whose meaning may have changed with their name"""
    loose = {}
    lc, lr = layouts(d), layouts(ref)
    perm, names = {}, {}
    for p, inst in lr.items():
        if p not in lc or p not in d['adts'] or p not in ref['adts']:
            continue
        s = next((s for s in inst if s in lc[p]), None)
        if s is None:
            continue
        (rn, rt), (cn, ct) = inst[s], lc[p][s]
        for n in set(rn) & set(cn):
            a, b = rt[rn.index(n)], ct[cn.index(n)]
            if a != b and (other(b, d, ref) or other(a, ref, d)):
                loose.setdefault(p, set()).add(n)  # made of another private type
        if rn == cn or len(rn) != len(cn):
            continue
        pub = {f['name'] for f in ref['adts'][p]['variants'][0]['fields'] if f['pub']} | \
              {f['name'] for f in d['adts'][p]['variants'][0]['fields'] if f['pub']}
        gone, come = set(rn) - set(cn) - pub, set(cn) - set(rn) - pub
        if len(gone) == len(come):
            if gone:
                loose.setdefault(p, set()).update(gone | come)
        to = {n: cn.index(n) for n in rn if n in cn}  # reference name -> current position
        left = [i for i in range(len(cn)) if i not in to.values()]
        for n in [n for n in rn if n not in to]:
            i = rn.index(n)
            if n in pub:
                break
            m = [j for j in left if ct[j] == rt[i] and cn[j] not in pub]
            same = [k for k in rn if k not in to and rt[rn.index(k)] == rt[i]]
            if not m or len(m) != len(same):
                break
            to[n] = m[0]
            left.remove(m[0])
        if len(to) != len(rn):
            continue
        perm[p] = [to[n] for n in rn]
        names[p] = rn
    for p in list(perm):
        if perm[p] != list(range(len(perm[p]))):
            ts = [t for t in d['types'] if t['k'] == 'adt' and t.get('path') == p]
            # the order in which fields are dropped is behaviour
            if any(sum(owns(d, f[1]) for f in t['variants'][0]['fields']) > 1 and
                   [j for j in perm[p] if owns(d, t['variants'][0]['fields'][j][1])] !=
                   [j for j in sorted(perm[p]) if owns(d, t['variants'][0]['fields'][j][1])] for t in ts):
                del perm[p]
    for t in d['types']:
        if t['k'] == 'adt' and t.get('path') in perm:
            f = t['variants'][0]['fields']
            t['variants'][0]['fields'] = [[n, f[j][1]] for n, j in zip(names[t['path']], perm[t['path']])]
    moved = {p: x for p, x in perm.items() if x != list(range(len(x)))}
    if moved:
        permute(d, moved)
    return perm, loose


def permute(d, moved):
    T = d['types']
    new = {p: {j: i for i, j in enumerate(x)} for p, x in moved.items()}  # current position -> reference's

    def place(fn, pl):
        ty = fn['locals'][pl[0]] if fn.get('locals') and pl[0] < len(fn['locals']) else None
        for x in pl[1]:
            t = T[ty] if isinstance(ty, int) else None
            if x == '*' or x[0] in ('i', 'c'):
                ty = t.get('elem') if t else None
            elif x[0] == 'f':
                if t and t['k'] == 'adt' and t.get('path') in new:
                    x[1] = new[t['path']][x[1]]
                ty = x[2]
            elif x[0] != 'd':
                ty = ty if x[0] == 's' else None

    def const(ty, c):
        t = T[ty] if isinstance(ty, int) else {}
        if not isinstance(c, list) or not c:
            return
        if c[0] == 'adt':
            fs = t['variants'][c[1]]['fields'] if t.get('k') == 'adt' else None
            if t.get('path') in new:
                c[2] = [c[2][j] for j in moved[t['path']]]
            for i, x in enumerate(c[2]):
                const(fs[i][1] if fs and i < len(fs) else None, x)
        elif c[0] == 'tuple':
            for i, x in enumerate(c[1]):
                const((t.get('elems') or [None] * 99)[i], x)
        elif c[0] in ('arr', 'slice'):
            for x in c[1]:
                const(t.get('elem'), x)
        elif c[0] == 'ref':
            const(c[1], c[2])
        elif c[0] == 'named':
            const(ty, c[2])

    def walk(fn, x):
        if isinstance(x, dict):
            for v in x.values():
                walk(fn, v)
            return
        if not isinstance(x, list):
            return
        if len(x) == 2 and type(x[0]) is int and isinstance(x[1], list) and x[1] and \
                all(y == '*' or isinstance(y, list) and y and isinstance(y[0], str) for y in x[1]):
            place(fn, x)
            return
        if len(x) == 3 and x[0] == 'k' and isinstance(x[1], int):
            const(x[1], x[2])
            return
        if len(x) >= 5 and x[0] == 'agg' and x[1] == 'adt' and isinstance(x[2], int):
            for o in x[4]:
                walk(fn, o)
            if T[x[2]].get('path') in new and len(x[4]) == len(moved[T[x[2]]['path']]):
                x[4] = [x[4][j] for j in moved[T[x[2]]['path']]]
            return
        for y in x:
            walk(fn, y)
    for f in d['fns'].values():
        for b in f.get('blocks') or ():
            if b:
                walk(f, b['s'])
                walk(f, b['t'])
    for c in d['consts']:
        const(c.get('ty'), c.get('value'))


def prep(d):
    for t in d['types']:
        t['s'] = norm(t['s'])
        if 'path' in t:
            t['path'] = norm(t['path'])
    for a in d['api']:
        a['path'] = norm(a['path'])
    return d


def load(path, ref):
    """The current program, in the names of the reference (both as loaded from a dump)."""
    with open(path) as f:
        text = f.read()
    d = prep(json.loads(text))
    done = []
    for _ in range(3):
        r = renames(text, d, ref)
        if not r:
            break
        done += r
        for c, w in r:
            text = re.sub(WORD % c, w, text)
        d = prep(json.loads(text))
    perm, loose = fields(d, ref)
    return d, done + sorted(perm), loose
