"""Absolute rules: each is a statement about the current tree alone."""
import re
from engine import canon


class Ctx:
    def __init__(self, P, ref, cur, ra, ca, res, repo):
        self.P, self.ref, self.cur, self.ra, self.ca, self.res, self.repo = P, ref, cur, ra, ca, res, repo


RULES = {}


def rule(f):
    RULES[f.__name__] = f
    return f


def extra_roots(P, ref, ra):
    """Functions selected by what they take rather than by name."""
    out = []
    if 'enum_tables' in P['rules']:
        for p, a in ra.items():
            if not a['reachable']:
                continue
            for t in a['inputs']:
                t = ref.types[t]
                while t['k'] == 'ref':
                    t = ref.types[t['elem']]
                if t['k'] == 'adt' and t.get('local') and t.get('akind') == 'enum':
                    out.append(p)
                    break
    return out


# ------------------------------------------------------------------ purity
DENY_CALL = re.compile(
    r'^<?(std|core|alloc)::(env|fs|net|process|thread|time|random|os|sys|backtrace|panic|io::(stdin|stdout|stderr|stdio|_print|_eprint)|'
    r'hash::(random|RandomState|DefaultHasher)|arch|alloc::(alloc|dealloc|System)|ptr::(addr|hash|eq|addr_eq))\b'
    r'|<impl \*(const|mut) T>::(addr|expose|to_raw|cast)|std::intrinsics::(caller_location|type_id|type_name|volatile)|std::any::type|fmt::Pointer|new_pointer|RandomState'
    r'|hash(_map|_set|::map|::set)::(Iter|IntoIter|Keys|Values|Drain|IntoKeys|IntoValues|ExtractIf)|Hash(Map|Set)::<[^>]*>::(iter|keys|values|drain|into_keys|into_values|retain)'
    r'|getrandom|std::panic::Location')
DENY_TYPE = re.compile(r'std::(time|thread|process|env|fs|net)::|hash::RandomState \(|hash(_map|_set|::map|::set)::(Iter|IntoIter|Keys|Values|Drain)')
SHARED = re.compile(r'std::(cell|sync|thread)::|Atomic')


def fn_consts(f):
    """(operand kind, type id, payload) of every constant in a body."""
    out = []

    def go(x):
        if isinstance(x, list):
            if len(x) == 3 and x[0] == 'k' and isinstance(x[1], int):
                out.append((x[1], x[2]))
            for y in x:
                go(y)
    for b in f['blocks']:
        if b:
            go(b['s'])
            go(b['t'])
    return out


def local_fns(prog):
    return {k: f for k, f in prog.fns.items() if f.get('local') and '::_::' not in f['path'] and not f['path'].startswith('$')}


@rule
def purity(ctx):
    p = ctx.cur
    n = 0
    for k, f in sorted(local_fns(p).items()):
        if 'std::fmt' in f['path'] or ' as std::hash' in f['path']:
            continue
        n += 1
        bad = None
        for ty, payload in fn_consts(f):
            t = p.types[ty]
            c = t.get('callee')
            if c:
                for nm in (c.get('rpath'), c.get('path')):
                    if nm and DENY_CALL.search(nm):
                        bad = 'calls ' + nm
            if isinstance(payload, list) and payload and payload[0] == 'static' and SHARED.search(t['s']):
                bad = 'uses the static %s' % payload[1]
        for ty in f['locals']:
            s = p.types[ty]['s']
            m = DENY_TYPE.search(s)
            if m and 'std::fmt' not in s:
                bad = bad or 'holds a value of type %s' % s[:80]
        for b in f['blocks']:
            if b and 'xpose' in str(b) or b and 'ThreadLocal' in str(b):
                bad = bad or 'observes an address or thread-local'
        yield (canon(f['path']), 'violated' if bad else 'holds', bad or '', f.get('span'))
    for t in p.types:
        if t['k'] != 'adt' or not t.get('local') or '::_::' in t['path']:
            continue
        bad = None
        for v in t['variants']:
            for fl in v['fields']:
                s = p.types[fl[1]]['s']
                if DENY_TYPE.search(s):
                    bad = 'field %s: %s' % (fl[0], s)
        if bad:
            yield ('type ' + t['path'], 'violated', bad)
    if n < 1000:
        yield ('functions analysed', 'violated', 'only %d functions of the crate found' % n)


# ------------------------------------------------------------------ types
def _build_rmeta(repo, tmp):
    import os, subprocess, glob
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR'):
        env.pop(k, None)
    r = subprocess.run(['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', os.path.join(repo, 'Cargo.toml'),
                        '--target-dir', tmp], env=env, capture_output=True, text=True, cwd='/')
    if r.returncode:
        raise RuntimeError(r.stderr[-500:])
    ms = glob.glob(os.path.join(tmp, '**', '*.rmeta'), recursive=True)
    return [m for m in ms if 'libpdf_writer-' in m][0], sorted({os.path.dirname(m) for m in ms})


def _rustc(src, rmeta, deps, tmp, i):
    import os, subprocess, re as _re
    d = os.path.join(tmp, 'w%d' % i)
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, 'w.rs')
    open(f, 'w').write(src)
    r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '--crate-type', 'bin', '--emit=metadata', '-A', 'warnings', '--out-dir', d,
                        '--extern', 'pdf_writer=' + rmeta] + [x for d_ in deps for x in ('-L', 'dependency=' + d_)] + [f], capture_output=True, text=True)
    return r.returncode, set(_re.findall(r'error\[(E\d+)\]', r.stderr)), r.stderr[-300:]


@rule
def types(ctx):
    import os, sys, tempfile, shutil
    from concurrent.futures import ThreadPoolExecutor
    sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
    from witnesses import W
    tmp = tempfile.mkdtemp(prefix='witness.')
    try:
        rmeta, deps = _build_rmeta(ctx.repo, os.path.join(tmp, 't'))
        jobs = []
        for i, (name, codes, pre, body) in enumerate(W):
            a, bad, z = body.split('@@')
            head = '#![allow(unused)]\nuse pdf_writer::*;\nuse pdf_writer::writers::*;\n' + pre + '\nfn main() {\n'
            jobs.append((2 * i, head + a + z + '\n}\n'))
            jobs.append((2 * i + 1, head + a + bad + z + '\n}\n'))
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(lambda j: _rustc(j[1], rmeta, deps, tmp, j[0]), jobs))
        for i, (name, codes, pre, body) in enumerate(W):
            good, bad = rs[2 * i], rs[2 * i + 1]
            if good[0] != 0:
                yield (name, 'undecided', 'the twin no longer compiles: ' + good[2])
            elif bad[0] == 0:
                yield (name, 'violated', 'compiles: %s' % body.split('@@')[1], 'spec/witnesses.py')
            elif bad[1] & set(codes.split()):
                yield (name, 'holds', '')
            else:
                yield (name, 'undecided', 'rejected for another reason: ' + bad[2])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    # receivers: a method that consumed its writer, or took it exclusively, still does

    def mode(prog, a):
        if not a['inputs'] or not a.get('names') or a['names'][0] != 'self':
            return None
        t = prog.types[a['inputs'][0]]
        if t['k'] != 'ref':
            return 'value'
        return 'mut' if t['mut'] else 'shared'
    for p, a in sorted(ctx.ra.items()):
        if not a['reachable'] or p not in ctx.ca:
            continue
        m0, m1 = mode(ctx.ref, a), mode(ctx.cur, ctx.ca[p])
        if m0 in ('value', 'mut'):
            ok = m1 == m0
            yield ('receiver of ' + p, 'holds' if ok else 'violated', '' if ok else 'takes self by %s, was %s' % (m1, m0), ctx.ca[p].get('span'))


# ------------------------------------------------------------------ constants
CONSTS = {
    'C08': r'STARTS_WITH_DELIMITER$',
    'C45': r'Flags::|RoleMapOpts::',
    'C30': r' as font::',
}


def const_value(c):
    """A constant's value without the names of anonymous wrappers."""
    v = c.get('value')
    if not isinstance(v, list):
        return v

    def go(x):
        if isinstance(x, list) and len(x) == 3 and x[0] == 'adt' and isinstance(x[2], list) and len(x[2]) == 1 and x[1] == 0:
            return go(x[2][0])
        return [go(y) for y in x] if isinstance(x, list) else x
    return go(v)


@rule
def consts(ctx):
    """Public and implementation constants have the reviewed values (a generic body
    refers to them by name, so the comparison of bodies does not see them)."""
    rx = re.compile(CONSTS[ctx.P['id']])
    cc = {canon(c['path']): c for c in ctx.cur.consts}
    n = 0
    for c in ctx.ref.consts:
        p = canon(c['path'])
        if not c['reachable'] or c.get('value') is None or not rx.search(p) or p.endswith('::FLAGS'):
            continue
        n += 1
        if p not in cc:
            # a private trait may be renamed; a constant users can name may not
            private = re.search(r'[sS]ealed|private', p)
            yield ('constant ' + p, 'undecided' if private else 'violated', 'no longer exists', c['span'])
        elif cc[p].get('value') is None:
            yield ('constant ' + p, 'undecided', 'value not known', cc[p]['span'])
        elif const_value(cc[p]) != const_value(c):
            yield ('constant ' + p, 'violated', 'is %s, reviewed value %s' % (const_value(cc[p]), const_value(c)), cc[p]['span'])
        else:
            yield ('constant ' + p, 'holds', '')
    if not n:
        yield ('constants', 'undecided', 'none found')


# flags of one set: (bit number in ISO 32000, counted from 1)
FLAG_BITS = {
    'actions::FormActionFlags': dict(INCLUDE_EXCLUDE=1, INCLUDE_NO_VALUE_FIELDS=2, EXPORT_FORMAT=3, GET_METHOD=4, SUBMIT_COORDINATES=5, XFDF=6,
                                     INCLUDE_APPEND_SAVES=7, INCLUDE_ANNOTATIONS=8, SUBMIT_PDF=9, CANONICAL_FORMAT=10, EXCLUDE_NON_USER_ANNOTS=11,
                                     EXCLUDE_F_KEY=12, EMBED_FORM=14),
    'annotations::AnnotationFlags': dict(INVISIBLE=1, HIDDEN=2, PRINT=3, NO_ZOOM=4, NO_ROTATE=5, NO_VIEW=6, READ_ONLY=7, LOCKED=8, TOGGLE_NO_VIEW=9, LOCKED_CONTENTS=10),
    'font::FontFlags': dict(FIXED_PITCH=1, SERIF=2, SYMBOLIC=3, SCRIPT=4, NON_SYMBOLIC=6, ITALIC=7, ALL_CAP=17, SMALL_CAP=18, FORCE_BOLD=19),
    'forms::SigFlags': dict(SIGNATURES_EXIST=1, APPEND_ONLY=2),
    'forms::SignatureSeedValueFlags': dict(FILTER=1, SUB_FILTER=2, VERSION=3, REASONS=4, LEGAL_ATTESTATION=5, ADD_REV_INFO=6, DIGEST_METHOD=7, LOCK_DOCUMENT=8, APPEARANCE_FILTER=9),
    'forms::CertificateSeedValueFlags': dict(SUBJECT=1, ISSUER=2, OID=3, SUBJECT_DN=4, KEY_USAGE=6, URL=7),
    'forms::FieldFlags': dict(READ_ONLY=1, REQUIRED=2, NO_EXPORT=3, DO_NOT_SPELL_CHECK=23, NO_TOGGLE_TO_OFF=15, RADIO=16, PUSHBUTTON=17, RADIOS_IN_UNISON=26,
                              MULTILINE=13, PASSWORD=14, FILE_SELECT=21, DO_NOT_SCROLL=24, COMB=25, RICH_TEXT=26, COMBO=18, EDIT=19, SORT=20, MULTI_SELECT=22, COMMIT_ON_SEL_CHANGE=27),
    'structure::OutlineItemFlags': dict(ITALIC=1, BOLD=2),
}


@rule
def bitflags(ctx):
    """Flag bits against the numbers of the PDF specification."""
    cc = {canon(c['path']): c for c in ctx.cur.consts}
    for s, d in sorted(FLAG_BITS.items()):
        for n, bit in sorted(d.items()):
            c = cc.get(s + '::' + n)
            if c is None:
                continue  # reported by `consts`
            v = const_value(c)
            ok = v == ['int', 1 << (bit - 1)]
            yield ('%s::%s' % (s, n), 'holds' if ok else 'violated' if v else 'undecided', 'is %s, bit %d expected' % (v, bit), c['span'])


# ------------------------------------------------- what the documentation says
DOC_KEY = re.compile(r'`/([A-Za-z0-9]+)`')
# entries named wrongly by their documentation (the specification and the code agree), and /C,
# which is documented to go inside /BE
DOC_TYPO = {'forms::SignatureSeedValue::sub_filter': 'SubFilter', 'structure::Names::templates': 'Templates',
            'renditions::MediaPlayParams::controls': 'BE'}


class Late(BaseException):
    pass


def effects(prog, key, secs=25):
    """Effect summary at the object level, or a reason why there is none."""
    import signal
    import compare

    def late(*_):
        raise Late()
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(secs)
    try:
        return compare.ENG['A'](prog).analyse(key), None
    except Late:
        return None, 'time budget'
    except RecursionError:
        return None, 'recursion'
    except Exception as x:
        return None, '%s: %s' % (type(x).__name__, str(x)[:120])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def name_bytes(t):
    """The byte string a key or operator term stands for."""
    while isinstance(t, tuple) and t and t[0] != 'bytes':
        if t[0] == 'agg' and len(t[2]) == 1:
            t = t[2][0]
        elif t[0] in ('ref', 'deref', 'bref', 'K') and len(t) > 1 and isinstance(t[1], tuple):
            t = t[1]
        else:
            return None
    return t[1] if isinstance(t, tuple) and t else None


def path_events(r, pick, limit=4000):
    """What `pick` selects, outside nested objects, on each path that returns (a loop is gone round at most once)."""
    memo = {}

    def go(t, seen, depth):
        k = (id(t), seen, depth)
        if k in memo:
            return memo[k]
        out, d = [], depth
        for e in t[1]:
            if e[0] == 'open':
                d += 1
            elif e[0] == 'close':
                d -= 1
            elif d <= 0 and pick(e):
                out.append(name_bytes(e[2]))
        end = t[2]
        if end[0] == 'branch':
            xs = set().union(*[go(k, seen, d) for _, k in end[2]])
        elif end[0] == 'read':
            xs = go(end[2], seen, d) | go(end[3], seen, d)
        elif end[0] == 'ret':
            xs = {()}
        elif end[0] == 'goto' and end[1] not in seen:
            xs = go(r[1][end[1]], seen + (end[1],), d)
        else:
            xs = set()
        memo[k] = {tuple(sorted(tuple(out) + x)) for x in xs}
        return memo[k]
    return go(r[0], (), 0)


def all_events(r):
    st, out = [r[0]] + list(r[1].values()), []
    while st:
        t = st.pop()
        out.extend(t[1])
        end = t[2]
        if end[0] == 'branch':
            st.extend(k for _, k in end[2])
        elif end[0] == 'read':
            st.extend(end[2:4])
    return out


def documented(ctx):
    rx = [re.compile(x) for x in ctx.P['roots']]
    for a in ctx.cur.api:
        if a['reachable'] and a['key'] in ctx.cur.fns and any(x.search(canon(a['path'])) for x in rx):
            yield a, re.sub(r'\s+', ' ', a.get('doc') or '').strip()


@rule
def doc_keys(ctx):
    """A method documented to write an entry writes that entry exactly once on every path that
    returns, and no entry its documentation does not mention into the same dictionary."""
    for a, doc in documented(ctx):
        m = re.match(r'(?:Write|Start writing) ([^.]*)', doc)
        if not m:
            continue
        ks = DOC_KEY.findall(m.group(1))
        if not ks or not re.search(r'attribute|dictionary|array|entry|stream|value', m.group(1)) or 'command' in m.group(1):
            continue
        k = DOC_TYPO.get(canon(a['path']), ks[0])
        named = set(DOC_KEY.findall(doc)) | {k}
        what = 'documented entry of ' + canon(a['path'])
        r, why = effects(ctx.cur, a['key'])
        if r is None:
            yield (what, 'undecided', why, a['span'])
            continue
        keys = [(e[1], name_bytes(e[2])) for e in all_events(r) if e[0] == 'key']
        if not any(e[0] == 'key' for e in all_events(r)) and any(e[0] == 'ocall' for e in all_events(r)) or any(n is None for _, n in keys):
            yield (what, 'undecided', 'writes through an unknown key or call', a['span'])
            continue
        paths = [[x.decode('latin1') for x in p] for p in path_events(r, lambda e: e[0] == 'key')]
        extra = sorted({x for p in paths for x in p} - named)
        # an entry spelled in two ways, as `checked` and `Checked`
        cs = {sum(x.lower() == k.lower() for x in p) for p in paths}
        if cs != {1}:
            yield (what, 'violated', '/%s is written %s on a path' % (k, ' or '.join(str(x) + ' times' for x in sorted(cs - {1}))), a['span'])
        elif extra:
            yield (what, 'violated', 'also writes /%s, which its documentation does not mention' % ' /'.join(extra), a['span'])
        else:
            yield (what, 'holds', '')


@rule
def operators(ctx):
    """A content stream method documented as an operator writes that operator, once, and no other."""
    for a, doc in documented(ctx):
        m = re.match(r'`([^` ]+)`:', doc)
        if not m:
            continue
        what = 'documented operator of ' + canon(a['path'])
        r, why = effects(ctx.cur, a['key'])
        if r is None:
            yield (what, 'undecided', why, a['span'])
            continue
        evs = all_events(r)
        ops = [name_bytes(e[2]) for e in evs if e[0] == 'operator']
        if not ops and a['raw_output'] != '&mut Self':
            # an operator that is still open when the method returns
            yield (what, 'undecided', 'finished later', a['span'])
        elif None in ops:
            yield (what, 'undecided', 'operator not known', a['span'])
        else:
            bad = sorted({o.decode('latin1') for o in ops} - {m.group(1)})
            cs = {len(p) for p in path_events(r, lambda e: e[0] == 'operator')}
            if bad:
                yield (what, 'violated', 'writes %s' % ' '.join(bad), a['span'])
            elif cs != {1}:
                yield (what, 'violated', 'writes its operator %s' % ' or '.join(str(x) + ' times' for x in sorted(cs - {1})), a['span'])
            else:
                yield (what, 'holds', '')


@rule
def enum_tables(ctx):
    """Functions that spell the variants of an enumeration spell no two of them alike."""
    T = ctx.cur.types
    for k, f in sorted(ctx.cur.fns.items()):
        if not f.get('local') or f.get('args') != 1 or '::_::' in f['path'] or f['path'].startswith('$') or '{closure' in f['path']:
            continue
        t, o = T[f['locals'][1]], T[f['locals'][0]]
        while t['k'] == 'ref':
            t = T[t['elem']]
        if t.get('akind') != 'enum' or not t.get('local') or not re.search(r"Name|^&'?\w* ?(str|\[u8\])|^[iu](8|16|32|64|size)$", o['s']):
            continue
        what = 'spelling of %s by %s' % (canon(t.get('path') or t['s']), f['path'].split('::')[-1])
        r, why = effects(ctx.cur, k)
        if r is None:
            yield (what, 'undecided', why)
            continue
        got = {}
        for v in t['variants']:
            x = r[0]
            while x[2][0] == 'branch' and x[2][1][0] == 'discr' and x[2][1][1] in (('sym', '$1'), ('deref', ('sym', '$1'))):
                arm = [kid for d, kid in x[2][2] if any(a <= v['discr'] <= b for a, b in d)]
                if not arm:
                    break
                x = arm[0]
            if x[2][0] == 'ret':
                rv = x[2][1]
                n = rv if rv[0] == 'int' else name_bytes(rv)
                if n:
                    got.setdefault(n, []).append(v['name'])
        bad = sorted((n, vs) for n, vs in got.items() if len(vs) > 1)
        if not got:
            continue
        if bad:
            yield (what, 'violated', '; '.join('%s are both written as %s' % (' and '.join(vs), n.decode('latin1') if isinstance(n, bytes) else n[1]) for n, vs in bad),
                   f.get('span'))
        else:
            yield (what, 'holds', '')
