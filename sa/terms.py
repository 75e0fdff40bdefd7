"""Value terms of the abstract interpreter: construction, folding, facts.

A value is a hashable tuple.  Constants: ('int', n) (ints, bools, chars),
('flt', bits, size), ('bytes', b).  Aggregates: ('agg', variant, fields),
('arr', elems), ('upd', base, ((step, value), ..)).  Pointers:
('ref', root, path).  Everything else is an opaque term, i.e. a name for an
unknown runtime value: ('sym', ..), ('deref', t), ('fld', variant, name, t),
('it', src), ('len', t), ('bin', op, a, b, ty), ('cast', to, from, a) ...

`Facts` maps opaque terms to the finite description of the values they can
have on the current path: integer interval sets, float interval sets.
Nothing is ever handed to a solver.
"""
import struct

INT_RANGE = {
    'u8': (0, 255), 'i8': (-128, 127), 'bool': (0, 1),
    'u16': (0, 65535), 'i16': (-32768, 32767),
    'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1),
    'u64': (0, 2**64 - 1), 'i64': (-2**63, 2**63 - 1),
    'usize': (0, 2**64 - 1), 'isize': (-2**63, 2**63 - 1),
    'u128': (0, 2**128 - 1), 'i128': (-2**127, 2**127 - 1),
    'char': (0, 0x10FFFF),
}
BITS = {'u8': 8, 'i8': 8, 'bool': 1, 'u16': 16, 'i16': 16, 'u32': 32, 'i32': 32,
        'u64': 64, 'i64': 64, 'usize': 64, 'isize': 64, 'u128': 128, 'i128': 128,
        'char': 21}
# object numbers, and counts of bits (0..=N)
INT_RANGE['refid'] = (1, 2**31 - 1)
BITS['refid'] = 32
for _n in (8, 16, 32, 64, 128):
    INT_RANGE['count%d' % _n] = (0, _n)
    BITS['count%d' % _n] = 8

UNIT = ('agg', 0, ())
TRUE = ('int', 1)
FALSE = ('int', 0)
NONE = ('agg', 0, ())


def some(x):
    return ('agg', 1, (x,))


def wrap(n, ty):
    lo, hi = INT_RANGE[ty]
    if lo <= n <= hi:
        return n
    b = BITS[ty]
    n &= (1 << b) - 1
    if lo < 0 and n > hi:
        n -= 1 << b
    return n


def flt(bits, size):
    return struct.unpack('>f', struct.pack('>I', bits))[0] if size == 32 else \
        struct.unpack('>d', struct.pack('>Q', bits))[0]


def mkflt(v, size):
    if size == 32:
        try:
            return ('flt', struct.unpack('>I', struct.pack('>f', v))[0], 32)
        except OverflowError:
            return ('flt', 0x7f800000 if v > 0 else 0xff800000, 32)
    return ('flt', struct.unpack('>Q', struct.pack('>d', v))[0], 64)


# type of opaque scalar terms (structural names, so one table is enough)
TYOF = {}
# possible discriminant values of ('discr', t)
DISCR = {}


# known length of opaque arrays
ARRLEN = {}


FPRINT = {}          # fingerprint -> the term


def unprint(t, memo=None, left=None):
    """With fingerprints replaced by what they stand for; None if that is large."""
    if memo is None:
        memo, left = {}, [20000]
    if not isinstance(t, tuple):
        return t
    k = id(t)
    if k in memo:
        return memo[k][1]
    if t and t[0] == 'av' and len(t) == 2:
        o = FPRINT.get(t[1])
        r = t if o is None else unprint(o, memo, left)
    else:
        r = tuple(unprint(x, memo, left) for x in t)
    left[0] -= 1
    memo[k] = (t, r)
    return r


def reset_types():
    """Parameter names are per function: forget their types between functions."""
    for d in (TYOF, DISCR):
        keep = {t: x for t, x in d.items() if any(y[0] == 'sym' and y[1][0] == '@' for y in walk(t))}
        d.clear()
        d.update(keep)
    ARRLEN.clear()
    FPRINT.clear()
    _one.clear()
    _mc.clear()


def is_const(v):
    return v[0] in ('int', 'flt')


def set_ty(t, ty):
    if ty in INT_RANGE and t[0] not in ('int', 'flt') and t not in TYOF:
        TYOF[t] = ty
    return t


def key(t):
    return repr(t)


COMM = {'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne'}
CMP = {'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'}


def fold_int(op, a, b, ty):
    if op in ('Add', 'AddUnchecked'):
        return wrap(a + b, ty)
    if op in ('Sub', 'SubUnchecked'):
        return wrap(a - b, ty)
    if op in ('Mul', 'MulUnchecked'):
        return wrap(a * b, ty)
    if op == 'Div':
        if b == 0:
            return None
        q = abs(a) // abs(b)
        return q if (a >= 0) == (b >= 0) else -q
    if op == 'Rem':
        if b == 0:
            return None
        r = abs(a) % abs(b)
        return r if a >= 0 else -r
    if op == 'BitAnd':
        return a & b
    if op == 'BitOr':
        return a | b
    if op == 'BitXor':
        return wrap(a ^ b, ty)
    if op in ('Shl', 'ShlUnchecked'):
        return wrap(a << (b % BITS[ty]), ty)
    if op in ('Shr', 'ShrUnchecked'):
        return a >> (b % BITS[ty])
    if op == 'Eq':
        return int(a == b)
    if op == 'Ne':
        return int(a != b)
    if op == 'Lt':
        return int(a < b)
    if op == 'Le':
        return int(a <= b)
    if op == 'Gt':
        return int(a > b)
    if op == 'Ge':
        return int(a >= b)
    return None


def mk_not(x):
    if x[0] == 'int':
        return ('int', 1 - x[1])
    if x[0] == 'not':
        return x[1]
    if x[0] == 'bin' and x[1] in ('Eq', 'Ne') and x[4] != 'float':
        return ('bin', 'Ne' if x[1] == 'Eq' else 'Eq', x[2], x[3], x[4])
    if x[0] == 'bin' and x[4] != 'float':
        inv = {'Lt': ('Le', 1), 'Le': ('Lt', 1)}.get(x[1])
        if inv:
            return ('bin', inv[0], x[3], x[2], x[4])
    return ('not', x)


def strip_widen(t):
    """Drop value-preserving integer casts."""
    while t[0] == 'cast' and t[1] in INT_RANGE and t[2] in INT_RANGE:
        lo, hi = INT_RANGE[t[2]]
        tl, th = INT_RANGE[t[1]]
        if tl <= lo and hi <= th:
            t = t[3]
        else:
            break
    return t


def mk_cmp(op, a, b, ty):
    isf = ty in ('f32', 'f64')
    if op in ('Gt', 'Ge'):
        a, b = b, a
        op = 'Lt' if op == 'Gt' else 'Le'
    if a[0] == 'int' and b[0] == 'int':
        return ('int', fold_int(op, a[1], b[1], ty))
    if a[0] == 'flt' and b[0] == 'flt':
        x, y = flt(a[1], a[2]), flt(b[1], b[2])
        return ('int', int({'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y}[op]))
    if not isf:
        if a == b:
            return ('int', int(op in ('Eq', 'Le')))
        if not (a[0] == 'int' or b[0] == 'int') or True:
            a, b = strip_widen(a), strip_widen(b)
        if ty == 'bool' and op in ('Eq', 'Ne'):
            for x, y in ((a, b), (b, a)):
                if x[0] == 'int':
                    return y if (x[1] == 1) == (op == 'Eq') else mk_not(y)
        # (a ± c) cmp c2 on discr/lengths is left alone
    t = 'float' if isf else 'int'
    if isf and op in ('Eq', 'Ne'):
        # |x| is zero exactly when x is
        if a[0] == 'flt' and a[1] in (0, 1 << (a[2] - 1)) and b[0] == 'fabs':
            b = b[1]
        elif b[0] == 'flt' and b[1] in (0, 1 << (b[2] - 1)) and a[0] == 'fabs':
            a = a[1]
        if op == 'Ne':
            return mk_not(mk_cmp('Eq', a, b, ty))
    if op in ('Eq', 'Ne') and (a[0] in ('int', 'flt') or (b[0] not in ('int', 'flt') and key(a) > key(b))):
        a, b = b, a
    return ('bin', op, a, b, t)


def mk_bin(op, a, b, ty):
    if op in CMP:
        return mk_cmp(op, a, b, ty)
    op = op.replace('Unchecked', '')
    if a[0] == 'int' and b[0] == 'int' and ty in INT_RANGE:
        r = fold_int(op, a[1], b[1], ty)
        if r is not None:
            return ('int', r)
    if a[0] == 'flt' and b[0] == 'flt' and op in ('Add', 'Sub', 'Mul', 'Div'):
        x, y = flt(a[1], a[2]), flt(b[1], b[2])
        if op != 'Div' or y != 0:
            return mkflt({'Add': x + y, 'Sub': x - y, 'Mul': x * y,
                          'Div': x / y if y else 0.0}[op], a[2])
    if ty in INT_RANGE:
        if ty == 'bool':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'int':
                    if op == 'BitAnd':
                        return y if x[1] else FALSE
                    if op == 'BitOr':
                        return TRUE if x[1] else y
                    if op == 'BitXor':
                        return mk_not(y) if x[1] else y
        # x + 0, x - 0, x * 1, x | 0, x << 0
        if b == ('int', 0) and op in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr'):
            return a
        if a == ('int', 0) and op in ('Add', 'BitOr', 'BitXor'):
            return b
        if b == ('int', 1) and op in ('Mul', 'Div'):
            return a
        if a == ('int', 1) and op == 'Mul':
            return b
        # linear normal form for + and -
        if op in ('Add', 'Sub'):
            return mk_lin(op, a, b, ty)
    if op in COMM and key(a) > key(b):
        a, b = b, a
    r = ('bin', op, a, b, ty)
    set_ty(r, ty)
    return r


def lin_of(t, ty):
    """t as ({term: coeff}, const) if it is a sum in type ty."""
    if t[0] == 'int':
        return {}, t[1]
    if t[0] == 'lin' and t[3] == ty:
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(op, a, b, ty):
    ca, ka = lin_of(a, ty)
    cb, kb = lin_of(b, ty)
    s = 1 if op == 'Add' else -1
    for t, c in cb.items():
        ca[t] = ca.get(t, 0) + s * c
    k = ka + s * kb
    items = tuple(sorted(((t, c) for t, c in ca.items() if c), key=lambda x: key(x[0])))
    if not items:
        return ('int', wrap(k, ty))
    if len(items) == 1 and items[0][1] == 1 and k == 0:
        return items[0][0]
    if abs(k) > 2**40:
        k = wrap(k, ty)
    r = ('lin', items, k, ty)
    set_ty(r, ty)
    return r


def mk_un(op, a, ty):
    if op == 'Not':
        if ty == 'bool':
            return mk_not(a)
        if a[0] == 'int':
            return ('int', wrap(~a[1], ty))
    if op == 'Neg':
        if a[0] == 'int':
            return ('int', wrap(-a[1], ty))
        if a[0] == 'flt':
            return ('flt', a[1] ^ (1 << (a[2] - 1)), a[2])
    return set_ty(('un', op, a, ty), ty)


def mk_cast(a, to, frm):
    if to == frm:
        return a
    if a[0] == 'int' and to in INT_RANGE:
        return ('int', wrap(a[1], to))
    if a[0] == 'int' and to in ('f32', 'f64'):
        return mkflt(float(a[1]), 32 if to == 'f32' else 64)
    if a[0] == 'flt' and to in INT_RANGE:
        v = flt(a[1], a[2])
        lo, hi = INT_RANGE[to]
        if v != v:
            return ('int', 0)
        if v >= hi:
            return ('int', hi)
        if v <= lo:
            return ('int', lo)
        return ('int', int(v))
    if to in INT_RANGE and frm in INT_RANGE:
        lo, hi = INT_RANGE[frm]
        tl, th = INT_RANGE[to]
        # through an inner value-preserving cast
        if a[0] == 'cast' and a[1] == frm and a[2] in INT_RANGE:
            il, ih = INT_RANGE[a[2]]
            if lo <= il and ih <= hi:
                return mk_cast(a[3], to, a[2])
        # narrowing sees only low bits: drop a mask that keeps them
        if BITS[to] < BITS[frm] and a[0] == 'bin' and a[1] == 'BitAnd' and tl == 0:
            for x, y in ((a[2], a[3]), (a[3], a[2])):
                if y[0] == 'int' and (y[1] & th) == th:
                    return mk_cast(x, to, frm)
    r = ('cast', to, frm, a)
    set_ty(r, to)
    return r


# ---------------------------------------------------------------- intervals
def iv_full(ty):
    return (INT_RANGE[ty],)


def iv_inter(a, b):
    r = []
    i = j = 0
    while i < len(a) and j < len(b):
        lo = max(a[i][0], b[j][0])
        hi = min(a[i][1], b[j][1])
        if lo <= hi:
            r.append((lo, hi))
        if a[i][1] < b[j][1]:
            i += 1
        else:
            j += 1
    return tuple(r)


def iv_minus(a, b):
    r = []
    for lo, hi in a:
        cur = lo
        for bl, bh in b:
            if bh < cur or bl > hi:
                continue
            if bl > cur:
                r.append((cur, bl - 1))
            cur = bh + 1
            if cur > hi:
                break
        if cur <= hi:
            r.append((cur, hi))
    return tuple(r)


def iv_of(vals):
    r = []
    for v in sorted(vals):
        if r and r[-1][1] == v - 1:
            r[-1] = (r[-1][0], v)
        else:
            r.append((v, v))
    return tuple(r)


def iv_size(a):
    return sum(h - l + 1 for l, h in a)


def iv_vals(a):
    for l, h in a:
        yield from range(l, h + 1)


def iv_norm(a):
    r = []
    for l, h in sorted(a):
        if r and l <= r[-1][1] + 1:
            r[-1] = (r[-1][0], max(h, r[-1][1]))
        else:
            r.append((l, h))
    return tuple(r)


# float sets: tuple of (lo, lo_open, hi, hi_open) plus a 'nan' flag
FINF = float('inf')
FFULL = ('fset', ((-FINF, 0, FINF, 0),), True)


def f_cut(s, op, c):
    """(part of s where `x op c`, rest)."""
    ivs, nan = s[1], s[2]

    def inter(lo, lop, hi, hop):
        r = []
        for a, ao, b, bo in ivs:
            if (lo, lop) > (a, ao):
                a, ao = lo, lop
            if (hi, -hop) < (b, -bo):
                b, bo = hi, hop
            if a < b or (a == b and not ao and not bo):
                r.append((a, ao, b, bo))
        return tuple(r)
    if op == 'Eq':
        yes = inter(c, 0, c, 0)
        no = inter(-FINF, 0, c, 1) + inter(c, 1, FINF, 0)
    elif op == 'Lt':
        yes = inter(-FINF, 0, c, 1)
        no = inter(c, 0, FINF, 0)
    elif op == 'Le':
        yes = inter(-FINF, 0, c, 0)
        no = inter(c, 1, FINF, 0)
    elif op == 'Gt':
        yes = inter(c, 1, FINF, 0)
        no = inter(-FINF, 0, c, 0)
    elif op == 'Ge':
        yes = inter(c, 0, FINF, 0)
        no = inter(-FINF, 0, c, 1)
    else:
        raise ValueError(op)
    return ('fset', yes, False), ('fset', no, nan)


def f_empty(s):
    return not s[1] and not s[2]


# ---------------------------------------------------------------- walking
def walk(t):
    """All sub-terms (tuples whose head is a string)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if not isinstance(x, tuple):
            continue
        if x and isinstance(x[0], str):
            yield x
        stack.extend(y for y in x if isinstance(y, tuple))


_mc = {}


def mentions(t, pred_key, pred):
    k = (t, pred_key)
    r = _mc.get(k)
    if r is None:
        r = any(pred(x) for x in walk(t))
        _mc[k] = r
    return r


def subst(t, f):
    """Rebuild t bottom-up, replacing x by f(x) where f returns non-None."""
    if not isinstance(t, tuple):
        return t
    r = f(t) if t and isinstance(t[0], str) else None
    if r is not None:
        return r
    n = tuple(subst(x, f) if isinstance(x, tuple) else x for x in t)
    if n == t:
        return t
    if n[0] in ('cast', 'bin', 'lin', 'un', 'not', 'len', 'idx'):
        o = rebuild(n)
        if t in TYOF:
            set_ty(o, TYOF[t])
        return o
    if t in TYOF:
        set_ty(n, TYOF[t])
    return n


def rebuild(n):
    if n[0] == 'cast':
        return mk_cast(n[3], n[1], n[2])
    if n[0] == 'bin':
        ty = n[4]
        if n[1] in CMP:
            return mk_cmp(n[1], n[2], n[3], 'f32' if ty == 'float' else 'i128')
        return mk_bin(n[1], n[2], n[3], ty)
    if n[0] == 'lin':
        acc = ('int', n[2])
        for t, c in n[1]:
            acc = mk_lin('Add', acc, t if c == 1 else mk_scale(t, c, n[3]), n[3])
        return acc
    if n[0] == 'un':
        return mk_un(n[1], n[2], n[3])
    if n[0] == 'not':
        return mk_not(n[1])
    if n[0] == 'idx' and n[2][0] == 'int' and n[1][0] in ('arr', 'bytes') and 0 <= n[2][1] < len(n[1][1]):
        return n[1][1][n[2][1]] if n[1][0] == 'arr' else ('int', n[1][1][n[2][1]])
    return n


def mk_scale(t, c, ty):
    if t[0] == 'int':
        return ('int', wrap(t[1] * c, ty))
    cs, k = lin_of(t, ty)
    items = tuple(sorted(((x, v * c) for x, v in cs.items() if v * c), key=lambda y: key(y[0])))
    if not items:
        return ('int', wrap(k * c, ty))
    return set_ty(('lin', items, k * c, ty), ty)


# ---------------------------------------------------------------- pointwise
_one = {}


def small_atom(t):
    """The single opaque sub-term of <= 8 bits all of t depends on, or None."""
    r = _one.get(t)
    if r is not None:
        # a refusal holds only as long as no further term was given a type
        if r[0] is not None and (r[0] is not t or t[0] in LEAF) or r[1] == len(TYOF):
            return r[0]
    r = _small(t)
    _one[t] = (r, len(TYOF))
    return r


LEAF = ('sym', 'idx', 'fld', 'deref', 'elem', 'vfld', 'discr')


def _small(t):
    if t[0] in ('int', 'flt'):
        return False            # no atom at all
    kids = None
    if t[0] == 'cast' and t[1] in INT_RANGE and t[2] in INT_RANGE:
        kids = [t[3]]
    elif t[0] == 'bin' and (t[4] in INT_RANGE or t[4] == 'int'):
        kids = [t[2], t[3]]
    elif t[0] == 'lin':
        kids = [x for x, _ in t[1]]
    elif t[0] == 'un' and t[3] in INT_RANGE:
        kids = [t[2]]
    elif t[0] == 'not':
        kids = [t[1]]
    elif t[0] == 'ovf':
        kids = [t[2], t[3]]
    elif t[0] in ('min', 'max') and t[3] in INT_RANGE:
        kids = [t[1], t[2]]
    elif t[0] == 'lut':
        kids = [t[2]]
    if kids is not None:
        atoms = set()
        for k in kids:
            a = small_atom(k)
            if a is None:
                atoms = None
                break
            if a is not False:
                atoms.add(a)
        if atoms is not None and len(atoms) == 1:
            return atoms.pop()
        if atoms is not None and not atoms:
            return False
    ty = TYOF.get(t)
    if ty and BITS[ty] <= 8:
        return t
    return None


def ev(t, atom, v):
    """Evaluate t at atom = v."""
    if t == atom:
        return v
    k = t[0]
    if k == 'int':
        return t[1]
    if k == 'cast':
        return wrap(ev(t[3], atom, v), t[1])
    if k == 'bin':
        ty = t[4] if t[4] in INT_RANGE else 'i128'
        return fold_int(t[1], ev(t[2], atom, v), ev(t[3], atom, v), ty)
    if k == 'lin':
        return wrap(t[2] + sum(c * ev(x, atom, v) for x, c in t[1]), t[3])
    if k == 'un':
        x = ev(t[2], atom, v)
        return wrap(-x if t[1] == 'Neg' else ~x, t[3]) if t[3] != 'bool' else 1 - x
    if k == 'not':
        return 1 - ev(t[1], atom, v)
    if k == 'ovf':
        a, b, ty = ev(t[2], atom, v), ev(t[3], atom, v), t[4]
        n = {'Add': a + b, 'Sub': a - b, 'Mul': a * b}[t[1]]
        return int(wrap(n, ty) != n)
    if k == 'min':
        return min(ev(t[1], atom, v), ev(t[2], atom, v))
    if k == 'max':
        return max(ev(t[1], atom, v), ev(t[2], atom, v))
    if k == 'lut':
        i = ev(t[2], atom, v)
        return t[1][i] if 0 <= i < len(t[1]) else None
    raise KeyError(k)
