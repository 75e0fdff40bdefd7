"""Models of foreign functions (std, memchr, itoa, ryu) for the engine.

Each model gives the effect/value of one library function in terms of the
engine's value terms; everything of the crate itself is analysed from its MIR.
"""
import re
from terms import *
from engine import canon, ReadFork, CallBody, Redispatch, Panic, Diverge, NeedFork, Unsupported, pieces_of, origin, a_small

M = {}


def model(*paths):
    def d(f):
        for p in paths:
            M[p] = f
        return f
    return d


def rd(c, a):
    """The value a pointer argument points to."""
    r, p = c.eng.deref(c.st, a)
    return c.eng.read(c.st, r, p)


def loc(c, a):
    return c.eng.deref(c.st, a)


def kref(v):
    return ('ref', ('K', v), ())


def seq(v):
    """Concrete element list or None."""
    if v[0] == 'bytes':
        return [('int', b) for b in v[1]]
    if v[0] == 'arr':
        return list(v[1])
    if v[0] == 'pieces':
        ps = v[1]
        if ps[0][0] == 'new':
            out = []
            for x in ps[1:]:
                if x[0] == 'b':
                    out += [('int', b) for b in x[1]]
                elif x[0] == 'one':
                    out.append(x[1])
                else:
                    return None
            return out
        if len(ps) == 1 and ps[0][0] == 'init':
            return seq(ps[0][1])
    if v[0] == 'subs':
        s = seq(v[1])
        if s is not None and v[2][0] == 'int' and v[3][0] == 'int':
            return s[v[2][1]:v[3][1]]
    if v[0] == 'upd' and v[1][0] in ('arr', 'bytes'):
        s = seq(v[1])
        for st_, x in v[2]:
            if st_[0] == 'i' and st_[1][0] == 'int':
                s[st_[1][1]] = x
            else:
                return None
        return s
    if v in ARRLEN:
        return [('idx', v, ('int', i)) for i in range(ARRLEN[v])]
    return None


def strip_init(v):
    if v[0] == 'pieces' and len(v[1]) == 1 and v[1][0][0] == 'init':
        return v[1][0][1]
    return v


# ------------------------------------------------------------------ iterators
def mk_iter(mode, ref, pos=0):
    return ('iter', mode, ref, ('int', pos))


@model('std::slice::<impl [T]>::iter', '<&'"'a"' [T] as std::iter::IntoIterator>::into_iter',
       "<&'a std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a [T]>::into_iter",
       'std::slice::Iter::<\'a, T>::new')
def slice_iter(e, st, c):
    return mk_iter('ref', c.args[0])


@model('std::slice::<impl [T]>::iter_mut', "<&'a mut [T] as std::iter::IntoIterator>::into_iter",
       "<&'a mut std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter",
       "std::slice::iter::<impl std::iter::IntoIterator for &'a mut [T]>::into_iter",
       "std::slice::IterMut::<'a, T>::new")
def slice_iter_mut(e, st, c):
    return mk_iter('mut', c.args[0])


@model("std::array::<impl std::iter::IntoIterator for &'a [T; N]>::into_iter")
def arr_ref_iter(e, st, c):
    return mk_iter('ref', c.args[0])


@model('std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter',
       '<std::vec::Vec<T, A> as std::iter::IntoIterator>::into_iter',
       'std::array::<impl std::iter::IntoIterator for [T; N]>::into_iter',
       'std::str::<impl str>::bytes')
def val_iter(e, st, c):
    a = c.args[0]
    if c.path.endswith('::bytes'):
        return mk_iter('val', a)
    t = e.p.types[c.tys[0]] if c.tys and c.tys[0] is not None else None
    if t is not None and t['k'] == 'array' and isinstance(t.get('len'), int) and t['len'] <= 16 and \
            a[0] in ('sym', 'fld', 'deref', 'idx', 'phi', 'it', 'call'):
        et = e.p.types[t['elem']]['s']
        a = ('arr', tuple(set_ty(e.proj(st, a, ('i', ('int', k))), et) if et in INT_RANGE else e.proj(st, a, ('i', ('int', k)))
                          for k in range(t['len'])))
    return mk_iter('val', kref(a))


@model('std::str::<impl str>::chars')
def str_chars(e, st, c):
    v = rd(c, c.args[0])
    if v[0] == 'bytes':
        return mk_iter('val', kref(('arr', tuple(('int', ord(x)) for x in v[1].decode()))))
    return mk_iter('val', kref(('chars', v)))


@model('std::str::<impl str>::encode_utf16')
def str_utf16(e, st, c):
    v = rd(c, c.args[0])
    if v[0] == 'bytes':
        b = v[1].decode().encode('utf-16-be')
        return mk_iter('val', kref(('arr', tuple(('int', b[i] * 256 + b[i + 1]) for i in range(0, len(b), 2)))))
    return mk_iter('val', kref(('utf16', v)))


@model('std::iter::IntoIterator::into_iter', 'std::iter::Iterator::by_ref')
def into_iter_unres(e, st, c):
    if c.callee['kind'] == 'unresolved' or 'by_ref' in c.path:
        return c.args[0]
    return NotImplemented


def elem_ty(e, st, v, c):
    """Type of an element term, from the destination type Option<T>."""
    try:
        r, p, ty = e.place(st, c.dest)
        t = e.p.types[ty]
        return e.p.types[t['variants'][1]['fields'][0][1]]['s']
    except Exception:
        return None


@model("<std::slice::Iter<'a, T> as std::iter::Iterator>::next",
       "<std::slice::IterMut<'a, T> as std::iter::Iterator>::next",
       '<std::vec::IntoIter<T, A> as std::iter::Iterator>::next',
       '<std::array::IntoIter<T, N> as std::iter::Iterator>::next',
       "<std::str::EncodeUtf16<'a> as std::iter::Iterator>::next",
       "<std::str::Bytes<'_> as std::iter::Iterator>::next",
       "<std::str::Chars<'a> as std::iter::Iterator>::next",
       'std::iter::Iterator::next')
def iter_next(e, st, c):
    r, p = loc(c, c.args[0])
    it = e.read(st, r, p)
    while it[0] == 'ref':           # &mut I as Iterator
        r, p = it[1], it[2]
        it = e.read(st, r, p)
    if it[0] != 'iter':
        if c.callee['kind'] == 'unresolved' and it[0] != 'agg':
            # an iterator supplied by the caller: a sequence of unknown elements
            it = ('iter', 'val', kref(('seq', it)), ('int', 0))
        else:
            if c.callee.get('key') in e.p.fns or c.callee.get('dkey') in e.p.fns:
                return NotImplemented
            raise Unsupported('next of %r' % (it[0],))
    mode, ref, pos = it[1], it[2], it[3]
    if mode == 'rev':
        raise Unsupported('next after next_back')
    v = strip_init(rd(c, ref))
    x = take(e, st, c, mode, ref, v, pos, pos)
    if x is None:
        return NONE
    e.write(st, r, p, ('iter', mode, ref, mk_bin('Add', pos, ('int', 1), 'usize')))
    return some(x)


def take(e, st, c, mode, ref, v, count, i):
    """Element i of v, if count < len."""
    s = seq(v)
    if s is not None and count[0] == 'int' and i[0] == 'int':
        if count[1] >= len(s):
            return None
        if mode == 'val':
            x = s[i[1]]
            ety = elem_ty(e, st, v, c) if x[0] not in ('int', 'agg', 'ref') else None
            return set_ty(x, ety) if ety in INT_RANGE else x
        rr, pp = e.deref(st, ref)
        return ('ref', rr, pp + (('i', i),))
    ln = ('int', len(s)) if s is not None else e.len_val(st, v)
    if not e.decide(st, mk_cmp('Lt', count, ln, 'usize')):
        return None
    if mode != 'val':
        rr, pp = e.deref(st, ref)
        return ('ref', rr, pp + (('i', i),))
    x = e.index(st, ('arr', tuple(s)) if s is not None else v, i)
    ety = elem_ty(e, st, v, c)
    if ety in INT_RANGE and x[0] != 'int':
        set_ty(x, ety)
    return x


@model("<std::slice::Iter<'a, T> as std::iter::DoubleEndedIterator>::next_back",
       '<std::vec::IntoIter<T, A> as std::iter::DoubleEndedIterator>::next_back',
       '<std::array::IntoIter<T, N> as std::iter::DoubleEndedIterator>::next_back')
def iter_next_back(e, st, c):
    r, p = loc(c, c.args[0])
    it = e.read(st, r, p)
    if it[0] != 'iter':
        raise Unsupported('next_back of %r' % (it[0],))
    mode, ref, pos = it[1], it[2], it[3]
    v = strip_init(rd(c, ref))
    s = seq(v)
    if s is not None and pos == ('int', 0) and mode == 'val':
        if not s:
            return NONE
        e.write(st, r, p, ('iter', mode, kref(('arr', tuple(s[:-1]))), pos))
        return some(s[-1])
    if mode == 'rev':
        mode, ref = ref[1], ref[2]
        v = strip_init(rd(c, ref))
        s = seq(v)
    elif pos != ('int', 0):
        raise Unsupported('next_back after next')
    ln = ('int', len(s)) if s is not None else e.len_val(st, v)
    i = mk_bin('Sub', mk_bin('Sub', ln, pos, 'usize'), ('int', 1), 'usize')
    x = take(e, st, c, mode, ref, v, pos, i)
    if x is None:
        return NONE
    e.write(st, r, p, ('iter', 'rev', ('rv', mode, ref), mk_bin('Add', pos, ('int', 1), 'usize')))
    return some(x)


@model("<std::slice::Iter<'a, T> as std::iter::ExactSizeIterator>::len",
       'std::iter::ExactSizeIterator::len')
def iter_len(e, st, c):
    it = rd(c, c.args[0])
    if it[0] == 'iter':
        v = rd(c, it[2])
        return mk_bin('Sub', e.len_val(st, v), it[3], 'usize')
    r = ('len', it)
    TYOF[r] = 'usize'
    return r


@model('std::iter::Iterator::size_hint', "<std::slice::Iter<'a, T> as std::iter::Iterator>::size_hint")
def size_hint(e, st, c):
    return ('unk', 'size_hint')


def synth_fold(e, itty, next_callee, fty, call_callee):
    raise Unsupported('fold')


# ------------------------------------------------------------------------ Vec
@model('std::vec::Vec::<T>::new', 'std::vec::Vec::<T>::with_capacity', 'std::string::String::new',
       'std::string::String::with_capacity')
def vec_new(e, st, c):
    st.nfresh += 1
    return ('pieces', (('new', st.nfresh),))


@model('std::vec::Vec::<T, A>::push')
def vec_push(e, st, c):
    r, p = loc(c, c.args[0])
    t = c.targ(0)
    u8 = t is not None and t['s'] == 'u8'
    e.vec_update(st, r, p, ('one', c.args[1], u8))
    return UNIT


def append_seq(e, st, r, p, v, u8=True):
    """Append all elements of sequence value v to the Vec at r,p."""
    v = strip_init(v)
    if v[0] == 'bytes':
        if v[1]:
            e.vec_update(st, r, p, ('b', v[1]))
        return
    if v[0] == 'pieces':
        ps = v[1]
        if ps[0][0] == 'init':
            append_seq(e, st, r, p, ps[0][1], u8)
        for x in ps[1:]:
            e.vec_update(st, r, p, x)
        return
    s = seq(v)
    if s is not None:
        for x in s:
            e.vec_update(st, r, p, ('one', x, u8))
        return
    e.vec_update(st, r, p, ('ext', v))


@model('std::vec::Vec::<T, A>::extend_from_slice', 'std::vec::Vec::<T, A>::append')
def vec_extend_slice(e, st, c):
    r, p = loc(c, c.args[0])
    t = c.targ(0)
    append_seq(e, st, r, p, rd(c, c.args[1]), t is not None and t['s'] == 'u8')
    return UNIT


@model("<std::vec::Vec<T, A> as std::iter::Extend<&'a T>>::extend",
       '<std::vec::Vec<T, A> as std::iter::Extend<T>>::extend')
def vec_extend(e, st, c):
    r, p = loc(c, c.args[0])
    a = c.args[1]
    ts = c.callee.get('cargs') or c.callee.get('targs') or []
    u8 = any(e.p.types[t]['s'] == 'u8' for t in ts if isinstance(t, int))
    v = None
    it = e.p.types[c.callee['targs'][-1]] if c.callee.get('targs') else None
    if a[0] == 'iter':
        v = strip_init(rd(c, a[2]))
        s = seq(v)
        if s is not None and a[3][0] == 'int':
            v = ('arr', tuple(s[a[3][1]:]))
            if u8 and all(x[0] == 'int' for x in v[1]):
                v = ('bytes', bytes(x[1] for x in v[1]))
        elif a[1] == 'rev':
            v = None
        elif a[3] != ('int', 0):
            v = e.subslice(st, v, a[3], e.len_val(st, v))
    elif a[0] in ('bytes', 'arr', 'pieces'):
        v = a
    elif a[0] == 'ref':
        v = rd(c, a)
        if v[0] in ('iter', 'agg'):
            v = None
    elif a[0] == 'agg':
        v = None
    else:
        if it is not None and it['k'] in ('ref',):
            v = rd(c, a)
        elif it is not None and it['k'] == 'adt' and it['path'] == 'std::vec::Vec':
            v = a
    if v is not None:
        append_seq(e, st, r, p, v, u8)
        return UNIT
    key = e.extend_body(c)
    raise CallBody(key, [c.args[0], a])


@model('<std::vec::Vec<T, A> as std::ops::Deref>::deref', '<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut',
       'std::vec::Vec::<T, A>::as_slice', 'std::vec::Vec::<T, A>::as_mut_slice', 'std::str::<impl str>::as_bytes',
       'std::string::String::as_bytes', '<std::string::String as std::ops::Deref>::deref',
       'std::string::String::as_str', 'std::vec::Vec::<T, A>::as_ptr', 'std::slice::<impl [T]>::as_ptr',
       'std::string::String::as_mut_vec', 'std::str::from_utf8_unchecked',
       '<std::vec::Vec<T, A> as std::convert::AsRef<[T]>>::as_ref',
       '<std::vec::Vec<T, A> as std::borrow::Borrow<[T]>>::borrow',
       'std::str::<impl std::convert::AsRef<[u8]> for str>::as_ref')
def ident(e, st, c):
    a = c.args[0]
    if a[0] == 'ref':
        v = e.read(st, a[1], a[2])
        if v[0] == 'ref' and False:
            return v
    return a


@model('std::string::String::into_bytes', 'std::convert::identity', 'std::hint::black_box')
def ident_val(e, st, c):
    return c.args[0]


@model('std::vec::Vec::<T, A>::len', 'std::slice::<impl [T]>::len', 'std::str::<impl str>::len',
       'std::string::String::len')
def slice_len(e, st, c):
    r, p = loc(c, c.args[0])
    return e.len_of(st, r, p)


@model('std::vec::Vec::<T, A>::is_empty', 'std::slice::<impl [T]>::is_empty', 'std::str::<impl str>::is_empty',
       'std::string::String::is_empty')
def slice_is_empty(e, st, c):
    r, p = loc(c, c.args[0])
    return mk_cmp('Eq', e.len_of(st, r, p), ('int', 0), 'usize')


@model('std::vec::Vec::<T, A>::reserve', 'std::string::String::reserve', 'std::vec::Vec::<T, A>::shrink_to_fit',
       'std::vec::Vec::<T, A>::reserve_exact')
def nop(e, st, c):
    return UNIT


@model('std::vec::Vec::<T, A>::clear', 'std::string::String::clear')
def vec_clear(e, st, c):
    r, p = loc(c, c.args[0])
    v = pieces_of(e.read(st, r, p))
    e.emit(('clear', origin(v)))
    e.write(st, r, p, ('pieces', (('new', ('cleared', origin(v))),)))
    return UNIT


@model('std::vec::Vec::<T, A>::pop')
def vec_pop(e, st, c):
    r, p = loc(c, c.args[0])
    v = pieces_of(e.read(st, r, p))
    ps = v[1]
    e.emit(('pop', origin(v)))
    last = ps[-1]
    if last[0] == 'b':
        nb = last[1][:-1]
        nv = ('pieces', ps[:-1] + ((('b', nb),) if nb else ()))
        st.cur[origin(v)] = nv
        e.write(st, r, p, nv)
        return some(('int', last[1][-1]))
    if last[0] == 'one':
        nv = ('pieces', ps[:-1])
        st.cur[origin(v)] = nv
        e.write(st, r, p, nv)
        return some(last[1])
    nv = ('pieces', ps + (('popped',),))
    st.cur[origin(v)] = nv
    e.write(st, r, p, nv)
    return ('unk', 'pop')


@model('std::vec::Vec::<T, A>::truncate')
def vec_trunc(e, st, c):
    r, p = loc(c, c.args[0])
    v = pieces_of(e.read(st, r, p))
    e.emit(('truncate', origin(v), e.here(st, ('one', c.args[1], False))[1]))
    e.write(st, r, p, ('pieces', v[1] + (('trunc', c.args[1]),)))
    return UNIT


@model('<std::vec::Vec<T, A> as std::clone::Clone>::clone', 'std::slice::<impl [T]>::to_vec',
       'std::string::<impl std::string::ToString for str>::to_string', 'std::str::<impl std::borrow::ToOwned for str>::to_owned',
       '<std::string::String as std::clone::Clone>::clone', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned',
       "<std::string::String as std::convert::From<&str>>::from",
       "<std::vec::Vec<T> as std::convert::From<&[T]>>::from")
def vec_clone(e, st, c):
    v = rd(c, c.args[0])
    return v


@model('std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_unstable', 'std::slice::<impl [T]>::sort_by_key',
       'std::slice::<impl [T]>::sort_unstable_by_key', 'std::slice::<impl [T]>::sort_by')
def slice_sort(e, st, c):
    r, p = loc(c, c.args[0])
    v = e.read(st, r, p)
    how = c.path.split('::')[-1].replace('_unstable', '')
    e.write(st, r, p, ('sorted', how, strip_init(v)))
    e.emit(('sort', how, strip_init(v)))
    return UNIT


# ------------------------------------------------------------------- indexing
def range_of(e, st, c, idx, ln):
    """(lo, hi) of a Range-like index argument, by its type."""
    ts = c.callee.get('targs') or []
    for t in list(ts) + list(c.callee.get('cargs') or []):
        if not isinstance(t, int):
            continue
        s = e.p.types[t]['s']
        if s.startswith('std::ops::RangeFull'):
            return ('int', 0), ln
        if s.startswith('std::ops::RangeInclusive'):
            if idx[0] == 'agg':
                return idx[2][0], mk_bin('Add', idx[2][1], ('int', 1), 'usize')
        if s.startswith('std::ops::RangeToInclusive'):
            return ('int', 0), mk_bin('Add', idx[2][0], ('int', 1), 'usize')
        if s.startswith('std::ops::RangeFrom'):
            return idx[2][0], ln
        if s.startswith('std::ops::RangeTo'):
            return ('int', 0), idx[2][0]
        if s.startswith('std::ops::Range<'):
            return idx[2][0], idx[2][1]
    return None


@model('<std::vec::Vec<T, A> as std::ops::Index<I>>::index', '<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut',
       'std::slice::index::<impl std::ops::Index<I> for [T]>::index', 'std::slice::index::<impl std::ops::IndexMut<I> for [T]>::index_mut',
       'std::array::<impl std::ops::Index<I> for [T; N]>::index', 'std::array::<impl std::ops::IndexMut<I> for [T; N]>::index_mut',
       'std::str::traits::<impl std::ops::Index<I> for str>::index')
def index(e, st, c):
    r, p = loc(c, c.args[0])
    ln = e.len_of(st, r, p)
    rg = range_of(e, st, c, c.args[1], ln)
    if rg:
        return ('ref', r, p + (('s', rg[0], rg[1]),))
    i = c.args[1]
    if i[0] == 'int' and ln[0] == 'int' and i[1] >= ln[1]:
        raise Panic('index out of bounds')
    e.note_assume(st.frames[-1].key, 'index in bounds', i)
    return ('ref', r, p + (('i', i),))


def name_end(pc):
    """Last byte of a name with constant, unescaped last byte."""
    if pc[0] == 'val' and pc[1] == 'object::Name' and pc[2][0] == 'agg':
        b = pc[2][2][0]
        if b[0] == 'ref' and b[1][0] == 'K' and not b[2]:
            b = b[1][1]
        if b[0] == 'bytes' and b[1] and b[1][-1:].isalnum():
            return ('int', b[1][-1])
    return None


@model('std::slice::<impl [T]>::first', 'std::slice::<impl [T]>::last', 'std::slice::<impl [T]>::first_mut',
       'std::slice::<impl [T]>::last_mut')
def first_last(e, st, c):
    r, p = loc(c, c.args[0])
    v = e.read(st, r, p)
    isl = 'last' in c.path
    if v[0] == 'pieces':
        ps = v[1]
        last = ps[-1]
        if isl and last[0] in ('b', 'one'):
            return some(kref(('int', last[1][-1]) if last[0] == 'b' else last[1]))
        if isl and last[0] == 'last':
            n = name_end(last[1])
            return some(kref(n or set_ty(('lastof', last[1]), 'u8')))
        if isl and last[0] not in ('init', 'new'):
            n = name_end(last)
            if n:
                return some(kref(n))
            return some(kref(set_ty(('lastof', last), 'u8')))
        if ps == (ps[0],) and ps[0][0] == 'new':
            return NONE
    s = seq(v)
    if s is not None:
        if not s:
            return NONE
        k = len(s) - 1 if isl else 0
        return some(('ref', r, p + (('i', ('int', k)),)))
    ln = e.len_of(st, r, p)
    if e.decide(st, mk_cmp('Eq', ln, ('int', 0), 'usize')):
        return NONE
    i = mk_bin('Sub', ln, ('int', 1), 'usize') if isl else ('int', 0)
    return some(('ref', r, p + (('i', i),)))


@model('std::slice::<impl [T]>::get', 'std::slice::<impl [T]>::get_mut')
def slice_get(e, st, c):
    r, p = loc(c, c.args[0])
    ln = e.len_of(st, r, p)
    rg = range_of(e, st, c, c.args[1], ln)
    if rg:
        if e.decide(st, mk_cmp('Le', rg[1], ln, 'usize')) and e.decide(st, mk_cmp('Le', rg[0], rg[1], 'usize')):
            return some(('ref', r, p + (('s', rg[0], rg[1]),)))
        return NONE
    if e.decide(st, mk_cmp('Lt', c.args[1], ln, 'usize')):
        return some(('ref', r, p + (('i', c.args[1]),)))
    return NONE


@model('std::slice::<impl [T]>::copy_from_slice', 'std::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(e, st, c):
    r, p = loc(c, c.args[0])
    v = rd(c, c.args[1])
    s = seq(v)
    if s is None:
        n = e.len_of(st, r, p)
        n = n if n[0] == 'int' else e.len_val(st, v)
        if n[0] == 'int' and n[1] <= 64:
            s = [e.index(st, v, ('int', k)) for k in range(n[1])]
        else:
            e.write(st, r, p, v)
            return UNIT
    for k, x in enumerate(s):
        if p and p[-1][0] == 's':
            i = mk_bin('Add', p[-1][1], ('int', k), 'usize')
            e.write(st, r, p[:-1] + (('i', i),), x)
        else:
            e.write(st, r, p + (('i', ('int', k)),), x)
    return UNIT


def const_seq(v):
    s = seq(v)
    if s is not None and all(x[0] == 'int' for x in s):
        return bytes(x[1] for x in s) if all(0 <= x[1] < 256 for x in s) else None
    return None


@model('std::str::traits::<impl std::cmp::PartialEq for str>::eq', 'std::slice::cmp::<impl std::cmp::PartialEq<[U]> for [T]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for [T]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<&[U]> for [T; N]>::eq',
       'std::array::equality::<impl std::cmp::PartialEq<[U; N]> for &[T]>::eq',
       'std::slice::<impl [T]>::starts_with', 'std::slice::<impl [T]>::ends_with',
       'std::str::<impl str>::starts_with')
def seq_eq(e, st, c):
    def full(a):
        v = rd(c, a)
        while v[0] == 'ref':
            v = e.read(st, v[1], v[2])
        return strip_init(v)
    a, b = full(c.args[0]), full(c.args[1])
    op = c.path.split('::')[-1]
    ca, cb = const_seq(a), const_seq(b)
    if ca is not None and cb is not None:
        return ('int', int(ca == cb if op == 'eq' else ca.startswith(cb) if op == 'starts_with' else ca.endswith(cb)))
    sa, sb = seq(a), seq(b)
    if op == 'eq' and sa is not None and sb is not None and len(sa) == len(sb) and \
            all(x in TYOF or x[0] == 'int' for x in sa + sb):
        r = TRUE
        for x, y in zip(sa, sb):
            r = mk_bin('BitAnd', r, mk_cmp('Eq', x, y, 'i128'), 'bool')
        return r
    if op == 'eq':
        if key(a) > key(b):
            a, b = b, a
        return set_ty(('seqeq', a, b), 'bool')
    return set_ty((op, a, b), 'bool')


@model('std::slice::<impl [T]>::strip_prefix', 'std::slice::<impl [T]>::strip_suffix')
def strip_fix(e, st, c):
    r, p = loc(c, c.args[0])
    v = e.read(st, r, p)
    b = rd(c, c.args[1])
    while b[0] == 'ref':
        b = e.read(st, b[1], b[2])
    b = strip_init(b)
    pre = 'prefix' in c.path
    ca, cb = const_seq(strip_init(v)), const_seq(b)
    if ca is not None and cb is not None:
        t = ('int', int(ca.startswith(cb) if pre else ca.endswith(cb)))
    else:
        t = set_ty(('starts_with' if pre else 'ends_with', strip_init(v), b), 'bool')
    if not e.decide(st, t):
        return NONE
    n = e.len_val(st, b)
    ln = e.len_of(st, r, p)
    if pre:
        return some(('ref', r, p + (('s', n, ln),)))
    return some(('ref', r, p + (('s', ('int', 0), mk_bin('Sub', ln, n, 'usize')),)))


@model('std::slice::<impl [T]>::contains')
def slice_contains(e, st, c):
    v = strip_init(rd(c, c.args[0]))
    x = rd(c, c.args[1])
    s = seq(v)
    if s is not None and all(y[0] == 'int' for y in s):
        if x[0] == 'int':
            return ('int', int(x in s))
        r = FALSE
        for y in s:
            r = mk_bin('BitOr', r, mk_cmp('Eq', x, y, 'i128'), 'bool')
        return r
    return set_ty(('contains', v, x), 'bool')


@model('std::slice::<impl [T]>::is_ascii', 'std::str::<impl str>::is_ascii', 'std::slice::ascii::<impl [u8]>::is_ascii')
def is_ascii(e, st, c):
    v = strip_init(rd(c, c.args[0]))
    k = const_seq(v)
    if k is not None:
        return ('int', int(all(b < 128 for b in k)))
    # for b in bytes { if b > 127 { return false } } true
    P = e.p
    key_ = '$is_ascii'
    if key_ not in P.fns:
        T = P.types

        def ty(d):
            for i, t in enumerate(T):
                if t['k'] == d['k'] and t['s'] == d['s']:
                    return i
            T.append(d)
            return len(T) - 1

        def fndef(path, name):
            T.append({'s': 'fndef', 'k': 'fndef', 'callee': {'path': path, 'kind': 'item', 'name': name, 'targs': [u8]}})
            return len(T) - 1
        boo, u8 = ty({'s': 'bool', 'k': 'bool'}), ty({'s': 'u8', 'k': 'uint'})
        T.append({'s': 'Option<&u8>', 'k': 'adt', 'path': 'std::option::Option', 'akind': 'enum', 'local': False, 'targs': [],
                  'variants': [{'name': 'None', 'discr': 0, 'fields': []}, {'name': 'Some', 'discr': 1, 'fields': [['0', u8]]}]})
        opt = len(T) - 1
        T.append({'s': '&u8', 'k': 'ref', 'elem': u8})
        rf = len(T) - 1
        T.append({'s': 'It', 'k': 'opaque'})
        itt = len(T) - 1
        x = ['c', [4, [['d', 1], ['f', 0, rf], '*']]]
        ret = lambda n: {'s': [['=', [0, []], ['use', ['k', boo, ['int', n]]], 0]], 't': ['ret'], 'l': 0}
        P.fns[key_] = {'key': key_, 'path': '$is_ascii', 'local': False, 'args': 1, 'dkind': 'Fn',
                       'locals': [boo, rf, itt, rf, opt, u8, boo, u8], 'names': [], 'blocks': [
            {'s': [], 't': ['call', ['k', fndef('std::slice::<impl [T]>::iter', 'iter'), ['zst']], [['c', [1, []]]], [2, []], 1], 'l': 0},
            {'s': [['=', [3, []], ['ref', [2, []]], 0]],
             't': ['call', ['k', fndef("<std::slice::Iter<'a, T> as std::iter::Iterator>::next", 'next'), ['zst']], [['c', [3, []]]], [4, []], 2], 'l': 0},
            {'s': [['=', [5, []], ['discr', [4, []], opt], 0]], 't': ['switch', ['c', [5, []]], [[0, 4]], 3, None], 'l': 0},
            {'s': [['=', [7, []], ['use', x], 0], ['=', [6, []], ['bin', 'Le', ['c', [7, []]], ['k', u8, ['int', 127]], u8], 0]],
             't': ['switch', ['c', [6, []]], [[0, 5]], 1, boo], 'l': 0},
            ret(1), ret(0)]}
    raise CallBody(key_, [c.args[0]])


@model('memchr::memmem::find', 'memchr::memmem::rfind')
def memfind(e, st, c):
    h, n = rd(c, c.args[0]), rd(c, c.args[1])
    return (c.path.split('::')[-1], strip_init(h), strip_init(n))


@model('std::str::from_utf8')
def from_utf8(e, st, c):
    return ('from_utf8', rd(c, c.args[0]))


@model('std::str::<impl str>::parse')
def str_parse(e, st, c):
    return ('parse', rd(c, c.args[0]), c.targ(0)['s'] if c.targ(0) else '')


# ---------------------------------------------------------------- formatting
@model("std::fmt::Arguments::<'a>::from_str")
def fmt_from_str(e, st, c):
    return ('fmt', (('lit', rd(c, c.args[0])[1]),))


@model("std::fmt::rt::Argument::<'_>::new_display", "std::fmt::rt::Argument::<'_>::new_lower_hex",
       "std::fmt::rt::Argument::<'_>::new_upper_hex", "std::fmt::rt::Argument::<'_>::new_debug",
       "std::fmt::rt::Argument::<'_>::new_octal", "std::fmt::rt::Argument::<'_>::new_lower_exp",
       "std::fmt::rt::Argument::<'_>::new_binary", "std::fmt::rt::Argument::<'_>::new_upper_exp")
def fmt_arg(e, st, c):
    v = rd(c, c.args[0])
    t = c.targ(0)
    while v[0] == 'ref':
        v = e.read(st, v[1], v[2])
        if t is not None and t['k'] == 'ref':
            t = e.p.types[t['elem']]
    if t is not None and t['k'] == 'ref':
        v = ('deref', v)
        t = e.p.types[t['elem']]
    ts = t['s'] if t is not None else '?'
    if ts in INT_RANGE:
        set_ty(v, ts)
    return ('farg', c.path.split('::')[-1][4:], ts, v)


@model("std::fmt::Arguments::<'a>::new")
def fmt_new(e, st, c):
    tpl = rd(c, c.args[0])
    args = rd(c, c.args[1])
    if tpl[0] == 'bytes':
        b = tpl[1]
    elif tpl[0] == 'arr' and all(x[0] == 'int' for x in tpl[1]):
        b = bytes(x[1] for x in tpl[1])
    else:
        raise Unsupported('format template %r' % (tpl[0],))
    av = seq(args)
    if av is None:
        raise Unsupported('format args')
    out = []
    i = nxt = 0
    while i < len(b):
        x = b[i]
        if x == 0:
            break
        if x < 0x80:
            out.append(('lit', b[i + 1:i + 1 + x]))
            i += 1 + x
        elif x == 0x80:
            n = b[i + 1] | b[i + 2] << 8
            out.append(('lit', b[i + 3:i + 3 + n]))
            i += 3 + n
        else:
            i += 1
            flags = width = prec = None
            if x & 1:
                flags = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if x & 2:
                width = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if x & 4:
                prec = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            idx = nxt
            if x & 8:
                idx = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            nxt = idx + 1

            def at(k):
                return ('arg', av[k]) if k < len(av) else ('unk', 'fmtarg')
            if x & 16 and width is not None:
                width = av[width]
            if x & 32 and prec is not None:
                prec = av[prec]
            if idx >= len(av):
                raise Unsupported('format arg index')
            a = av[idx]
            out.append(('arg', a, flags, width, prec))
    return ('fmt', tuple(out))


def fmt_pieces(f):
    """fmt value -> list of sequence values."""
    out = []
    for x in f[1]:
        if x[0] == 'lit':
            out.append(('bytes', x[1]))
            continue
        _, a, flags, width, prec = x
        if a[0] != 'farg':
            out.append(('fmtarg', a))
            continue
        _, kind, ty, v = a
        plain = flags is None and width is None and prec is None
        if plain and kind == 'display' and ty in INT_RANGE and ty not in ('bool', 'char'):
            out.append(('bytes', str(v[1]).encode()) if v[0] == 'int' else ('dec', v))
        elif plain and kind == 'display' and ty in ('str', 'std::string::String'):
            out.append(v)
        elif plain and kind == 'display' and ty == 'char' and v[0] == 'int':
            out.append(('bytes', chr(v[1]).encode()))
        else:
            out.append(('fmtv', kind, (flags, width, prec), ty if ty in ('f32', 'f64', 'char', 'bool') else '', v))
    return out


@model('std::io::Write::write_fmt', 'std::fmt::Write::write_fmt', '<std::string::String as std::fmt::Write>::write_fmt',
       "<std::vec::Vec<u8, A> as std::io::Write>::write_fmt")
def write_fmt(e, st, c):
    r, p = loc(c, c.args[0])
    v = e.read(st, r, p)
    while v[0] == 'ref':
        r, p = v[1], v[2]
        v = e.read(st, r, p)
    f = c.args[1]
    if f[0] != 'fmt':
        raise Unsupported('write_fmt of %r' % (f[0],))
    if v[0] == 'agg' and len(v[2]) == 2:          # io::Cursor<&mut [u8]>
        return NotImplemented
    for x in fmt_pieces(f):
        append_seq(e, st, r, p, x)
    return ('agg', 0, (UNIT,))


@model('std::fmt::format')
def fmt_format(e, st, c):
    f = c.args[0]
    if f[0] != 'fmt':
        raise Unsupported('format of %r' % (f[0],))
    st.nfresh += 1
    v = ('pieces', (('new', st.nfresh),))
    from engine import pieces_add
    for x in fmt_pieces(f):
        v = pieces_add(v, ('b', x[1]) if x[0] == 'bytes' else ('ext', x))
    return v


@model('<T as std::string::ToString>::to_string')
def to_string(e, st, c):
    t = c.targ(0)
    if t is None:
        return NotImplemented
    v = rd(c, c.args[0])
    while t['k'] == 'ref':
        v, t = rd(c, v), e.p.types[t['elem']]
    if t['s'] not in INT_RANGE or t['s'] in ('bool', 'char'):
        return NotImplemented
    st.nfresh += 1
    r = ('pieces', (('new', st.nfresh),))
    from engine import pieces_add
    for x in fmt_pieces(('fmt', (('arg', ('farg', 'display', t['s'], v), None, None, None),))):
        r = pieces_add(r, ('b', x[1]) if x[0] == 'bytes' else ('ext', x))
    return r


@model('std::string::String::push_str')
def push_str(e, st, c):
    r, p = loc(c, c.args[0])
    append_seq(e, st, r, p, rd(c, c.args[1]))
    return UNIT


@model('itoa::Buffer::new', 'ryu::Buffer::new')
def fbuf_new(e, st, c):
    return ('unk', 'fmtbuf')


@model('itoa::Buffer::format')
def itoa_format(e, st, c):
    t = c.targ(0)
    v = c.args[1]
    if t is not None and t['s'] in INT_RANGE:
        set_ty(v, t['s'])
    if v[0] == 'int':
        return kref(('bytes', str(v[1]).encode()))
    return kref(('dec', v))


@model('ryu::Buffer::format')
def ryu_format(e, st, c):
    return kref(('ryu', c.args[1]))


# ------------------------------------------------------------------- integers
def static_range(a):
    if a[0] == 'int':
        return a[1], a[1]
    w = strip_widen(a)
    if w in TYOF:
        return INT_RANGE[TYOF[w]]
    if w[0] == 'max':
        rs = [static_range(x) for x in w[1:3]]
        if all(rs):
            return max(r[0] for r in rs), max(r[1] for r in rs)
    return None


def minmax(op, a, b, ty):
    if a[0] == 'int' and b[0] == 'int':
        return ('int', min(a[1], b[1]) if op == 'min' else max(a[1], b[1]))
    if a == b:
        return a
    ra, rb = static_range(a), static_range(b)
    if ra and rb:
        if ra[1] <= rb[0]:
            return a if op == 'min' else b
        if rb[1] <= ra[0]:
            return b if op == 'min' else a
    if key(a) > key(b):
        a, b = b, a
    return set_ty((op, a, b, ty), ty)


@model('std::intrinsics::integer_min', 'std::intrinsics::integer_max')
def imm(e, st, c):
    t = c.targ(0)
    return minmax(c.path[-3:], c.args[0], c.args[1], t['s'])


@model('std::cmp::Ord::min', 'std::cmp::Ord::max', 'std::cmp::min', 'std::cmp::max')
def ord_mm(e, st, c):
    t = c.targ(0)
    if t is not None and t['s'] in INT_RANGE:
        return minmax(c.path[-3:], c.args[0], c.args[1], t['s'])
    if c.callee['kind'] == 'unresolved':
        return (c.path[-3:],) + tuple(sorted(c.args, key=key)) + ('?',)
    return NotImplemented


def _mm_prim(op):
    def f(e, st, c):
        ty = re.search(r'for (\w+)>', c.path).group(1)
        return minmax(op, c.args[0], c.args[1], ty)
    return f


def _clamp(e, st, c):
    ty = re.search(r'for (\w+)>', c.path).group(1)
    return minmax('min', minmax('max', c.args[0], c.args[1], ty), c.args[2], ty)


for _t in INT_RANGE:
    for _o in ('min', 'max'):
        M['std::cmp::impls::<impl std::cmp::Ord for %s>::%s' % (_t, _o)] = _mm_prim(_o)
    M['std::cmp::impls::<impl std::cmp::Ord for %s>::clamp' % _t] = _clamp


@model('std::intrinsics::fabs', 'std::intrinsics::fabsf32')
def fabs(e, st, c):
    a = c.args[0]
    if a[0] == 'flt':
        return ('flt', a[1] & ~(1 << (a[2] - 1)), a[2])
    return ('fabs', a)


@model('std::f32::<impl f32>::abs', 'std::f64::<impl f64>::abs')
def f32_abs(e, st, c):
    return fabs(e, st, c)


@model('std::intrinsics::maximum_number_nsz_f32', 'std::f32::<impl f32>::max')
def fmax(e, st, c):
    a, b = c.args
    if a[0] == 'flt' and b[0] == 'flt':
        return a if flt(a[1], a[2]) >= flt(b[1], b[2]) else b
    if key(a) > key(b):
        a, b = b, a
    return ('fmax', a, b)


@model('std::f32::<impl f32>::min', 'std::intrinsics::minimum_number_nsz_f32')
def fmin(e, st, c):
    a, b = c.args
    if a[0] == 'flt' and b[0] == 'flt':
        return a if flt(a[1], a[2]) <= flt(b[1], b[2]) else b
    if key(a) > key(b):
        a, b = b, a
    return ('fmin', a, b)


def _to_be(ty):
    n = BITS[ty] // 8

    def f(e, st, c):
        a = c.args[0]
        out = []
        for k in range(n):
            sh = 8 * (n - 1 - k)
            out.append(mk_cast(mk_bin('Shr', a, ('int', sh), ty), 'u8', ty))
        if all(x[0] == 'int' for x in out):
            return ('bytes', bytes(x[1] for x in out))
        return ('arr', tuple(out))
    return f


for _t in ('u16', 'u32', 'u64', 'usize', 'i32', 'i16', 'i64'):
    M['std::num::<impl %s>::to_be_bytes' % _t] = _to_be(_t)


@model('std::intrinsics::bswap')
def bswap(e, st, c):
    return ('bswap', c.args[0])


@model('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub')
def sat(e, st, c):
    ty = c.targ(0)['s']
    op = c.path[-3:]
    a, b = c.args
    if a[0] == 'int' and b[0] == 'int':
        lo, hi = INT_RANGE[ty]
        n = a[1] + b[1] if op == 'add' else a[1] - b[1]
        return ('int', max(lo, min(hi, n)))
    if b == ('int', 0):
        return a
    return set_ty(('sat' + op, a, b, ty), ty)


def _satabs(e, st, c):
    a = c.args[0]
    ty = re.search(r'impl (\w+)>', c.path).group(1)
    if a[0] == 'int':
        return ('int', min(abs(a[1]), INT_RANGE[ty][1]))
    return set_ty(('satabs', a, ty), ty)


def _absty(e, st, c):
    a = c.args[0]
    ty = re.search(r'impl (\w+)>', c.path).group(1)
    if a[0] == 'int':
        return ('int', wrap(abs(a[1]), ty))
    return set_ty((c.path.split('::')[-1], a, ty), ty)


for _t in ('i8', 'i16', 'i32', 'i64', 'isize'):
    M['std::num::<impl %s>::saturating_abs' % _t] = _satabs
    M['std::num::<impl %s>::abs' % _t] = _absty
    M['std::num::<impl %s>::unsigned_abs' % _t] = _absty
    M['std::num::<impl %s>::wrapping_abs' % _t] = _absty


@model('std::intrinsics::ctlz', 'std::intrinsics::ctpop', 'std::intrinsics::cttz')
def bits_fn(e, st, c):
    n = c.path.split('::')[-1]
    ty = c.targ(0)['s']
    a = c.args[0]
    if a[0] == 'int' and a[1] >= 0:
        if n == 'ctlz':
            return ('int', BITS[ty] - a[1].bit_length())
        if n == 'ctpop':
            return ('int', bin(a[1]).count('1'))
    ct = 'count%d' % BITS[ty]
    return mk_cast(set_ty((n, a, ty), ct), 'u32', ct)


@model('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited', 'std::intrinsics::assume',
       'std::intrinsics::assert_zero_valid')
def unit(e, st, c):
    return UNIT


@model('std::intrinsics::likely', 'std::intrinsics::unlikely')
def likely(e, st, c):
    return c.args[0]


@model('std::intrinsics::discriminant_value', 'std::mem::discriminant')
def discr_val(e, st, c):
    v = rd(c, c.args[0])
    t = c.callee['targs'][0]
    d = e.discr(st, v, t)
    if c.path == 'std::mem::discriminant':
        return ('agg', 0, (d,))
    return d


# ------------------------------------------------------------------- NonZero
@model('std::num::NonZero::<T>::get')
def nz_get(e, st, c):
    a = c.args[0]
    if a[0] == 'nz':
        return a[1]
    t = c.targ(0)
    r = ('nzget', a)
    if t and t['s'] == 'i32':
        # the only one in the crate is the number in a `Ref`, which `Ref::new` lets be
        # positive only
        return mk_cast(set_ty(r, 'refid'), 'i32', 'refid')
    return set_ty(r, t['s'] if t else 'i32')


@model('std::num::NonZero::<T>::new')
def nz_new(e, st, c):
    a = c.args[0]
    if e.decide(st, mk_cmp('Eq', a, ('int', 0), 'i128')):
        return NONE
    return some(('nz', a))


@model('std::num::NonZero::<T>::new_unchecked')
def nz_newu(e, st, c):
    return ('nz', c.args[0])


# --------------------------------------------------------------- user callbacks
@model('std::ops::FnMut::call_mut', 'std::ops::FnOnce::call_once', 'std::ops::Fn::call')
def fn_call(e, st, c):
    f = c.args[0]
    if f[0] == 'ref':
        f = rd(c, f)
        while f[0] == 'ref':
            f = e.read(st, f[1], f[2])
    if f[0] == 'fnv':
        ty = e.p.types[f[1]]
        cal = ty.get('callee')
        if cal and cal['kind'] == 'ctor':
            return ('agg', cal.get('variant', 0), tuple(untuple(e, st, c.args[1])))
        k = cal.get('key') if cal else None
        for nm in ((cal or {}).get('rpath'), (cal or {}).get('path')):
            if nm in e.models or canon(nm) in e.hooks:
                raise Redispatch(cal, untuple(e, st, c.args[1]))
        if k in e.p.fns:
            raise CallBody(k, untuple(e, st, c.args[1]))
    if c.callee['kind'] in ('unresolved', 'virtual'):
        args = tuple(untuple(e, st, c.args[1]))
        e.emit(('cb', f, tuple(e.pointee(st, a) for a in args)))
        st.nfresh += 1
        r = ('cbret', f, tuple(e.pointee(st, a) for a in args))
        return r
    return NotImplemented


@model('std::array::<impl [T; N]>::map')
def array_map(e, st, c):
    raise CallBody(e.array_map_body(c), list(c.args))


def untuple(e, st, t):
    if t[0] == 'agg':
        return list(t[2])
    return [t]


# ------------------------------------------------------------------- panics
def _panic(e, st, c):
    msg = c.path.split('::')[-1]
    if 'nounwind' in msg:
        # a library precondition check that safe code cannot fail
        raise Diverge()
    if c.args:
        a = c.args[0]
        if a[0] == 'fmt':
            msg = b''.join(x[1] if x[0] == 'lit' else b'{}' for x in a[1]).decode('latin1')
        elif a[0] == 'ref':
            v = e.read(st, a[1], a[2])
            if v[0] == 'bytes':
                msg = v[1].decode('latin1')
    raise Panic(msg)


def panic_model(path):
    if path is None:
        return None
    if path.startswith(('std::panicking::', 'std::option::unwrap_failed', 'std::option::expect_failed',
                        'std::result::unwrap_failed', 'std::rt::', 'std::slice::index::slice_index_fail',
                        'std::str::slice_error_fail', 'std::cell::panic')):
        return _panic
    if path.endswith('len_mismatch_fail'):
        return _panic
    return None


# ------------------------------------------------------------------ opaque eq
@model('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne')
def part_eq(e, st, c):
    if c.callee['kind'] != 'unresolved':
        return NotImplemented
    a, b = rd(c, c.args[0]), rd(c, c.args[1])
    if a == b:
        r = TRUE
    else:
        if key(a) > key(b):
            a, b = b, a
        r = set_ty(('eq', a, b), 'bool')
    return mk_not(r) if c.path.endswith('ne') else r


@model('std::clone::Clone::clone')
def clone_unres(e, st, c):
    if c.callee['kind'] == 'unresolved':
        return rd(c, c.args[0])
    return NotImplemented


@model('std::convert::Into::into', 'std::convert::From::from')
def into_unres(e, st, c):
    if c.callee['kind'] == 'unresolved':
        return ('into', c.args[0])
    return NotImplemented


@model('std::iter::Iterator::map')
def iter_map(e, st, c):
    return ('agg', 0, (c.args[0], c.args[1]))


@model('bitflags::Flag::<B>::value')
def flag_value(e, st, c):
    return NotImplemented


@model('std::iter::Iterator::skip')
def iter_skip(e, st, c):
    it = c.args[0]
    if it[0] != 'iter' or it[3] != ('int', 0):
        return NotImplemented
    v = strip_init(rd(c, it[2]))
    ln = e.len_val(st, v)
    s = e.subslice(st, v, c.args[1], ln)
    return ('agg', 0, (('iter', it[1], kref(s), ('int', 0)), ('int', 0)))
