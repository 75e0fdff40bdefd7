"""Token-level effect summaries of the public API.

Every public method is analysed down to the object layer: the events are the
PDF tokens it makes the writer emit (primitive, `<<`/`[` open, close, key,
operator), in order, with their values as functions of the parameters.
"""
from terms import *
from engine import Engine, canon, Unsupported, Panic
import models
from models import M, rd, seq

H = {}


def hook(*ps):
    def d(f):
        for p in ps:
            H[p] = f
        return f
    return d


def fidx(e, path):
    r = e._fidx.get(path)
    if r is None:
        for t in e.p.types:
            if t['k'] == 'adt' and t['path'] == path:
                r = [f[0] for f in t['variants'][0]['fields']]
                break
        e._fidx[path] = r
    return r


def writer(e, path, **kw):
    names = fidx(e, path)
    fs = []
    for n in names:
        fs.append(kw[n] if n in kw else ('wst', n))
    return ('agg', 0, tuple(fs))


def getf(e, st, v, path, name):
    names = fidx(e, path)
    i = names.index(name)
    return e.proj(st, v, ('f', i, name, None))


def sinkname(e, st, s):
    return s


def deep(e, st, v, d=0):
    if d > 8:
        return v
    if v[0] == 'ref':
        try:
            x = e.read(st, v[1], v[2])
        except Unsupported:
            return v
        return deep(e, st, x, d + 1)
    if v[0] == 'agg':
        return ('agg', v[1], tuple(deep(e, st, x, d + 1) for x in v[2]))
    if v[0] == 'arr':
        return ('arr', tuple(deep(e, st, x, d + 1) for x in v[1]))
    if v[0] == 'upd':
        return ('upd', deep(e, st, v[1], d + 1), tuple((s, deep(e, st, x, d + 1)) for s, x in v[2]))
    if v[0] == 'iter':
        return ('iter', v[1], deep(e, st, v[2], d + 1), v[3])
    return v


def prim_ty(e, t):
    while t['k'] == 'ref':
        t = e.p.types[t['elem']]
    return canon(t['s'])


def strip_ty(e, t, v, st):
    n = 0
    while t['k'] == 'ref':
        t = e.p.types[t['elem']]
        if v[0] == 'ref':
            v = e.read(st, v[1], v[2])
        else:
            v = ('deref', v) if v[0] != 'itref' else ('it', v[1])
        if t['s'] in INT_RANGE:
            set_ty(v, t['s'])
    return canon(t['s']), v


OBJ, DICT, ARRAY, STREAM, OP = 'object::Obj', 'object::Dict', 'object::Array', 'object::Stream', 'content::Operation'


@hook('object::Obj::primitive')
def obj_prim(e, st, c):
    sink = getf(e, st, c.args[0], OBJ, 'buf')
    # the method's own type parameter is the last generic argument
    t = e.p.types[c.callee['targs'][-1]]
    ty, v = strip_ty(e, t, c.args[1], st)
    e.emit(('prim', sink, ty, deep(e, st, v)))
    return UNIT


@hook('object::Obj::direct')
def obj_direct(e, st, c):
    return writer(e, OBJ, buf=c.args[0])


@hook('object::Obj::indirect')
def obj_indirect(e, st, c):
    e.emit(('indirect', c.args[0], c.args[1]))
    return writer(e, OBJ, buf=c.args[0])


@hook('<object::Dict as object::Writer>::start')
def dict_start(e, st, c):
    sink = getf(e, st, c.args[0], OBJ, 'buf')
    e.emit(('open', sink, 'dict'))
    return writer(e, DICT, buf=sink)


@hook('<object::Array as object::Writer>::start')
def array_start(e, st, c):
    sink = getf(e, st, c.args[0], OBJ, 'buf')
    e.emit(('open', sink, 'array'))
    return writer(e, ARRAY, buf=sink)


@hook('object::Array::push')
def array_push(e, st, c):
    sink = getf(e, st, rd(c, c.args[0]), ARRAY, 'buf')
    e.emit(('slot', sink))
    return writer(e, OBJ, buf=sink)


@hook('object::Dict::insert')
def dict_insert(e, st, c):
    sink = getf(e, st, rd(c, c.args[0]), DICT, 'buf')
    e.emit(('key', sink, deep(e, st, c.args[1])))
    return writer(e, OBJ, buf=sink)


def closer(path, kind):
    def f(e, st, c):
        v = rd(c, c.args[0])
        e.emit(('close', getf(e, st, v, path, 'buf'), kind))
        return UNIT
    return f


H['<object::Dict as std::ops::Drop>::drop'] = closer(DICT, 'dict')
H['<object::Array as std::ops::Drop>::drop'] = closer(ARRAY, 'array')


@hook('object::Stream::start')
def stream_start(e, st, c):
    sink = getf(e, st, c.args[0], OBJ, 'buf')
    e.emit(('open', sink, 'stream', deep(e, st, c.args[1])))
    return writer(e, STREAM, dict=writer(e, DICT, buf=sink), data=c.args[1])


@hook('<object::Stream as std::ops::Drop>::drop')
def stream_drop(e, st, c):
    v = rd(c, c.args[0])
    d = getf(e, st, v, STREAM, 'dict')
    while d[0] == 'agg' and len(d[2]) == 1:
        d = d[2][0]
    if d[0] == 'agg' and len(d[2]) > 1:
        sink = getf(e, st, d, DICT, 'buf')
    else:
        sink = ('fld', None, 'buf', d)
    e.emit(('close', sink, 'stream'))
    return UNIT


@hook('<object::Stream as std::ops::Deref>::deref', '<object::Stream as std::ops::DerefMut>::deref_mut')
def stream_deref(e, st, c):
    r, p = e.deref(st, c.args[0])
    return ('ref', r, p + (('f', fidx(e, STREAM).index('dict'), 'dict', None),))


@hook('content::Content::op')
def content_op(e, st, c):
    r, p = e.deref(st, c.args[0])
    names = fidx(e, 'content::Content')
    sink = ('ref', r, p + (('f', names.index('buf'), 'buf', None),))
    return writer(e, OP, buf=sink, op=c.args[1])


@hook('content::Operation::obj')
def op_obj(e, st, c):
    v = rd(c, c.args[0])
    return writer(e, OBJ, buf=getf(e, st, v, OP, 'buf'))


@hook('<content::Operation as std::ops::Drop>::drop')
def op_drop(e, st, c):
    v = rd(c, c.args[0])
    e.emit(('operator', getf(e, st, v, OP, 'buf'), deep(e, st, getf(e, st, v, OP, 'op'))))
    return UNIT


@hook('object::Writer::start')
def user_start(e, st, c):
    if c.callee['kind'] != 'unresolved':
        return NotImplemented
    sink = getf(e, st, c.args[0], OBJ, 'buf')
    e.emit(('start', sink))
    return ('uw', sink)


def raw(kind):
    def f(e, st, c):
        a = c.args[1]
        e.emit(('raw', c.args[0], kind, deep(e, st, a)))
        return UNIT
    return f


for _m in ('push', 'push_int', 'push_float', 'push_decimal', 'push_hex', 'push_hex_u16', 'push_octal', 'extend_buf'):
    H['buf::Buf::' + _m] = raw(_m)
H['<buf::Buf as std::iter::Extend<u8>>::extend'] = raw('extend')
H['<buf::Buf as std::iter::Extend<&u8>>::extend'] = raw('extend')


@hook('buf::Buf::push_val')
def push_val(e, st, c):
    t = e.p.types[c.callee['targs'][-1]]
    ty, v = strip_ty(e, t, c.args[1], st)
    e.emit(('raw', c.args[0], 'val ' + ty, deep(e, st, v)))
    return UNIT


class EA(Engine):
    def __init__(self, prog):
        Engine.__init__(self, prog, M, H)
        self._fidx = {}


def summaries(prog):
    out = {}
    for a in prog.api:
        k = a['key']
        if not k or k not in prog.fns:
            continue
        yield a, k


if __name__ == '__main__':
    import sys, time, collections
    from prog import Prog
    p = Prog(sys.argv[1])
    flt_ = sys.argv[2] if len(sys.argv) > 2 else None
    errs = collections.Counter()
    t0 = time.time()
    n = ok = 0
    for a, k in summaries(p):
        if flt_ and flt_ not in a['path']:
            continue
        if a.get('derived'):
            continue
        n += 1
        e = EA(p)
        e.max_steps = 20000
        t1 = time.time()
        try:
            root, nodes = e.analyse(k)
            ok += 1
            if flt_:
                print(a['path'])
                print('   ', root, nodes)
        except Exception as x:
            if flt_:
                import traceback
                traceback.print_exc()
            errs[(type(x).__name__ + str(x)[:110])] += 1
            print('ERR', a['path'], type(x).__name__, str(x)[:150])
        if time.time() - t1 > 2:
            print('SLOW', a['path'], time.time() - t1)
    print(n, ok, time.time() - t0)
    for x, c in errs.most_common():
        print(c, x)
