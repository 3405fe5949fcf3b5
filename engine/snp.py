"""Shadow numpy: symbolic implementations of the numpy functions the package uses.

Everything that is not modelled falls through to the real numpy when all arguments are concrete, and raises
``Unsupported`` (the obligation cannot be generated) otherwise.
"""
import builtins
import itertools
import numbers
import types

import numpy as _np

from . import arr as A
from .arr import (SArr, SMa, as_sarr, band, bnot, bor, broadcast_shapes, cast_kind, concat, const_arr, dkind, DT,
                  elementwise, emap, from_fn, from_nested, iexp, ibin, iw, join_kind, kind_of, nonzero1, shape_prod,
                  simp_dim, zb_, ma_elementwise)
from .sym import (ENG, Infeasible, SBool, SInt, SReal, Sym, Unsupported, is_num, ite, num, toint, scal, ufunc, wrap, z3, zb)


def has_sym(x, depth=0):
    if isinstance(x, (Sym, SArr, SMa)):
        return True
    if depth < 4:
        if isinstance(x, (list, tuple)):
            return builtins.any(has_sym(i, depth + 1) for i in x)
        if isinstance(x, dict):
            return builtins.any(has_sym(i, depth + 1) for i in x.values())
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size < 100:
            return builtins.any(has_sym(i, depth + 1) for i in x.flat)
    return False


def concretise_arrays(x):
    """SArr with concrete contents -> ndarray (for real numpy calls)."""
    if isinstance(x, SArr):
        if not x.is_concrete_shape():
            raise Unsupported('real numpy on a symbolic array')
        r = x.__array__()
        if x.is_list:
            return r.tolist()
        return r
    if isinstance(x, SMa):
        return _np.ma.array(concretise_arrays(x.data),
                            mask=False if x._mask is None else concretise_arrays(x._mask))
    if isinstance(x, Sym):
        raise Unsupported('real numpy on a symbolic value')
    if isinstance(x, list):
        return [concretise_arrays(i) for i in x]
    if isinstance(x, tuple):
        return tuple(concretise_arrays(i) for i in x)
    if isinstance(x, dict):
        return {k: concretise_arrays(v) for k, v in x.items()}
    return x


def lift(x):
    """Real arrays become shadow arrays."""
    if not ENG.active:
        return x
    if isinstance(x, _np.ma.MaskedArray):
        m = _np.ma.getmask(x)
        return SMa(as_sarr(_np.asarray(x.data)), None if m is _np.ma.nomask else as_sarr(m))
    if isinstance(x, _np.ndarray) and x.dtype.kind in 'biufO':
        return as_sarr(x)
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(lift(i) for i in x)
    if type(x) is list:
        return [lift(i) for i in x]
    return x


def fallback(name, f):
    def g(*a, **k):
        if not ENG.active:
            return f(*a, **k)
        try:
            a2 = concretise_arrays(a)
            k2 = concretise_arrays(k)
        except Unsupported:
            raise Unsupported('numpy.%s on symbolic values' % name)
        return lift(f(*a2, **k2))
    g.__name__ = name
    return g


FN = {}
MA = {}


def reg(f):
    FN[f.__name__.rstrip('_')] = f
    return f


def regm(f):
    MA[f.__name__[3:]] = f
    return f


def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(simp_dim(i) for i in s)
    if isinstance(s, (SArr, _np.ndarray)) and s.ndim == 1:
        return tuple(simp_dim(i) for i in s)
    return (simp_dim(s),)


def _dt(d, default='f8'):
    if d is None:
        return _np.dtype(default)
    if d in (builtins.int, builtins.float, builtins.bool):
        return _np.dtype(d)
    return _np.dtype(d)


def _neg_shape(shape):
    for s in shape:
        if isinstance(s, builtins.int):
            if s < 0:
                raise ValueError('negative dimensions are not allowed')
        elif ENG.decide(zb(s < 0)):
            raise ValueError('negative dimensions are not allowed')


@reg
def zeros(shape, dtype=None, order='C'):
    s = _shape(shape)
    _neg_shape(s)
    return const_arr(0, s, _dt(dtype)) if dkind(_dt(dtype)) != 'O' else const_arr(0, s, _dt(dtype))


@reg
def ones(shape, dtype=None, order='C'):
    s = _shape(shape)
    _neg_shape(s)
    return const_arr(1, s, _dt(dtype))


@reg
def empty(shape, dtype=None, order='C'):
    s = _shape(shape)
    _neg_shape(s)
    if isinstance(dtype, (dict, list)):
        # structured: real numpy
        return _np.empty(tuple(builtins.int(i) for i in s), dtype=dtype)
    d = _dt(dtype)
    k = dkind(d)
    if k == 'O':
        return const_arr(None, s, d)
    sort = {'i': z3.IntSort(), 'f': z3.RealSort(), 'b': z3.BoolSort()}[k]
    n = len(s)
    f = ENG.fresh_func('empty', *([z3.IntSort()] * builtins.max(n, 1) + [sort]))
    return from_fn(lambda i: wrap(f(*[z3.IntVal(x) if isinstance(x, builtins.int) else x for x in (i or (0,))])), s, d)


@reg
def full(shape, fill_value, dtype=None):
    s = _shape(shape)
    return const_arr(fill_value, s, _dt(dtype) if dtype is not None else DT[kind_of(fill_value)])


def _like(a):
    return a.shape, a.dtype


@reg
def zeros_like(a, dtype=None):
    r = zeros(as_sarr(a).shape if not isinstance(a, SMa) else a.shape, dtype or a.dtype)
    return SMa(r, None if a._mask is None else a._mask.copy()) if isinstance(a, SMa) else r


@reg
def ones_like(a, dtype=None):
    r = ones(a.shape, dtype or a.dtype)
    return SMa(r, None if a._mask is None else a._mask.copy()) if isinstance(a, SMa) else r


@reg
def empty_like(a, dtype=None):
    return empty(a.shape, dtype or a.dtype)


@reg
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    if isinstance(x, SMa):
        x = x.data
    if isinstance(x, (range, map, filter, types.GeneratorType)):
        x = list(x)
    if x is None or isinstance(x, (str, bytes, dict)) or not (is_num(x) or isinstance(x, (list, tuple, SArr, _np.ndarray))):
        return lift(_np.array(x, dtype=dtype or object if not isinstance(x, (str, bytes)) else dtype))
    if isinstance(x, (list, tuple)) and x and isinstance(x[0], (str, bytes)):
        return _np.array(x, dtype=dtype)
    if isinstance(x, _np.ma.MaskedArray):
        x = _np.asarray(x.data)
    if isinstance(dtype, list) or (dtype is not None and _np.dtype(dtype).fields):
        return fallback('array', _np.array)(x, dtype=dtype)
    return from_nested(x, dtype=dtype, ndmin=ndmin)


@reg
def asarray(x, dtype=None):
    if isinstance(x, SArr) and not x.is_list and (dtype is None or _np.dtype(dtype) == x.dtype):
        return x
    if isinstance(x, SMa):
        return x.data
    return array(x, dtype=dtype)


@reg
def arange(start, stop=None, step=1, dtype=None):
    if stop is None:
        start, stop = 0, start
    if not builtins.any(isinstance(v, Sym) for v in (start, stop, step)):
        return lift(_np.arange(start, stop, step, dtype=dtype))
    if dtype is None:
        dtype = DT[join_kind(join_kind(kind_of(start), kind_of(stop)), kind_of(step))]
    k = kind_of(scal('add', scal('add', start, stop), step))
    if k == 'i':
        if scal('eq', step, 0) is not False and ENG.decide(zb(scal('eq', step, 0))):
            raise ZeroDivisionError('step')
        n = count_range(start, stop, step)
    else:
        q = scal('truediv', scal('sub', stop, start), step)
        e = -z3.ToInt(-num(q))
        n = wrap(z3.If(e > 0, e, 0))
    kk = dkind(_np.dtype(dtype))
    return from_fn(lambda i: cast_kind(scal('add', start, scal('mul', step, iw(i[0]))), kk), (n,), dtype)


def ceildiv(de, se):
    """max(0, ceil(de / se)) for positive se, defined without division; multiples of se are taken out first."""
    import hashlib
    m = 0
    if se.num_args() == 0:
        b0 = z3.simplify(z3.substitute(de, (se, z3.IntVal(0))))
        m1 = z3.simplify(z3.substitute(de, (se, z3.IntVal(1))) - b0)
        if z3.is_int_value(m1) and m1.as_long() > 0 and A.known(b0 >= 0) is True and \
                z3.is_true(z3.simplify(de == b0 + m1 * se)):
            m, de = m1.as_long(), b0
    h = hashlib.md5((z3.simplify(de).sexpr() + '|' + z3.simplify(se).sexpr()).encode()).hexdigest()[:10]
    q = z3.Int('cnt_' + h)
    ENG.assume(z3.If(de > 0, z3.And(q >= 1, (q - 1) * se < de, de <= q * se), q == 0))
    return q + m if m else q


def count_range(start, stop, step):
    d = scal('sub', stop, start)
    if isinstance(step, builtins.int) and step == 1:
        de = num(d)
        if A.known(de >= 0) is True:
            return d
        return wrap(z3.If(de >= 0, de, z3.IntVal(0)))
    se, de = num(step), num(d)
    pos = A.known(se > 0)
    if pos is None:
        pos = ENG.decide(se > 0)
    if not z3.is_int_value(se) and not ENG.loops and not ENG.binders:
        if not pos:
            de, se = -de, -se
        return wrap(ceildiv(de, se))
    if pos:
        return wrap(z3.If(de > 0, (de + se - 1) / se, z3.IntVal(0)))
    return wrap(z3.If(de < 0, (-de + (-se) - 1) / (-se), z3.IntVal(0)))


@reg
def linspace(start, stop, num_=50, endpoint=True, **kw):
    n = kw.pop('num', num_)
    n = simp_dim(n)
    if not endpoint:
        raise Unsupported('linspace endpoint')
    div = scal('sub', n, 1)
    step = scal('truediv', scal('sub', stop, start), div) if not (isinstance(div, builtins.int) and div == 0) else 0

    def fn(i):
        k = iw(i[0])
        v = scal('add', start, scal('mul', step, k))
        return ite(zb_(scal('eq', k, div)) if isinstance(n, Sym) or isinstance(k, Sym) else k == div and n > 1,
                   cast_kind(stop, 'f'), cast_kind(v, 'f'))
    return from_fn(fn, (n,), 'f8')


def _ma_wrap(f, *xs):
    """Apply elementwise f on data and combine masks."""
    masks = [x._mask for x in xs if isinstance(x, SMa)]
    d = f(*[x.data if isinstance(x, SMa) else x for x in xs])
    if not builtins.any(isinstance(x, SMa) for x in xs):
        return d
    m = None
    for k in masks:
        if k is not None:
            m = k if m is None else elementwise('or', m, k)
    if m is not None:
        m = from_fn(A.bcast_fn(m, d.shape), d.shape, builtins.bool)
    return SMa(d, m)


def _unary(name, f, dtype=None):
    def g(x, *a, **k):
        if k.get('out') is not None:
            raise Unsupported('out=')
        if is_num(x):
            return f(x)
        if isinstance(x, (list, tuple)):
            x = from_nested(x)
        def h(v):
            v = as_sarr(v)
            return emap(f, v, dtype=dtype or (v.dtype if v.kind != 'O' else object))
        return _ma_wrap(h, lift(x))
    g.__name__ = name
    FN[name] = g
    return g


def _flt(f):
    return lambda v: f(cast_kind(v, 'f'))


def _abs(v):
    return scal('abs', v)


def real_fn(name):
    """External mathematics: concrete values through numpy, symbolic ones through an uninterpreted function."""
    rf = getattr(_np, name)

    def f(v):
        if isinstance(v, Sym):
            return wrap(ufunc(name, num(cast_kind(v, 'f'))))
        return builtins.float(rf(builtins.float(v)))
    return f


def sqrt_(v):
    if not isinstance(v, Sym):
        return builtins.float(_np.sqrt(builtins.float(v)))
    e = num(cast_kind(v, 'f'))
    r = ufunc('sqrt', e)
    ENG.assume(z3.Implies(e >= 0, z3.And(r >= 0, r * r == e)))
    return wrap(r)


def sign_(v):
    e = num(v)
    one, zero = (z3.IntVal(1), z3.IntVal(0)) if e.sort() == z3.IntSort() else (z3.RealVal(1), z3.RealVal(0))
    return wrap(z3.If(e > 0, one, z3.If(e < 0, -one, zero)))


def floor_(v):
    if not isinstance(v, Sym):
        return builtins.float(_np.floor(builtins.float(v)))
    if isinstance(v, SInt):
        return v
    return wrap(z3.ToReal(toint(num(v))))


def ceil_(v):
    if not isinstance(v, Sym):
        return builtins.float(_np.ceil(builtins.float(v)))
    if isinstance(v, SInt):
        return v
    return wrap(z3.ToReal(-z3.ToInt(-num(v))))


_unary('abs', _abs)
_unary('absolute', _abs)
_unary('fabs', _abs)
_unary('sign', sign_)
_unary('square', lambda v: scal('mul', v, v))
_unary('floor', floor_, DT['f'])
_unary('ceil', ceil_, DT['f'])
_unary('logical_not', lambda v: scal('not', v) if not isinstance(v, (builtins.bool, _np.bool_)) else not v, DT['b'])
_unary('sqrt', sqrt_, DT['f'])
_unary('negative', lambda v: scal('neg', v))
for _n in ['cos', 'sin', 'tan', 'arctan', 'arcsin', 'arccos', 'exp', 'log', 'log10', 'deg2rad', 'rad2deg', 'radians',
           'degrees']:
    _unary(_n, real_fn(_n), DT['f'])
_unary('isnan', lambda v: False if isinstance(v, Sym) else builtins.bool(v != v), DT['b'])
_unary('isfinite', lambda v: True if isinstance(v, Sym) else builtins.bool(_np.isfinite(v)), DT['b'])


@reg
def invert(x, **k):
    if isinstance(x, (builtins.bool, _np.bool_)):
        return not x
    return ~lift(x)


FN['bitwise_not'] = invert


def _binary(name, op):
    def g(a, b, *rest, **k):
        if rest or k.get('out') is not None:
            raise Unsupported('out=')
        a, b = lift(a), lift(b)
        if is_num(a) and is_num(b):
            from .sym import scal_checked
            return scal(op, a, b)
        if isinstance(a, SMa) or isinstance(b, SMa):
            return ma_elementwise(op, a, b)
        return elementwise(op, a, b)
    g.__name__ = name
    FN[name] = g


for _n, _o in [('logical_and', 'and'), ('logical_or', 'or'), ('logical_xor', 'xor'), ('add', 'add'), ('subtract', 'sub'),
               ('multiply', 'mul'), ('divide', 'truediv'), ('true_divide', 'truediv'), ('power', 'pow'), ('mod', 'mod'),
               ('equal', 'eq'), ('not_equal', 'ne'), ('less', 'lt'), ('less_equal', 'le'), ('greater', 'gt'),
               ('greater_equal', 'ge'), ('maximum', 'max'), ('minimum', 'min'), ('bitwise_and', 'and'),
               ('bitwise_or', 'or'), ('floor_divide', 'floordiv')]:
    _binary(_n, _o)


def _red(name):
    def g(x, axis=None, **k):
        k.pop('keepdims', None)
        if is_num(x):
            return x if name not in ('any', 'all') else wrap(zb(x)) if isinstance(x, Sym) else builtins.bool(x)
        if isinstance(x, (list, tuple)):
            x = array(x)
        x = lift(x)
        if isinstance(x, _np.ndarray):
            return getattr(x, name)(axis=axis)
        return getattr(x, name)(axis=axis)
    g.__name__ = name
    FN[name] = g


for _n in ['any', 'all', 'min', 'max', 'sum', 'mean', 'std', 'var']:
    _red(_n)


@reg
def median(x, axis=None):
    x = lift(x)
    # numpy's own median ignores masks
    return SMa(x.data if isinstance(x, SMa) else as_sarr(x), None).median(axis=axis)


FN['amin'] = FN['min']
FN['amax'] = FN['max']


@reg
def argmin(x, axis=None):
    return A.arg_minmax(as_sarr(x), 'min')


@reg
def argmax(x, axis=None):
    return A.arg_minmax(as_sarr(x), 'max')


@reg
def cumsum(x, axis=None):
    return as_sarr(x).cumsum(axis)


@reg
def product(x, axis=None):
    if isinstance(x, (list, tuple)):
        return shape_prod(x)
    x = as_sarr(x)
    if x.ndim == 1 and isinstance(x.shape[0], builtins.int):
        return shape_prod([x.get((i,)) for i in range(x.shape[0])])
    raise Unsupported('prod')


FN['prod'] = product


@reg
def where(cond, *ab):
    cond = lift(cond)
    if isinstance(cond, SMa):
        cond = cond.data
    if ab:
        return _ma_wrap(lambda c, a, b: emap(lambda x, y, z: ite(zb_(x), y, z), c, a, b,
                                             dtype=DT[join_kind(_k(a), _k(b))]), cond, lift(ab[0]), lift(ab[1]))
    if cond.ndim == 1:
        if cond.kind != 'b':
            cond = cond.astype(builtins.bool)
        return (nonzero1(cond),)
    if cond.ndim == 0:
        raise Unsupported('where 0-d')
    return nonzero_nd(cond)


FN['nonzero'] = lambda x: where(x)


def nonzero_nd(mask):
    """Index arrays of the true positions (axiomatised, order not specified)."""
    if mask.is_concrete_shape() and shape_prod(mask.shape) <= 12:
        out = []
        for idx, v in mask.elements():
            if ENG.decide(zb_(v)):
                out.append(idx)
        return tuple(from_nested([o[d] for o in out], dtype='i8') if out else const_arr(0, (0,), 'i8')
                     for d in range(mask.ndim))
    n = mask.ndim
    L = ENG.fresh_int('nz_len')
    f = mask.snap()
    Ws = [ENG.fresh_func('nz', z3.IntSort(), z3.IntSort()) for _ in range(n)]
    P = ENG.fresh_func('nzpos', *([z3.IntSort()] * (n + 1)))
    j = z3.Int(ENG.fresh_name('q'))
    ks = [z3.Int(ENG.fresh_name('q')) for _ in range(n)]
    pt = tuple(W(j) for W in Ws)
    ENG.assume(L >= 0)
    ENG.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L),
                                         A.as_e(band(A.in_range(pt, mask.shape), zb_(f(pt)), P(*pt) == j))),
                         patterns=[Ws[0](j)]))
    ENG.assume(z3.ForAll(ks, z3.Implies(A.as_e(band(A.in_range(ks, mask.shape), zb_(f(tuple(ks))))),
                                        z3.And(P(*ks) >= 0, P(*ks) < L, *[W(P(*ks)) == k for W, k in zip(Ws, ks)]))))
    return tuple(from_fn((lambda W: lambda i: wrap(W(i[0] if isinstance(i[0], z3.ExprRef) else z3.IntVal(i[0]))))(W),
                         (iw(L),), 'i8') for W in Ws)


def _k(x):
    if isinstance(x, (SArr, SMa, _np.ndarray)):
        return dkind(x.dtype)
    return kind_of(x)


@reg
def diff(x, n=1, axis=-1):
    if isinstance(x, SMa):
        d = diff(x.data, n, axis)
        if x._mask is None:
            return SMa(d, None)
        a = range(x.ndim)[axis]
        hi = [slice(None)] * x.ndim
        lo = [slice(None)] * x.ndim
        hi[a], lo[a] = slice(1, None), slice(None, -1)
        return SMa(d, elementwise('or', x._mask[tuple(hi)], x._mask[tuple(lo)]))
    if n != 1:
        raise Unsupported('diff n')
    x = as_sarr(x)
    a = range(x.ndim)[axis]
    f = x.snap()
    L = x.shape[a]
    if isinstance(L, builtins.int):
        m = builtins.max(L - 1, 0)
    else:
        m = wrap(z3.If(num(L) >= 1, num(L) - 1, z3.IntVal(0))) if A.known(num(L) >= 1) is not True else L - 1
    shape = list(x.shape)
    shape[a] = m

    def fn(i):
        up = list(i)
        up[a] = ibin('add', i[a], 1)
        if x.kind == 'b':
            return scal('xor', f(tuple(up)), f(tuple(i)))
        return scal('sub', f(tuple(up)), f(tuple(i)))
    r = from_fn(fn, shape, x.dtype)
    if x.ndim == 1:
        r.buf.tag = ('diff', f, iexp(L))
    return r


@reg
def append(a, v, axis=None):
    a = as_sarr(a)
    v = as_sarr(v) if not is_num(v) else from_nested([v])
    if axis is None:
        a, v = a.reshape(-1), v.reshape(-1)
        axis = 0
    return concat([a, v], axis)


@reg
def concatenate(seq, axis=0):
    seq = [lift(s) for s in seq]
    if builtins.any(isinstance(s, SMa) for s in seq):
        return concat([s.data if isinstance(s, SMa) else s for s in seq], axis)
    return concat([as_sarr(s) for s in seq], axis)


@reg
def hstack(seq):
    seq = [FN['atleast_1d'](s) for s in list(seq)]
    return concat(seq, 0 if seq[0].ndim == 1 else 1)


@reg
def vstack(seq):
    return concat([FN['atleast_2d'](s) for s in list(seq)], 0)


@reg
def stack(seq, axis=0):
    seq = [as_sarr(s) for s in list(seq)]
    return concat([s.reshape(*(s.shape[:axis] + (1,) + s.shape[axis:])) for s in seq], axis)


def _al(nd, x):
    if isinstance(x, (list, tuple)) or is_num(x):
        x = array(x)
    x = lift(x)
    if isinstance(x, SArr):
        x = _plain(x)
    if x.ndim >= nd:
        return x
    if nd == 1:
        return x.reshape(1)
    if nd == 2:
        return x.reshape(1, 1) if x.ndim == 0 else x.reshape(1, x.shape[0])
    if nd == 3:
        if x.ndim == 0:
            return x.reshape(1, 1, 1)
        if x.ndim == 1:
            return x.reshape(1, x.shape[0], 1)
        return x.reshape(x.shape[0], x.shape[1], 1)


def _plain(x):
    if x.is_list:
        x = x.copy()
        x.is_list = False
        if x.kind == 'O':
            x = A.infer_kind(x)
    return x


FN['atleast_1d'] = lambda x: _al(1, x)
FN['atleast_2d'] = lambda x: _al(2, x)
FN['atleast_3d'] = lambda x: _al(3, x)


@reg
def squeeze(x, axis=None):
    return lift(x).squeeze(axis)


@reg
def swapaxes(x, a, b):
    return lift(x).swapaxes(a, b)


@reg
def transpose(x, axes=None):
    x = lift(x)
    return x.transpose(*axes) if axes is not None else x.transpose()


@reg
def reshape(x, shape):
    return lift(x).reshape(shape)


@reg
def ravel(x):
    return lift(x).ravel()


@reg
def flipud(x):
    return lift(x)[::-1]


@reg
def expand_dims(x, axis):
    x = lift(x)
    ax = range(x.ndim + 1)[axis]
    return x.reshape(*(tuple(x.shape[:ax]) + (1,) + tuple(x.shape[ax:])))


@reg
def broadcast_to(x, shape):
    x = as_sarr(x)
    s = _shape(shape)
    return from_fn(A.bcast_fn(x, s), s, x.dtype)


@reg
def meshgrid(*xs, **k):
    if k:
        raise Unsupported('meshgrid options')
    x, y = [lift(i) for i in xs]
    mx = isinstance(x, SMa)
    dx, dy = (x.data if isinstance(x, SMa) else x), (y.data if isinstance(y, SMa) else y)
    fx, fy = dx.snap(), dy.snap()
    sh = (dy.shape[0], dx.shape[0])
    return [from_fn(lambda i: fx((i[1],)), sh, dx.dtype), from_fn(lambda i: fy((i[0],)), sh, dy.dtype)]


@reg
def place(a, mask, vals):
    mask = as_sarr(mask)
    vals = as_sarr(vals)
    if vals.shape == (1,):
        v = vals.get((0,))
        a[mask.astype(builtins.bool) if mask.kind != 'b' else mask] = v
        return
    if vals.mask_src is not None:
        a[mask] = vals
        return
    raise Unsupported('place')


@reg
def array_split(x, n, axis=0):
    x = as_sarr(x)
    L = x.shape[0]
    if isinstance(n, (list, tuple, SArr, _np.ndarray)):
        # documented: consecutive slices between the given positions
        if axis != 0 or isinstance(n, SArr) and not isinstance(n.shape[0], builtins.int):
            raise Unsupported('array_split indices')
        b = [0] + list(n) + [L]
        return [x[b[i]:b[i + 1]] for i in range(len(b) - 1)]
    if isinstance(n, Sym):
        # documented semantics: the first L % n sections have L // n + 1 elements, the rest L // n
        if ENG.decide(zb(n <= 0)):
            raise ValueError('number sections must be larger than 0.')
        q, r = L // n, L % n

        def fn(i):
            i = iw(i[0])
            a = i * q + scal('min', i, r)
            b = (i + 1) * q + scal('min', i + 1, r)
            return x[a:b]
        out = from_fn(fn, (n,), object)
        out.is_list = True
        return out
    n = builtins.int(n)
    if n <= 0:
        raise ValueError('number sections must be larger than 0.')
    if isinstance(L, builtins.int):
        q, r = divmod(L, n)
        b = [i * q + builtins.min(i, r) for i in range(n + 1)]
    else:
        q, r = L // n, L % n
        b = [scal('add', scal('mul', i, q), scal('min', i, r)) for i in range(n + 1)]
    return [x[b[i]:b[i + 1]] for i in range(n)]


FN['split'] = lambda x, n, axis=0: array_split(x, n, axis)


@reg
def unique(x, return_inverse=False, return_index=False, **k):
    x = as_sarr(x)
    if k or return_index:
        raise Unsupported('unique options')
    if x.ndim != 1:
        x = x.reshape(-1)
    if not isinstance(x.shape[0], builtins.int):
        return unique_symbolic(x, return_inverse)
    vals = [x.get((i,)) for i in range(x.shape[0])]
    if not builtins.any(isinstance(v, Sym) for v in vals):
        return lift(_np.unique(_np.array(vals), return_inverse=return_inverse))
    srt, _ = sort_list(vals)
    out = []
    for v in srt:
        if not out or builtins.bool(out[-1] != v):
            out.append(v)
    r = from_nested(out, dtype=x.dtype)
    if return_inverse:
        def ix(v):
            e = z3.IntVal(0)
            for k_, o in enumerate(out):
                e = z3.If(zb(scal('eq', v, o)), z3.IntVal(k_), e)
            return wrap(z3.simplify(e))
        return r, from_nested([ix(v) for v in vals], dtype='i8')
    return r


def unique_symbolic(x, return_inverse):
    """Axiomatised numpy.unique of a 1-d array of symbolic length."""
    if x.kind not in 'if':
        raise Unsupported('unique of objects')
    n = iexp(x.shape[0])
    f = x.snap()
    sort = z3.IntSort() if x.kind == 'i' else z3.RealSort()
    L = ENG.fresh_int('uq_len')
    U = ENG.fresh_func('uq', z3.IntSort(), sort)
    INV = ENG.fresh_func('uqinv', z3.IntSort(), z3.IntSort())
    W = ENG.fresh_func('uqsrc', z3.IntSort(), z3.IntSort())
    i, j = z3.Int(ENG.fresh_name('q')), z3.Int(ENG.fresh_name('q'))
    ne = z3.IntVal(n) if isinstance(n, builtins.int) else n
    ENG.assume(z3.And(L >= 0, L <= ne, z3.Implies(ne > 0, L > 0)))
    ENG.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < L), U(i) < U(j)),
                         patterns=[z3.MultiPattern(U(i), U(j))]))
    fi = num(f((i,)))
    pats = [INV(i)]
    if z3.is_app(fi) and fi.decl().kind() == z3.Z3_OP_UNINTERPRETED and fi.num_args():
        pats.append(fi)
    ENG.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < ne), z3.And(INV(i) >= 0, INV(i) < L, U(INV(i)) == fi)),
                         patterns=pats))
    ENG.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < L),
                                         z3.And(W(j) >= 0, W(j) < ne, num(f((W(j),))) == U(j), INV(W(j)) == j)),
                         patterns=[U(j)]))
    ze = lambda v: z3.IntVal(v) if isinstance(v, builtins.int) else v
    r = from_fn(lambda k: wrap(U(ze(k[0]))), (iw(L),), x.dtype)
    if return_inverse:
        return r, from_fn(lambda k: wrap(INV(ze(k[0]))), (x.shape[0],), 'i8')
    return r


def sort_list(vals):
    """Insertion sort by forking; returns (sorted values, permutation)."""
    out = []
    for p, v in enumerate(vals):
        k = len(out)
        while k > 0 and builtins.bool(v < out[k - 1][0]):
            k -= 1
        out.insert(k, (v, p))
    return [o[0] for o in out], [o[1] for o in out]


@reg
def sort(x, **k):
    x = as_sarr(x)
    if x.ndim != 1 or not isinstance(x.shape[0], builtins.int):
        raise Unsupported('sort')
    return from_nested(sort_list([x.get((i,)) for i in range(x.shape[0])])[0], dtype=x.dtype)


@reg
def argsort(x, **k):
    x = as_sarr(x)
    if x.ndim != 1 or not isinstance(x.shape[0], builtins.int):
        raise Unsupported('argsort')
    return from_nested(sort_list([x.get((i,)) for i in range(x.shape[0])])[1], dtype='i8')


@reg
def isclose(a, b, rtol=1e-5, atol=1e-8):
    def f(x, y):
        return scal('le', scal('abs', scal('sub', x, y)), scal('add', atol, scal('mul', rtol, scal('abs', y))))
    if is_num(a) and is_num(b):
        return f(a, b)
    return emap(f, lift(a), lift(b), dtype=DT['b'])


@reg
def isscalar(x):
    return True if isinstance(x, Sym) else _np.isscalar(x)


@reg
def asscalar(x):
    return x.item() if isinstance(x, (SArr, _np.ndarray, Sym, _np.generic)) else x


@reg
def apply_along_axis(func, axis, a, *args, **kw):
    """1-d slices along ``axis``; the function is run on each slice (lazily, without forking on the position)."""
    a = lift(a)
    ax = range(a.ndim)[axis]
    ma = isinstance(a, SMa)
    others = [s for i, s in enumerate(a.shape) if i != ax]
    if not builtins.all(isinstance(s, builtins.int) for s in others):
        raise Unsupported('apply_along_axis over symbolic positions')
    res = {}
    sample = None
    for pos in itertools.product(*[range(s) for s in others]):
        key = list(pos)
        key.insert(ax, slice(None))
        res[pos] = func(a[tuple(key)], *args, **kw)
        sample = res[pos]
    if is_num(sample):
        return from_fn(A._table(res), others, DT[kind_of(sample)])
    raise Unsupported('apply_along_axis with array results')


@reg
def convolve(a, v, mode='full'):
    a, v = as_sarr(a), as_sarr(v)
    k, n = v.shape[0], a.shape[0]
    if isinstance(n, Sym) or isinstance(k, Sym):
        if not ENG.decide(A.as_e(zb(scal('ge', n, k)))):
            a, v, k, n = v, a, n, k
    elif n < k:
        a, v, k, n = v, a, n, k
    f, g = a.snap(), v.snap()
    ne = iexp(n)

    def term(m, j):
        i = ibin('sub', m, j)
        ok = band(ibin('le', 0, i), ibin('lt', i, ne))
        if ok is False:
            return 0
        t = scal('mul', f((i,)), g((j,)))
        return t if ok is True else ite(ok, t, 0)

    def full(m):
        if isinstance(k, Sym) or k > 16:
            return A.sum_node(lambda j: term(m, j[0]), iexp(k))
        r = 0
        for j in range(k):
            r = scal('add', r, term(m, j))
        return r
    if mode == 'full':
        return from_fn(lambda i: full(i[0]), (n + k - 1,), DT[join_kind(a.kind, v.kind)])
    if mode == 'same':
        o = (k - 1) // 2
        return from_fn(lambda i: full(ibin('add', i[0], iexp(o))), (n,), DT[join_kind(a.kind, v.kind)])
    if mode == 'valid':
        return from_fn(lambda i: full(ibin('add', i[0], iexp(k - 1))), (n - k + 1,), DT[join_kind(a.kind, v.kind)])
    raise ValueError(mode)


# ------------------------------------------------------------------------------------------------ masked module
@regm
def ma_array(data, dtype=None, copy=False, order=None, mask=_np.ma.nomask, fill_value=None, **k):
    if mask is None:
        # numpy makes an array of None, which is false everywhere
        mask = False
    own = None
    if isinstance(data, SMa):
        own = data._mask
        if fill_value is None:
            fill_value = data.fill_value
        d = data.data
    elif isinstance(data, _np.ma.MaskedArray):
        l = lift(data)
        d, own = l.data, l._mask
    elif isinstance(data, (list, tuple)) and builtins.any(i is _np.ma.masked for i in data):
        own = from_nested([i is _np.ma.masked for i in data])
        d = from_nested([0 if i is _np.ma.masked else i for i in data])
    else:
        d = data
    if not isinstance(d, SArr) or d.is_list:
        d = array(d)
    elif copy:
        d = d.copy()
    if not isinstance(d, SArr):
        raise Unsupported('masked array of non-numeric data')
    if dtype is not None and _np.dtype(dtype) != d.dtype:
        d = d.astype(dtype)
    if mask is _np.ma.nomask:
        m = own if own is None or not copy else own.copy()
    elif isinstance(mask, (builtins.bool, _np.bool_, SBool)):
        m = const_arr(mask, d.shape, builtins.bool)
        if own is not None:
            m = elementwise('or', m, own)
    else:
        mk = lift(mask) if not isinstance(mask, (list, tuple)) else from_nested(mask, dtype=builtins.bool)
        mk = as_sarr(mk)
        if mk.kind != 'b':
            mk = mk.astype(builtins.bool)
        if len(mk.shape) != len(d.shape) or not builtins.all(A.dims_equal(x, y) for x, y in zip(mk.shape, d.shape)):
            if not A.valid(A.num(A.iexp(A.shape_prod(mk.shape))) == A.num(A.iexp(A.shape_prod(d.shape)))):
                raise _np.ma.MaskError('Mask and data not compatible')
            mk = mk.reshape(*d.shape)
        # the mask is shared with the argument unless a copy is asked for
        m = (mk.copy() if copy else mk) if own is None else elementwise('or', mk, own)
    return SMa(d, m, fill_value)


MA['masked_array'] = ma_array


@regm
def ma_is_masked(x):
    if isinstance(x, SMa):
        return x._mask is not None and builtins.bool(x._mask.any())
    return _np.ma.is_masked(x)


def runs_of(f, n):
    """Maximal runs of true positions of f over range(n): none, one (known ends), or at least two (not enumerated)."""
    ne = num(iexp(n))
    k = z3.Int(ENG.fresh_name('q'))
    with ENG.binding([k]):
        fk = A.as_e(zb(f((k,))))
    at = lambda i: A.as_e(zb(f((i,))))
    opt = ENG.choose(3)
    if opt == 0:
        ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ne), z3.Not(fk))))
        r = []
    elif opt == 1:
        a, b = ENG.fresh_int('run_start'), ENG.fresh_int('run_stop')
        ENG.assume(z3.And(a >= 0, a < b, b <= ne))
        ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ne), fk == z3.And(k >= a, k < b))))
        ENG.assume(z3.And(at(a), at(b - 1)))
        ENG.assume(z3.Implies(a > 0, z3.Not(at(a - 1))))
        ENG.assume(z3.Implies(b < ne, z3.Not(at(b))))
        r = [slice(wrap(a), wrap(b))]
    else:
        i, j, l = (ENG.fresh_int('run_%s' % x) for x in 'xyz')
        ENG.assume(z3.And(i >= 0, i < j, j < l, l < ne))
        ENG.assume(z3.And(at(i), z3.Not(at(j)), at(l)))
        m = ENG.fresh_int('runs')
        ENG.assume(m >= 2)

        def no(idx):
            raise Unsupported('enumeration of the runs of an array')
        r = from_fn(no, (wrap(m),), object)
        r.is_list = True
    if ENG.check() == z3.unsat:
        raise Infeasible()
    return r


@regm
def ma_clump_masked(a):
    if a.ndim != 1:
        raise Unsupported('clump_masked in several dimensions')
    return runs_of(a.mask_arr().snap(), a.shape[0])


@regm
def ma_clump_unmasked(a):
    if a.ndim != 1:
        raise Unsupported('clump_unmasked in several dimensions')
    m = a.mask_arr().snap()
    return runs_of(lambda i: wrap(z3.Not(A.as_e(zb(m(i))))), a.shape[0])


@regm
def ma_isMaskedArray(x):
    return isinstance(x, (SMa, _np.ma.MaskedArray))


MA['isMA'] = ma_isMaskedArray


@regm
def ma_getmaskarray(x):
    return x.mask_arr().copy() if isinstance(x, SMa) else const_arr(False, as_sarr(x).shape, builtins.bool)


@regm
def ma_filled(x, fill_value=None):
    return x.filled(fill_value) if isinstance(x, SMa) else x


@regm
def ma_getmask(x):
    return x.mask if isinstance(x, SMa) else _np.ma.nomask


def _mared(name):
    def g(x, axis=None, **k):
        x = lift(x)
        return getattr(x if isinstance(x, SMa) else SMa(as_sarr(x), None), name)(axis=axis)
    MA[name] = g


for _n in ['sum', 'mean', 'min', 'max', 'any', 'all', 'std', 'var', 'median', 'count']:
    _mared(_n)


@regm
def ma_average(x, axis=None, weights=None):
    x = lift(x)
    if weights is None:
        return MA['mean'](x, axis=axis)
    w = lift(weights)
    xm = x if isinstance(x, SMa) else SMa(as_sarr(x), None)
    if axis is not None:
        raise Unsupported('weighted average along an axis')
    if isinstance(w, SMa):
        m = xm._mask if w._mask is None else (w._mask if xm._mask is None else elementwise('or', w._mask, xm._mask))
        w = SMa(w.data, m)
    else:
        w = SMa(w, xm._mask)
    s = ma_elementwise('mul', xm, w)
    num_, den = s.sum(), w.sum()
    if num_ is _np.ma.masked:
        return num_
    return scal('truediv', num_, den)


@regm
def ma_log(x):
    x = lift(x)
    d, m = A.ma_parts(x)
    bad = elementwise('le', d, 0)
    r = emap(real_fn('log') if True else None, d, dtype=DT['f'])
    return SMa(r, bad if m is None else elementwise('or', bad, m))


@regm
def ma_masked_invalid(x, copy=True):
    x = lift(x)
    return x.copy() if isinstance(x, SMa) else SMa(as_sarr(x).copy(), const_arr(False, x.shape, builtins.bool))


def _mafn(name):
    f = FN[name]

    def g(*a, **k):
        r = f(*a, **k)
        return r if isinstance(r, SMa) or is_num(r) else SMa(r, None)
    MA[name] = g


for _n in ['abs', 'logical_or', 'logical_and', 'sqrt', 'where', 'zeros', 'ones', 'empty']:
    _mafn(_n)


# ------------------------------------------------------------------------------------------------ module objects
class ShadowModule(types.ModuleType):
    def __init__(self, name, real, table, sub=None):
        super(ShadowModule, self).__init__(name)
        self.__dict__['_real'] = real
        self.__dict__['_table'] = table
        self.__dict__['_sub'] = sub or {}

    def __getattr__(self, k):
        if k in self._sub:
            return self._sub[k]
        r = getattr(self._real, k)
        if k in self._table:
            f = self._table[k]

            def g(*a, **kw):
                if not ENG.active:
                    return r(*a, **kw)
                return f(*a, **kw)
            g.__name__ = k
            self.__dict__[k] = g
            return g
        if isinstance(r, type) or not callable(r):
            return r
        g = fallback(k, r)
        self.__dict__[k] = g
        return g

    def __dir__(self):
        return dir(self._real)


shadow_ma = ShadowModule('numpy.ma', _np.ma, MA)
shadow_np = ShadowModule('numpy', _np, FN, {'ma': shadow_ma})
