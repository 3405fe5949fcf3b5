"""Contract language: one text, evaluated symbolically (proof), on random inputs, or on a stored input (replay)."""
import itertools
import json
import random
from fractions import Fraction

import numpy as np

REGISTRY = {}


class Reject(BaseException):
    """Random input outside the precondition."""


class CheckFailed(BaseException):
    def __init__(self, name, detail=''):
        BaseException.__init__(self, name)
        self.name = name
        self.detail = detail


def contract(prop, funcs, level='proved', bound=None, name=None, concrete_only=False, samples=150, timeout=300,
             max_paths=4000, rank=0):
    """Register a contract. ``funcs``: functions of the package the contract is placed on."""
    def deco(f):
        n = name or f.__name__
        assert n not in REGISTRY, n
        REGISTRY[n] = dict(name=n, prop=prop, funcs=[funcs] if isinstance(funcs, str) else list(funcs), level=level,
                           bound=bound, fn=f, concrete_only=concrete_only, samples=samples, timeout=timeout,
                           max_paths=max_paths, doc=(f.__doc__ or '').strip())
        return f
    return deco


class Out(object):
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


def resolve(path):
    import importlib
    mod, _, attr = path.partition(':')
    o = importlib.import_module(mod)
    for a in attr.split('.'):
        o = getattr(o, a)
    return o


class Ctx(object):
    """Common part."""
    sym = False

    def fn(self, path):
        return resolve(path)

    def call(self, f, *a, **k):
        if isinstance(f, str):
            f = resolve(f)
        try:
            return Out(f(*a, **k))
        except Exception as e:
            return Out(None, e)

    def patch(self, path, value):
        mod, _, attr = path.partition(':')
        import importlib
        o = importlib.import_module(mod)
        parts = attr.split('.')
        for p in parts[:-1]:
            o = getattr(o, p, None)
            if o is None:
                return
        self._patches.append((o, parts[-1], o.__dict__.get(parts[-1], _NONE)))
        setattr(o, parts[-1], value)

    def eager(self, *names):
        """Symbolic runs: while loops of these functions go through the loop rule, and their generators collect what
        they yield."""

    def invariants(self, *names):
        """Symbolic runs: while loops of these functions are cut by inferred affine invariants (state before any patch)."""

    def unpatch(self):
        while self._patches:
            o, a, v = self._patches.pop()
            if v is _NONE:
                delattr(o, a)
            else:
                setattr(o, a, v)

    def ok(self, name, out):
        """The call returned normally."""
        self.check(name, out.exc is None, lambda: 'raised %r' % (out.exc,))
        if out.exc is not None:
            raise StopContract()


_NONE = object()


class StopContract(BaseException):
    pass


# ---------------------------------------------------------------------------------------------------- concrete mode
class Concrete(Ctx):
    def __init__(self, rng=None, data=None):
        self.rng = rng
        self.data = data
        self.inputs = {}
        self.checks = 0
        self._patches = []
        self.reached = set()

    # inputs
    def _val(self, name, gen, dec=None):
        if self.data is not None and name in self.data:
            v = self.data[name]
            if dec:
                v = dec(v)
        else:
            v = gen()
        self.inputs[name] = v
        return v

    def int(self, name, lo=None, hi=None, small=None):
        lo2 = -6 if lo is None else lo
        top = small if small is not None else 9

        def gen():
            h = max(lo2, top) if hi is None else min(hi, max(lo2, top))
            if self.rng.random() < 0.04:
                h = h * 3 + 5 if hi is None else hi
            return self.rng.randint(lo2, max(lo2, h))
        v = self._val(name, gen, int)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def real(self, name, lo=None, hi=None, grid=None):
        v = self._val(name, lambda: self._real(lo, hi, grid), _fl)
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            raise Reject()
        return v

    def _real(self, lo=None, hi=None, grid=None):
        a = -8 if lo is None else lo
        b = (a + 16) if hi is None else hi
        if grid:
            if self.rng.random() < .8:
                g = [x for x in grid if a <= x <= b]
                if g:
                    return float(self.rng.choice(g))
        st = 0.25 if b - a <= 64 else 5.0
        if self.rng.random() < .5:
            st *= 4
        n = int((b - a) / st)
        return float(a + st * self.rng.randint(0, max(n, 0)))

    def bool(self, name):
        return self._val(name, lambda: self.rng.random() < .5, bool)

    def choice(self, name, options):
        options = list(options)
        i = self._val('#' + name, lambda: self.rng.randrange(len(options)), int)
        return options[i]

    def arr(self, name, shape, kind='f', lo=None, hi=None, grid=None, p=None, dtype=None):
        shape = tuple(int(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
        for s in shape:
            if s < 0 or s > 4000:
                raise Reject()

        def one():
            if kind == 'b':
                return self.rng.random() < (0.4 if p is None else p)
            if kind == 'i':
                l = -3 if lo is None else lo
                return self.rng.randint(l, max(l, (l + 9) if hi is None else hi))
            return self._real(lo, hi, grid)

        def gen():
            allsame = kind == 'b' and self.rng.random() < .3
            v0 = self.rng.random() < .5
            n = int(np.prod(shape)) if shape else 1
            flat = [v0 if allsame else one() for _ in range(n)]
            return np.array(flat, dtype=dt).reshape(shape)
        dt = dtype or {'f': float, 'i': int, 'b': bool}[kind]

        def dec(v):
            a = np.array(_flv(v), dtype=dt)
            n = int(np.prod(shape)) if shape else 1
            if a.size < n:
                a = np.concatenate([a.reshape(-1), np.array([one() for _ in range(n - a.size)], dtype=dt)])
            return a.reshape(-1)[:n].reshape(shape)
        v = self._val(name, gen, dec)
        if lo is not None and v.size and (v < lo).any() or hi is not None and v.size and (v > hi).any():
            raise Reject()
        return v.copy()

    # logic
    def assume(self, cond):
        if not cond:
            raise Reject()

    def assume_forall(self, shape, f):
        for idx in _ranges(shape):
            if not f(*idx):
                raise Reject()

    def sorted_arr(self, name, n, strict=True, decreasing=None, grid=None, lo=None, hi=None):
        a = self.arr(name, n, grid=grid, lo=lo, hi=hi)
        if self.data is None or name not in self.data:
            a = np.sort(np.unique(a)) if strict else np.sort(a)
            k = 0
            while len(a) < n:
                k += 1
                a = np.append(a, (a[-1] if len(a) else 0.) + 0.25 * self.rng.randint(1, 12))
            if hi is not None and len(a) and a[-1] > hi:
                raise Reject()
            if decreasing:
                a = a[::-1].copy()
            self.inputs[name] = a
            a = a.copy()
        else:
            d = np.diff(a)
            d = -d if decreasing else d
            if len(d) and not ((d > 0).all() if strict else (d >= 0).all()):
                raise Reject()
        return a

    def check(self, name, cond, detail=None):
        self.checks += 1
        self.reached.add(name)
        if not bool(cond):
            raise CheckFailed(name, detail() if callable(detail) else (detail or ''))

    def forall(self, name, shape, f, detail=None):
        self.reached.add(name)
        for idx in _ranges(shape):
            self.checks += 1
            if not bool(f(*idx)):
                raise CheckFailed(name, 'at %s %s' % (idx, detail(*idx) if detail else ''))

    def induct(self, name, n, P, hyp=True, lo=0):
        if hyp:
            self.forall(name, ((lo, n),), P)

    def lemma(self, name, cond, given=None):
        self.check(name, cond)

    def flat(self, ks, sizes):
        """Row-major index of coordinates within sizes."""
        f = 0
        for k, n in zip(ks, sizes):
            assert 0 <= k < n
            f = f * n + k
        return f

    def And(self, *a):
        return all(bool(x) for x in a)

    def Or(self, *a):
        return any(bool(x) for x in a)

    def Not(self, a):
        return not bool(a)

    def Implies(self, a, b):
        if not bool(a):
            return True
        return bool(b() if callable(b) else b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def Ite(self, c, a, b):
        r = a if bool(c) else b
        return r() if callable(r) else r

    def If(self, c):
        return bool(c)

    def exists(self, shape, f):
        return any(bool(f(*i)) for i in _ranges(shape))

    def all_(self, shape, f):
        return all(bool(f(*i)) for i in _ranges(shape))

    def eq(self, a, b):
        if isinstance(a, np.ma.core.MaskedConstant) or isinstance(b, np.ma.core.MaskedConstant):
            return a is b
        if isinstance(a, (float, np.floating)) or isinstance(b, (float, np.floating)):
            return abs(a - b) <= 1e-9 * max(1., abs(a), abs(b))
        return a == b

    def min(self, *a):
        return min(a)

    def abs(self, a):
        return abs(a)

    def max(self, *a):
        return max(a)

    def floor(self, x):
        import math
        return math.floor(x)

    def ceil(self, x):
        import math
        return math.ceil(x)

    def ceildiv(self, a, b):
        return max(0, -(-a // b))

    def at(self, a, *idx):
        return np.asarray(a.data if isinstance(a, np.ma.MaskedArray) else a)[tuple(idx)]

    def len(self, x):
        return len(x)

    def item(self, x, k):
        return x[k]

    def maskat(self, a, *idx):
        if isinstance(a, np.ma.MaskedArray):
            return bool(np.ma.getmaskarray(a)[tuple(idx)])
        return False

    def snap(self, a):
        b = a.copy()
        return lambda *idx: self.at(b, *idx)

    def snapmask(self, a):
        b = a.copy()
        return lambda *idx: self.maskat(b, *idx)

    def shape(self, a):
        return tuple(a.shape)

    def same_shape(self, a, shape):
        s = self.shape(a)
        return len(s) == len(shape) and self.And(*[x == y for x, y in zip(s, shape)])

    def mk(self, shape, f, kind='f'):
        """Array from an element function."""
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        out = np.empty(shape, dtype={'f': float, 'i': int, 'b': bool, 'O': object}[kind])
        for i in itertools.product(*[range(s) for s in shape]):
            out[i] = f(*i)
        return out

    def mklist(self, n, f):
        return [f(k) for k in range(n)]

    def marr(self, data, mask):
        return np.ma.array(data, mask=mask)

    def is_int(self, x):
        return isinstance(x, (int, np.integer)) and not isinstance(x, bool)

    def sum(self, n, f):
        """Sum of f(k) for k < n."""
        return sum(f(k) for k in range(n))

    def count(self, n, f):
        """Number of k < n with f(k)."""
        return sum(1 for k in range(n) if f(k))

    def red(self, op, w):
        """numpy's masked statistic of a vector: (value, is masked)."""
        import numpy as np
        r = getattr(np.ma, op)(w)
        return (0, True) if r is np.ma.masked else (r, False)

    def log(self, a):
        import math
        return math.log(a)

    def div(self, a, b):
        """a / b, where b is known not to be zero."""
        return a / b

    def close(self, a, b):
        """Equal (up to rounding in concrete runs)."""
        return bool(abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(a)), abs(float(b))))

    def where(self, a):
        """(number of true elements of a vector, function giving the position of the k-th)"""
        w = [i for i, v in enumerate(a) if v]
        return len(w), lambda k: w[int(k)]

    def seq(self, x):
        return list(x)

    def ncols(self, x):
        return len(x)

    def uf(self, name, *args):
        raise NotImplementedError


def _ranges(shape):
    shape = shape if isinstance(shape, (tuple, list)) else (shape,)
    rs = []
    for s in shape:
        if isinstance(s, tuple):
            rs.append(range(int(s[0]), int(s[1])))
        else:
            rs.append(range(int(s)))
    return itertools.product(*rs)


def _fl(v):
    return float(Fraction(v)) if isinstance(v, str) else float(v)


def _flv(v):
    if isinstance(v, list):
        return [_flv(i) for i in v]
    return float(Fraction(v)) if isinstance(v, str) else v


def jsonable(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, (list, tuple)):
        return [jsonable(i) for i in v]
    return v


def aborts(e):
    """Whether an exception that ends a contract is a failure of the code for this input: not when the contract cannot be
    set up (a name it refers to is gone, a stand-in lacks what is asked of it, no memory, no file)."""
    import inspect
    if isinstance(e, (ImportError, MemoryError, OSError)):
        return False
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        if type(o).__module__.split('.')[0] in ('contracts', 'engine', 'types'):
            return False
        return not (inspect.ismodule(o) or inspect.isclass(o) or str(getattr(e, 'name', '')).startswith('_'))
    return not (isinstance(e, TypeError) and '<locals>' in str(e))


def run_concrete(spec, rng=None, data=None):
    """Returns (status, info). status: ok | reject | fail"""
    import random as _r
    c = Concrete(rng or _r.Random(0), data)
    try:
        try:
            spec['fn'](c)
        except StopContract:
            pass
        return 'ok', c
    except Reject:
        return 'reject', c
    except CheckFailed as e:
        c.failed = (e.name, str(e.detail))
        return 'fail', c
    except Exception as e:
        if not aborts(e):
            raise
        import traceback
        c.failed = ('runs to its end', traceback.format_exc()[-1500:])
        return 'fail', c
    finally:
        c.unpatch()
