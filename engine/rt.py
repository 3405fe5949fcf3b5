"""Run-time library the transformed source calls: builtins on symbolic values and the loop rule."""
import builtins
import itertools
import numbers
import types
from collections import OrderedDict

import numpy as _np

from . import arr as A
from . import snp
from .arr import SArr, SMa, Buf, band, bnot, bor, from_fn, iexp, ibin, iw, zb_, as_e
from .sym import (ENG, EngineStop, Infeasible, PathDone, Retry, SBool, SInt, SReal, Sym, Unsupported, cast_kind, concretise,
                  is_num, ite, num, same, scal, sub_value, wrap, z3, zb)

_INT = (numbers.Integral,)


# ------------------------------------------------------------------------------------------------------- builtins
def isinstance_(x, t):
    ts = t if builtins.isinstance(t, tuple) else (t,)
    flat = []
    for i in ts:
        if builtins.isinstance(i, tuple):
            flat.extend(i)
        else:
            flat.append(i)
    if not builtins.isinstance(x, (Sym, SArr, SMa, SIter)):
        return builtins.isinstance(x, t)
    for i in flat:
        if i is object:
            return True
        if builtins.isinstance(x, SBool):
            if i in (bool, int, _np.bool_) or i in (numbers.Integral, numbers.Number):
                return True
        elif builtins.isinstance(x, SInt):
            if i in (int, numbers.Integral, numbers.Number, _np.integer, _np.int64):
                return True
        elif builtins.isinstance(x, SReal):
            if i in (float, numbers.Number, numbers.Real, _np.floating, _np.float64):
                return True
        elif builtins.isinstance(x, SArr):
            if x.is_list:
                if i is list:
                    return True
            elif i is _np.ndarray:
                return True
        elif builtins.isinstance(x, SMa):
            if i in (_np.ndarray, _np.ma.MaskedArray):
                return True
        elif i is list and builtins.isinstance(x, SIter):
            return True
        if i in (SArr, SMa, Sym, SInt, SReal, SBool):
            if builtins.isinstance(x, i):
                return True
        try:
            if getattr(i, '__module__', '').startswith('collections') and builtins.isinstance(x, (SArr, SMa)) and \
                    i.__name__ in ('Iterable', 'Sized', 'Container'):
                return True
        except Exception:
            pass
    return False


def len_(x):
    if builtins.isinstance(x, SDict):
        return x.n
    if builtins.isinstance(x, SArr):
        return x.__len__()
    if builtins.isinstance(x, SMa):
        return x.shape[0]
    if builtins.isinstance(x, SIter):
        return x.size()
    if builtins.isinstance(x, SSet):
        return x.size()
    if builtins.isinstance(x, (Sym, slice)):
        raise TypeError('object has no len()')
    f = getattr(type(x), '__len__', None)
    if f is None or builtins.isinstance(x, (list, tuple, dict, str, bytes, set, _np.ndarray)):
        return builtins.len(x)
    return f(x)


def range_(*a):
    if not any(builtins.isinstance(i, (Sym, SArr)) for i in a):
        return builtins.range(*[i.item() if builtins.isinstance(i, _np.ndarray) else i for i in a])
    a = [i.item() if builtins.isinstance(i, SArr) else i for i in a]
    start, stop, step = 0, None, 1
    if len(a) == 1:
        stop = a[0]
    elif len(a) == 2:
        start, stop = a
    else:
        start, stop, step = a
    for v in (start, stop, step):
        if builtins.isinstance(v, SReal):
            raise TypeError("'float' object cannot be interpreted as an integer")
    n = snp.count_range(start, stop, step)
    n = A.simp_dim(n) if builtins.isinstance(n, Sym) else n
    r = from_fn(lambda i: scal('add', start, scal('mul', step, iw(i[0]))), (n,), 'i8')
    r.is_list = True
    if builtins.isinstance(n, int):
        return [r.get((i,)) for i in builtins.range(n)]
    return r


def indices(s, n):
    """slice.indices (language definition)."""
    if not builtins.isinstance(s, slice) or not any(builtins.isinstance(i, (Sym, SArr)) for i in (s.start, s.stop, s.step, n)):
        return s.indices(n)
    step = 1 if s.step is None else s.step
    if builtins.isinstance(step, Sym):
        raise Unsupported('symbolic slice step')
    for v in (s.start, s.stop):
        if builtins.isinstance(v, SReal):
            raise TypeError('slice indices must be integers or None or have an __index__ method')
    lo, up = (0, n) if step > 0 else (-1, scal('sub', n, 1))

    def clamp(v, d):
        if v is None:
            return d
        v = v.item() if builtins.isinstance(v, SArr) else v
        v = ite(zb(scal('lt', v, 0)), scal('add', v, n), v)
        return scal('min', scal('max', v, lo), up)
    return clamp(s.start, lo if step > 0 else up), clamp(s.stop, up if step > 0 else lo), step


class SIter(object):
    """Symbolic-length iterable with a (possibly multi-dimensional, row-major) index space."""
    def __init__(self, shape, get):
        self.shape = tuple(shape)
        self.get = get

    def size(self):
        return A.shape_prod(self.shape)

    def __iter__(self):
        if all(builtins.isinstance(s, int) for s in self.shape):
            for i in itertools.product(*[builtins.range(s) for s in self.shape]):
                yield self.get(i)
        else:
            raise Unsupported('iteration over a symbolic iterable')


def seq_get(x):
    if builtins.isinstance(x, SArr):
        if x.ndim == 1:
            return (x.shape[0],), lambda i: x.get(i)
        return (x.shape[0],), lambda i: x[iw(i[0])]
    if builtins.isinstance(x, SMa):
        def g(i):
            return x[iw(i[0])]
        return (x.shape[0],), g
    if builtins.isinstance(x, SIter):
        return x.shape, x.get
    x = list(x)
    o = A.obj_vector(x)
    return (len(x),), lambda i: o.get(i)


def is_symiter(x):
    if builtins.isinstance(x, (SArr, SMa)):
        return x.ndim > 0 and not builtins.isinstance(x.shape[0], int)
    return builtins.isinstance(x, SIter) and not all(builtins.isinstance(s, int) for s in x.shape)


def enumerate_(x, start=0):
    if not is_symiter(x):
        return builtins.enumerate(x, start)
    sh, g = seq_get(x)

    def get(i):
        off = i[0]
        for k, s in zip(i[1:], sh[1:]):
            off = ibin('add', ibin('mul', off, iexp(s)), k)
        return (scal('add', start, iw(off)), g(i))
    return SIter(sh, get)


def zip_(*xs):
    if not any(is_symiter(x) for x in xs):
        return builtins.zip(*xs)
    parts = [seq_get(x) for x in xs]
    n = None
    for sh, _ in parts:
        if len(sh) != 1:
            raise Unsupported('zip of products')
        if n is None:
            n = sh[0]
        elif not A.same(n, sh[0]):
            k = A.known(zb(scal('le', n, sh[0])))
            if k is True:
                pass
            elif A.known(zb(scal('ge', n, sh[0]))) is True:
                n = sh[0]
            else:
                n = wrap(z3.If(num(n) <= num(sh[0]), num(n), num(sh[0])))
    return SIter((n,), lambda i: tuple(g(i) for _, g in parts))


def product(*its, **kw):
    if kw or not any(is_symiter(x) for x in its):
        return itertools.product(*its, **kw)
    parts = [seq_get(x) for x in its]
    dims = [len(sh) for sh, _ in parts]
    shape = sum([list(sh) for sh, _ in parts], [])

    def get(i):
        out = []
        p = 0
        for d, (_, g) in builtins.zip(dims, parts):
            out.append(g(tuple(i[p:p + d])))
            p += d
        return tuple(out)
    return SIter(shape, get)


def list_(x=()):
    if builtins.isinstance(x, SArr):
        if builtins.isinstance(x.shape[0], int):
            return builtins.list(x)
        if x.ndim == 1:
            r = x.copy()
            r.is_list = True
            return r
        raise Unsupported('list of rows')
    if builtins.isinstance(x, SIter):
        if len(x.shape) == 1:
            r = from_fn(lambda i: x.get(i), x.shape, object)
            r.is_list = True
            return r
        raise Unsupported('list of a symbolic product')
    return builtins.list(x)


def tuple_(x=()):
    if is_symiter(x):
        return list_(x)
    return builtins.tuple(x)


class SSet(object):
    """A set of symbolic numbers: items (value, presence condition); equal members count once. No iteration order."""

    def __init__(self, items=()):
        self.items = []
        for i in (items.values() if builtins.isinstance(items, SSet) else items):
            self.add(i)
        if builtins.isinstance(items, SSet):
            self.items = builtins.list(items.items)

    def values(self):
        return [v for v, _ in self.items]

    def holds(self, v):
        return A.bor(*[A.band(p, zb(scal('eq', i, v))) for i, p in self.items]) if self.items else False

    def __contains__(self, v):
        return ENG.decide(self.holds(v))

    def add(self, v):
        if not A.is_num(v):
            raise Unsupported('set of symbolic and other values')
        self.items.append((v, True))

    def size(self):
        n = 0
        for k, (v, p) in enumerate(self.items):
            new = A.band(p, A.bnot(A.bor(*[A.band(q, zb(scal('eq', w, v))) for w, q in self.items[:k]]))
                         if k else True)
            n = scal('add', n, ite(new, 1, 0))
        return n

    def __len__(self):
        n = self.size()
        if builtins.isinstance(n, Sym):
            for k in range(builtins.len(self.items) + 1):
                if ENG.decide(zb(scal('eq', n, k))):
                    return k
        return n

    def __bool__(self):
        return ENG.decide(zb(scal('gt', self.size(), 0)))

    def __iter__(self):
        kept = []
        for v, p in self.items:
            if ENG.decide(p) and not any(builtins.bool(scal('eq', w, v)) for w in kept):
                kept.append(v)
        if builtins.len(kept) > 1:
            raise Unsupported('iteration over a set of symbolic values')
        return builtins.iter(kept)

    def _where(self, f):
        r = SSet()
        r.items = [(v, A.band(p, f(v))) for v, p in self.items]
        return r

    def intersection(self, o):
        o = o if builtins.isinstance(o, SSet) else SSet(o)
        return self._where(o.holds)

    __and__ = intersection

    def union(self, o):
        o = o if builtins.isinstance(o, SSet) else SSet(o)
        r = SSet()
        r.items = self.items + o.items
        return r

    __or__ = union

    def difference(self, o):
        o = o if builtins.isinstance(o, SSet) else SSet(o)
        return self._where(lambda v: A.bnot(o.holds(v)))

    __sub__ = difference

    def isdisjoint(self, o):
        return not self.intersection(o)

    def issubset(self, o):
        return not self.difference(o)

    def issuperset(self, o):
        return (o if builtins.isinstance(o, SSet) else SSet(o)).issubset(self)

    def __eq__(self, o):
        o = o if builtins.isinstance(o, SSet) else SSet(o)
        return self.issubset(o) and o.issubset(self)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def set_(x=()):
    if is_symiter(x):
        raise Unsupported('set of a symbolic sequence')
    if builtins.isinstance(x, SSet):
        return SSet(x)
    items = builtins.list(x)
    if any(builtins.isinstance(i, Sym) for i in items):
        return SSet(items)
    return builtins.set(items)


def int_(x=0, *a):
    if builtins.isinstance(x, SArr):
        x = x.item()
    if builtins.isinstance(x, Sym):
        return cast_kind(x, 'i')
    return builtins.int(x, *a)


def float_(x=0.0):
    if builtins.isinstance(x, SArr):
        x = x.item()
    if builtins.isinstance(x, Sym):
        return cast_kind(x, 'f')
    return builtins.float(x)


def bool_(x=False):
    if builtins.isinstance(x, (SArr, SMa)):
        return x.__bool__()
    return builtins.bool(x)


def abs_(x):
    return x.__abs__() if builtins.isinstance(x, (SArr,)) else (scal('abs', x) if builtins.isinstance(x, Sym) else builtins.abs(x))


def round_(x, *a):
    if builtins.isinstance(x, Sym):
        return x.__round__(*a)
    return builtins.round(x, *a)


def _mm(which):
    def f(*a, **k):
        if k:
            if 'key' in k and len(a) == 1:
                items = builtins.list(a[0])
                if not items and 'default' in k:
                    return k['default']
                best = items[0]
                for i in items[1:]:
                    c = (k['key'](i) > k['key'](best)) if which == 'max' else (k['key'](i) < k['key'](best))
                    if c:
                        best = i
                return best
            raise Unsupported('min/max options')
        items = a[0] if len(a) == 1 else a
        if builtins.isinstance(items, SArr):
            if items.ndim != 1:
                raise Unsupported('min of n-d array')
            return A.reduce_minmax(items, which)
        items = builtins.list(items)
        if not items:
            raise ValueError('%s() arg is an empty sequence' % which)
        r = items[0]
        for i in items[1:]:
            if is_num(r) and is_num(i) and (builtins.isinstance(r, Sym) or builtins.isinstance(i, Sym)):
                r = scal(which, r, i)
            else:
                c = (i > r) if which == 'max' else (i < r)
                if c:
                    r = i
        return r
    return f


min_ = _mm('min')
max_ = _mm('max')


def sum_(x, start=0):
    if builtins.isinstance(x, SArr):
        if x.ndim == 1:
            if not builtins.isinstance(x.shape[0], int):
                return scal('add', A.reduce_sum(x), start)
        r = start
        for i in x:
            r = r + i
        return r
    r = start
    for i in x:
        r = r + i
    return r


def any_(x):
    if builtins.isinstance(x, SArr) and x.ndim == 1:
        return A.reduce_bool(x, True)
    return _anyall(x, True)


def all_(x):
    if builtins.isinstance(x, SArr) and x.ndim == 1:
        return A.reduce_bool(x, False)
    return _anyall(x, False)


def _anyall(x, want):
    for i in x:
        if builtins.bool(i) == want:
            return want
    return not want


def sorted_(x, key=None, reverse=False):
    if is_symiter(x):
        raise Unsupported('sorted of a symbolic sequence')
    items = builtins.list(x)
    ks = [key(i) for i in items] if key else items
    if not any(snp.has_sym(k) for k in ks):
        return builtins.sorted(items, key=key, reverse=reverse)
    out = []
    for k, v in builtins.zip(ks, items):
        p = len(out)
        while p > 0 and (builtins.bool(k < out[p - 1][0]) if not reverse else builtins.bool(k > out[p - 1][0])):
            p -= 1
        out.insert(p, (k, v))
    return [o[1] for o in out]


def divmod_(a, b):
    if builtins.isinstance(a, Sym) or builtins.isinstance(b, Sym):
        return a // b, a % b
    return builtins.divmod(a, b)


def reversed_(x):
    if is_symiter(x):
        sh, g = seq_get(x)
        n = iexp(sh[0])
        return SIter(sh, lambda i: g((ibin('sub', ibin('sub', n, 1), i[0]),)))
    return builtins.reversed(x)


def map_(f, *xs):
    if any(is_symiter(x) for x in xs):
        return listcomp(lambda v: f(*v) if len(xs) > 1 else f(v), zip_(*xs) if len(xs) > 1 else xs[0])
    return builtins.map(f, *xs)


def filter_(f, x):
    if is_symiter(x):
        raise Unsupported('filter of a symbolic sequence')
    return builtins.filter(f, x)


def id_(x):
    return builtins.id(x)


BUILTINS = dict(len=len_, range=range_, isinstance=isinstance_, int=None, float=None, bool=None, list=None, tuple=None,
                min=min_, max=max_, sum=sum_, any=any_, all=all_, abs=abs_, enumerate=enumerate_, zip=zip_,
                sorted=sorted_, divmod=divmod_, round=round_, reversed=reversed_, map=map_, set=None)
CALLS = dict(BUILTINS)
CALLS.update(int=int_, float=float_, bool=bool_, list=list_, tuple=tuple_, set=set_, filter=filter_)


def append(obj, v):
    """obj.append(v)"""
    if type(obj) is list and ENG.active and ENG.loops:
        for lp in ENG.loops:
            if builtins.id(obj) in lp.known:
                if lp is not ENG.loops[-1]:
                    raise Unsupported('append to an outer list from a nested symbolic loop')
                lp.appends.append((builtins.id(obj), freeze_value(v)))
                return
    return obj.append(v)


def seqmul(a, b):
    """sequence * count"""
    for x, y in ((a, b), (b, a)):
        if type(x) in (builtins.list, tuple) and builtins.isinstance(y, SInt):
            if len(x) != 1:
                raise Unsupported('repetition of several elements')
            v = x[0]
            n = A.simp_dim(wrap(z3.If(y.e > 0, y.e, 0)) if A.known(y.e >= 0) is not True else y)
            if builtins.isinstance(n, int):
                return type(x)(x * n)
            r = from_fn(lambda i: v, (n,), object)
            r.is_list = True
            return r
    return a * b


def update(obj, other):
    """obj.update(other)"""
    if type(obj) in (dict, OrderedDict) and ENG.active and ENG.loops:
        for lp in ENG.loops:
            if builtins.id(obj) in lp.known:
                for k, v in dict(other).items():
                    dict_store(lp, obj, k, v)
                return
    return obj.update(other)


def update_items(obj, items):
    """obj.update({k: v, ...}) with a literal dictionary"""
    if type(obj) in (dict, OrderedDict) and ENG.active and ENG.loops:
        for lp in ENG.loops:
            if builtins.id(obj) in lp.known:
                for k, v in items:
                    dict_store(lp, obj, k, v)
                return
    return obj.update(dict(items))


def dict_store(lp, obj, k, v):
    if lp is not ENG.loops[-1]:
        raise Unsupported('store to an outer dictionary from a nested symbolic loop')
    lp.dstores.append((builtins.id(obj), k, freeze_value(v)))


class StoreProxy(object):
    def __init__(self, lp, obj):
        self.lp, self.obj = lp, obj

    def __setitem__(self, k, v):
        dict_store(self.lp, self.obj, k, v)


class SDict(object):
    """Dictionary with symbolically many entries, keys key0, key0 + 1, ... in insertion order."""
    def __init__(self, n, key0, val):
        self.n, self.key0, self.val = n, key0, val

    def __len__(self):
        return self.n

    def __getitem__(self, k):
        f = scal('sub', k, self.key0)
        if not ENG.decide(as_e(band(zb(scal('le', 0, f)), zb(scal('lt', f, self.n))))):
            raise KeyError(k)
        return self.val(iexp(f))

    def keys(self):
        return SIter((self.n,), lambda i: scal('add', self.key0, iw(i[0])))

    def __iter__(self):
        return builtins.iter(self.keys())

    def values(self):
        return SIter((self.n,), lambda i: self.val(i[0]))

    def items(self):
        return SIter((self.n,), lambda i: (scal('add', self.key0, iw(i[0])), self.val(i[0])))


def freeze_value(v):
    if type(v) is Poison:
        return v
    if builtins.isinstance(v, SArr):
        r = from_fn(v.snap(), v.shape, v.dtype)
        r.is_list = v.is_list
        r.buf.readonly = True
        return r
    if builtins.isinstance(v, SMa):
        return SMa(freeze_value(v.data), None if v._mask is None else freeze_value(v._mask), v.fill_value)
    if builtins.isinstance(v, builtins.list):
        return [freeze_value(i) for i in v]
    if builtins.isinstance(v, tuple) and type(v) is tuple:
        return tuple(freeze_value(i) for i in v)
    if builtins.isinstance(v, dict) and type(v) is dict:
        return {k: freeze_value(i) for k, i in v.items()}
    return v


def chk_store(obj):
    """Called before an attribute or item store on ``obj``."""
    if ENG.active and ENG.loops and not builtins.isinstance(obj, (SArr, SMa)):
        for lp in ENG.loops:
            if builtins.id(obj) in lp.known:
                if type(obj) in (dict, OrderedDict):
                    return StoreProxy(lp, obj)
                if type(obj) is list and lp is ENG.loops[-1]:
                    for k, o in lp.all_loc.items():
                        if o is obj:
                            return ScratchProxy(lp, k, obj)
                raise Unsupported('store to an outer object inside a symbolic loop')
    return obj


class ScratchProxy(object):
    """A local list of the enclosing function whose entries are overwritten in a symbolic loop: the entry must be written
    before it is read in every iteration (and after the loop), otherwise Unsupported."""
    def __init__(self, lp, name, obj):
        self.lp, self.name, self.obj = lp, name, obj

    def __setitem__(self, k, v):
        if not builtins.isinstance(k, int) or not -len(self.obj) <= k < len(self.obj):
            raise Unsupported('store to an outer list inside a symbolic loop')
        slot = (self.name, k % len(self.obj))
        sc = self.lp.store.setdefault('scratch', [])
        if slot not in sc:
            sc.append(slot)
            del self.lp.store['records'][:]
            del ENG.prefix[self.lp.at_pos:]
            raise Retry()
        self.obj[k] = v


# ------------------------------------------------------------------------------------------------------- loops
class NativeLoop(object):
    inj = {}
    fin = {}

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return builtins.iter(self.it)

    def end(self, loc):
        pass

    def brk(self, loc):
        pass

    def exc(self, e):
        pass

    def ret(self):
        pass


class Record(object):
    """One explored path through an arbitrary iteration."""


def reachable(roots, limit=20000):
    seen = {}
    stack = list(roots)
    while stack and len(seen) < limit:
        o = stack.pop()
        if o is None or type(o) is Poison or builtins.isinstance(o, (str, bytes, int, float, bool, type, types.ModuleType, types.FunctionType,
                                                 Sym, z3.AstRef, _np.ndarray, SArr)):
            continue
        if builtins.id(o) in seen:
            continue
        seen[builtins.id(o)] = o
        if builtins.isinstance(o, dict):
            stack.extend(o.values())
        elif builtins.isinstance(o, (builtins.list, tuple, set)):
            stack.extend(o)
        else:
            d = getattr(o, '__dict__', None)
            if builtins.isinstance(d, dict):
                stack.append(d)
    return seen


_MISSING = object()


def engine_error(e):
    """A Python error of the engine itself is not an exception of the program."""
    if builtins.isinstance(e, (AttributeError, NameError, RecursionError, z3.Z3Exception)):
        tb = e.__traceback__
        while tb is not None and tb.tb_next is not None:
            tb = tb.tb_next
        if tb is not None and '/engine/' in tb.tb_frame.f_code.co_filename:
            raise Unsupported('engine error: %r' % (e,)) from e


class NoSummary(Unsupported):
    """What a loop leaves in an array has no closed description."""


class SymLoop(object):
    def __init__(self, it, loc, names):
        self.shape, self.getter = seq_get(it)
        self.sizes = [iexp(s) for s in self.shape]
        self.names = names
        self.loc = {k: loc[k] for k in names if k in loc}
        self.all_loc = loc
        self.inj = {}
        self.fin = {}
        self.mode = None

    # fields used by the engine while probing
    def start_probe(self, outer_loc):
        self.seq = A._SEQ[0] + 1
        self.fresh = []
        self.fresh_funcs = []
        self.conds = []
        self.reads = []
        self.writes = []
        self.bound_ctx = []
        self.appends = []
        self.dstores = []
        self.known = reachable(builtins.list(outer_loc.values()))

    def __iter__(self):
        key = ('loop', ENG.prefix_key())
        self.key = key
        store = ENG.loop_store.setdefault(key, dict(records=[], done=False))
        self.store = store
        opt = ENG.choose_late(store)
        self.at_pos = ENG.pos
        for k, j in store.get('scratch', ()):
            self.all_loc[k][j] = Poison('%s[%d]' % (k, j))
        nonneg = band(*[ibin('le', 0, s) for s in self.sizes])
        if nonneg is not True:
            ENG.assume(as_e(nonneg))
        if opt == 0:
            self.mode = 'probe'
            self.i = [ENG.fresh_int('it') for _ in self.sizes]
            self.rng = A.in_range(self.i, self.shape)
            self.start_probe(self.all_loc)
            self.set_carried(probe=True)
            ENG.assume(as_e(self.rng))
            if ENG.check() == z3.unsat:
                raise Infeasible()
            self.conds = []
            self.reads = []
            self.fresh_mark = 0
            ENG.loops.append(self)
            v = self.getter(tuple(self.i))
            yield v
            raise Unsupported('loop hook lost')
        elif opt == 1:
            self.mode = 'iter'
            self.prepare()
            self.i = [ENG.fresh_int('it') for _ in self.sizes]
            ENG.assume(as_e(A.in_range(self.i, self.shape)))
            self.assume_earlier(self.i)
            self.apply_writes(self.i)
            self.inj = self.carried_at(self.i)
            self.apply_appends(self.i, self.inj)
            self.apply_dstores(self.i, self.inj)
            v = self.getter(tuple(self.i))
            yield v
            raise Infeasible()
        else:
            self.mode = 'exit'
            self.prepare()
            self.assume_earlier(None)
            self.apply_writes(None)
            self.fin = self.carried_at(None)
            self.apply_appends(None, self.fin)
            self.apply_dstores(None, self.fin)

    # -- hooks
    def _record(self, outcome, loc):
        r = Record()
        r.outcome = outcome
        r.i = self.i
        r.conds = builtins.list(self.conds)
        r.fresh = builtins.list(self.fresh)
        r.fresh_funcs = builtins.list(self.fresh_funcs)
        r.writes = builtins.list(self.writes)
        r.reads = [(q[0].seq, q[1], q[2] if len_(q) > 2 else []) for q in self.reads]
        r.appends = builtins.list(self.appends)
        r.dstores = builtins.list(self.dstores)
        r.end = {k: freeze_value(loc[k]) for k in self.names if k in loc} if loc is not None else {}
        r.carried = dict(self.carried)
        self.store['records'].append(r)
        ENG.loops.pop()
        raise PathDone()

    def _mine(self):
        if not ENG.loops or ENG.loops[-1] is not self:
            raise Unsupported('nested symbolic loops interleaved')

    def end(self, loc):
        if self.mode == 'probe':
            self._mine()
            self._record('cont', loc)
        if self.mode == 'iter':
            raise Infeasible()

    def brk(self, loc):
        if self.mode == 'probe':
            self._mine()
            self._record('early', None)

    def ret(self):
        if self.mode == 'probe':
            self._mine()
            self._record('early', None)

    def exc(self, e):
        engine_error(e)
        if self.mode == 'probe':
            if builtins.isinstance(e, EngineStop):
                if self in ENG.loops:
                    while ENG.loops and ENG.loops[-1] is not self:
                        ENG.loops.pop()
                    if ENG.loops:
                        ENG.loops.pop()
                return
            self._mine()
            self._record('early', None)

    # -- carried scalars
    def set_carried(self, probe):
        """Names (re)assigned in the body that exist before it hold an arbitrary earlier value."""
        self.carried = {}
        for k, v in self.loc.items():
            if builtins.isinstance(v, (SInt, int)) and not builtins.isinstance(v, bool):
                c = z3.Int(ENG.fresh_name('cv_' + k))
            elif builtins.isinstance(v, (SReal, float)):
                c = z3.Real(ENG.fresh_name('cv_' + k))
            elif builtins.isinstance(v, (SBool, bool)):
                c = z3.Bool(ENG.fresh_name('cv_' + k))
            elif v is None or builtins.isinstance(v, (str, slice, tuple)):
                # any other type: usable only when the body does not read the earlier value
                self.inj[k] = Poison(k)
                self.carried[k] = None
                continue
            else:
                # arrays, lists, objects: identity kept (mutation goes through write records)
                self.carried[k] = _MISSING
                continue
            self.carried[k] = c
            self.inj[k] = wrap(c)

    def prepare(self):
        recs = self.store['records']
        self.recs = recs
        self.cont = [r for r in recs if r.outcome == 'cont']
        self.note_outer_reads()
        # functions of the iteration for the values fixed inside one
        if 'funs' not in self.store:
            self.store['funs'] = {}

    def inst(self, r, at):
        """Substitution of record ``r`` for iteration ``at`` (list of z3 ints)."""
        isort = [z3.IntSort()] * len(self.sizes)
        at = [z3.IntVal(a) if builtins.isinstance(a, int) else a for a in at]
        pairs = builtins.list(builtins.zip(r.i, at))
        for k, f in self.closed_forms().items():
            c = r.carried.get(k, _MISSING)
            if c is not _MISSING and c is not None:
                v = f(at)
                v = zb(v) if z3.is_bool(c) else num(v)
                v = z3.BoolVal(v) if builtins.isinstance(v, bool) else v
                pairs.append((c, v if v.sort() == c.sort() else z3.ToReal(v)))
        for c in r.fresh:
            f = z3.Function('it_%s' % c, *(isort + [c.sort()]))
            pairs.append((c, f(*at)))
        fpairs = []
        for f in r.fresh_funcs:
            dom = [f.domain(j) for j in builtins.range(f.arity())]
            g = z3.Function('it_%s' % f.name(), *(isort + dom + [f.range()]))
            fpairs.append((f, g))

        def sub(e):
            if not builtins.isinstance(e, z3.ExprRef):
                return e
            if fpairs:
                # function substitution first: the new functions take the iteration as extra arguments
                e = z3.substitute_funs(e, *[(f, g(*(builtins.list(r.i) + [z3.Var(j, f.domain(j))
                                                                        for j in builtins.range(f.arity())])))
                                            for f, g in fpairs])
            return z3.substitute(e, *pairs)
        return sub

    def deps(self, e, consts):
        if not builtins.isinstance(e, z3.ExprRef):
            return False
        ids = set(c.get_id() for c in consts)
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if x.get_id() in ids:
                return True
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
            else:
                stack.extend(x.children())
        return False

    def carried_consts(self, r):
        return [c for c in r.carried.values() if c is not None and c is not _MISSING]

    def open_consts(self, r):
        """Carried values without a closed form."""
        closed = self.closed_forms()
        return [c for k, c in r.carried.items() if c is not None and c is not _MISSING and k not in closed]

    def earlier(self, a, b):
        """Lexicographic a < b."""
        e = False
        eq = True
        for x, y in builtins.zip(a, b):
            e = bor(e, band(eq, x < y))
            eq = band(eq, x == y)
        return e

    def assume_earlier(self, upto):
        """Every iteration before ``upto`` (or all) took a continuing path."""
        has_early = any(r.outcome != 'cont' for r in self.recs)
        if self.recs and not has_early and not any(r.fresh or r.fresh_funcs for r in self.cont):
            return
        if not self.recs:
            # body infeasible: there are no iterations
            ENG.assume(z3.Not(as_e(band(*[ibin('lt', 0, s) for s in self.sizes]))))
            return
        k = [z3.Int(ENG.fresh_name('ek')) for _ in self.sizes]
        dis = []
        for r in self.cont:
            if any(self.deps(c, self.open_consts(r)) for c in r.conds):
                raise Unsupported('branch of a symbolic loop depends on a carried variable')
            sub = self.inst(r, k)
            dis.append(z3.And(*[sub(c) for c in r.conds]) if r.conds else z3.BoolVal(True))
        body = z3.Or(*dis) if dis else z3.BoolVal(False)
        rng = as_e(A.in_range(k, self.shape))
        if upto is not None:
            rng = z3.And(rng, as_e(self.earlier(k, upto)))
        ENG.assume(z3.ForAll(k, z3.Implies(rng, body)))

    # -- writes
    def solve(self, r, comps):
        """Express the iteration through the written location: list of (which comp, offset) per loop index."""
        out = []
        if len(r.i) > 1 and len(comps) == 1 and comps[0][0] == 'eq' and builtins.isinstance(comps[0][1], z3.ExprRef):
            off = z3.simplify(comps[0][1] - self.flat(r.i))
            if not self.deps(off, builtins.list(r.i)):
                return [('flat', 0, off)]
        for d, i in enumerate(r.i):
            others = [x for j, x in builtins.enumerate(r.i) if j != d]
            found = None
            indep = True
            for p, c in builtins.enumerate(comps):
                exprs = [c[1]] if c[0] == 'eq' else [c[1], c[2]]
                if any(self.deps(e, [i]) for e in exprs):
                    indep = False
                if c[0] == 'eq' and builtins.isinstance(c[1], z3.ExprRef) and self.deps(c[1], [i]):
                    off = z3.simplify(c[1] - i)
                    if not self.deps(off, builtins.list(r.i)):
                        found = (p, off, 1)
                        break
                    off = z3.simplify(c[1] + i)
                    if not self.deps(off, builtins.list(r.i)):
                        found = (p, off, -1)
                        break
                    back = self.inverted(r, c[1], i)
                    if back is not None:
                        found = (p, back, 0)
                        break
            if found is None:
                if indep:
                    found = 'last'
                else:
                    return None
            out.append(found)
        return out

    def inverted(self, r, e, i):
        """The iteration as a function of e when e enumerates distinct values (a selection by a mask) over the iterations."""
        e = z3.simplify(e)
        for sg in (1, -1):
            off = z3.simplify(e - i if sg == 1 else e + i)
            if not self.deps(off, builtins.list(r.i)):
                return (lambda x: x - off) if sg == 1 else (lambda x: off - x)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            # an index counted from the end or not
            rng = as_e(A.in_range(r.i, self.shape))
            for cond, x in ((e.arg(0), e.arg(1)), (z3.Not(e.arg(0)), e.arg(2))):
                if ENG.entails(z3.Implies(rng, cond), 3000)[0] == 'proved':
                    return self.inverted(r, x, i)
            return None
        if z3.is_app(e) and e.num_args() == 1 and e.decl().name() in ENG.inverses:
            P, L = ENG.inverses[e.decl().name()]
            a = e.arg(0)
            inner = self.inverted(r, a, i)
            goal = z3.Implies(as_e(A.in_range(r.i, self.shape)), z3.And(a >= 0, a < L))
            if inner is not None and ENG.entails(goal, 3000)[0] == 'proved':
                return lambda x: inner(P(x))
        return None

    def constant(self, r, v):
        if v is None or builtins.isinstance(v, (bool, int, float, str)):
            return True
        if builtins.isinstance(v, (Sym, z3.ExprRef)):
            e = num_or(v)
            return not self.deps(e, builtins.list(r.i) + builtins.list(r.fresh) + self.carried_consts(r)) and not r.fresh_funcs
        return False

    def apply_writes(self, upto):
        writes = []
        for r in self.cont:
            for w in r.writes:
                writes.append((r, w))
        if not writes:
            return
        byb = {}
        for r, w in writes:
            byb.setdefault(w[0].seq, []).append((r, w))
        for r in self.recs:
            for seq, idx, cs in r.reads:
                if seq in byb:
                    self.check_independent(r, seq, idx, byb[seq], cs)
        for seq, ws in byb.items():
            b = ENG.bufs.get(seq)
            if b is None:
                raise Unsupported('written buffer not found')
            try:
                self.apply_to_buf(b, ws, upto)
            except NoSummary as e:
                if any(b.seq < lp.seq for lp in ENG.loops):
                    raise
                self.forget(b, str(e))

    def forget(self, b, why):
        """The content is unknown from here on; an element may be used again once it has been written."""
        def fn(idx):
            raise Unsupported(why)
        b.fn = fn
        b.tag = None

    def check_independent(self, r, seq, idx, ws, given=()):
        """A location read in an iteration is not written by an earlier one."""
        a = [z3.Int(ENG.fresh_name('ra')) for _ in self.sizes]
        w_ = [z3.Int(ENG.fresh_name('rw')) for _ in self.sizes]
        suba = self.inst(r, a)
        for r2, (buf, comps, X, ce, v) in ws:
            subw = self.inst(r2, w_)
            region = []
            for c, x in builtins.zip(comps, idx):
                x = suba(x) if builtins.isinstance(x, z3.ExprRef) else x
                if c[0] == 'eq':
                    region.append(ibin('eq', subw(c[1]), x))
                else:
                    region.append(ibin('le', subw(c[1]), x))
                    region.append(ibin('lt', x, subw(c[2])))
            conds = [as_e(suba(c) if builtins.isinstance(c, z3.ExprRef) else c) for c in given]
            conds += [suba(c) for c in r.conds if not self.deps(c, self.carried_consts(r))]
            conds += [subw(c) for c in r2.conds if not self.deps(c, self.carried_consts(r2))]
            s = z3.Solver()
            s.set('timeout', 2000)
            s.add(*ENG.pc)
            s.add(as_e(A.in_range(a, self.shape)), as_e(A.in_range(w_, self.shape)), as_e(self.earlier(w_, a)))
            s.add(as_e(band(*region)))
            s.add(*conds)
            if s.check() != z3.unsat:
                raise Unsupported('loop reads what an earlier iteration may have written')

    def decided(self, r, e):
        """``e`` with the case distinctions resolved that every iteration decides the same way."""
        while builtins.isinstance(e, z3.ExprRef):
            ites, todo = [], [e]
            while todo:
                x = todo.pop()
                if z3.is_app(x):
                    if x.decl().kind() == z3.Z3_OP_ITE:
                        ites.append(x)
                    todo.extend(x.children())
            new = e
            for x in ites:
                s = z3.Solver()
                s.set('timeout', 1500)
                s.add(*ENG.pc)
                s.add(as_e(A.in_range(r.i, self.shape)))
                c = x.arg(0)
                for goal, val in ((z3.Not(c), x.arg(1)), (c, x.arg(2))):
                    s.push()
                    s.add(goal)
                    res = s.check()
                    s.pop()
                    if res == z3.unsat:
                        new = z3.simplify(z3.substitute(new, (x, val)))
                        break
                if not new.eq(e):
                    break
            if new.eq(e):
                return e
            e = new
        return e

    def apply_to_buf(self, b, ws, upto):
        old = b.fn
        plans = []
        for r, (buf, comps, X, ce, v) in ws:
            if buf.kind != b.kind:
                raise Unsupported('loop buffer changed type')
            cc = self.carried_consts(r)
            if any(self.deps(e, cc) for c in comps for e in c[1:]) or vdeps(self, v, cc) or \
                    (builtins.isinstance(ce, z3.ExprRef) and self.deps(ce, cc)) or any(self.deps(c, cc) for c in r.conds):
                # replace carried constants by their closed form at the iteration
                closed = self.closed_forms()
                subs = []
                for k, c in r.carried.items():
                    if c is None or c is _MISSING:
                        continue
                    if vdeps(self, v, [c]) or any(self.deps(e, [c]) for q in comps for e in q[1:]) or \
                            (builtins.isinstance(ce, z3.ExprRef) and self.deps(ce, [c])) or \
                            any(self.deps(q, [c]) for q in r.conds):
                        if k not in closed:
                            raise Unsupported('loop carried variable %s has no closed form' % k)
                        subs.append((c, num(closed[k](r.i))))
                S = lambda e: z3.substitute(e, *subs) if builtins.isinstance(e, z3.ExprRef) else e
                comps = [tuple([q[0]] + [z3.simplify(S(e)) if builtins.isinstance(e, z3.ExprRef) else e for e in q[1:]])
                         for q in comps]
                ce = S(ce)
                v = sub_value(v, subs)
                conds = [S(c) for c in r.conds]
            else:
                conds = r.conds
            comps = [tuple([q[0]] + [self.decided(r, e) for e in q[1:]]) for q in comps]
            sol = self.solve(r, comps)
            if sol is None:
                raise NoSummary('location written by a symbolic loop is not solvable for the iteration %s' % str([c[1:] for c in comps])[:900])
            single = len(self.cont) == 1 and not r.fresh and not r.fresh_funcs
            const = self.constant(r, v)
            if any(s == 'last' for s in sol) and const and not (single and upto is None):
                # which iteration comes last does not matter for a constant
                if any(w[4] is not v and not (self.constant(r_, w[4]) and str(w[4]) == str(v)) for r_, w in ws):
                    raise NoSummary('conditional overwrite in a symbolic loop')
                sol = ['any' if s == 'last' else s for s in sol]
            elif any(s == 'last' for s in sol):
                if upto is not None:
                    if len(sol) > 1:
                        raise NoSummary('partial summary of an overwritten location')
                if not single:
                    raise NoSummary('conditional overwrite in a symbolic loop')
            plans.append((r, comps, X, ce, v, conds, sol, single))

        def core(idx):
            has, it, val = False, None, None
            xs = [z3.IntVal(x) if builtins.isinstance(x, int) else x for x in idx]
            for r, comps, X, ce, v, conds, sol, single in plans:
                at = []
                free = []
                flat = None
                if sol[0][0] == 'flat':
                    flat = z3.simplify(xs[0] - sol[0][2])
                    at = self.unflat(flat)
                for d, s in builtins.enumerate(sol if flat is None else ()):
                    if s == 'any':
                        free.append(z3.Int(ENG.fresh_name('an')))
                        at.append(free[-1])
                    elif s == 'last':
                        at.append(as_int((upto[d] if upto is not None else self.sizes[d])) - 1)
                    else:
                        p, off, sg = s
                        at.append(off(xs[p]) if sg == 0 else xs[p] - off if sg == 1 else off - xs[p])
                sub = self.inst(r, at)
                if flat is None or self.flat_hint(flat) is not None:
                    cond = [A.in_range(at, self.shape)]
                else:
                    tot = as_int(self.sizes[0])
                    for s in self.sizes[1:]:
                        tot = tot * as_int(s)
                    cond = [ibin('le', 0, flat), ibin('lt', flat, z3.simplify(tot))]
                if upto is not None and not any(s == 'last' for s in sol):
                    cond.append(self.earlier(at, upto))
                xp = builtins.list(builtins.zip(X, xs))
                full = lambda e: z3.substitute(sub(e), *xp) if builtins.isinstance(e, z3.ExprRef) else e
                for c, x in builtins.zip(comps if flat is None else (), xs):
                    if c[0] == 'eq':
                        e = sub(c[1])
                        cond.append(simp_eq(e, x))
                    else:
                        cond.append(ibin('le', sub(c[1]), x))
                        cond.append(ibin('lt', x, sub(c[2])))
                if ce is not True:
                    cond.append(full(ce) if builtins.isinstance(ce, z3.ExprRef) else ce)
                if not single:
                    cond.extend([full(c) for c in conds])
                cc = band(*[zb_(wrap(z3.simplify(c))) if builtins.isinstance(c, z3.ExprRef) else c for c in cond])
                if cc is False:
                    continue
                if free:
                    cc = z3.Exists(free, cc) if builtins.isinstance(cc, z3.ExprRef) else cc
                    has = bor(has, cc)
                    val = wrap(num_or(v)) if builtins.isinstance(v, (Sym, z3.ExprRef)) else v
                    it = [z3.IntVal(0) for _ in at]
                    continue
                vv = wrap(z3.simplify(full(num_or(v)))) if builtins.isinstance(v, (Sym, z3.ExprRef)) else sub_any(v, full)
                if has is False:
                    has, it, val = cc, at, vv
                else:
                    later = bor(bnot(has), bnot(as_e(self.earlier(at, it))))
                    take = band(cc, later)
                    val = ite(take, vv, val)
                    it = [z3.If(as_e(take), x, y) for x, y in builtins.zip(at, it)]
                    has = bor(has, cc)
            return has, (val if has is False else cast_kind(val, b.kind))

        def fn(idx):
            has, val = core(idx)
            if has is False:
                return old(idx)
            if has is True:
                return val
            return ite(has, val, old(idx))
        self.note_outer_write(b, plans, core)
        b.fn = fn
        b.tag = None

    def note_outer_write(self, b, plans, core):
        """The summary of this loop is one write of the enclosing symbolic iteration."""
        lp = None
        for cand in ENG.loops:
            if b.seq < cand.seq:
                lp = cand
        if lp is None:
            return
        hulls = []
        for r, comps, X, ce, v, conds, sol, single in plans:
            if sol[0][0] == 'flat':
                tot = as_int(self.sizes[0])
                for s in self.sizes[1:]:
                    tot = tot * as_int(s)
                hulls.append([('rng', z3.simplify(sol[0][2]), z3.simplify(sol[0][2] + tot))])
                continue
            h = []
            for p, c in builtins.enumerate(comps):
                if not any(self.deps(e, r.i) for e in c[1:]):
                    if any(self.deps(e, r.fresh) for e in c[1:]):
                        raise Unsupported('location written by a nested loop')
                    h.append(c)
                    continue
                d = [k for k, s in builtins.enumerate(sol) if s not in ('last', 'any') and s[0] == p]
                if c[0] != 'eq' or len(d) != 1:
                    raise Unsupported('region written by a nested loop')
                _, off, sg = sol[d[0]]
                if sg == 0:
                    raise Unsupported('region written by a nested loop')
                n = as_int(self.sizes[d[0]])
                off = as_int(off)
                h.append(('rng', z3.simplify(off), z3.simplify(off + n)) if sg == 1
                         else ('rng', z3.simplify(off - n + 1), z3.simplify(off + 1)))
            hulls.append(h)
        if any(repr(h) != repr(hulls[0]) for h in hulls[1:]):
            raise Unsupported('regions written by a nested loop differ')
        comps = hulls[0]
        X = [z3.Int(ENG.fresh_name('wx')) for _ in comps]
        gen = tuple(c[1] if c[0] == 'eq' else x for c, x in builtins.zip(comps, X))
        with ENG.binding(X):
            has, val = core(gen)
        if has is False:
            return
        lp.writes.append((b, comps, X, has, val))

    def note_outer_reads(self):
        """Locations read by the iterations of this loop are read by the enclosing symbolic iteration."""
        for lp in ENG.loops:
            for r in self.recs:
                at = [z3.Int(ENG.fresh_name('rd')) for _ in self.sizes]
                sub = self.inst(r, at)
                sx = lambda e: sub(e) if builtins.isinstance(e, z3.ExprRef) else e
                for seq, idx, cs in r.reads:
                    if seq < lp.seq:
                        lp.reads.append((ENG.bufs[seq], tuple(sx(x) for x in idx),
                                         [sx(c) for c in builtins.list(cs) + builtins.list(r.conds)] +
                                         [as_e(A.in_range(at, self.shape))]))

    # -- carried variables
    def closed_forms(self):
        """name -> function(iteration) giving the value at the START of that iteration."""
        if 'closed' in self.__dict__:
            return self.closed
        out = {}
        self.closed = out
        for k in self.names:
            init = self.loc.get(k, _MISSING)
            cs = [r.carried.get(k, _MISSING) for r in self.cont]
            if not self.cont:
                if init is not _MISSING:
                    out[k] = (lambda v: lambda i: v)(init)
                continue
            if init is _MISSING:
                continue
            ends = [r.end.get(k, _MISSING) for r in self.cont]
            if cs[0] is _MISSING:
                continue
            c = cs[0]
            if c is not None and all(builtins.isinstance(e, Sym) and e.e.eq(c2) for e, c2 in builtins.zip(ends, cs)):
                out[k] = (lambda v: lambda i: v)(init)
                continue
            if c is None:
                continue
            if all(is_num(e) for e in ends) and \
                    c.sort() in (z3.IntSort(), z3.RealSort()) and all(num(e).sort() == c.sort() for e in ends):
                steps = [z3.simplify(num(e) - c2) for e, c2 in builtins.zip(ends, cs)]
                step = steps[0]
                if all(x.eq(step) for x in steps) and not any(self.deps(
                        step, builtins.list(r.i) + self.carried_consts(r) + r.fresh) for r in self.cont):
                    out[k] = (lambda v, st: lambda i: scal('add', v, scal('mul', wrap(st), wrap(
                        self.flat(i) if c.sort() == z3.IntSort() else z3.ToReal(self.flat(i))))))(init, step)
        return out

    def carried_at(self, upto):
        """Values of the assigned names after the iterations before ``upto`` (None: all)."""
        out = {}
        closed = self.closed_forms()
        at = upto if upto is not None else [as_int(s) for s in self.sizes]
        nonempty = band(*[ibin('lt', 0, s) for s in self.sizes]) if upto is None else None
        for k in self.names:
            init = self.loc.get(k, _MISSING)
            if k in closed:
                out[k] = closed[k](at if upto is not None else [as_int(self.sizes[0])] + [z3.IntVal(0)] * (len(self.sizes) - 1))
                continue
            if self.cont and self.cont[0].carried.get(k, None) is _MISSING:
                # arrays, lists and objects bound before the loop: must still be the same object
                ends = [r.end.get(k, _MISSING) for r in self.cont]
                appended = any(a[0] for r in self.cont for a in r.appends)
                if not all(self._same_obj(e, init) for e in ends):
                    out[k] = Poison(k)
                continue
            if not self.cont:
                continue
            if upto is not None:
                if len(self.sizes) != 1:
                    out[k] = Poison(k)
                    continue
                last = [upto[0] - 1]
                ne = upto[0] > 0
            else:
                last = [as_int(s) - 1 for s in self.sizes]
                ne = nonempty
            # last value
            ends = [r.end.get(k, _MISSING) for r in self.cont]
            if any(e is _MISSING for e in ends):
                out[k] = Poison(k)
                continue
            if any(self.deps(num_or(e), self.open_consts(r)) for r, e in builtins.zip(self.cont, ends)) or \
                    any(self.deps(c, self.open_consts(r)) for r in self.cont for c in r.conds):
                out[k] = self.recursive(k, at) if len(self.sizes) == 1 else Poison(k)
                continue
            val = None
            bad = False
            for r, e in builtins.zip(self.cont[::-1], ends[::-1]):
                sub = self.inst(r, last)
                e2 = sub_any(e, sub)
                if e2 is None:
                    bad = True
                    break
                if val is None:
                    val = e2
                else:
                    try:
                        val = ite(band(*[sub(c) for c in r.conds]), e2, val) if not same(e2, val) else val
                    except Unsupported:
                        bad = True
                        break
            if bad:
                out[k] = Poison(k)
                continue
            if ne is True:
                out[k] = val
            elif init is _MISSING:
                # unbound when the loop does not run: fork
                if ENG.decide(as_e(ne)):
                    out[k] = val
            elif is_num(init) and is_num(val):
                out[k] = ite(ne, val, init)
            else:
                out[k] = val if ENG.decide(as_e(ne)) else init
        return out

    def _same_obj(self, e, init):
        if e is init:
            return True
        # freeze_value copies arrays: compare by buffer
        return builtins.isinstance(e, (SArr, SMa, builtins.list, dict, tuple)) and type(e) == type(init)

    def recursive(self, k, at):
        """Definitional recursion X(i+1) = step(i, X(i)) with X(0) = initial value (plus proved invariants)."""
        init = self.loc[k]
        c0 = self.cont[0].carried.get(k)
        if c0 is None or c0 is _MISSING:
            return Poison(k)
        X = z3.Function('X_%s_%s' % (k, abs(hash(self.key)) % 10**8), z3.IntSort(), c0.sort())
        i = z3.Int(ENG.fresh_name('xi'))
        step = None
        for r in self.cont[::-1]:
            cc = self.carried_consts(r)
            oth = [c for n, c in r.carried.items() if n != k and c is not None and c is not _MISSING]
            e = num(r.end[k])
            if self.deps(e, oth) or any(self.deps(c, oth) for c in r.conds) or r.fresh or r.fresh_funcs:
                return Poison(k)
            sub = self.inst(r, [i])
            f = lambda q: z3.substitute(sub(q), (r.carried[k], X(i)))
            e = f(e)
            if e.sort() != c0.sort():
                if c0.sort() == z3.IntSort():
                    return Poison(k)
                e = z3.ToReal(e)
            step = e if step is None else z3.If(z3.And(*[f(c) for c in r.conds]), e, step)
        iv = num(init) if c0.sort() != z3.BoolSort() else zb(init)
        ENG.assume(X(z3.IntVal(0)) == iv)
        ENG.assume(z3.ForAll([i], z3.Implies(as_e(A.in_range([i], self.shape)), X(i + 1) == step), patterns=[X(i + 1)]))
        return wrap(X(as_int(at[0])))

    def apply_appends(self, upto, binding):
        ids = {}
        for r in self.cont:
            per = {}
            for lid, v in r.appends:
                per.setdefault(lid, []).append(v)
            r.per = per
            for lid in per:
                ids.setdefault(lid, True)
        if not any(r.appends for r in self.cont):
            return
        # object ids differ between executions: match the lists by local name
        names = set()
        for r in self.cont:
            if len(r.per) > 1:
                raise Unsupported('several lists appended in a symbolic loop')
        for k in self.names:
            if type(self.loc.get(k)) is list:
                names.add(k)
        tgt = [k for k in self.names if k.startswith('@')]
        lists = [(k, self.loc[k]) for k in names if self.appended_name(k)]
        if len(lists) != 1:
            raise Unsupported('appended list not identified')
        k, lst = lists[0]
        if len(lst):
            raise Unsupported('append to a non-empty list in a symbolic loop')
        if upto is not None and len(self.sizes) > 1:
            raise Unsupported('append with early exit from a product loop')
        total = upto[0] if upto is not None else num(A.shape_prod(self.shape)) if not builtins.isinstance(
            A.shape_prod(self.shape), int) else A.shape_prod(self.shape)
        start = None
        recs = self.cont
        if any(sum(len(x) for x in r.per.values()) != 1 for r in self.cont):
            if any(sum(len(x) for x in r.per.values()) > 1 for r in self.cont) or len(self.sizes) > 1:
                raise Unsupported('number of appended elements varies')
            # nothing is appended before some iteration, one element in every iteration from there on
            recs = [r for r in self.cont if r.per]
            if any(self.deps(c, self.open_consts(r)) for r in self.cont for c in r.conds):
                raise Unsupported('branch of a symbolic loop depends on a carried variable')

            def appends(i):
                return bor(False, *[band(*[self.inst(r, [i])(c) for c in r.conds]) for r in recs])
            q = z3.Int(ENG.fresh_name('ap'))
            if ENG.entails(z3.Implies(z3.And(0 <= q, q + 1 < total, as_e(appends(q))), as_e(appends(q + 1))))[0] != 'proved':
                raise Unsupported('number of appended elements varies')
            start = ENG.fresh_int('first')
            ENG.assume(z3.And(0 <= start, start <= total))
            ENG.assume(z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < total), as_e(appends(q)) == (q >= start))))
            # instances at the ends
            for at in (start, start - 1, as_int(total) - 1):
                ENG.assume(z3.Implies(z3.And(0 <= at, at < total), as_e(appends(at)) == (at >= start)))
            total = total - start

        def el(idx):
            at = self.unflat(idx[0])
            if start is not None:
                at = [at[0] + start]
            val = None
            for r in recs[::-1]:
                sub = self.inst(r, at)
                v = sub_any(builtins.list(r.per.values())[0][0], sub)
                if v is None:
                    raise Unsupported('appended value')
                val = v if val is None else ite(band(*[sub(c) for c in r.conds]), v, val)
            return val
        sample = builtins.list(recs[0].per.values())[0][0]
        dt = A.DT[A.kind_of(sample)] if is_num(sample) else object
        if is_num(sample):
            kd = None
            for r in recs:
                kk = A.kind_of(builtins.list(r.per.values())[0][0])
                kd = kk if kd is None else A.join_kind(kd, kk)
            dt = A.DT[kd]
        arr = from_fn(el, (iw(total),), dt)
        arr.is_list = True
        binding[k] = arr

    def flat(self, at):
        off = as_int(at[0])
        for k, s in builtins.zip(at[1:], self.sizes[1:]):
            off = off * as_int(s) + k
        return off

    def flat_hint(self, i):
        """Coordinates of a flat index whose decomposition the contract stated (and proved in range)."""
        for f, ks, sizes in ENG.flats:
            if len(sizes) == len(self.sizes) and all(z3.is_true(z3.simplify(as_int(a) == as_int(b)))
                                                     for a, b in builtins.zip(sizes[1:], self.sizes[1:])) and \
                    z3.is_true(z3.simplify(i == f)):
                return builtins.list(ks)

    def unflat(self, i):
        i = as_int(i)
        h = self.flat_hint(i)
        if h is not None:
            return h
        out = []
        for s in self.sizes[:0:-1]:
            out.insert(0, i % as_int(s))
            i = i / as_int(s)
        return [i] + out

    def apply_dstores(self, upto, binding):
        if not any(r.dstores for r in self.cont):
            return
        ds = [(k, self.loc[k]) for k in self.names if type(self.loc.get(k)) in (dict, OrderedDict)]
        if len(ds) != 1 or len(self.cont) != 1 or len(self.cont[0].dstores) != 1:
            raise Unsupported('dictionary stores of a symbolic loop not identified')
        name, d = ds[0]
        if len(d):
            raise Unsupported('stores to a non-empty dictionary in a symbolic loop')
        if upto is not None and len(self.sizes) > 1:
            raise Unsupported('dictionary stores with early exit from a product loop')
        r = self.cont[0]
        _, key, val = r.dstores[0]
        if not builtins.isinstance(key, (SInt, int)):
            raise Unsupported('dictionary key in a symbolic loop')
        closed = self.closed_forms()
        subs = []
        for k, c in r.carried.items():
            if c is None or c is _MISSING:
                continue
            if k in closed:
                subs.append((c, num(closed[k](r.i))))
            elif self.deps(num_or(key), [c]) or vdeps(self, val, [c]):
                raise Unsupported('dictionary entry depends on a carried variable')
        key = wrap(z3.simplify(z3.substitute(num(key), *subs)))
        key0 = z3.simplify(num(key) - self.flat(r.i))
        if self.deps(key0, r.i):
            raise Unsupported('dictionary keys of a symbolic loop are not consecutive')
        val = sub_value(val, subs)
        total = iw(upto[0]) if upto is not None else A.shape_prod(self.shape)

        def at(i):
            return sub_any(val, self.inst(r, self.unflat(i)))
        binding[name] = SDict(total, wrap(key0), at)

    def appended_name(self, k):
        return True


def as_int(x):
    return z3.IntVal(x) if builtins.isinstance(x, int) else x


def vdeps(lp, v, consts):
    if builtins.isinstance(v, (tuple, builtins.list)):
        return any(vdeps(lp, x, consts) for x in v)
    if builtins.isinstance(v, dict):
        return any(vdeps(lp, x, consts) for x in v.values())
    if builtins.isinstance(v, slice):
        return vdeps(lp, (v.start, v.stop, v.step), consts)
    if builtins.isinstance(v, (SArr, SMa)):
        return bool(consts)
    return lp.deps(num_or(v), consts)


def num_or(v):
    if builtins.isinstance(v, Sym):
        return v.e
    return v if builtins.isinstance(v, z3.ExprRef) else None


def simp_eq(a, b):
    d = z3.simplify(as_int(a) == as_int(b))
    if z3.is_true(d):
        return True
    if z3.is_false(d):
        return False
    return d


def sub_any(v, sub):
    """Instantiate a value recorded in an iteration; None when not possible."""
    if v is None or type(v) is Poison or builtins.isinstance(v, (str, bytes, bool, int, float, type, _np.bool_)):
        return v
    if builtins.isinstance(v, Sym):
        return wrap(z3.simplify(sub(v.e)))
    if builtins.isinstance(v, SArr):
        f = v.snap()
        shape = [sub_any(s, sub) for s in v.shape]
        r = from_fn(lambda idx: sub_any(f(idx), sub), shape, v.dtype)
        r.is_list = v.is_list
        r.buf.readonly = True
        return r
    if builtins.isinstance(v, SMa):
        return SMa(sub_any(v.data, sub), None if v._mask is None else sub_any(v._mask, sub), v.fill_value)
    if builtins.isinstance(v, slice):
        return slice(sub_any(v.start, sub), sub_any(v.stop, sub), sub_any(v.step, sub))
    if type(v) is tuple:
        return tuple(sub_any(i, sub) for i in v)
    if type(v) is list:
        return [sub_any(i, sub) for i in v]
    if type(v) is dict:
        return {k: sub_any(i, sub) for k, i in v.items()}
    if builtins.isinstance(v, Poison):
        return v
    return v


class Poison(object):
    """A loop-carried value the loop rule cannot describe: any use is Unsupported."""
    def __init__(self, name):
        object.__setattr__(self, '_n', name)

    def __getattribute__(self, k):
        raise Unsupported('value of %s after/inside a symbolic loop is not summarised' % object.__getattribute__(self, '_n'))

    def _no(self, *a):
        raise Unsupported('value of %s after/inside a symbolic loop is not summarised' % object.__getattribute__(self, '_n'))

    __bool__ = __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __ne__ = __add__ = __radd__ = __sub__ = __rsub__ = _no
    __mul__ = __iter__ = __len__ = __getitem__ = __setitem__ = __call__ = __index__ = __hash__ = _no


def not_local(loc, free):
    """The loop rule only summarises changes to the function's own objects."""
    for n in free:
        if builtins.isinstance(loc.get(n), (list, dict, SArr, SMa, SDict, SSet)):
            raise Unsupported('loop over a symbolic sequence changes %s of an enclosing function' % n)


def loop(it, loc, names, free=()):
    if not ENG.active:
        return NativeLoop(it)
    if builtins.isinstance(it, (SArr, SMa)) and it.ndim == 0:
        raise TypeError('iteration over a 0-d array')
    if is_symiter(it):
        not_local(loc, free)
        return SymLoop(it, loc, names)
    return NativeLoop(it)


def ret_in(loops, v):
    for lp in loops:
        lp.ret()
    return v


def listcomp(f, it, conds=None):
    """[f(x) for x in it if conds(x)]"""
    if not ENG.active or not is_symiter(it):
        if conds is None:
            return [f(x) for x in it]
        return [f(x) for x in it if conds(x)]
    if conds is not None:
        raise Unsupported('filtered comprehension over a symbolic sequence')
    sh, g = seq_get(it)
    try:
        return _pure_comp(f, sh, g)
    except _NotPure:
        pass
    out = []
    lp = SymLoop(it, {'out': out}, ('out',))
    for x in lp:
        try:
            append(out, f(x))
            lp.end({'out': out})
        except BaseException as e:
            lp.exc(e)
            raise
    return lp.fin.get('out', out)


def dictcomp(fk, fv, it, conds=None):
    """{fk(x): fv(x) for x in it if conds(x)}"""
    if not ENG.active:
        if conds is None:
            return {fk(x): fv(x) for x in it}
        return {fk(x): fv(x) for x in it if conds(x)}
    if not is_symiter(it):
        kv = [(fk(x), fv(x)) for x in it if conds is None or conds(x)]
        if any(builtins.isinstance(k, (SInt, SReal)) for k, _ in kv):
            return SMap(A.from_nested([k for k, _ in kv]), A.from_nested([v for _, v in kv]))
        return dict(kv)
    if conds is not None or ENG.loops:
        raise Unsupported('dictionary comprehension over a symbolic sequence')
    ks, vs = listcomp(fk, it), listcomp(fv, it)
    if not builtins.isinstance(ks, SArr) or ks.ndim != 1 or ks.kind not in 'if' or not builtins.isinstance(vs, SArr):
        raise Unsupported('dictionary comprehension over a symbolic sequence')
    return SMap(ks, vs)


class SMap(object):
    """Dictionary made from a symbolic sequence of numeric keys and of values; the last entry of a key counts."""
    def __init__(self, ks, vs):
        self.n = iexp(ks.shape[0])
        self.kf, self.vf = ks.snap(), vs.snap()
        self.int = ks.kind == 'i'
        sort = z3.IntSort() if self.int else z3.RealSort()
        if builtins.isinstance(self.n, int):
            def W(e):
                r = z3.IntVal(-1)
                for k in builtins.range(self.n):
                    r = z3.If(self.key(z3.IntVal(k)) == e, z3.IntVal(k), r)
                return r
            self.W = W
            return
        W = self.W = ENG.fresh_func('keypos', sort, z3.IntSort())
        i = z3.Int(ENG.fresh_name('q'))
        key = self.key(i)
        pats = [key] if z3.is_app(key) and key.decl().kind() == z3.Z3_OP_UNINTERPRETED and key.num_args() else [W(key)]
        ENG.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n),
                                             z3.And(W(key) >= i, W(key) < self.n, self.key(W(key)) == key)),
                             patterns=pats))

    def key(self, i):
        e = num(self.kf((i,)))
        return e if self.int or e.sort() == z3.RealSort() else z3.ToReal(e)

    def find(self, k):
        e = num(k)
        if self.int and e.sort() != z3.IntSort():
            raise Unsupported('key of another type')
        if not self.int and e.sort() != z3.RealSort():
            e = z3.ToReal(e)
        p = self.W(e)
        return p, ENG.decide(z3.And(0 <= p, p < self.n, self.key(p) == e))

    def __getitem__(self, k):
        p, has = self.find(k)
        if not has:
            raise KeyError(k)
        return self.vf((p,))

    def get(self, k, default=None):
        p, has = self.find(k)
        return self.vf((p,)) if has else default

    def __contains__(self, k):
        return self.find(k)[1]

    def __iter__(self):
        raise Unsupported('iteration over a symbolic dictionary')

    __len__ = keys = values = items = __iter__


class _NotPure(Exception):
    pass


def _pure_comp(f, sh, g):
    raise _NotPure()


class WhileLoop(SymLoop):
    """``while``: an unknown number of iterations; it is left by the iteration whose test fails or that breaks."""
    def __init__(self, loc, names):
        n = ENG.fresh_int('trips')
        SymLoop.__init__(self, SIter((n,), lambda i: iw(i[0])), loc, names)

    def __iter__(self):
        for v in SymLoop.__iter__(self):
            yield v
        if self.mode == 'exit':
            raise Infeasible()


RECORD = {}


def _ints(loc):
    return {k: v for k, v in loc.items() if builtins.isinstance(v, int) and not builtins.isinstance(v, bool)}


class RecordingLoop(NativeLoop):
    """A concrete run of a loop whose states are wanted for the inference of invariants."""
    def __init__(self, it, loc, names, store):
        self.it = it
        self.start = {k + '@0': v for k, v in _ints(loc).items() if k in names}
        self.store = store.setdefault(names, [])
        self.count = 0
        self.note(loc)

    def note(self, loc):
        self.count += 1
        if self.count < 30 and len(self.store) < 4000:
            st = _ints(loc)
            st.update(self.start)
            self.store.append(st)

    def end(self, loc):
        self.note(loc)


def affine_relations(states):
    """Basis of the affine equalities that hold in every recorded state: lists of (name or 1, integer coefficient)."""
    from fractions import Fraction
    from math import gcd
    if not states:
        return []
    ks = sorted(set.intersection(*[set(s) for s in states]))
    cols = [1] + ks
    rows = set(tuple([1] + [s[k] for k in ks]) for s in states)
    m = [[Fraction(x) for x in r] for r in rows]
    piv = []
    r = 0
    for c in builtins.range(len(cols)):
        p = next((i for i in builtins.range(r, len(m)) if m[i][c] != 0), None)
        if p is None:
            continue
        m[r], m[p] = m[p], m[r]
        m[r] = [x / m[r][c] for x in m[r]]
        for i in builtins.range(len(m)):
            if i != r and m[i][c] != 0:
                f = m[i][c]
                m[i] = [x - f * y for x, y in builtins.zip(m[i], m[r])]
        piv.append(c)
        r += 1
        m = m[:r] + [x for x in m[r:] if any(x)]
    out = []
    for free in [c for c in builtins.range(len(cols)) if c not in piv]:
        v = [Fraction(0)] * len(cols)
        v[free] = Fraction(1)
        for i, c in builtins.enumerate(piv):
            v[c] = -m[i][free]
        l = 1
        for x in v:
            l = l * x.denominator // gcd(l, x.denominator)
        out.append([(cols[i], int(x * l)) for i, x in builtins.enumerate(v) if x])
    return out


class InvLoop(NativeLoop):
    """``while`` cut by proved affine invariants: an arbitrary state that satisfies them, then one iteration. The paths that
    leave the loop go on; those that complete the iteration have to establish the invariants again (partial correctness)."""
    def __init__(self, loc, names, fname):
        self.rep = ENG.invloops[fname]
        self.key = (fname, names)
        self.names = names
        self.init = {k: loc[k] for k in names if k in loc}
        drop = self.rep.setdefault('inv_drop', {}).setdefault(self.key, set())
        if ENG.loops or ENG.binders:
            raise Unsupported('while loop inside a symbolic loop')
        self.cands = [r for r in affine_relations(self.rep['traces'].get(fname, {}).get(names, []))
                      if repr(r) not in drop and any(k in names for k, _ in r)]
        self.drop = drop
        self.inj = {}
        for k, v in self.init.items():
            if builtins.isinstance(v, (SInt, int)) and not builtins.isinstance(v, bool):
                self.inj[k] = wrap(ENG.fresh_int('inv_' + k))
            else:
                raise Unsupported('while loop assigns the %s %s' % (type(v).__name__, k))
        self.prove(loc)
        self.fixed = {k: v for k, v in loc.items() if k not in names}
        st = dict(self.fixed)
        st.update(self.inj)
        for r in self.cands:
            ENG.assume(as_e(self.holds(r, st)))

    def holds(self, r, loc):
        t = 0
        for k, c in r:
            if k == 1:
                v = 1
            elif k.endswith('@0'):
                v = self.init.get(k[:-2])
            else:
                v = loc.get(k)
            if not builtins.isinstance(v, (SInt, int)):
                return False
            t = scal('add', t, scal('mul', v, c))
        return zb(scal('eq', t, 0))

    def prove(self, loc):
        bad = []
        for r in self.cands:
            h = self.holds(r, loc)
            if h is False or ENG.entails(as_e(h))[0] != 'proved':
                bad.append(repr(r))
            else:
                self.rep['obligations'] += 1
                self.rep['discharged'] += 1
        if bad:
            self.drop.update(bad)
            del ENG.prefix[:]
            del self.rep['failed'][:]
            raise Retry()

    def __iter__(self):
        yield 0

    def end(self, loc):
        self.prove(loc)
        raise PathDone()


def while_loop(loc, names, fname, free=(), pure=False):
    if not ENG.active and fname in RECORD:
        import itertools
        return RecordingLoop(itertools.count(), loc, builtins.tuple(names), RECORD[fname])
    if ENG.active and fname in ENG.invloops:
        if not pure:
            raise Unsupported('while loop with effects beyond local variables')
        not_local(loc, free)
        return InvLoop(loc, builtins.tuple(names), fname)
    if not ENG.active or fname not in ENG.eager:
        import itertools
        return NativeLoop(itertools.count())
    not_local(loc, free)
    return WhileLoop(loc, names)


def countable(fname, start, stop):
    """Is ``while k < stop: ...; k += 1`` a loop over a symbolic range (and no contract asked for another treatment)?"""
    if not ENG.active or fname in ENG.invloops or fname in ENG.eager:
        return False
    vals = (start, stop)
    return builtins.any(builtins.isinstance(x, SInt) for x in vals) and builtins.all(
        builtins.isinstance(x, (SInt, int, _np.integer)) and not builtins.isinstance(x, bool) for x in vals)


def count_range(start, stop, step):
    return range_(start, stop, step)


def bound_kept(a, b):
    if a is b:
        return
    eq = scal('eq', a, b)
    if eq is True or ENG.entails(as_e(zb(eq)))[0] == 'proved':
        return
    raise Unsupported('the bound of a counting loop changes in the loop')


def count_end(start, stop, step):
    n = scal('sub', stop, start) if step > 0 else scal('sub', start, stop)
    if A.known(zb(scal('le', n, 0))) is True:
        return start
    st = builtins.abs(step)
    trips = n if st == 1 else scal('floordiv', scal('add', n, st - 1), st)
    end = scal('add', start, scal('mul', trips, step))
    if A.known(zb(scal('ge', n, 0))) is True:
        return end
    return wrap(z3.If(as_e(zb(scal('le', n, 0))), as_e(start), as_e(end)))


def yield_in(loops, v):
    """A value handed out from within loops: the loop rule knows nothing of what the consumer does with it."""
    for lp in loops:
        if builtins.isinstance(lp, SymLoop):
            raise Unsupported('yield inside a symbolic loop')
    return v


def is_eager(fname):
    return ENG.active and fname in ENG.eager


def yielded(ys, v):
    """One more value yielded by a generator in its collecting form."""
    if type(ys) is builtins.list:
        append(ys, v)
        return ys
    n = ys.shape[0]
    f = ys.snap()
    v = freeze_value(v)

    def at(i):
        if ENG.decide(as_e(ibin('lt', i[0], iexp(n)))):
            return f(i)
        return v
    r = from_fn(at, (scal('add', n, 1),), ys.dtype)
    r.is_list = True
    return r
