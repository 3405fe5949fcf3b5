"""Shared specification helpers."""


def slice_range(c, s, n):
    """[lo, hi) selected by a step-free slice of an axis of length n, per the language definition of slicing."""
    def clamp(v, dflt):
        if v is None:
            return dflt
        v = c.Ite(v < 0, v + n, v)
        return c.max(0, c.min(v, n))
    lo, hi = clamp(s.start, 0), clamp(s.stop, n)
    return lo, c.max(lo, hi)


def wrapidx(c, v, n):
    return c.Ite(v < 0, v + n, v)


def bounds_spec(c, n, size, r):
    """The block given to rank r of size ranks: first n % size ranks hold one element more."""
    q, m = n // size, n % size
    lo = r * q + c.min(r, m)
    hi = (r + 1) * q + c.min(r + 1, m)
    return lo, hi


def group_size(c, n, size, m):
    """Ranks sharing a dimension of n elements: never more than the elements allow, never none."""
    g = c.min(size, n)
    return c.Ite(size > 1, c.min(g, c.max(n // m, 1)), g)


def optimal_slice_spec(c):
    """get_optimal_slice_from_array by its contract (C03): the array, or the slice of the same elements."""
    known = {}

    def spec(arr, check_diff=True):
        if arr.dtype == bool:
            return arr
        m = arr.shape[0]
        key = str(c.at(arr, c.int('generic element')).e), str(getattr(m, 'e', m))
        if key not in known:
            first = c.at(arr, 0)
            if not c.If(c.And(c.all_(m, lambda k: c.at(arr, k) == first + k), c.Or(first >= 0, first + m <= 0))):
                known[key] = arr
            elif c.If(first + m == 0):
                known[key] = slice(first, None)
            else:
                known[key] = slice(first, first + m)
        return known[key]
    return spec


class Like(object):
    """A stand-in for an object of a class: what it does not hold itself it takes from the class."""

    def __init__(self, c, path, **kw):
        self.__dict__.update(kw)
        self.__dict__['_like_'] = c.fn(path)

    def __getattr__(self, name):
        cls = self.__dict__.get('_like_')
        if cls is not None and not name.startswith('__'):
            for k in cls.__mro__:
                if name in k.__dict__:
                    v = k.__dict__[name]
                    return v.__get__(self, cls) if hasattr(v, '__get__') else v
        raise AttributeError(name)
