"""C06 A value-range subset keeps exactly the elements inside the range."""
from engine.contract import contract

B = 'ocgis.variable.base:'


def limits(c):
    lo, hi = c.real('lower', -8, 8), c.real('upper', -8, 8)
    c.assume(lo <= hi)
    closed = c.bool('closed')
    return lo, hi, True if c.If(closed) else False


def selected(c, n, want, v, out, values, bounds=None, indices=True):
    """out holds exactly the elements k with want(k), in order."""
    from ocgis.exc import EmptySubsetError
    some = c.exists(n, lambda k: want(k))
    if c.If(c.Not(some)):
        c.check('nothing in range is an error', out.raised(EmptySubsetError))
        return
    c.ok('returns', out)
    r, idx = out.value
    m = c.shape(r.get_value())[0]
    at = lambda j: c.at(idx, j)
    c.check('one index per element', c.shape(idx)[0] == m)
    c.check('dimension has the new size', r.dimensions[0].size == m)
    c.forall('indices are inside the variable', m, lambda j: c.And(0 <= at(j), at(j) < n))
    c.forall('only elements in range', m, lambda j: want(at(j)))
    c.forall('indices increase', m - 1, lambda j: at(j) < at(j + 1))
    # together: every wanted element is selected
    c.forall('none missing before the first', n, lambda k: c.Implies(want(k), lambda: k >= at(0)))
    c.forall('none missing after the last', n, lambda k: c.Implies(want(k), lambda: k <= at(m - 1)))
    c.forall('none missing in between', (m - 1, n), lambda j, k: c.Implies(
        c.And(at(j) < k, k < at(j + 1)), lambda: c.Not(want(k))))
    c.forall('indices select the values', m, lambda j: c.at(r.get_value(), j) == values(at(j)))
    c.forall('original untouched', n, lambda k: c.at(v.get_value(), k) == values(k))
    if bounds is not None:
        c.check('bounds are kept', r.has_bounds)
        c.check('one bounds row per element', c.same_shape(r.bounds.get_value(), (m, 2)))
        for b in range(2):
            c.forall('bounds follow', m, lambda j: c.at(r.bounds.get_value(), j, b) == bounds(at(j), b))
            c.forall('original bounds untouched', n, lambda k: c.at(v.bounds.get_value(), k, b) == bounds(k, b))


@contract('C06', [B + 'Variable.get_between', B + 'Variable.__getitem__'], samples=300)
def between_values(c):
    """Without bounds: exactly the values inside the interval, end points as requested."""
    from ocgis import Variable
    n = c.int('n', 1, small=8)
    a = c.arr('values', n)
    x = c.snap(a)
    lo, hi, closed = limits(c)
    v = Variable(name='v', value=a, dimensions=['d'])
    out = c.call(v.get_between, lo, hi, return_indices=True, closed=closed)
    want = (lambda k: c.And(x(k) > lo, x(k) < hi)) if closed else (lambda k: c.And(x(k) >= lo, x(k) <= hi))
    selected(c, n, want, v, out, x)


def bounded(c, n):
    """A variable with two-column bounds whose rows all run the same way."""
    from ocgis import Variable
    a = c.arr('values', n)
    b = c.arr('bounds', (n, 2))
    x, y = c.snap(a), c.snap(b)
    up = c.bool('ascending rows')
    up = True if c.If(up) else False
    lo_col, hi_col = (0, 1) if up else (1, 0)
    c.assume_forall(n, lambda k: y(k, lo_col) <= y(k, hi_col))
    c.assume(y(0, lo_col) < y(0, hi_col))       # the first row tells the direction
    v = Variable(name='v', value=a, dimensions=['d'],
                 bounds=Variable(name='b', value=b, dimensions=['d', 'bounds']))
    return v, x, y, (lambda k: y(k, lo_col)), (lambda k: y(k, hi_col))


@contract('C06', [B + 'Variable.get_between'], samples=500)
def between_bounds(c):
    """With bounds: exactly the elements whose cell touches the interval; contiguous cells are half open so that a
    shared end point does not select the neighbour below."""
    n = c.int('n', 1, small=7)
    v, x, y, low, up = bounded(c, n)
    lo, hi, closed = limits(c)
    contiguous = False
    if c.If(n > 1):
        if c.If(c.Or(*[y(0, i) == y(1, j) for i in range(2) for j in range(2)])):
            contiguous = True
    out = c.call(v.get_between, lo, hi, return_indices=True, closed=closed)
    if closed:
        want = lambda k: c.And(up(k) > lo, low(k) < hi)
    elif contiguous:
        want = lambda k: c.And(c.Or(low(k) >= lo, up(k) > lo), c.Or(low(k) <= hi, up(k) < hi))
    else:
        want = lambda k: c.And(up(k) >= lo, low(k) <= hi)
    selected(c, n, want, v, out, x, y)


@contract('C06', [B + 'Variable.get_between'], samples=200)
def between_without_bounds_use(c):
    """use_bounds=False: the values decide although the variable has bounds."""
    n = c.int('n', 1, small=7)
    v, x, y, low, up = bounded(c, n)
    lo, hi, closed = limits(c)
    out = c.call(v.get_between, lo, hi, return_indices=True, closed=closed, use_bounds=False)
    want = (lambda k: c.And(x(k) > lo, x(k) < hi)) if closed else (lambda k: c.And(x(k) >= lo, x(k) <= hi))
    selected(c, n, want, v, out, x, y)


@contract('C06', [B + 'Variable.get_between'], samples=100)
def between_scalar(c):
    """A scalar variable is returned unchanged when inside the interval."""
    import numpy as np
    from ocgis import Variable
    from ocgis.exc import EmptySubsetError
    x = c.real('value', -8, 8)
    lo, hi, closed = limits(c)
    a = c.mk((), lambda: x)
    v = Variable(name='v', value=a, dimensions=[])
    out = c.call(v.get_between, lo, hi, closed=closed)
    inside = c.And(x > lo, x < hi) if closed else c.And(x >= lo, x <= hi)
    if c.If(inside):
        c.ok('returns', out)
        c.check('still scalar', out.value.ndim == 0)
        c.check('value', c.at(out.value.get_value()) == x)
    else:
        c.check('nothing in range is an error', out.raised(EmptySubsetError))


@contract('C06', [B + 'Variable.get_between'], samples=100)
def between_reversed_limits(c):
    """A lower limit above the upper limit is refused."""
    from ocgis import Variable
    n = c.int('n', 1, small=4)
    lo, hi = c.real('lower', -8, 8), c.real('upper', -8, 8)
    c.assume(lo > hi)
    v = Variable(name='v', value=c.arr('values', n), dimensions=['d'])
    out = c.call(v.get_between, lo, hi)
    c.check('refused', out.raised(AssertionError))


@contract('C06', [B + 'Variable.get_between'], samples=150)
def between_all(c):
    """An interval covering every value selects the whole variable."""
    from ocgis import Variable
    n = c.int('n', 1, small=7)
    a = c.arr('values', n, lo=-8, hi=8)
    x = c.snap(a)
    v = Variable(name='v', value=a, dimensions=['d'])
    out = c.call(v.get_between, -8, 8, return_indices=True)
    c.ok('returns', out)
    r, idx = out.value
    c.check('size', c.shape(r.get_value())[0] == n)
    c.forall('identity', n, lambda k: c.And(c.at(idx, k) == k, c.at(r.get_value(), k) == x(k)))


class Moment(object):
    """Stand-in for a date in the proof: the number its conversion yields."""

    def __init__(self, number):
        self.number = number


@contract('C06', ['ocgis.variable.temporal:TemporalVariable.get_between'], samples=150)
def between_dates(c):
    """Limits given as dates select the same elements as their numeric values (cell bounds included)."""
    import datetime
    from ocgis import TemporalVariable
    T = 'ocgis.variable.temporal:TemporalVariable'
    n = c.int('n', 1, small=6)
    a = c.arr('values', n, lo=-8, hi=8)
    x = c.snap(a)
    lo, hi = c.real('lower', -8, 8), c.real('upper', -8, 8)
    c.assume(lo <= hi)
    v = TemporalVariable(name='v', value=a, dimensions=['d'], units='days since 2000-01-01', calendar='standard')
    if c.sym:
        # date conversion belongs to cftime: assumed to give the number the date stands for
        c.patch(T + '.get_numtime', lambda self, arr: [i.number for i in arr])
        limit = Moment
    else:
        limit = lambda d: datetime.datetime(2000, 1, 1) + datetime.timedelta(days=d)
    out = c.call(v.get_between, limit(lo), limit(hi), return_indices=True)
    selected(c, n, lambda k: c.And(x(k) >= lo, x(k) <= hi), v, out, x)
