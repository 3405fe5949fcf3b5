"""C05 Longitude wrapping moves coordinates by whole turns and is reversible."""
from engine.contract import contract

W = 'ocgis.spatial.wrap:'
R = 'ocgis.variable.crs:'
GRID = [-360, -180.25, -180, -90, -0.25, 0, 0.25, 90, 179.75, 180, 180.25, 270, 359.75, 360]


def coords(c, name='lon'):
    nd = c.choice('ndim', [1, 2])
    shape = tuple(c.int('n%d' % i, 0 if nd == 1 else 1, small=5) for i in range(nd))
    return shape, c.arr(name, shape, grid=GRID, lo=-720, hi=720)


@contract('C05', [W + 'CoordinateArrayWrapper.wrap'], samples=250)
def wrap_array(c):
    """Values above the wrap axis lose one turn, all others are unchanged."""
    shape, a = coords(c)
    x = c.snap(a)
    inplace = c.bool('inplace')
    w = c.fn(W + 'CoordinateArrayWrapper')(inplace=True if c.If(inplace) else False)
    out = c.call(w.wrap, a)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, shape))
    c.forall('above the axis one turn less, else unchanged', shape,
             lambda *i: c.eq(c.at(r, *i), c.Ite(x(*i) > 180, x(*i) - 360, x(*i))))
    if c.If(inplace):
        c.forall('in place', shape, lambda *i: c.eq(c.at(a, *i), c.at(r, *i)))
    else:
        c.forall('argument untouched', shape, lambda *i: c.at(a, *i) == x(*i))


@contract('C05', [W + 'CoordinateArrayWrapper.unwrap'], samples=250)
def unwrap_array(c):
    """Negative values gain one turn, all others are unchanged."""
    shape, a = coords(c)
    x = c.snap(a)
    inplace = c.bool('inplace')
    w = c.fn(W + 'CoordinateArrayWrapper')(inplace=True if c.If(inplace) else False)
    out = c.call(w.unwrap, a)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, shape))
    c.forall('negative one turn more, else unchanged', shape,
             lambda *i: c.eq(c.at(r, *i), c.Ite(x(*i) < 0, x(*i) + 360, x(*i))))
    if c.If(inplace):
        c.forall('in place', shape, lambda *i: c.eq(c.at(a, *i), c.at(r, *i)))
    else:
        c.forall('argument untouched', shape, lambda *i: c.at(a, *i) == x(*i))


@contract('C05', [W + 'CoordinateArrayWrapper.wrap', W + 'CoordinateArrayWrapper.unwrap'], samples=250)
def wrap_inverse(c):
    """The two operations undo each other on their domains, and repeating one changes nothing."""
    n = c.int('n', 1, small=6)
    w = c.fn(W + 'CoordinateArrayWrapper')(inplace=False)
    a = c.arr('wrapped', n, grid=GRID, lo=-180, hi=180)
    c.assume_forall(n, lambda k: c.at(a, k) > -180)
    b = c.arr('unwrapped', n, grid=GRID, lo=0, hi=360)
    c.assume_forall(n, lambda k: c.at(b, k) < 360)
    x, y = c.snap(a), c.snap(b)
    u = w.unwrap(a)
    c.forall('unwrapped range', n, lambda k: c.And(0 <= c.at(u, k), c.at(u, k) < 360))
    back = w.wrap(u)
    c.forall('wrap after unwrap restores', n, lambda k: c.eq(c.at(back, k), x(k)))
    v = w.wrap(b)
    c.forall('wrapped range', n, lambda k: c.And(-180 < c.at(v, k), c.at(v, k) <= 180))
    back = w.unwrap(v)
    c.forall('unwrap after wrap restores', n, lambda k: c.eq(c.at(back, k), y(k)))
    again = w.unwrap(u)
    c.forall('unwrapping twice', n, lambda k: c.at(again, k) == c.at(u, k))
    again = w.wrap(v)
    c.forall('wrapping twice', n, lambda k: c.at(again, k) == c.at(v, k))


@contract('C05', [R + 'CoordinateReferenceSystem._get_wrapped_state_from_array_'], samples=250)
def wrapped_state(c):
    """Unwrapped exactly when some value exceeds 180, else wrapped exactly when some value is negative."""
    from ocgis.constants import WrappedState
    shape, a = coords(c)
    cls = c.fn(R + 'CoordinateReferenceSystem')
    out = c.call(cls._get_wrapped_state_from_array_, a)
    c.ok('returns', out)
    hi = c.exists(shape, lambda *i: c.at(a, *i) > 180)
    lo = c.exists(shape, lambda *i: c.at(a, *i) < 0)
    if c.If(hi):
        c.check('unwrapped', out.value == WrappedState.UNWRAPPED)
    elif c.If(lo):
        c.check('wrapped', out.value == WrappedState.WRAPPED)
    else:
        c.check('unknown', out.value == WrappedState.UNKNOWN)


@contract('C05', [R + 'CoordinateReferenceSystem.get_wrap_action'], samples=40)
def wrap_action(c):
    """The whole table of states."""
    from ocgis.constants import WrappedState as S, WrapAction as A
    cls = c.fn(R + 'CoordinateReferenceSystem')
    states = [S.WRAPPED, S.UNWRAPPED, S.UNKNOWN, 'nonsense', None]
    a, b = c.choice('source', states), c.choice('destination', states)
    out = c.call(cls.get_wrap_action, a, b)
    if a in states[3:] or b in states[3:]:
        c.check('unknown states are errors', out.raised(ValueError))
        return
    c.ok('returns', out)
    want = {(S.UNWRAPPED, S.WRAPPED): A.WRAP, (S.WRAPPED, S.UNWRAPPED): A.UNWRAP}.get((a, b))
    c.check('action', out.value == want)


class Pt(object):
    """Stand-in for shapely.geometry.Point in the proof: a pair of coordinates."""

    def __init__(self, x, y):
        self.x, self.y = x, y


class MPt(list):
    """Stand-in for shapely.geometry.MultiPoint in the proof: a sequence of points."""


def points(c):
    if c.sym:
        c.patch(W + 'Point', Pt)
        c.patch(W + 'MultiPoint', MPt)
        return Pt, MPt
    from shapely.geometry import MultiPoint, Point
    return Point, MultiPoint


@contract('C05', [W + 'GeometryWrapper.wrap', W + 'GeometryWrapper.unwrap', W + 'GeometryWrapper._unwrap_point_'],
          samples=250)
def wrap_point(c):
    """A point moves by the same rule as a coordinate; its latitude stays."""
    P, MP = points(c)
    axis = c.choice('axis', [180., 190.])
    w = c.fn(W + 'GeometryWrapper')(wrap_axis=axis)
    x, y = c.real('x', -720, 720, grid=GRID + [185, 195]), c.real('y', -90, 90)
    p = P(x, y)
    out = c.call(w.wrap, p)
    c.ok('wraps', out)
    r = out.value
    c.check('a point', type(r) is P)
    c.check('longitude wrapped', c.eq(r.x, c.Ite(x > axis, x - 360, x)))
    c.check('latitude kept', r.y == y)
    out = c.call(w.unwrap, p)
    c.ok('unwraps', out)
    r = out.value
    c.check('longitude unwrapped', c.And(type(r) is P, c.eq(r.x, c.Ite(x < 0, x + 360, x))))
    c.check('latitude kept', r.y == y)


@contract('C05', [W + 'GeometryWrapper.wrap', W + 'GeometryWrapper.unwrap', W + 'GeometryWrapper._unwrap_point_'],
          samples=150, level='bounded', bound='up to three points; all coordinates')
def wrap_multipoint(c):
    """Every point of a collection moves by itself, in order."""
    P, MP = points(c)
    axis = c.choice('axis', [180., 190.])
    w = c.fn(W + 'GeometryWrapper')(wrap_axis=axis)
    n = c.choice('n', [1, 2, 3])
    xs = [c.real('x%d' % i, -720, 720, grid=GRID + [185, 195]) for i in range(n)]
    ys = [c.real('y%d' % i, -90, 90) for i in range(n)]
    for nm, f in (('wrap', lambda x: c.Ite(x > axis, x - 360, x)), ('unwrap', lambda x: c.Ite(x < 0, x + 360, x))):
        out = c.call(getattr(w, nm), MP([P(x, y) for x, y in zip(xs, ys)]))
        c.ok('returns', out)
        r = list(out.value)
        c.check('as many points', c.And(type(out.value) is MP, len(r) == n))
        for p, x, y in zip(r, xs, ys):
            c.check('longitude', c.eq(p.x, f(x)))
            c.check('latitude kept', p.y == y)


@contract('C05', [W + 'GeometryWrapper.wrap', W + 'GeometryWrapper.unwrap'], concrete_only=True, level='bounded',
          bound='random rectangles with and without a hole', samples=150)
def wrap_polygon(c):
    """A polygon beyond the meridian moves as a whole, holes included; one on both sides is cut there."""
    from shapely.geometry import Polygon, MultiPolygon, box
    from shapely.affinity import translate
    x0, w_ = c.int('x0', -170, 340), c.int('w', 2, 60)
    y0, h = c.int('y0', -80, 60), c.int('h', 2, 20)
    hole, multi = c.bool('hole'), c.bool('multi')
    rings = [[(x0 + .5, y0 + .5), (x0 + w_ - .5, y0 + .5), (x0 + w_ - .5, y0 + h - .5), (x0 + .5, y0 + h - .5)]]
    p = Polygon([(x0, y0), (x0 + w_, y0), (x0 + w_, y0 + h), (x0, y0 + h)], rings if hole else None)
    if multi:
        p = MultiPolygon([p, translate(p, yoff=-h - 1)]) if y0 - h - 1 > -90 else p
    w = c.fn(W + 'GeometryWrapper')()
    same = lambda a, b: a.symmetric_difference(b).area < 1e-6
    if x0 >= 0:
        c.assume(x0 + w_ <= 360)
        out = c.call(w.wrap, p)
        c.ok('wraps', out)
        left, right = p.intersection(box(-180, -90, 180, 90)), p.intersection(box(180, -90, 540, 90))
        c.check('wrapped', same(out.value, left.union(translate(right, xoff=-360))))
        if x0 + w_ <= 180:
            c.check('untouched', out.value is p)
    else:
        c.assume(x0 + w_ <= 180)
        out = c.call(w.unwrap, p)
        c.ok('unwraps', out)
        left, right = p.intersection(box(-360, -90, 0, 90)), p.intersection(box(0, -90, 360, 90))
        c.check('unwrapped', same(out.value, right.union(translate(left, xoff=360))))


def reorder_field(c, m, n):
    from ocgis import Field, Grid, Variable
    from ocgis.variable.crs import Spherical
    x, y = c.arr('x', n, grid=GRID, lo=-180, hi=180), c.arr('y', m)
    xb, yb = c.arr('xb', (n, 2)), c.arr('yb', (m, 2))
    d, e = c.arr('d', (m, n)), c.arr('e', (2, n, m))
    one, other = c.arr('one', n), c.arr('other', m)
    arrs = dict(x=x, y=y, xb=xb, yb=yb, d=d, e=e, one=one, other=other)
    snaps = {k: c.snap(v) for k, v in arrs.items()}
    vs = [Variable(name='d', value=d, dimensions=['dy', 'dx']), Variable(name='e', value=e, dimensions=['t', 'dx', 'dy']),
          Variable(name='one', value=one, dimensions=['dx']), Variable(name='other', value=other, dimensions=['dy'])]
    vx = Variable(name='x', value=x, dimensions=['dx'], bounds=Variable(name='xb', value=xb, dimensions=['dx', 'b']))
    vy = Variable(name='y', value=y, dimensions=['dy'], bounds=Variable(name='yb', value=yb, dimensions=['dy', 'b']))
    g = Grid(vx, vy, crs=Spherical(), parent=Field(variables=vs))
    return g, snaps


@contract('C05', ['ocgis.spatial.grid:Grid.reorder', 'ocgis.spatial.grid:reorder_array'], samples=120, level='bounded',
          bound='one to three rows; any number of columns; array layouts (y,x), (2,x,y), (x), (y)')
def reorder(c):
    """Every value moves with its coordinate: the first negative longitude comes first."""
    m, n = c.choice('rows', [1, 2, 3]), c.int('cols', 1, small=6)
    g, s = reorder_field(c, m, n)
    k = c.int('first', 0, small=6)
    x = s['x']
    c.assume(k < n)
    c.assume(x(k) < 0)
    c.assume_forall(n, lambda j: c.And(-180 <= x(j), x(j) <= 180))
    c.assume_forall(k, lambda j: x(j) >= 0)
    f = g.parent
    out = c.call(g.reorder)
    c.ok('returns', out)
    v = lambda nm: f[nm].get_value()
    at = lambda j: c.Ite(j + k < n, j + k, j + k - n)
    c.forall('longitudes', n, lambda j: c.at(v('x'), j) == x(at(j)))
    for b in range(2):
        c.forall('bounds of longitudes', n, lambda j: c.at(v('xb'), j, b) == s['xb'](at(j), b))
    c.forall('rows by columns', (m, n), lambda i, j: c.at(v('d'), i, j) == s['d'](i, at(j)))
    c.forall('columns by rows', (2, n, m), lambda t, j, i: c.at(v('e'), t, j, i) == s['e'](t, at(j), i))
    c.forall('vectors', n, lambda j: c.at(v('one'), j) == s['one'](at(j)))
    c.forall('others untouched', m, lambda i: c.And(c.at(v('other'), i) == s['other'](i), c.at(v('y'), i) == s['y'](i)))


@contract('C05', [R + 'AbstractCRS.wrap_or_unwrap', 'ocgis.spatial.base:AbstractOperationsSpatialObject.wrap',
                  'ocgis.spatial.base:AbstractOperationsSpatialObject.unwrap', R + 'AbstractCRS.get_wrapped_state'],
          samples=120)
def wrap_grid(c):
    """Wrapping a grid not yet wrapped wraps its x-coordinates only, drops the bounds that no longer fit, and is the matching state."""
    from ocgis import Grid, Variable
    from ocgis.constants import WrappedState
    from ocgis.variable.crs import Spherical
    n, m = c.int('cols', 1, small=6), c.int('rows', 1, small=4)
    two = c.choice('two', [False, True])
    dims = ['dy', 'dx']
    x = c.arr('x', (m, n) if two else n, grid=GRID, lo=-360, hi=540)
    y = c.arr('y', (m, n) if two else m, grid=GRID, lo=-90, hi=400)
    sx, sy = c.snap(x), c.snap(y)
    kw = [{}, {}]
    if not two and c.choice('bounds', [False, True]):
        kw = [dict(bounds=Variable(name=k + 'b', value=c.arr(k + 'b', (s, 2)), dimensions=['d' + k, 'b']))
              for k, s in (('x', n), ('y', m))]
    g = Grid(Variable(name='x', value=x, dimensions=dims if two else ['dx'], **kw[0]),
             Variable(name='y', value=y, dimensions=dims if two else ['dy'], **kw[1]), crs=Spherical())
    act = c.choice('action', ['wrap', 'unwrap'])
    hi, lo = c.exists(c.shape(x), lambda *i: sx(*i) > 180), c.exists(c.shape(x), lambda *i: sx(*i) < 0)
    already = c.If(hi) if act == 'unwrap' else c.If(c.And(c.Not(hi), lo))
    out = c.call(getattr(g, act))
    c.ok('returns', out)
    if already:
        c.forall('already in the requested state', c.shape(x), lambda *i: c.at(g.x.get_value(), *i) == sx(*i))
        return
    f = (lambda v: c.Ite(v > 180, v - 360, v)) if act == 'wrap' else (lambda v: c.Ite(v < 0, v + 360, v))
    xv, yv = g.x.get_value(), g.y.get_value()
    c.forall('x-coordinates', c.shape(x), lambda *i: c.eq(c.at(xv, *i), f(sx(*i))))
    c.forall('y-coordinates', c.shape(y), lambda *i: c.at(yv, *i) == sy(*i))
    c.check('no bounds left', c.And(not g.x.has_bounds, not g.y.has_bounds))
    if act == 'wrap':
        # with coordinates up to 540 one turn less is at most 180
        c.check('no longer unwrapped', g.wrapped_state != WrappedState.UNWRAPPED)
    else:
        c.check('no longer wrapped', g.wrapped_state != WrappedState.WRAPPED)


@contract('C05', [R + 'AbstractCRS.wrap_or_unwrap', R + 'AbstractCRS.get_wrapped_state',
                  R + 'CoordinateReferenceSystem._get_wrapped_state_from_geometry_',
                  'ocgis.spatial.base:AbstractOperationsSpatialObject.wrap',
                  'ocgis.spatial.base:AbstractOperationsSpatialObject.unwrap'], concrete_only=True, level='bounded',
          bound='sampled variables of up to 3 by 2 points, point sets and boxes, masked or not', samples=250)
def wrap_geometries(c):
    """The state of a geometry variable is that of its unmasked geometries; wrapping moves each of them at its own place, and nothing else."""
    import numpy as np
    from shapely.affinity import translate
    from shapely.geometry import MultiPoint, MultiPolygon, Point, box
    from ocgis import GeometryVariable
    from ocgis.constants import WrappedState
    from ocgis.variable.crs import Spherical
    shape = c.choice('shape', [(1,), (2,), (3,), (3, 2), (2, 2)])
    kind = c.choice('kind', ['point', 'box', 'points', 'boxes'])
    domain = c.choice('domain', ['wrapped', 'unwrapped'])
    lo, hi = (-170, 170) if domain == 'wrapped' else (0, 350)
    geoms, mask = np.zeros(shape, dtype=object), np.zeros(shape, dtype=bool)

    def single(tag, kind):
        # the parts of one geometry lie on different sides of the equator
        x, y = c.int('x' + tag, lo, hi), c.int('y' + tag, *dict(a=(-80, -5), b=(5, 80)).get(tag[0], (-80, 80)))
        return Point(x, y) if kind == 'point' else box(x, y, x + c.int('w' + tag, 1, 9), y + 2)
    for i, idx in enumerate(np.ndindex(*shape)):
        if kind in ('point', 'box'):
            geoms[idx] = single(str(i), kind)
        else:
            a, b = single('a%d' % i, kind[:-1] if kind == 'points' else 'box'), single('b%d' % i, 'point' if kind == 'points' else 'box')
            geoms[idx] = (MultiPoint if kind == 'points' else MultiPolygon)([a, b])
        mask[idx] = c.choice('masked %d' % i, [False, False, True])
    masked = c.choice('has a mask', [True, False]) and not mask.all()
    if not masked:
        mask[:] = False
    live = [g for g, m in zip(geoms.flat, mask.flat) if not m]
    want = (WrappedState.UNWRAPPED if any(g.bounds[2] > 180 for g in live) else
            WrappedState.WRAPPED if any(g.bounds[0] < 0 for g in live) else WrappedState.UNKNOWN)
    gv = GeometryVariable(name='geom', value=geoms.copy(), mask=mask.copy() if masked else None, crs=Spherical(),
                          dimensions=['g', 'h'][:len(shape)])
    c.check('state', gv.wrapped_state == want)
    act = c.choice('action', ['wrap', 'unwrap'])
    out = c.call(getattr(gv, act))
    c.ok('returns', out)
    c.check('shape', gv.shape == shape)
    c.check('mask', np.array_equal(gv.get_mask() if gv.get_mask() is not None else np.zeros(shape, dtype=bool), mask))

    def cells(g):
        return [p for p in getattr(g, 'geoms', [g])]

    def moved(p):
        if act == 'wrap':
            if p.geom_type == 'Point':
                return translate(p, xoff=-360) if p.x > 180 else p
            left, right = p.intersection(box(-180, -90, 180, 400)), p.intersection(box(180, -90, 540, 400))
            return left.union(translate(right, xoff=-360))
        if p.geom_type == 'Point':
            return translate(p, xoff=360) if p.x < 0 else p
        left, right = p.intersection(box(-360, -90, 0, 400)), p.intersection(box(0, -90, 360, 400))
        return right.union(translate(left, xoff=360))
    for idx in np.ndindex(*shape):
        if mask[idx]:
            continue
        r, g = gv.get_value()[idx], geoms[idx]
        if kind == 'point':
            c.check('point', r.equals(moved(g)))
        elif kind == 'points':
            c.check('points', all(a.equals(moved(b)) for a, b in zip(cells(r), cells(g))) and len(cells(r)) == 2)
        else:
            m = moved(cells(g)[0])
            for p in cells(g)[1:]:
                m = m.union(moved(p))
            c.check('area kept at its place', r.symmetric_difference(m).area < 1e-6)
    if want == WrappedState.UNKNOWN:
        c.check('nothing to move', all(a.equals(b) for a, b, m in zip(gv.get_value().flat, geoms.flat, mask.flat) if not m))
