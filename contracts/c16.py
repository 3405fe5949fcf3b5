"""C16 Bounding-box selection picks exactly the coordinates in the box."""
from engine.contract import contract

G = 'ocgis.spatial.grid:'
GC = 'ocgis.spatial.geomc:'
VALS = [-2, -1, -.5, 0, .5, 1, 2]


class Aborted(Exception):
    pass


class Vm(object):
    """Stand-in for the virtual machine: an abort is an exception."""
    rank = 0
    size = 1

    def __init__(self):
        self.why = None

    def abort(self, exc=None, exit_code=1):
        self.why = exc
        raise Aborted(exc)


def box(c, dims='xy'):
    r = {}
    for d in dims:
        r['min' + d], r['max' + d] = c.real('min' + d, -4, 4, grid=VALS), c.real('max' + d, -4, 4, grid=VALS)
        c.assume(r['min' + d] <= r['max' + d])
    return r


def arrs(c, names, nd):
    shape = tuple(c.int('n%d' % i, 1, small=5) for i in range(nd))
    return shape, [c.arr(n, shape, grid=VALS, lo=-4, hi=4) for n in names]


@contract('C16', [G + 'arr_intersects_bounds'], samples=250)
def intersects_bounds(c):
    """Exactly the values inside the interval; touching values are reported per edge."""
    nd = c.choice('ndim', [1, 2, 3])
    shape, (a,) = arrs(c, ['a'], nd)
    x = c.snap(a)
    b = box(c, 'x')
    lo, hi = b['minx'], b['maxx']
    keep = c.choice('keep_touches', [True, False])
    tch = c.choice('touches', [True, False])
    t = c.mk((2,) + shape, lambda *i: False, kind='b') if tch else None
    out = c.call(G + 'arr_intersects_bounds', a, lo, hi, keep_touches=keep, touches=t)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, shape))
    inside = (lambda v: c.And(lo <= v, v <= hi)) if keep else (lambda v: c.And(lo < v, v < hi))
    c.forall('selected', shape, lambda *i: c.Iff(c.at(r, *i), inside(x(*i))))
    c.forall('argument untouched', shape, lambda *i: c.at(a, *i) == x(*i))
    if tch:
        c.forall('lower edge', shape, lambda *i: c.Iff(c.at(t, 0, *i), x(*i) == lo))
        c.forall('upper edge', shape, lambda *i: c.Iff(c.at(t, 1, *i), x(*i) == hi))


@contract('C16', [G + 'arr_intersects_bounds'], samples=150)
def intersects_bounds_section(c):
    """With a section, only values inside the section are selected."""
    shape, (a,) = arrs(c, ['a'], 2)
    x = c.snap(a)
    b = box(c, 'x')
    lo, hi = b['minx'], b['maxx']
    keep = c.choice('keep_touches', [True, False])
    s, e = c.int('start', 0, small=4), c.int('stop', 0, small=5)
    c.assume(s <= e)
    c.assume(e <= shape[0])
    out = c.call(G + 'arr_intersects_bounds', a, lo, hi, keep_touches=keep, section_slice=(slice(s, e), slice(None)))
    c.ok('returns', out)
    inside = (lambda v: c.And(lo <= v, v <= hi)) if keep else (lambda v: c.And(lo < v, v < hi))
    c.check('shape', c.same_shape(out.value, shape))
    c.forall('selected', shape, lambda i, j: c.Iff(c.at(out.value, i, j), c.And(s <= i, i < e, inside(x(i, j)))))


@contract('C16', [GC + 'get_xyz_select'], samples=300)
def xyz_select(c):
    """Coordinates in the box, z included when given; a corner of the box hit exactly is refused on request."""
    nd = c.choice('ndim', [1, 2])
    use_z = c.choice('z', [False, True])
    shape, a = arrs(c, ['x', 'y', 'z'] if use_z else ['x', 'y'], nd)
    vm = Vm()
    c.patch(GC + 'vm', vm)
    b = box(c, 'xyz' if use_z else 'xy')
    s = [c.snap(v) for v in a]
    keep, inv, refuse = (c.choice(k, [False, True]) for k in ('keep_touches', 'invert', 'no_touching'))
    lim = [(b['min' + d], b['max' + d]) for d in ('xyz' if use_z else 'xy')]
    kw = dict(z=a[2], z_bounds=lim[2]) if use_z else {}
    out = c.call(GC + 'get_xyz_select', a[0], a[1], (b['minx'], b['miny'], b['maxx'], b['maxy']), keep_touches=keep,
                 invert=inv, no_touching=refuse, **kw)
    corner = c.exists(shape, lambda *i: c.And(*[c.Or(v(*i) == lo, v(*i) == hi) for v, (lo, hi) in zip(s, lim)]))
    if refuse and c.If(corner):
        from ocgis.exc import NoTouching
        c.check('refused', c.And(out.raised(Aborted), vm.why is NoTouching))
        return
    c.ok('returns', out)
    r = out.value

    def inside(*i):
        return c.And(*[c.And(lo <= v(*i), v(*i) <= hi) if keep else c.And(lo < v(*i), v(*i) < hi)
                       for v, (lo, hi) in zip(s, lim)])
    c.check('shape', c.same_shape(r, shape))
    c.forall('selected', shape, lambda *i: c.Iff(c.at(r, *i), c.Not(inside(*i)) if inv else inside(*i)))
    for v, w in zip(a, s):
        c.forall('coordinates untouched', shape, lambda *i: c.at(v, *i) == w(*i))


def grid(c, two, bounds=False, mask=None, data=False, size=None):
    """A real grid and the coordinates of cell (i, j)."""
    from ocgis import Field, Grid, Variable
    m, n = size or (c.int('rows', 1, small=4), c.int('cols', 1, small=5))
    shp = lambda k: (m, n) if two else ((n,) if k == 'x' else (m,))
    dims = lambda k: ['dy', 'dx'] if two else ['d' + k]
    vs, s, sb = {}, {}, {}
    for k in 'xy':
        a = c.arr(k, shp(k), grid=VALS, lo=-4, hi=4)
        s[k] = c.snap(a)
        kw = {}
        if bounds:
            corners = 4 if two else 2
            b = c.arr(k + 'b', shp(k) + (corners,), grid=VALS, lo=-4, hi=4)
            sb[k] = c.snap(b)
            kw['bounds'] = Variable(name=k + 'b', value=b, dimensions=dims(k) + ['corners'])
        if mask is not None:
            kw['mask'] = mask.copy()
        vs[k] = Variable(name=k, value=a, dimensions=dims(k), **kw)
    kw = {}
    if data:
        d = c.arr('d', (2, m, n))
        s['d'] = c.snap(d)
        kw['parent'] = Field(variables=[Variable(name='d', value=d, dimensions=['t', 'dy', 'dx'])])
    g = Grid(vs['x'], vs['y'], **kw)
    xy = (lambda i, j: (s['x'](i, j), s['y'](i, j))) if two else (lambda i, j: (s['x'](j), s['y'](i)))
    return g, (m, n), xy, s, sb, shp


@contract('C16', [G + 'get_hint_mask_from_geometry_bounds'], samples=300)
def hint_mask(c):
    """Vector and matrix layouts: a cell is selected exactly when its own coordinates lie in the closed box."""
    two = c.choice('matrix', [False, True])
    g, shape, xy, s, _, shp = grid(c, two)
    vm = Vm()
    c.patch(G + 'vm', vm)
    b = box(c)
    inv, refuse = (c.choice(k, [False, True]) for k in ('invert', 'no_touching'))
    out = c.call(G + 'get_hint_mask_from_geometry_bounds', g, (b['minx'], b['miny'], b['maxx'], b['maxy']), invert=inv,
                 no_touching=refuse)

    def corner(i, j):
        x, y = xy(i, j)
        return c.And(c.Or(x == b['minx'], x == b['maxx']), c.Or(y == b['miny'], y == b['maxy']))
    if refuse and c.If(c.exists(shape, corner)):
        from ocgis.exc import NoTouching
        c.check('refused', c.And(out.raised(Aborted), vm.why is NoTouching))
        return
    c.ok('returns', out)

    def inside(i, j):
        x, y = xy(i, j)
        return c.And(b['minx'] <= x, x <= b['maxx'], b['miny'] <= y, y <= b['maxy'])
    c.check('shape', c.same_shape(out.value, shape))
    c.forall('selected', shape, lambda i, j: c.Iff(c.at(out.value, i, j), c.Not(inside(i, j)) if inv else inside(i, j)))
    for k in 'xy':
        c.forall('coordinates untouched', shp(k), lambda *i: c.at(getattr(g, k).get_value(), *i) == s[k](*i))


@contract('C16', [G + 'Grid._get_extent_', 'ocgis.spatial.base:AbstractOperationsSpatialObject.extent'], samples=250)
def extent(c):
    """The extent is attained and not exceeded, by the bounds if there are any. Masked coordinates of a matrix layout do
    not count."""
    two, bounds = c.choice('matrix', [False, True]), c.choice('bounds', [False, True])
    masked = two and c.choice('masked', [False, True])
    if masked:
        m, n = c.int('mask rows', 1, small=4), c.int('mask cols', 1, small=5)
        mask = c.arr('mask', (m, n), kind='b')
        km = c.snap(mask)
        c.assume(c.exists((m, n), lambda i, j: c.Not(km(i, j))))
        g, shape, xy, s, sb, shp = grid(c, two, bounds=bounds, mask=mask, size=(m, n))
        use = lambda i, j, *k: c.Not(km(i, j))
    else:
        g, shape, xy, s, sb, shp = grid(c, two, bounds=bounds)
        use = lambda *i: True
    out = c.call(lambda: g.extent)
    c.ok('returns', out)
    minx, miny, maxx, maxy = out.value
    for k, lo, hi in (('x', minx, maxx), ('y', miny, maxy)):
        v, sh = (sb[k], shp(k) + (4 if two else 2,)) if bounds else (s[k], shp(k))
        c.forall('not exceeded', sh, lambda *i: c.Implies(use(*i), c.And(lo <= v(*i), v(*i) <= hi)))
        c.check('minimum attained', c.exists(sh, lambda *i: c.And(use(*i), v(*i) == lo)))
        c.check('maximum attained', c.exists(sh, lambda *i: c.And(use(*i), v(*i) == hi)))


@contract('C16', ['ocgis.variable.geom:get_masking_slice'], samples=250)
def masking_slice(c):
    """The window is the smallest one holding every unmasked element (everything if nothing is masked); without any it
    is an error; target and mask come back for that window, or whole."""
    from ocgis.exc import EmptySubsetError
    from ocgis.variable.base import Variable
    from ocgis.variable.geom import get_masking_slice
    nd = c.choice('ndim', [1, 2])
    shape = tuple(c.int('n%d' % i, 1, small=5) for i in range(nd))
    k, a = c.arr('mask', shape, kind='b'), c.arr('a', shape)
    old, oa = c.snap(k), c.snap(a)
    target = Variable(name='t', value=a, dimensions=['y', 'x'][:nd])
    apply = c.choice('apply_slice', [True, False])
    if c.sym:
        c.patch('ocgis.variable.geom:get_trimmed_array_by_mask', trimmed_spec(c, shape))
    out = c.call(get_masking_slice, k, target, apply_slice=apply)
    if c.If(c.all_(shape, lambda *i: old(*i))):
        c.check('nothing selected is an error', out.raised(EmptySubsetError))
        return
    c.ok('returns', out)
    r, mask, slc = out.value
    check_window(c, shape, slc, lambda *i: c.Not(old(*i)))
    lo = [s.start if apply else 0 for s in slc]
    win = tuple(s.stop - s.start for s in slc) if apply else shape
    c.check('shape', c.same_shape(r.get_value(), win))
    c.check('shape of the mask', c.same_shape(mask.get_value(), win))
    at = lambda f, i: f(*[j + o for j, o in zip(i, lo)])
    c.forall('elements', win, lambda *i: c.at(r.get_value(), *i) == at(oa, i))
    c.forall('mask', win, lambda *i: c.Iff(c.at(mask.get_value(), *i), at(old, i)))
    c.forall('target untouched', shape, lambda *i: c.at(target.get_value(), *i) == oa(*i))
    c.forall('argument untouched', shape, lambda *i: c.Iff(c.at(k, *i), old(*i)))


def window_facts(c, shape, slc, sel):
    """Name, condition: the window is the smallest one holding the selected elements."""
    nd = len(shape)
    b = [(s.start, s.stop) for s in slc]
    for (lo, hi), n in zip(b, shape):
        yield 'window within the array', c.And(0 <= lo, lo < hi, hi <= n)
    for d in range(nd):
        rest = tuple(n for e, n in enumerate(shape) if e != d)
        at = lambda v, o, d=d: sel(*(list(o[:d]) + [v] + list(o[d:])))
        for name, v in (('first', b[d][0]), ('last', b[d][1] - 1)):
            yield '%s of axis %d needed' % (name, d), c.exists(rest, lambda *o: at(v, o)) if rest else at(v, ())


def check_window(c, shape, slc, sel):
    for name, cond in window_facts(c, shape, slc, sel):
        c.check(name, cond)
    c.forall('all selected cells in the window', shape, lambda *i: c.Implies(
        sel(*i), lambda: c.And(*[c.And(s.start <= j, j < s.stop) for s, j in zip(slc, i)])))


def some_window(c, shape, sel):
    slc = tuple(slice(c.int('lo%d' % d), c.int('hi%d' % d)) for d in range(len(shape)))
    for _, cond in window_facts(c, shape, slc, sel):
        c.assume(cond)
    c.assume_forall(shape, lambda *i: c.Implies(sel(*i), lambda: c.And(
        *[c.And(s.start <= j, j < s.stop) for s, j in zip(slc, i)])))
    return slc


def trimmed_spec(c, shape):
    """get_trimmed_array_by_mask by its contract (C03)."""
    from ocgis.exc import AllElementsMaskedError

    def spec(arr, return_adjustments=False):
        sel = lambda *i: c.Not(c.at(arr, *i))
        if not c.If(c.exists(shape, sel)):
            raise AllElementsMaskedError
        slc = some_window(c, shape, sel)
        return (arr[slc], slc) if return_adjustments else arr[slc]
    return spec


def masking_slice_spec(c, shape):
    """get_masking_slice by its contract."""
    from ocgis.exc import EmptySubsetError

    def spec(intersects_mask_value, target, apply_slice=True):
        sel = lambda *i: c.Not(c.at(intersects_mask_value, *i))
        if not c.If(c.exists(shape, sel)):
            raise EmptySubsetError
        slc = some_window(c, shape, sel)
        return target[slc] if apply_slice else target, None, slc
    return spec


def rect(c, b):
    """A rectangle; in the proof a geometry of which only the bounds are known."""
    lim = (b['minx'], b['miny'], b['maxx'], b['maxy'])
    if not c.sym:
        from shapely.geometry import Polygon
        return Polygon([(lim[0], lim[1]), (lim[2], lim[1]), (lim[2], lim[3]), (lim[0], lim[3])])
    from shapely.geometry.base import BaseGeometry

    class Rect(BaseGeometry):
        bounds = lim

        def __init__(self):
            pass

        def __del__(self):
            pass
    return Rect()


def _bbox_subset(c, two, masked):
    """Optimized box subset of a grid: cells outside the box are masked in addition to those already masked, the
    window is the smallest holding the selected cells, and the original is untouched."""
    from ocgis.exc import EmptySubsetError
    g, shape, xy, s, _, shp = grid(c, two, data=True)
    m, n = shape
    old = lambda i, j: False
    if masked:
        k = c.arr('mask', (m, n), kind='b')
        old = c.snap(k)
        g.set_mask(k)
    apply = c.choice('apply_slice', [True, False])
    b = box(c)
    if not c.sym:
        c.assume(b['minx'] < b['maxx'])
        c.assume(b['miny'] < b['maxy'])
    if c.sym:
        c.patch('ocgis.spatial.grid:get_masking_slice', masking_slice_spec(c, shape))
    out = c.call(g.get_spatial_subset_operation, 'intersects', rect(c, b), optimized_bbox_subset=True, return_slice=True,
                 apply_slice=apply)

    def inside(i, j):
        x, y = xy(i, j)
        return c.And(b['minx'] <= x, x <= b['maxx'], b['miny'] <= y, y <= b['maxy'])
    if c.If(c.Not(c.exists(shape, inside))):
        c.check('nothing in the box is an error', out.raised(EmptySubsetError))
        return
    c.ok('returns', out)
    r, slc = out.value
    r0, r1, c0, c1 = slc[0].start, slc[0].stop, slc[1].start, slc[1].stop
    check_window(c, shape, slc, inside)
    if not apply:
        r0, r1, c0, c1 = 0, m, 0, n
    c.check('rows', r.shape[0] == r1 - r0)
    c.check('columns', r.shape[1] == c1 - c0)
    win = (r1 - r0, c1 - c0)
    mask = r.get_mask()
    want = lambda i, j: c.Or(old(r0 + i, c0 + j), c.Not(inside(r0 + i, c0 + j)))
    d = r.parent['d']
    if mask is None:
        c.forall('no mask when nothing is masked', win, lambda i, j: c.Not(want(i, j)))
    else:
        c.forall('mask', win, lambda i, j: c.Iff(c.at(mask, i, j), want(i, j)))
    c.forall('data follows', (2,) + win, lambda t, i, j: c.at(d.get_value(), t, i, j) == s['d'](t, r0 + i, c0 + j))
    dm = d.get_mask()
    if dm is not None:
        c.forall('data masked where the grid is', (2,) + win, lambda t, i, j: c.Implies(
            c.at(dm, t, i, j), lambda: want(i, j)))
    # the original
    if masked:
        c.forall('original mask untouched', shape, lambda i, j: c.Iff(c.at(g.get_mask(), i, j), old(i, j)))
    else:
        c.check('original mask untouched', g.get_mask() is None)
    c.forall('original data untouched', (2, m, n), lambda t, i, j: c.at(g.parent['d'].get_value(), t, i, j) == s['d'](t, i, j))
    c.check('original data mask untouched', g.parent['d'].get_mask() is None)


def _register():
    def make(two, masked):
        def f(c):
            return _bbox_subset(c, two, masked)
        f.__doc__ = _bbox_subset.__doc__
        f.__name__ = f.__qualname__ = 'bbox_subset_%s%s' % ('matrix' if two else 'vector', '_masked' if masked else '')
        contract('C16', [G + 'Grid.get_spatial_subset_operation', 'ocgis.variable.base:set_mask_by_variable'], samples=60, timeout=600)(f)
    for two in (False, True):
        for masked in (False, True):
            make(two, masked)


_register()
