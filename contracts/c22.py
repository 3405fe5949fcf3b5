"""C22 Spatial selection keeps exactly the elements meeting the selection geometry."""
import itertools

import numpy as np

from engine.contract import contract

V = 'ocgis.variable.geom:'
GC = 'ocgis.spatial.geomc:'
E = 'ocgis.exc:'


class Geom(object):
    """A geometry of the proof: known by its number only, with any predicates."""

    def __init__(self, c, name):
        self.c, self.name = c, name

    def intersects(self, i):
        return self.c.uf('meets_' + self.name, i) == 1

    def touches(self, i):
        return self.c.uf('touches_' + self.name, i) == 1


def boxes(c, shape, name='g'):
    """Boxes at random places (some only touch the selection) for the runs against the real libraries."""
    from shapely.geometry import box
    w = c.arr(name + '_place', tuple(shape) + (2,), 'i', lo=0, hi=6)
    g = np.empty(shape, dtype=object)
    for i in itertools.product(*[range(s) for s in shape]):
        g[i] = box(w[i][0], w[i][1], w[i][0] + 1, w[i][1] + 1)
    return g


def selection(c):
    from shapely.geometry import MultiPolygon, Polygon, box
    return c.choice('selection', [box(2, 2, 4, 4), Polygon([(0, 0), (5, 0), (0, 5)]), MultiPolygon([box(0, 0, 1, 1), box(3, 3, 5, 6)]),
                                  box(50, 50, 51, 51), MultiPolygon([box(1, 1, 2, 2), box(2.5, 1, 4, 2)])])


class Var(object):
    """What the mask computation asks of a geometry variable."""

    def __init__(self, c, value, mask):
        self.c, self.value, self.mask = c, value, mask

    def get_value(self):
        return self.value

    def get_mask(self, create=False):
        return self.mask

    def get_spatial_index(self, target=None):
        """The spatial index by its contract: the positions of the target with the predicate, each at least once."""
        c = self.c
        t = c.snap(target)

        class Index(object):
            def iter_intersects(self, geometry, arr, keep_touches=True):
                def hit(k):
                    return c.And(geometry.intersects(t(k)), c.Or(keep_touches, c.Not(geometry.touches(t(k)))))
                n, at = c.where(c.mk(c.len(target), hit, 'b'))
                return c.mklist(n, at)
        return Index()


def mask_contract(c, nd):
    shape = tuple(c.int('n%d' % d, 1, small=4) for d in range(nd))
    k = c.arr('mask', shape, 'b')
    keep, index, hint = c.choice('keep_touches', [True, False]), c.choice('index', [False, True]), c.choice('hint', [False, True])
    old = c.snap(k)
    if c.sym:
        g = c.arr('geometry', shape, 'i')
        sel = Geom(c, 'selection')
        c.patch('ocgis.variable.geom:prep', lambda x: x)
        c.patch('ocgis.variable.geom:iter_array', lambda a, return_value=False: c.mklist(c.len(a), lambda q: ((q,), c.at(a, q))))
        gv = Var(c, g, None if hint else k)
        at = c.snap(g)
        meets = lambda *i: c.And(sel.intersects(at(*i)), c.Or(keep, c.Not(sel.touches(at(*i)))))
    else:
        from ocgis import GeometryVariable
        g = boxes(c, shape)
        sel = selection(c)
        gv = GeometryVariable(name='g', value=g, mask=None if hint else k, dimensions=['y', 'x', 'z'][:nd])
        meets = lambda *i: bool(sel.intersects(g[i]) and (keep or not sel.touches(g[i])))
    out = c.call(V + 'geometryvariable_get_mask_from_intersects', gv, sel, use_spatial_index=index, keep_touches=keep,
                 original_mask=k if hint else None)
    c.ok('returns', out)
    r = c.snap(out.value)
    c.check('shape', c.same_shape(out.value, shape))
    c.forall('unmasked exactly if selected', shape, lambda *i: c.Iff(r(*i), c.Not(c.And(c.Not(old(*i)), meets(*i)))))
    c.forall('the mask stays', shape, lambda *i: c.Iff(c.at(k, *i), old(*i)))


@contract('C22', V + 'geometryvariable_get_mask_from_intersects', samples=200)
def intersects_mask(c):
    """Unmasked are exactly the elements not masked before whose geometry meets the selection - not those only touching it,
    unless they are to be kept - with and without the spatial index."""
    mask_contract(c, 1)


@contract('C22', V + 'geometryvariable_get_mask_from_intersects', level='bounded', bound='sampled arrays of 2 and 3 axes', samples=200,
          concrete_only=True)
def intersects_mask_nd(c):
    """The same for more axes (the array is reached through its flat view there)."""
    mask_contract(c, c.choice('ndim', [2, 3]))


@contract('C22', [V + 'GeometryProcessor.iter_intersects', V + 'GeometryProcessor.iter_intersection'], level='bounded',
          bound='at most four geometries, any predicates', samples=300)
def processor(c):
    """Every geometry is reported under its own index: selected if there is one and it meets the selection, not if it only touches
    (unless kept); the intersections are those with the selection; a processor is used once."""
    n = c.choice('n', [0, 1, 2, 4])
    keep, inter = c.choice('keep_touches', [True, False]), c.choice('intersection', [False, True])
    missing = [c.choice('missing%d' % i, [False, True]) if i in (0, 2) else False for i in range(n)]
    if c.sym:
        class One(object):
            def __init__(self, i):
                self.i = i

            def intersection(self, other):
                assert other is sel
                return ('intersection', self.i)
        geoms = [None if m else One(i) for i, m in enumerate(missing)]
        sel = Geom(c, 'selection')
        meet, touch = sel.intersects, sel.touches
        sel.intersects, sel.touches = lambda g: meet(g.i), lambda g: touch(g.i)
        c.patch('ocgis.variable.geom:prep', lambda x: x)
        want = lambda i: c.And(meet(i), c.Or(keep, c.Not(touch(i))))
        same = lambda a, i: a == ('intersection', i) if inter else a is geoms[i]
    else:
        g = boxes(c, (n,))
        geoms = [None if m else x for x, m in zip(g, missing)]
        sel = selection(c)
        want = lambda i: bool(sel.intersects(geoms[i]) and (keep or not sel.touches(geoms[i])))
        same = lambda a, i: a.equals(geoms[i].intersection(sel)) if inter else a is geoms[i]
    from ocgis.variable.geom import GeometryProcessor
    gp = GeometryProcessor([(10 + i, x) for i, x in enumerate(geoms)], sel, keep_touches=keep)
    name = 'iter_intersection' if inter else 'iter_intersects'
    out = c.call(lambda: list(getattr(gp, name)()))
    c.ok('returns', out)
    r = out.value
    c.check('all', len(r) == n)
    for i in range(n):
        c.check('index %d' % i, r[i][0] == 10 + i)
        if geoms[i] is None:
            c.check('missing %d' % i, c.And(c.Not(r[i][1]), r[i][2] is None))
        else:
            c.check('selected %d' % i, c.Iff(r[i][1], want(i)))
            if c.If(want(i)):
                c.check('geometry %d' % i, same(r[i][2], i))
            elif inter:
                c.check('no intersection %d' % i, r[i][2] is None)
    again = c.call(lambda: list(getattr(gp, name)()))
    c.check('used once', again.raised(ValueError))


def touching(c, name='keep_touches'):
    return c.choice(name, [True, False])


def hits(sel, g, keep):
    return bool(sel.intersects(g) and (keep or not sel.touches(g)))


def spans(hit):
    """The smallest slices around the hits."""
    return tuple(slice(int(w.min()), int(w.max()) + 1) for w in np.where(hit))


@contract('C22', [V + 'GeometryVariable.get_intersects', V + 'GeometryVariable.get_intersection',
                  V + 'GeometryVariable.get_spatial_subset_operation', V + 'GeometryVariable.get_mask_from_intersects'], level='bounded',
          bound='sampled geometry variables of 1 and 2 axes up to 4x4 with data variables and masks', samples=260, concrete_only=True)
def variable_subset(c):
    """The outcome spans the smallest slices around the selected elements; unmasked in it are exactly those; data variables on the same
    dimensions show the elements the geometries belong to, masked alike; intersections are clipped by the selection; the variable operated
    on stays as it was; nothing selected is an error."""
    from ocgis import Field, GeometryVariable, Variable
    from ocgis.exc import EmptySubsetError
    nd = c.choice('ndim', [1, 2])
    shape = tuple(c.int('n%d' % d, 1, 4) for d in range(nd))
    g = boxes(c, shape)
    k = c.arr('mask', shape, 'b') if c.choice('masked', [False, True]) else None
    sel = selection(c)
    keep, op = touching(c), c.choice('op', ['intersects', 'intersection'])
    index, ret_slice = c.choice('index', [False, True]), c.choice('return_slice', [False, True])
    check, hint, cascade = c.choice('intersects_check', [True, True, False]), c.choice('hint', [False, True]), c.choice('cascade', [True, True, False])
    inplace = c.choice('inplace', [False, False, True])
    dims = ['y', 'x'][:nd]
    gv = GeometryVariable(name='g', value=g.copy(), mask=None if k is None else k.copy(), dimensions=dims)
    d = np.arange(g.size * 2).reshape(shape + (2,))
    data = Variable(name='d', value=d.copy(), dimensions=dims + ['t'])
    other = Variable(name='o', value=np.arange(2), dimensions='t')
    f = Field(variables=[gv, data, other], geom=gv)
    hm = np.array(c.arr('hint_mask', shape, 'b')) if hint else None
    masked = np.zeros(shape, bool) if k is None else np.array(k)
    if hint:
        hm |= masked    # a hint limits the search further
    hm0 = None if hm is None else hm.copy()
    whole = op == 'intersection' and not check
    kw = {'return_slice': ret_slice}
    if not whole:
        kw.update(use_spatial_index=index, keep_touches=keep, original_mask=hm, cascade=cascade)
    if op == 'intersection':
        kw.update(intersects_check=check, inplace=inplace)
    base = hm if hint else masked
    hit = np.zeros(shape, bool)
    for i in np.ndindex(*shape):
        hit[i] = (not masked[i]) if whole else (not base[i] and hits(sel, g[i], keep))
    out = c.call(V + 'GeometryVariable.get_spatial_subset_operation', gv, op, sel, **kw)
    before = gv.get_value()
    if op == 'intersection' and inplace and whole:
        pass
    elif not (op == 'intersection' and inplace):
        c.check('the geometries stay', all(before[i] is g[i] or before[i].equals(g[i]) for i in np.ndindex(*shape)))
    c.check('the mask stays', gv.get_mask() is None and k is None or k is not None and np.array_equal(gv.get_mask(), k))
    c.check('the data stay', np.array_equal(data.get_value(), d) and (k is not None or not np.any(data.get_mask(create=True))))
    if hint:
        c.check('the hint stays', np.array_equal(hm, hm0))
    if not hit.any() and not whole:
        c.check('nothing selected', out.raised(EmptySubsetError))
        return
    c.ok('returns', out)
    r, sl = out.value if ret_slice else (out.value, None)
    want = tuple(slice(0, n) for n in shape) if whole else spans(hit)
    if ret_slice:
        c.check('slice', tuple((s.start, s.stop) for s in sl) == tuple((s.start, s.stop) for s in want))
    h = hit[want]
    c.check('shape', tuple(r.shape) == h.shape)
    rm = r.get_mask(create=True)
    c.check('mask', np.array_equal(rm, ~h))
    for i in np.ndindex(*h.shape):
        if not h[i]:
            continue
        src = g[want][i]
        e = src.intersection(sel) if op == 'intersection' else src
        c.check('geometry', r.get_value()[i].equals(e))
    p = r.parent
    c.check('data rows', np.array_equal(p['d'].get_value(), d[want]))
    dm = p['d'].get_mask(create=True)
    if cascade and not whole:
        c.check('data mask', np.array_equal(dm, np.repeat(rm[..., None], 2, -1)))
    c.check('other data', np.array_equal(p['o'].get_value(), np.arange(2)) and not p['o'].get_mask(create=True).any())
    if op == 'intersection':
        types = {x.geom_type for x in r.get_value()[h]} - {'GeometryCollection'}
        c.check('geometry type', r._geom_type == 'auto' or r._geom_type in types | {'Multi' + t for t in types} | {'GeometryCollection'})


@contract('C22', [V + 'GeometryVariable.get_buffer', V + 'GeometryVariable.get_nearest'], level='bounded', bound='sampled 1-D and 2-D variables',
          samples=150, concrete_only=True)
def buffer_and_nearest(c):
    """Buffering changes every unmasked geometry in place of its own and no other, leaving the variable as it was; the nearest geometry is
    an unmasked one no other unmasked one is nearer than, reported with its index."""
    from ocgis import GeometryVariable
    nd = c.choice('ndim', [1, 2])
    shape = tuple(c.int('n%d' % d, 1, 4) for d in range(nd))
    g = boxes(c, shape)
    k = c.arr('mask', shape, 'b') if c.choice('masked', [False, True]) else None
    dims = ['y', 'x'][:nd]
    gv = GeometryVariable(name='g', value=g.copy(), mask=None if k is None else np.array(k), dimensions=dims)
    masked = np.zeros(shape, bool) if k is None else np.array(k)
    w = c.choice('width', [0.25, 1.0])
    out = c.call(V + 'GeometryVariable.get_buffer', gv, w)
    c.ok('buffer', out)
    b = out.value
    c.check('shape', tuple(b.shape) == shape and b.dimension_names == tuple(dims))
    c.check('mask', np.array_equal(b.get_mask(create=True), masked))
    for i in np.ndindex(*shape):
        c.check('source stays', gv.get_value()[i].equals(g[i]))
        if not masked[i]:
            c.check('buffered', b.get_value()[i].equals(g[i].buffer(w)))
    if masked.all():
        return
    sel = selection(c)
    out = c.call(V + 'GeometryVariable.get_nearest', gv, sel, return_indices=True)
    c.ok('nearest', out)
    r, at = out.value
    dist = {i: sel.centroid.distance(g[i]) for i in np.ndindex(*shape) if not masked[i]}
    at = tuple(at) if isinstance(at, (tuple, list)) else (at,)
    c.check('nearest', not masked[at] and dist[at] == min(dist.values()))
    c.check('its geometry', r.get_value().size == 1 and r.get_value().flatten()[0].equals(g[at]))


@contract('C22', ['ocgis.spatial.index:SpatialIndex.add', 'ocgis.spatial.index:SpatialIndex.iter_intersects',
                  'ocgis.spatial.index:SpatialIndex.iter_rtree_intersection'], level='bounded', bound='sampled sets of up to 12 boxes', samples=200,
          concrete_only=True)
def spatial_index(c):
    """The index finds, among the geometries added, exactly those a search of all of them finds."""
    from ocgis.spatial.index import SpatialIndex
    n = c.int('n', 0, 12)
    g = boxes(c, (n,))
    sel = selection(c)
    keep = touching(c)
    si = SpatialIndex()
    if c.choice('sequence', [False, True]):
        c.ok('add', c.call('ocgis.spatial.index:SpatialIndex.add', si, list(range(n)), list(g)))
    else:
        for i in range(n):
            c.ok('add %d' % i, c.call('ocgis.spatial.index:SpatialIndex.add', si, i, g[i]))
    out = c.call('ocgis.spatial.index:SpatialIndex.iter_intersects', si, sel, g, keep_touches=keep)
    c.ok('returns', out)
    c.check('found', set(out.value) == {i for i in range(n) if hits(sel, g[i], keep)})
    out = c.call('ocgis.spatial.index:SpatialIndex.iter_rtree_intersection', si, sel)
    found = set(out.value)
    c.check('candidates', found >= {i for i in range(n) if sel.intersects(g[i])})


def points(c, n):
    from ocgis import Field, Variable
    from ocgis.spatial.geomc import PointGC
    xy = c.arr('xy', (n, 2), 'i', lo=0, hi=6)
    x, y = Variable('x', value=xy[:, 0] * 1., dimensions='n'), Variable('y', value=xy[:, 1] * 1., dimensions='n')
    f = Field(variables=[x, y, Variable('d', value=np.arange(n), dimensions='n')])
    from shapely.geometry import Point
    return PointGC(x, y, parent=f), [Point(a, b) for a, b in xy]


def polygons(c, n):
    from ocgis import Field, Variable
    from ocgis.spatial.geomc import PolygonGC
    from shapely.geometry import Polygon
    start = c.choice('start_index', [0, 1])
    at = c.arr('at', (n, 2), 'i', lo=0, hi=6)
    xs, ys, cc, gs = [], [], [], []
    for i in range(n):
        a, b = float(at[i][0]), float(at[i][1])
        cc.append([len(xs) + q + start for q in range(4)])
        xs += [a, a + 1, a + 1, a]
        ys += [b, b, b + 1, b + 1]
        gs.append(Polygon(list(zip(xs[-4:], ys[-4:]))))
    x, y = Variable('x', value=np.array(xs), dimensions='node'), Variable('y', value=np.array(ys), dimensions='node')
    ci = Variable('c', value=np.array(cc), dimensions=['n', 'mn'], attrs={'start_index': start})
    f = Field(variables=[x, y, ci, Variable('d', value=np.arange(n), dimensions='n')])
    return PolygonGC(x, y, cindex=ci, parent=f, packed=False), gs


@contract('C22', [GC + 'AbstractGeometryCoordinates.get_spatial_subset_operation', GC + 'AbstractGeometryCoordinates.get_geometry_iterable'],
          level='bounded', bound='sampled point and polygon coordinates of up to 6 elements', samples=400, concrete_only=True)
def unstructured_subset(c):
    """Of unstructured coordinates exactly the unmasked elements meeting the selection are kept (or left unmasked if the elements are not
    sliced out), with the data variables of the elements; the object, its mask and hint masks stay as they were."""
    n = c.int('n', 2, 6)
    kind = c.choice('kind', [points, polygons])
    gc, gs = kind(c, n)
    k = np.array(c.arr('mask', (n,), 'b')) if c.choice('masked', [False, True]) else None
    if k is not None:
        gc.set_mask(k.copy())
    h = np.array(c.arr('hint', (n,), 'b')) if c.choice('hint', [False, True]) else None
    h0 = None if h is None else h.copy()
    sel = selection(c)
    keep, sliced, op = touching(c), c.choice('apply_slice', [True, False]), c.choice('op', ['intersects', 'intersection'])
    masked = np.zeros(n, bool) if k is None else k
    out = c.call(GC + 'AbstractGeometryCoordinates.get_geometry_iterable', gc, hint_mask=h)
    c.ok('geometries', out)
    it = list(out.value)
    c.check('indices', [i for i, _ in it] == list(range(n)))
    for i, x in it:
        skip = masked[i] or (h is not None and h[i])
        c.check('geometry %d' % i, x is None if skip else x is not None and x.equals(gs[i]))
    hit = np.array([not masked[i] and not (h is not None and h[i]) and hits(sel, gs[i], keep) for i in range(n)])
    out = c.call(GC + 'AbstractGeometryCoordinates.get_spatial_subset_operation', gc, op, sel, return_slice=True, original_mask=h,
                 keep_touches=keep, apply_slice=sliced)
    if h is not None:
        c.check('hint stays', np.array_equal(h, h0))
    c.check('mask stays', np.array_equal(gc.get_mask(create=False) if k is not None else np.zeros(n, bool), masked) and
            (k is not None or gc.get_mask() is None))
    c.check('parent stays', np.array_equal(gc.parent['d'].get_value(), np.arange(n)) and not gc.parent['d'].get_mask(create=True).any()
            and gc.shape == (n,))
    if not hit.any() and sliced:
        c.ok('empty', out)
        c.check('empty', out.value[0].is_empty)
        return
    c.ok('returns', out)
    r, sl = out.value
    c.check('slice', np.array_equal(np.asarray(sl), hit))
    if not sliced and op == 'intersection' and not hit.any():
        return
    where = np.where(hit)[0] if sliced else np.arange(n)
    c.check('data', np.array_equal(r.parent['d'].get_value(), where))
    rm = r.get_mask(create=True) if r.get_mask() is not None else np.zeros(len(where), bool)
    c.check('mask', np.array_equal(rm, np.zeros(len(where), bool) if sliced else ~hit))
    if op == 'intersection':
        v = r.get_value()
    else:
        v = [x for _, x in r.get_geometry_iterable()]
    for q, i in enumerate(where):
        if hit[i]:
            c.check('element %d' % i, v[q].equals(gs[i].intersection(sel) if op == 'intersection' else gs[i]))
    if not sliced and op == 'intersects':
        c.check('data mask', np.array_equal(r.parent['d'].get_mask(create=True), ~hit))


@contract('C22', ['ocgis.spatial.grid:Grid.get_intersects', 'ocgis.spatial.grid:Grid.get_intersection',
                  'ocgis.spatial.grid:Grid.get_spatial_subset_operation'], level='bounded', bound='sampled grids of up to 6x6 cells', samples=220,
          concrete_only=True)
def grid_subset(c):
    """The subset of a grid spans the smallest slices around the cells meeting the selection and leaves exactly those unmasked, with the data
    of these cells; a selecting geometry variable and its wrapped twin select alike."""
    from ocgis import Field, GeometryVariable, Variable
    from ocgis.exc import EmptySubsetError
    ny, nx = c.int('ny', 1, 6), c.int('nx', 2, 6)
    vec, bounds = c.choice('vectorized', [True, False]), c.choice('bounds', [True, False])

    def axis(name, n):
        w = c.arr(name + '_widths', (n,), 'i', lo=1, hi=6) if c.choice(name + '_varies', [False, True]) else np.ones(n, int)
        e = np.concatenate([[0], np.cumsum(w)]) * 1.
        b = np.stack([e[:-1], e[1:]], 1)
        if c.choice(name + '_descending', [False, True]):
            b = b[::-1, ::-1].copy()
        return b.mean(1), b
    (xv, xb), (yv, yb) = axis('x', nx), axis('y', ny)
    if vec:
        x, y = Variable('x', value=xv, dimensions='x'), Variable('y', value=yv, dimensions='y')
        if bounds:
            x.set_bounds(Variable('xb', value=xb, dimensions=['x', 'b']))
            y.set_bounds(Variable('yb', value=yb, dimensions=['y', 'b']))
    else:
        Y, X = np.meshgrid(yv, xv, indexing='ij')
        x, y = Variable('x', value=X.copy(), dimensions=['y', 'x']), Variable('y', value=Y.copy(), dimensions=['y', 'x'])
        if bounds:
            xc = np.stack([xb[:, 0], xb[:, 1], xb[:, 1], xb[:, 0]], 1)
            yc = np.stack([yb[:, 0], yb[:, 0], yb[:, 1], yb[:, 1]], 1)
            dims = ['y', 'x', 'c']
            x.set_bounds(Variable('xb', value=np.repeat(xc[None], ny, 0), dimensions=dims))
            y.set_bounds(Variable('yb', value=np.repeat(yc[:, None], nx, 1), dimensions=dims))
    d = np.arange(ny * nx).reshape(ny, nx)
    f = Field(variables=[x, y, Variable('d', value=d.copy(), dimensions=['y', 'x'])], dimension_map={'x': {'variable': 'x'}, 'y': {'variable': 'y'}})
    grid = f.grid
    from shapely.geometry import Point, box
    k = np.array(c.arr('mask', (ny, nx), 'b')) if c.choice('masked', [False, True]) else None
    if k is not None:
        grid.set_mask(k.copy())
    masked = np.zeros((ny, nx), bool) if k is None else k
    sel = selection(c)
    keep = touching(c)
    op = c.choice('op', ['intersects', 'intersection'])
    sliced = c.choice('apply_slice', [True, False])
    cell = lambda j, i: box(xb[i].min(), yb[j].min(), xb[i].max(), yb[j].max()) if bounds else Point(xv[i], yv[j])
    hit = np.array([[not masked[j, i] and hits(sel, cell(j, i), keep) for i in range(nx)] for j in range(ny)])
    given = GeometryVariable.from_shapely(sel) if c.choice('as_variable', [False, True]) else sel
    out = c.call('ocgis.spatial.grid:Grid.get_spatial_subset_operation', grid, op, given, return_slice=True, keep_touches=keep, apply_slice=sliced)
    c.check('parent stays', np.array_equal(f['d'].get_value(), d) and grid.shape == (ny, nx) and
            np.array_equal(np.zeros((ny, nx), bool) if grid.get_mask() is None else grid.get_mask(), masked))
    if not hit.any():
        c.check('nothing selected', out.raised(EmptySubsetError))
        return
    c.ok('returns', out)
    r, sl = out.value
    s = spans(hit)
    if sliced:
        c.check('slice', tuple((q.start, q.stop) for q in sl) == tuple((q.start, q.stop) for q in s))
    w = s if sliced else (slice(0, ny), slice(0, nx))
    c.check('shape', tuple(r.shape) == hit[w].shape)
    p = r.parent
    c.check('data', np.array_equal(p['d'].get_value(), d[w]))
    rm = r.get_mask() if r.get_mask() is not None else np.zeros(hit[w].shape, bool)
    c.check('mask', np.array_equal(rm, ~hit[w]), lambda: '%s %s' % (rm.tolist(), (~hit[w]).tolist()))
    if op == 'intersection':
        for j, i in zip(*np.where(hit[w])):
            c.check('clipped', r.get_value()[j, i].equals(cell(j + w[0].start, i + w[1].start).intersection(sel)))
