"""C19 Reducing and exploding mesh connectivity preserves every element."""
from engine.contract import contract
from contracts.common import optimal_slice_spec

M = 'ocgis.spatial.geomc:'
H = 'ocgis.util.helpers:'


@contract('C19', [M + 'reduce_reindex_coordinate_index', M + 'run_rr_root', H + 'arange_from_dimension'], samples=300)
def reduce_reindex(c):
    """Same coordinates through the new index; each retained one once; contiguous from the start index."""
    nd = c.choice('ndim', [1, 2])
    shape = tuple(c.int('n%d' % i, 1, small=4) for i in range(nd))
    a = c.arr('cindex', shape, 'i', 0, 9)
    v = c.snap(a)
    lo, hi = c.int('lowest', 0, small=3), c.int('beyond', 1, small=10)
    c.assume_forall(shape, lambda *i: c.And(lo <= v(*i), v(*i) < hi))
    start = c.choice('start_index', [0, 1])
    out = c.call(M + 'reduce_reindex_coordinate_index', a, start_index=start)
    c.ok('returns', out)
    new, u = out.value
    c.check('same shape', c.same_shape(new, shape))
    m = c.len(u)
    n, o = c.snap(new), c.snap(u)
    c.forall('numbered from the start index', shape, lambda *i: c.And(n(*i) >= start, n(*i) < start + m))
    c.forall('same coordinate through the new index', shape, lambda *i: o(n(*i) - start) == v(*i))
    c.forall('each retained coordinate once, in order', (m, m), lambda i, j: c.Implies(i < j, o(i) < o(j)))
    if nd == 1 or not c.sym:
        # the division behind a two-dimensional position is beyond the solvers inside an existence claim
        c.forall('every number is used', m, lambda k: c.exists(shape, lambda *i: n(*i) == start + k))
    c.forall('retained coordinates are of the index', m, lambda k: c.And(lo <= o(k), o(k) < hi))
    c.forall('the old index is untouched', shape, lambda *i: c.at(a, *i) == v(*i))


@contract('C19', M + 'iter_multipart_coordinates', level='bounded', bound='elements of up to six entries', samples=300)
def multipart(c):
    """The parts in order, without the break values."""
    n = c.choice('n', [0, 1, 2, 3, 4, 5, 6])
    a = c.arr('element', n, 'i', None if c.sym else -3, None if c.sym else 3)
    v = c.snap(a)
    mbv = c.int('break', hi=-1, small=3)
    want = [[]]
    for i in range(n):
        if v(i) == mbv:
            want.append([])
        else:
            want[-1].append(v(i))
    out = c.call(lambda: list(c.fn(M + 'iter_multipart_coordinates')(a, mbv)))
    c.ok('returns', out)
    got = out.value
    c.check('number of parts', len(got) == len(want))
    for k, (g, w) in enumerate(zip(got, want)):
        c.check('entries of part %d' % k, c.len(g) == len(w))
        for i, x in enumerate(w):
            c.check('part %d in order' % k, c.at(g, i) == x)


def mesh(c, cls, ci, n_nodes, start, how, mbv=None):
    """A geometry coordinates object of class cls over its own x and y, and what x and y hold."""
    V = c.fn('ocgis.variable.base:Variable')
    x, y = c.arr('x', n_nodes), c.arr('y', n_nodes)
    xs, ys = c.snap(x), c.snap(y)
    attrs = {}
    kw = {}
    if how == 'attribute':
        attrs['start_index'] = start
    else:
        kw['start_index'] = start
    if mbv is not None:
        attrs['multi_break_value'] = mbv
    dims = ['elementCount', 'nodes'][:len(c.shape(ci))]
    civ = V('cindex', value=ci, dimensions=dims, attrs=attrs)
    gc = c.fn(M + cls)(V('x', value=x, dimensions='node'), V('y', value=y, dimensions='node'), cindex=civ, **kw)
    return gc, xs, ys


def callee_spec(c, shape, v, start, nn, got):
    """The contract of reduce_reindex_coordinate_index for the connectivity v of that shape."""
    def callee(cindex, start_index=0):
        w = cindex.get_value() if hasattr(cindex, 'get_value') else cindex
        c.check('index given to the callee', c.And(c.same_shape(w, shape), start_index == start))
        c.forall('index given to the callee is the connectivity', shape, lambda *i: c.at(w, *i) == v(*i))
        m = c.int('retained', 1)
        u, nw = c.arr('unique', m, 'i'), c.arr('reindexed', shape, 'i')
        us, ns = c.snap(u), c.snap(nw)
        c.assume_forall(shape, lambda *i: c.And(ns(*i) >= start, ns(*i) < start + m, us(ns(*i) - start) == v(*i)))
        c.assume_forall(m, lambda k: c.And(start <= us(k), us(k) < start + nn))
        c.assume_forall((m, m), lambda i, j: c.Implies(i < j, us(i) < us(j)))
        got.append(us)
        return nw, u
    return callee


@contract('C19', [M + 'AbstractGeometryCoordinates.reduce_global', M + 'reduce_reindex_coordinate_index'], samples=200)
def reduce_mesh(c):
    """Every element has the same coordinates before and after; only referenced nodes are kept."""
    cls = c.choice('class', ['PolygonGC', 'PointGC'])
    shape = (c.int('elements', 1, small=3),)
    if cls == 'PolygonGC':
        shape += (c.choice('nodes', [3, 4]),)
    nn = c.int('node_count', 1, small=6)
    start = c.choice('start_index', [0, 1])
    how = c.choice('given_as', ['attribute', 'argument'])
    ci = c.arr('cindex', shape, 'i', 0, 6)
    if not c.sym:
        ci[:] = ci % nn + start
    v = c.snap(ci)
    c.assume_forall(shape, lambda *i: c.And(v(*i) >= start, v(*i) < start + nn))
    gc, xs, ys = mesh(c, cls, ci, nn, start, how)
    if c.sym:
        got = []
        c.patch(M + 'reduce_reindex_coordinate_index', callee_spec(c, shape, v, start, nn, got))
        c.patch('ocgis.util.helpers:get_optimal_slice_from_array', optimal_slice_spec(c))
    out = c.call(lambda: gc.reduce_global())
    c.ok('returns', out)
    r = out.value
    c.check('start index stays', r.start_index == start)
    new = r.cindex.get_value()
    c.check('shape of the connectivity', c.same_shape(new, shape))
    n = c.snap(new)
    x2, y2 = r.x.get_value(), r.y.get_value()
    m = c.len(x2)
    xx, yy = c.snap(x2), c.snap(y2)
    c.forall('index in range', shape, lambda *i: c.And(n(*i) >= start, n(*i) < start + m))
    c.forall('same x', shape, lambda *i: xx(n(*i) - start) == xs(v(*i) - start))
    c.forall('same y', shape, lambda *i: yy(n(*i) - start) == ys(v(*i) - start))
    c.check('node dimension has the size of the coordinates', r.parent.dimensions['node'].size == m)
    c.forall('the mesh itself is untouched', shape, lambda *i: c.at(gc.cindex.get_value(), *i) == v(*i))
    c.check('nodes of the mesh', c.len(gc.x.get_value()) == nn)
    if not c.sym:
        c.forall('only referenced nodes', m, lambda k: c.exists(shape, lambda *i: n(*i) == start + k))
    else:
        u, = got
        c.check('as many nodes as retained', m == c.len(r.x.get_value()))
        c.forall('the retained nodes, once each', m, lambda k: c.And(xx(k) == xs(u(k) - start), yy(k) == ys(u(k) - start)))


ROWS = [[[0, 1, 2]], [[0, 1, 2, 3], [3, 2, 1, 0]], [[0, 1, 2, None, 3, 4, 1]], [[2, 1, 0, None, 1, 2, 3], [0, 1, None, 2, 3, None, 4]]]


def connectivity(c, start):
    """A connectivity with free coordinate indices and break values in chosen places."""
    rows = c.choice('rows', ROWS)
    broken = any(x is None for r in rows for x in r)
    nn = c.int('node_count', 1, small=6)
    ci = c.arr('cindex', (len(rows), len(rows[0])), 'i', 0, 6)
    if not c.sym:
        ci[:] = ci % nn + start
    for i, r in enumerate(rows):
        for j, x in enumerate(r):
            if x is None:
                ci[i, j] = -8
            else:
                c.assume(c.And(ci[i, j] >= start, ci[i, j] < start + nn))
    v = c.snap(ci)
    parts = []
    for i, r in enumerate(rows):
        ps = [[]]
        for j, x in enumerate(r):
            if x is None:
                ps.append([])
            else:
                ps[-1].append(v(i, j) - start)
        parts.append(ps)
    return rows, broken, nn, ci, v, parts


class Shape(object):
    def __init__(self, *a):
        self.a = a


def same_parts(c, name, geom, ps, xs, ys, broken):
    """The geometry is made of the coordinates of every part in order."""
    if broken:
        c.check(name + ' is a multi-part geometry', isinstance(geom, list))
    got = geom if broken else [geom]
    c.check(name + ' has every part', len(got) == len(ps))
    for g, p in zip(got, ps):
        x, y = g.a[0], g.a[1]
        c.check(name + ' has the coordinates of the part', c.And(c.len(x) == len(p), c.len(y) == len(p)))
        for k, q in enumerate(p):
            c.check(name + ' coordinates in order', c.And(c.at(x, k) == xs(q), c.at(y, k) == ys(q)))


@contract('C19', [M + 'AbstractGeometryCoordinates.get_geometry_iterable', M + 'AbstractGeometryCoordinates.reduce_global',
                  M + 'PolygonGC.get_element_node_connectivity_by_index', M + 'iter_multipart_coordinates'],
          level='bounded', bound='one or two elements of three, four or seven nodes, up to three parts; any node count, '
                                 'indices and coordinates', samples=300, max_paths=8000)
def element_geometries(c):
    """Each element in turn, part by part, again after iterating, and the same ones on the reduced mesh."""
    start = c.choice('start_index', [0, 1])
    how = c.choice('given_as', ['attribute', 'argument'])
    rows, broken, nn, ci, v, parts = connectivity(c, start)
    gc, xs, ys = mesh(c, 'PolygonGC', ci, nn, start, how, -8 if broken else None)
    c.patch(M + 'PolygonGC.get_shapely_geometry', lambda self, *a: Shape(*a))
    c.patch(M + 'PolygonGC.__shapely_multipart_class__', list)
    c.check('multi-part', gc.has_multi == broken)
    reduced = c.choice('reduced', [False, True])
    if reduced:
        if c.sym:
            c.patch('ocgis.util.helpers:get_optimal_slice_from_array', optimal_slice_spec(c))
            where = [(i, j) for i, r in enumerate(rows) for j, x in enumerate(r) if x is not None]
            if broken:
                def held(k):
                    return c.item([v(i, j) for i, j in where], k)
                c.patch(M + 'reduce_reindex_coordinate_index', callee_spec(c, (len(where),), held, start, nn, []))
            else:
                c.patch(M + 'reduce_reindex_coordinate_index',
                        callee_spec(c, (len(rows), len(rows[0])), v, start, nn, []))
        out = c.call(lambda: gc.reduce_global())
        c.ok('reduces', out)
        target = out.value
        now = target.cindex.get_value()
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                if x is None:
                    c.check('breaks stay', c.at(now, i, j) == -8)
                else:
                    c.lemma('a node of the reduced mesh', c.at(now, i, j) >= start)
    else:
        target = gc
    for again in ('first', 'second'):
        out = c.call(lambda: list(target.get_geometry_iterable(use_memory_optimizations=False)))
        c.ok('iterates', out)
        c.check('one geometry per element', [i for i, _ in out.value] == list(range(len(rows))))
        for (i, g), ps in zip(out.value, parts):
            same_parts(c, again + ' geometry', g, ps, xs, ys, broken)
    after = gc.cindex.get_value()
    c.forall('the connectivity is untouched', (len(rows), len(rows[0])), lambda i, j: c.at(after, i, j) == v(i, j))
