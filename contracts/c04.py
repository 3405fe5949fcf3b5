"""C04 Interpolated bounds and corners are gap free and consistent with the centers."""
from engine.contract import contract

H = 'ocgis.util.helpers:'


def edge_spec(c, n, x):
    """Edges 0..n interpolated between n centers."""
    mid = lambda k: (x(k - 1) + x(k)) / 2
    if c.If(n == 2):
        step = x(1) - x(0)
    else:
        # mean distance between neighbouring interior edges
        step = (mid(n - 1) - mid(1)) / (n - 2)
    return lambda k: c.Ite(k == 0, lambda: mid(1) - step, lambda: c.Ite(k == n, lambda: mid(n - 1) + step,
                                                                        lambda: mid(k)))


@contract('C04', [H + 'get_bounds_vector_from_centroids'], samples=300)
def bounds_vector(c):
    """Interior edges are midpoints, outer edges continue by the mean distance of the interior edges."""
    n = c.int('n', 2, small=8)
    a = c.arr('centers', n)
    x = c.snap(a)
    out = c.call(H + 'get_bounds_vector_from_centroids', a)
    c.ok('returns', out)
    r = out.value
    c.check('one edge more than centers', c.And(len(c.shape(r)) == 1, c.shape(r)[0] == n + 1))
    e = edge_spec(c, n, x)
    c.forall('edges', n + 1, lambda k: c.eq(c.at(r, k), e(k)))
    c.forall('centers are not modified', n, lambda k: c.at(a, k) == x(k))


@contract('C04', [H + 'get_bounds_vector_from_centroids'], samples=60)
def bounds_too_short(c):
    n = c.int('n', 0, 1)
    a = c.arr('centers', n)
    out = c.call(H + 'get_bounds_vector_from_centroids', a)
    c.check('an error below two centers', out.raised(ValueError))


@contract('C04', [H + 'get_bounds_from_1d', H + 'get_bounds_vector_from_centroids'], samples=300)
def bounds_1d(c):
    """Cell k is bounded by edges k and k + 1: neighbouring cells share their edge."""
    n = c.int('n', 2, small=8)
    a = c.arr('centers', n)
    x = c.snap(a)
    out = c.call(H + 'get_bounds_from_1d', a)
    c.ok('returns', out)
    r = out.value
    c.check('two edges per center', c.And(len(c.shape(r)) == 2, c.shape(r)[0] == n, c.shape(r)[1] == 2))
    e = edge_spec(c, n, x)
    c.forall('first edge of a cell', n, lambda k: c.eq(c.at(r, k, 0), e(k)))
    c.forall('second edge of a cell', n, lambda k: c.eq(c.at(r, k, 1), e(k + 1)))
    c.forall('neighbours share an edge', n - 1, lambda k: c.eq(c.at(r, k, 1), c.at(r, k + 1, 0)))
    c.forall('edges lie midway between centers', ((1, n),), lambda k: c.eq(c.at(r, k, 0) - x(k - 1), x(k) - c.at(r, k, 0)))


@contract('C04', [H + 'get_extrapolated_corners_esmf', H + 'get_is_increasing'], samples=300)
def corners_2d(c):
    """Every corner of the lattice, for at least two rows and two columns."""
    m, n = c.int('rows', 2, small=6), c.int('cols', 2, small=6)
    a = c.arr('centers', (m, n))
    x = c.snap(a)
    out = c.call(H + 'get_extrapolated_corners_esmf', a)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.And(len(c.shape(r)) == 2, c.shape(r)[0] == m + 1, c.shape(r)[1] == n + 1))
    rd = c.sum(m - 1, lambda k: c.abs(x(k + 1, 0) - x(k, 0))) / (m - 1)
    cd = c.sum(n - 1, lambda k: c.abs(x(0, k + 1) - x(0, k))) / (n - 1)
    rd = c.Ite(x(0, 0) < x(m - 1, 0), rd, -rd)
    cd = c.Ite(x(0, 0) < x(0, n - 1), cd, -cd)
    inner = lambda i, j: (x(i - 1, j - 1) + x(i - 1, j) + x(i, j - 1) + x(i, j)) / 4
    ci = lambda i: c.max(1, c.min(i, m - 1))
    cj = lambda j: c.max(1, c.min(j, n - 1))

    def corner(i, j):
        v = inner(ci(i), cj(j))
        v = v + c.Ite(i == 0, -rd, c.Ite(i == m, rd, 0))
        return v + c.Ite(j == 0, -cd, c.Ite(j == n, cd, 0))
    c.forall('interior corners average the four surrounding centers', ((1, m), (1, n)),
             lambda i, j: c.eq(c.at(r, i, j), inner(i, j)))
    c.forall('first and last column', ((1, m),), lambda i: c.And(c.eq(c.at(r, i, 0), corner(i, 0)),
                                                                c.eq(c.at(r, i, n), corner(i, n))))
    c.forall('first and last row', ((1, n),), lambda j: c.And(c.eq(c.at(r, 0, j), corner(0, j)),
                                                             c.eq(c.at(r, m, j), corner(m, j))))
    c.check('outermost corners', c.And(c.eq(c.at(r, 0, 0), corner(0, 0)), c.eq(c.at(r, 0, n), corner(0, n)),
                                       c.eq(c.at(r, m, 0), corner(m, 0)), c.eq(c.at(r, m, n), corner(m, n))))
    c.forall('centers are not modified', (m, n), lambda i, j: c.at(a, i, j) == x(i, j))


@contract('C04', [H + 'get_extrapolated_corners_esmf', H + 'get_extrapolated_corners_esmf_vector'], samples=150)
def corners_thin(c):
    """A single row or column repeats the edges interpolated along the other direction."""
    n = c.int('n', 2, small=7)
    row = c.bool('row')
    a = c.arr('centers', (1, n) if c.If(row) else (n, 1))
    at = c.snap(a)
    x = (lambda k: at(0, k)) if c.If(row) else (lambda k: at(k, 0))
    out = c.call(H + 'get_extrapolated_corners_esmf', a)
    c.ok('returns', out)
    r = out.value
    e = edge_spec(c, n, x)
    if c.If(row):
        c.check('shape', c.And(c.shape(r)[0] == 2, c.shape(r)[1] == n + 1))
        c.forall('edges', (2, n + 1), lambda i, k: c.eq(c.at(r, i, k), e(k)))
    else:
        c.check('shape', c.And(c.shape(r)[1] == 2, c.shape(r)[0] == n + 1))
        c.forall('edges', (n + 1, 2), lambda k, i: c.eq(c.at(r, k, i), e(k)))


@contract('C04', [H + 'get_extrapolated_corners_esmf'], samples=10)
def corners_single(c):
    a = c.arr('centers', (1, 1))
    from ocgis.exc import SingleElementError
    out = c.call(H + 'get_extrapolated_corners_esmf', a)
    c.check('an error for a single center', out.raised(SingleElementError))


OFF = [(0, 0), (0, 1), (1, 1), (1, 0)]


@contract('C04', [H + 'create_ocgis_corners_from_esmf_corners'], samples=150)
def cell_corners(c):
    """Cell (i, j) has the lattice corners around it, clockwise from the first."""
    m, n = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    a = c.arr('lattice', (m + 1, n + 1))
    x = c.snap(a)
    out = c.call(H + 'create_ocgis_corners_from_esmf_corners', a)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.And(len(c.shape(r)) == 3, c.shape(r)[0] == m, c.shape(r)[1] == n, c.shape(r)[2] == 4))
    for k, (p, q) in enumerate(OFF):
        c.forall('corner %d' % k, (m, n), lambda i, j: c.at(r, i, j, k) == x(i + p, j + q))


@contract('C04', [H + 'get_esmf_corners_from_ocgis_corners', H + 'create_ocgis_corners_from_esmf_corners'], samples=150)
def corner_round_trip(c):
    """Lattice to cells and back gives the transposed lattice."""
    m, n = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    a = c.arr('lattice', (m + 1, n + 1))
    x = c.snap(a)
    # corners of the cells of a lattice (cell_corners)
    cells = c.mk((m, n, 4), lambda i, j, k: c.Ite(k == 0, lambda: x(i, j), lambda: c.Ite(
        k == 1, lambda: x(i, j + 1), lambda: c.Ite(k == 2, lambda: x(i + 1, j + 1), lambda: x(i + 1, j)))))
    out = c.call(H + 'get_esmf_corners_from_ocgis_corners', cells)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.And(len(c.shape(r)) == 2, c.shape(r)[0] == n + 1, c.shape(r)[1] == m + 1))
    c.forall('transposed lattice', (n + 1, m + 1), lambda j, i: c.at(r, j, i) == x(i, j))

G = 'ocgis.spatial.grid:'


def rect_grid(c, bounds, m, n):
    """A real grid on coordinate vectors, with or without bounds."""
    from ocgis import Variable, Grid
    y, x = c.arr('y', m), c.arr('x', n)
    sy, sx = c.snap(y), c.snap(x)
    yb = xb = None
    kw = [{}, {}]
    if bounds:
        b = c.arr('y_bounds', (m, 2)), c.arr('x_bounds', (n, 2))
        yb, xb = c.snap(b[0]), c.snap(b[1])
        kw = [dict(bounds=Variable(name='yb', value=b[0], dimensions=['dy', 'bnds'])),
              dict(bounds=Variable(name='xb', value=b[1], dimensions=['dx', 'bnds']))]
    vy = Variable(name='y', value=y, dimensions=['dy'], **kw[0])
    vx = Variable(name='x', value=x, dimensions=['dx'], **kw[1])
    return Grid(vx, vy), sy, sx, yb, xb


@contract('C04', [G + 'expand_grid'], samples=120)
def expand(c):
    """Coordinates are repeated along the other axis; every cell gets its own four corners."""
    m, n = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    bounds = c.choice('bounds', [True, False])
    g, sy, sx, yb, xb = rect_grid(c, bounds, m, n)
    out = c.call(G + 'expand_grid', g)
    c.ok('returns', out)
    y, x = g.y, g.x
    c.check('dimension names', c.And(y.dimension_names == ('dy', 'dx'), x.dimension_names == ('dy', 'dx')))
    for nm, v in (('y', y), ('x', x)):
        s = c.shape(v.get_value())
        c.check('shape of %s' % nm, c.And(len(s) == 2, s[0] == m, s[1] == n))
    yv, xv = y.get_value(), x.get_value()
    c.forall('y repeated along columns', (m, n), lambda i, j: c.at(yv, i, j) == sy(i))
    c.forall('x repeated along rows', (m, n), lambda i, j: c.at(xv, i, j) == sx(j))
    c.check('bounds are kept', c.And(y.has_bounds == bounds, x.has_bounds == bounds))
    if bounds:
        by, bx = y.bounds.get_value(), x.bounds.get_value()
        for b in (by, bx):
            s = c.shape(b)
            c.check('four corners per cell', c.And(len(s) == 3, s[0] == m, s[1] == n, s[2] == 4))
        for k, (p, q) in enumerate(OFF):
            c.forall('corner latitude', (m, n), lambda i, j: c.at(by, i, j, k) == yb(i, p))
            c.forall('corner longitude', (m, n), lambda i, j: c.at(bx, i, j, k) == xb(j, q))
        c.check('corner dimension', y.bounds.dimension_names == x.bounds.dimension_names)


@contract('C04', ['ocgis.variable.base:Variable.set_extrapolated_bounds', H + 'get_bounds_from_1d',
                  H + 'create_ocgis_corners_from_esmf_corners'], samples=120)
def extrapolated_variable(c):
    """The bounds variable of a coordinate variable has one entry per center and the interpolated edges."""
    from ocgis import Variable
    n = c.int('n', 2, small=8)
    a = c.arr('centers', n)
    x = c.snap(a)
    v = Variable(name='v', value=a, dimensions=['d'])
    out = c.call(v.set_extrapolated_bounds, 'v_bounds', 'bnds')
    c.ok('returns', out)
    b = v.bounds
    c.check('name', b.name == 'v_bounds')
    c.check('dimensions', b.dimension_names == ('d', 'bnds'))
    r = b.get_value()
    e = edge_spec(c, n, x)
    c.check('shape', c.And(c.shape(r)[0] == n, c.shape(r)[1] == 2))
    c.forall('edges', n, lambda k: c.And(c.eq(c.at(r, k, 0), e(k)), c.eq(c.at(r, k, 1), e(k + 1))))
    c.forall('centers are not modified', n, lambda k: c.at(v.get_value(), k) == x(k))
