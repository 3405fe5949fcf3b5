"""C12 Tile and chunk decompositions cover every cell exactly once."""
from contracts.common import bounds_spec, group_size
from engine.contract import contract

T = 'ocgis.calc.tile:'
M = 'ocgis.vmachine.mpi:'


@contract('C12', [T + 'get_slices'], samples=200)
def slices_of_edges(c):
    """Edges become half-open intervals between neighbours."""
    n = c.int('n', 1, small=7)
    a = c.arr('edges', n, 'i')
    s = c.snap(a)
    out = c.call(T + 'get_slices', a)
    c.ok('returns', out)
    r = out.value
    c.check('one interval per pair of edges', c.len(r) == n - 1)
    c.forall('intervals are pairs', n - 1, lambda k: len(c.item(r, k)) == 2)
    c.forall('intervals between neighbours', n - 1, lambda k: c.And(c.item(r, k)[0] == s(k), c.item(r, k)[1] == s(k + 1)))


def schema(c, lo=1):
    nrow, ncol, t = c.int('nrow', lo, small=12), c.int('ncol', lo, small=12), c.int('tdim', 1, small=6)
    out = c.call(T + 'get_tile_schema', nrow, ncol, t)
    c.ok('returns', out)
    return nrow, ncol, t, out.value


@contract('C12', [T + 'get_tile_schema', T + 'get_slices'], samples=300)
def tile_schema(c):
    """Every tile lies within the array, is not empty and not larger than the tile size."""
    nrow, ncol, t, d = schema(c)
    n = c.len(d)
    k = c.int('tile', 0, small=20)
    c.assume(k < n)
    v = d[k]
    (r0, r1), (c0, c1) = v['row'], v['col']
    c.check('tile is within the array', c.And(0 <= r0, r0 <= r1, r1 <= nrow, 0 <= c0, c0 <= c1, c1 <= ncol))
    c.check('tile is not empty', c.And(r0 < r1, c0 < c1))
    c.check('tile is no larger than the tile size', c.And(r1 - r0 <= t, c1 - c0 <= t))


@contract('C12', [T + 'get_tile_schema', T + 'get_slices'], samples=300)
def tile_positions(c):
    """The tile in tile row a and tile column b starts at (a t, b t): every cell (i, j) is in the tile of tile row
    i // t and tile column j // t."""
    nrow, ncol, t, d = schema(c)
    nr, nc = c.ceildiv(nrow, t), c.ceildiv(ncol, t)
    c.lemma('number of tiles', c.len(d) == nr * nc)
    a, b = c.int('a', 0, small=5), c.int('b', 0, small=5)
    c.assume(c.And(a < nr, b < nc))
    rng = [0 <= a, a < nr, 0 <= b, b < nc]
    c.lemma('tile index in range', c.And(0 <= a * nc + b, a * nc + b < nr * nc), given=rng)
    c.lemma('tile row', (a * nc + b) // nc == a, given=rng)
    c.lemma('tile column', (a * nc + b) % nc == b, given=rng)
    v = d[a * nc + b]
    (r0, r1), (c0, c1) = v['row'], v['col']
    c.check('first row', r0 == a * t)
    c.check('last row', r1 == c.min(r0 + t, nrow))
    c.check('first column', c0 == b * t)
    c.check('last column', c1 == c.min(c0 + t, ncol))


@contract('C12', [T + 'get_tile_schema'], samples=300)
def tile_lemma(c):
    """Tiles at multiples of t, cut at the end, hold every cell exactly once (arithmetic lemma)."""
    n, t, i = c.int('n', 1, small=12), c.int('t', 1, small=6), c.int('i', 0, small=12)
    c.assume(i < n)
    a = c.int('a', 0, small=8)
    inside = c.And(a * t <= i, i < c.min(a * t + t, n))
    c.check('at most one', c.Implies(inside, a == i // t))
    c.check('at least one', c.Implies(a == i // t, c.And(inside, a < (n + t - 1) // t)))
    c.call(T + 'get_slices', c.arr('unused', 1, 'i'))


@contract('C12', [T + 'get_tile_schema', T + 'get_slices'], samples=100)
def tile_empty(c):
    """Arrays without rows or columns have no tiles."""
    nrow, ncol, t, d = schema(c, 0)
    c.assume(c.Or(nrow == 0, ncol == 0))
    c.check('no tile', c.len(d) == 0)


@contract('C12', [M + 'create_slices', 'ocgis.util.helpers:get_optimal_slice_from_array'], samples=300)
def slices_value(c):
    """Chunk k of an axis is the k-th balanced block: blocks are contiguous, in order, and cover the axis."""
    n, size = c.int('length', 1, small=14), c.int('size', 1, small=6)
    c.assume(size <= n)
    out = c.call(M + 'create_slices', n, size)
    c.ok('returns', out)
    r = out.value
    c.check('one slice per chunk', c.len(r) == size)
    k = c.int('k', 0, small=6)
    c.assume(k < size)
    s = c.item(r, k)
    q, m = n // size, n % size
    c.check('start', s.start == k * q + c.min(k, m))
    c.check('stop', s.stop == (k + 1) * q + c.min(k + 1, m))
    c.check('not empty', s.start < s.stop)
    c.check('step free', s.step is None)


@contract('C12', [M + 'create_slices'], samples=300)
def slices_partition(c):
    """Neighbouring chunks meet, the first starts at zero, the last ends at the end."""
    n, size = c.int('length', 1, small=14), c.int('size', 1, small=6)
    c.assume(size <= n)
    out = c.call(M + 'create_slices', n, size)
    c.ok('returns', out)
    r = out.value
    c.check('starts at zero', c.item(r, 0).start == 0)
    c.lemma('division', size * (n // size) + n % size == n)
    c.check('ends at the end', c.item(r, size - 1).stop == n)
    c.forall('neighbours meet', size - 1, lambda k: c.item(r, k).stop == c.item(r, k + 1).start)


def slices_spec(c, n, size):
    """What slices_value states about create_slices; its precondition is an obligation here."""
    c.check('create_slices is given at least one and at most as many chunks as cells', c.And(1 <= size, size <= n))
    q, m = n // size, n % size
    return c.mklist(size, lambda k: slice(k * q + c.min(k, m), (k + 1) * q + c.min(k + 1, m)))


@contract('C12', [M + 'create_nd_slices', M + 'create_slices'], samples=200, level='bounded',
          bound='one to three dimensions; lengths and numbers of chunks unbounded')
def nd_slices(c):
    """One tuple of slices per combination, the last dimension varying fastest, each the chunk of its own dimension."""
    nd = c.choice('ndim', [1, 2, 3])
    shape = [c.int('length%d' % i, 1, small=7) for i in range(nd)]
    splits = [c.int('splits%d' % i, 1, small=4) for i in range(nd)]
    for a, b in zip(splits, shape):
        c.assume(a <= b)
    if nd == 3 and not c.sym:
        c.assume(splits[0] * splits[1] * splits[2] < 100)
    if c.sym:
        # the caller is checked against the contract of create_slices (slices_value), not its body
        c.patch(M + 'create_slices', lambda n, size: slices_spec(c, n, size))
    out = c.call(M + 'create_nd_slices', tuple(splits), tuple(shape))
    c.ok('returns', out)
    r = out.value
    total = splits[0]
    for s in splits[1:]:
        total = total * s
    c.check('number of chunks is the product of the splits', c.len(r) == total)
    ks = [c.int('k%d' % i, 0, small=3) for i in range(nd)]
    for k, s in zip(ks, splits):
        c.assume(k < s)
    t = c.item(r, c.flat(ks, splits))
    c.check('one slice per dimension', len(t) == nd)
    for i in range(nd):
        q, m = shape[i] // splits[i], shape[i] % splits[i]
        c.check('start', t[i].start == ks[i] * q + c.min(ks[i], m))
        c.check('stop', t[i].stop == (ks[i] + 1) * q + c.min(ks[i] + 1, m))


S = 'ocgis.spatial.base:'


class Geom(object):
    def __init__(self, *b):
        self.bounds = b


@contract('C12', [S + 'create_split_polygons', S + 'create_split_polygons_from_meshgrid_vectors'], samples=200)
def split_polygons(c):
    """The boxes are the cells of a rectangular lattice: row-major, neighbours share edges, outer edges are the extent."""
    x0, y0 = c.real('minx', grid=range(-5, 5)), c.real('miny', grid=range(-5, 5))
    dx, dy = c.real('dx', 0.5, grid=range(1, 9)), c.real('dy', 0.5, grid=range(1, 9))
    nr, nc = c.int('rows', 1, small=4), c.int('cols', 1, small=4)
    c.patch(S + 'box', lambda a, b, cc, d: (a, b, cc, d))
    if c.choice('jitter', [False, True]):
        j = c.arr('jitter_values', 4, lo=0, hi=0.1)
        jit = c.snap(j)
        kw = dict(jitter=j)
    else:
        jit = lambda k: 0.0
        kw = {}
    out = c.call(S + 'create_split_polygons', Geom(x0, y0, x0 + dx, y0 + dy), (nr, nc), **kw)
    c.unpatch()
    c.ok('returns', out)
    r = out.value
    c.check('one box per combination', c.shape(r)[0] == nr * nc)
    i, j = c.int('i', 0, small=3), c.int('j', 0, small=3)
    c.assume(c.And(i < nr, j < nc))
    b = c.item(r, c.flat((i, j), (nr, nc)))
    ya, yb = y0 + jit(0), y0 + dy + jit(1)
    xa, xb = x0 + jit(2), x0 + dx + jit(3)
    row = lambda q: c.Ite(q == nr, yb, ya + (yb - ya) / nr * q)
    col = lambda q: c.Ite(q == nc, xb, xa + (xb - xa) / nc * q)
    c.check('left edge', c.eq(b[0], col(j)))
    c.check('lower edge', c.eq(b[1], row(i)))
    c.check('right edge', c.eq(b[2], col(j + 1)))
    c.check('upper edge', c.eq(b[3], row(i + 1)))


class Space(object):
    """Spatial container that answers subsets with the geometry and options it was asked for."""
    extent_global = (0., 0., 10., 5.)

    def get_intersects(self, geom, **kwargs):
        return ('subset', geom, kwargs)


@contract('C12', [S + 'iter_spatial_decomposition'], samples=200, level='bounded', bound='up to four boxes')
def spatial_decomposition(c):
    """Every box of the decomposition is used once, in order; a requested chunk index yields that box and no other."""
    rows = c.choice('splits', [(1,), (2,), (3,), (1, 2), (2, 1), (2, 2), (1, 4)])
    n = rows[0] * (rows[1] if len(rows) == 2 else 1)
    seen = []

    def boxes(bbox, shape, jitter=None):
        seen.append((tuple(shape), bbox))
        return ['box%d' % k for k in range(n)]
    c.patch(S + 'create_split_polygons', boxes)
    which = c.choice('yield_idx', [None, 0, 1, 2, 3])
    kw = dict(no_touching=True)
    if which is not None or c.choice('explicit', [False, True]):
        kw['yield_idx'] = which
    given = dict(kw)
    out = c.call(lambda: list(c.fn(S + 'iter_spatial_decomposition')(Space(), rows, **kw)))
    c.unpatch()
    c.ok('returns', out)
    c.check('one row per split, one column without a second split', seen[0][0] == (rows if len(rows) == 2 else (rows[0], 1)))
    b = seen[0][1].bounds
    c.check('the boxes cover the global extent', b[0] <= 0 and b[1] <= 0 and b[2] >= 10 and b[3] >= 5)
    want = [k for k in range(n) if which is None or k == which]
    c.check('every requested box once, in order', [r[1] for r in out.value] == ['box%d' % k for k in want])
    c.check('options are passed on', all(r[2] == {'no_touching': True, 'return_slice': True} for r in out.value))
    c.check('options of the caller are not changed', kw == given)


class Chunker(object):
    class Dim(object):
        def __init__(self, name):
            self.name = name

    def __init__(self, shape, splits):
        self.dst_grid = self
        self.dimensions = (self.Dim('y'), self.Dim('x'))
        self.shape_global = shape
        self.ndim = 2
        self.nchunks_dst = splits


N = 'ocgis.driver.nc:'


@contract('C12', [N + 'DriverNetcdfCF._gc_iter_dst_grid_slices_', N + 'create_slices_for_dimension',
                  N + 'create_slice_from_tuple', M + 'get_rank_bounds', M + 'OcgDist.update_dimension_bounds'], samples=200,
          level='bounded', bound='up to three chunks per axis; axis lengths unbounded')
def dst_chunks(c):
    """Destination chunks: neighbouring blocks on each axis, all combinations once, the column varying fastest."""
    splits = c.choice('splits', [(1, 1), (1, 2), (2, 1), (2, 2), (3, 2)])
    ny, nx = c.int('ny', 1, small=9), c.int('nx', 1, small=9)
    total = splits[0] * splits[1]
    which = c.choice('yield_idx', [None] + list(range(total)))
    f = c.fn(N + 'DriverNetcdfCF')._gc_iter_dst_grid_slices_
    out = c.call(lambda: list(f(Chunker((ny, nx), splits), yield_idx=which)))
    c.ok('returns', out)
    want = [k for k in range(total) if which is None or k == which]
    c.check('number of chunks', len(out.value) == len(want))
    for k, d in zip(want, out.value):
        c.check('one slice per axis', set(d) == {'y', 'x'})
        for name, n, s, p in (('y', ny, splits[0], k // splits[1]), ('x', nx, splits[1], k % splits[1])):
            g = group_size(c, n, s, 2)
            lo, hi = bounds_spec(c, n, g, p)
            c.check('no step', d[name].step is None)
            if c.If(p >= g):
                c.check('axes too short for the splits leave the last chunks empty', d[name].start == d[name].stop)
            else:
                c.check('chunk start', d[name].start == lo)
                c.check('chunk stop', d[name].stop == hi)


@contract('C12', ['ocgis.driver.nc_scrip:DriverNetcdfSCRIP._gc_iter_dst_grid_slices_'], concrete_only=True, samples=120,
          level='bounded', bound='random samples: up to 12 centres with repeats, up to 4 chunks')
def scrip_chunks(c):
    """Cells with equal centre latitude stay together and every cell is in exactly one chunk."""
    import numpy as np
    n, splits = c.int('n', 1, small=12), c.int('splits', 1, small=4)
    lat = c.arr('lat', n, grid=range(0, 5))

    class P(object):
        pass
    y = P()
    y.get_value = lambda: lat
    pgc = P()
    pgc.y = y
    ch = P()
    ch.dst_grid = P()
    ch.dst_grid.abstractions_available = {'point': pgc}
    ch.nchunks_dst = (splits,)
    f = c.fn('ocgis.driver.nc_scrip:DriverNetcdfSCRIP')._gc_iter_dst_grid_slices_
    out = c.call(lambda: list(f(ch)))
    c.ok('returns', out)
    c.check('one selection per chunk', len(out.value) == splits)
    count = np.sum(np.array(out.value, dtype=int), axis=0)
    c.check('every cell is in exactly one chunk', (count == 1).all())
    for v in out.value:
        c.check('equal latitudes stay together', not (set(lat[v]) & set(lat[~v])))
    k = c.int('chunk', 0, small=3)
    c.assume(k < splits)
    one = c.call(lambda: list(f(ch, yield_idx=k)))
    c.ok('returns one', one)
    c.check('a requested chunk index yields that chunk', len(one.value) == 1 and (one.value[0] == out.value[k]).all())


@contract('C12', [S + 'create_split_polygons_from_meshgrid_vectors'], samples=200)
def lattice_boxes(c):
    """Arbitrary edge vectors: box (i, j), row-major, spans exactly between neighbouring edges."""
    nr, nc = c.int('rows', 1, small=4), c.int('cols', 1, small=4)
    rows, cols = c.sorted_arr('row_edges', nr + 1), c.sorted_arr('col_edges', nc + 1)
    rv, cv = c.snap(rows), c.snap(cols)
    c.patch(S + 'box', lambda a, b, cc, d: (a, b, cc, d))
    out = c.call(S + 'create_split_polygons_from_meshgrid_vectors', cols, rows)
    c.unpatch()
    c.ok('returns', out)
    r = out.value
    c.check('one box per combination', c.shape(r)[0] == nr * nc)
    i, j = c.int('i', 0, small=3), c.int('j', 0, small=3)
    c.assume(c.And(i < nr, j < nc))
    b = c.item(r, c.flat((i, j), (nr, nc)))
    c.check('left edge', b[0] == cv(j))
    c.check('lower edge', b[1] == rv(i))
    c.check('right edge', b[2] == cv(j + 1))
    c.check('upper edge', b[3] == rv(i + 1))
