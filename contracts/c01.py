"""C01 Rank decomposition partitions a dimension exactly."""
from contracts.common import bounds_spec, group_size
from engine.contract import contract

MPI = 'ocgis.vmachine.mpi:'


@contract('C01', MPI + 'get_rank_bounds', samples=600)
def rank_bounds_value(c):
    """Every rank's range is the balanced block; ranks without elements (and ranks outside the group) get None."""
    n = c.int('nelements', 0, small=30)
    size = c.int('size', 0, small=12)
    r = c.int('rank', 0, small=14)
    out = c.call(MPI + 'get_rank_bounds', n, size, r)
    c.ok('returns', out)
    v = out.value
    if c.If(c.Or(r >= size, n == 0)):
        c.check('outside the group or nothing to hold: no range', v is None)
        return
    lo, hi = bounds_spec(c, n, size, r)
    if v is None:
        c.check('no range only when the block is empty', lo == hi)
    else:
        c.check('range is a pair', len(v) == 2)
        c.check('lower bound', v[0] == lo)
        c.check('upper bound', v[1] == hi)
        c.check('a range is never empty', v[0] < v[1])


@contract('C01', MPI + 'get_rank_bounds', samples=400)
def rank_bounds_partition(c):
    """Lemma over two calls: consecutive ranks meet, sizes differ by at most one, first starts at 0, last ends at n."""
    n = c.int('nelements', 1, small=30)
    size = c.int('size', 1, small=12)
    r = c.int('rank', 0, small=12)
    s = c.int('other', 0, small=12)
    c.assume(c.And(r < size, s < size))
    a = c.call(MPI + 'get_rank_bounds', n, size, r)
    b = c.call(MPI + 'get_rank_bounds', n, size, s)
    c.ok('returns', a)
    c.ok('returns other', b)
    a, b = a.value, b.value
    if a is not None and b is not None:
        la, lb = a[1] - a[0], b[1] - b[0]
        c.check('lengths differ by at most one', c.And(la - lb <= 1, lb - la <= 1))
        c.check('ordered by rank', c.Implies(r < s, a[1] <= b[0]))
        c.check('neighbours meet', c.Implies(s == r + 1, a[1] == b[0]))
    if a is not None:
        c.check('first rank starts at zero', c.Implies(r == 0, a[0] == 0))
        c.check('last rank ends at the end', c.Implies(r == size - 1, a[1] == n))
        if b is None:
            c.check('ranks without elements come last', c.Implies(s < r, False))
            c.check('the last holding rank ends at the end', c.Implies(s == r + 1, a[1] == n))


@contract('C01', MPI + 'get_global_to_local_slice', samples=800)
def global_to_local(c):
    """A global slice meets a rank's range in exactly the local positions returned."""
    start, stop = c.int('start', 0, small=14), c.int('stop', 0, small=14)
    lower, upper = c.int('lower', 0, small=14), c.int('upper', 0, small=14)
    c.assume(c.And(start < stop, lower < upper))
    out = c.call(MPI + 'get_global_to_local_slice', (start, stop), (lower, upper))
    c.ok('returns', out)
    v = out.value
    g = c.int('position', 0, small=14)
    inside = c.And(start <= g, g < stop, lower <= g, g < upper)
    if v is None:
        c.check('no local slice only when nothing is shared', c.Not(inside))
    else:
        c.check('the local slice selects exactly the shared positions',
                c.Iff(inside, c.And(v[0] <= g - lower, g - lower < v[1])))
        c.check('local slice within the rank', c.And(0 <= v[0], v[0] < v[1], v[1] <= upper - lower))


DIST = [MPI + 'OcgDist.update_dimension_bounds', MPI + 'OcgDist.iter_groups', MPI + 'OcgDist.add_dimension',
        MPI + 'get_rank_bounds', 'ocgis.variable.dimension:slice_source_index',
        'ocgis.variable.dimension:Dimension.set_size', 'ocgis.variable.dimension:Dimension.convert_to_empty',
        'ocgis.variable.dimension:Dimension.bounds_local', 'ocgis.variable.dimension:Dimension.bounds_global']


class OneRank(object):
    """Mapping of an OcgDist holding the group data of one (arbitrary) rank."""

    def __init__(self, data):
        self.data = data

    def __getitem__(self, rank):
        return self.data


def dist_dims(c, flags, srcs):
    cls = c.fn('ocgis.variable.dimension:Dimension')
    dims, lens, pos = [], [], []
    for k, (dist, src) in enumerate(zip(flags, srcs)):
        n = c.int('length%d' % k, 0, small=12)
        kw = {}
        p = None
        if src == 'bounds':
            off = c.int('offset%d' % k, 0, small=9)
            kw['src_idx'] = (off, off + n)
            p = (lambda o: lambda i: o + i)(off)
        elif src == 'fancy':
            a = c.arr('src%d' % k, n, 'i', 0)
            p = c.snap(a)
            kw['src_idx'] = a
        dims.append(cls('dim%d' % k, n, dist=dist, **kw))
        lens.append(n)
        pos.append(p)
    return dims, lens, pos


def held(c, dim, n, g, r, pos):
    """What rank r of g ranks holds of a dimension of n elements."""
    if dim.is_empty:
        c.check('empty only without elements', c.Or(r >= g, n == 0))
        c.check('an empty piece has no length', dim.size == 0)
        return
    c.lemma('only a dimension with elements is held', c.And(n > 0, g > 0))
    lo, hi = bounds_spec(c, n, g, r)
    c.check('ranks without elements are empty', c.And(r < g, n > 0))
    c.check('global extent kept', dim.bounds_global[0] == 0 and dim.bounds_global[1] == n)
    c.check('local lower bound', dim.bounds_local[0] == lo)
    c.check('local upper bound', dim.bounds_local[1] == hi)
    c.check('local length', len_(c, dim) == hi - lo)
    s = dim._src_idx
    if pos is None:
        c.check('no source index', s is None)
    elif isinstance(s, tuple):
        c.check('local source extent', s[1] - s[0] == hi - lo)
        c.check('local source positions', s[0] == pos(lo))
    else:
        c.check('local source length', c.shape(s)[0] == hi - lo)
        c.forall('local source positions', hi - lo, lambda k: c.at(s, k) == pos(lo + k))


def len_(c, d):
    return d.__len__() if c.sym else len(d)


@contract('C01', DIST, samples=500, level='bounded',
          bound='up to 2 dimensions in the group; number of ranks, rank, lengths and source indices unbounded')
def dist_update(c):
    """An arbitrary rank of an arbitrarily large distribution receives its balanced block of the longest dimension."""
    flags, srcs = c.choice('layout', [((True,), (None,)), ((True,), ('bounds',)), ((True,), ('fancy',)),
                                      ((False, False), (None, None)), ((True, False), (None, None)),
                                      ((True, True), (None, None))])
    dims, lens, pos = dist_dims(c, flags, srcs)
    size = c.int('size', 1, small=8)
    rank = c.int('rank', 0, small=8)
    m = c.int('min_elements', 1, small=4)
    c.assume(rank < size)
    dist = c.fn(MPI + 'OcgDist')(size=1)
    for d in dims:
        dist.add_dimension(d)
    dist.size = size
    dist.mapping = OneRank(dist.mapping[0])
    out = c.call(dist.update_dimension_bounds, rank=rank, min_elements=m)
    c.ok('returns', out)
    still = [k for k, d in enumerate(dims) if d.dist]
    if not any(flags):
        c.check('nothing is distributed', still == [])
    else:
        c.check('one dimension stays distributed', len(still) == 1 and flags[still[0]])
    for k, d in enumerate(dims):
        if k in still:
            for j in range(len(flags)):
                if flags[j]:
                    c.check('the longest dimension is distributed', lens[j] <= lens[k])
            g = group_size(c, lens[k], size, m)
            c.lemma('a dimension with elements has a rank to hold them', c.Implies(lens[k] > 0, g > 0))
            if c.If(g > 1):
                c.check('ranks hold at least the minimum', lens[k] // g >= m)
            held(c, d, lens[k], g, rank, pos[k])
        else:
            c.check('other dimensions are complete', len_(c, d) == lens[k])
    c.check('a second update is refused', c.call(dist.update_dimension_bounds, rank=rank).raised(ValueError))


@contract('C01', DIST + [MPI + 'OcgDist.create_dimension', MPI + 'OcgDist.get_dimension'], samples=300, level='bounded',
          bound='up to 4 ranks; lengths unbounded')
def dist_all(c):
    """Updating all ranks gives every rank its own block: neighbours meet, together they cover the dimension."""
    size = c.choice('size', [1, 2, 3, 4])
    n = c.int('length', 0, small=12)
    m = c.choice('min_elements', [1, 2, 3])
    dist = c.fn(MPI + 'OcgDist')(size=size)
    dist.create_dimension('dim', n, dist=True, src_idx='auto')
    out = c.call(dist.update_dimension_bounds, min_elements=m)
    c.ok('returns', out)
    g = group_size(c, n, size, m)
    at = 0
    for r in range(size):
        d = dist.get_dimension('dim', rank=r)
        held(c, d, n, g, r, lambda i: i)
        if not d.is_empty:
            c.check('neighbours meet', d.bounds_local[0] == at)
            at = d.bounds_local[1]
    c.check('all elements are held', at == n)
    empty = dist.get_empty_ranks()
    full = dist.get_empty_ranks(inverse=True)
    c.check('empty ranks', list(empty) == [r for r in range(size) if dist.get_dimension('dim', rank=r).is_empty])
    c.check('ranks with elements', list(full) == [r for r in range(size) if r not in list(empty)])


@contract('C01', DIST + [MPI + 'OcgDist._create_or_get_group_'], samples=300, level='bounded',
          bound='two groups (each order, nested or not) below the root; two or three ranks; lengths unbounded')
def dist_groups(c):
    """Every group is split on its own, whatever the other groups hold."""
    cls = c.fn('ocgis.variable.dimension:Dimension')
    dist = c.fn(MPI + 'OcgDist')(size=1)
    paths = c.choice('groups', [(['a'], ['b']), (['a'], ['a', 'b']), (None, ['a'])])
    flags = c.choice('dist', [(True, True), (True, False), (False, True)])
    size, rank = c.choice('rank', [(2, 0), (2, 1), (3, 1)])
    dims = []
    for k in range(2):
        n = c.int('length%d' % k, 0, small=12)
        d = cls('dim', n, dist=flags[k], src_idx='auto')
        dist.add_dimension(d, group=None if paths[k] is None else list(paths[k]))
        dims.append((d, n))
    dist.size = size
    dist.mapping = OneRank(dist.mapping[0])
    out = c.call(dist.update_dimension_bounds, rank=rank)
    c.ok('returns', out)
    for k, (d, n) in enumerate(dims):
        if flags[k]:
            g = group_size(c, n, size, 2)
            held(c, d, n, g, rank, lambda i: i)
        else:
            c.check('groups without distributed dimensions are complete', c.And(len_(c, d) == n, not d.is_empty))
