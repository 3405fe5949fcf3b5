"""C02 Slicing a dimension equals slicing the index sequence it stands for."""
from contracts.common import slice_range, wrapidx
from engine.contract import contract

D = 'ocgis.variable.dimension:'
FUNCS = [D + 'Dimension.__getitem__', D + 'Dimension.__getitem_main__', D + 'Dimension.set_size',
         D + 'Dimension._src_idx', D + 'slice_source_index', D + 'identify_source_index_type',
         'ocgis.util.helpers:get_formatted_slice', 'ocgis.util.helpers:get_optimal_slice_from_array']


def make_dim(c, n, kinds=('none', 'bounds', 'auto', 'fancy'), unlimited=False):
    """A dimension of length n and the source position of each of its elements (None without source index)."""
    cls = c.fn(D + 'Dimension')
    kind = c.choice('source', kinds)
    kw = {}
    pos = None
    if kind == 'bounds':
        off = c.int('offset', 0, small=20)
        kw['src_idx'] = (off, off + n)
        pos = lambda k: off + k
    elif kind == 'auto':
        kw['src_idx'] = 'auto'
        pos = lambda k: k
    elif kind == 'fancy':
        a = c.arr('src', n, 'i', 0)
        pos = c.snap(a)
        kw['src_idx'] = a
    if c.choice('limits', ['fixed', 'unlimited'] if unlimited else ['fixed']) == 'fixed':
        kw['size'] = n
    else:
        kw['size_current'] = n
    if c.choice('dist', [False, True]):
        kw['dist'] = True
    o = c.call(cls, 'dim', **kw)
    c.ok('dimension is created', o)
    return o.value, pos, kw


def src_is(c, tag, dim, count, pos):
    """The source index of dim names the positions pos(0), ..., pos(count - 1)."""
    s = dim._src_idx
    if pos is None:
        c.check(tag + ': no source index', s is None)
        return
    c.check(tag + ': source index kept', s is not None)
    if isinstance(s, tuple):
        c.check(tag + ': bounds-based source extent', s[1] - s[0] == count)
        c.forall(tag + ': source positions', count, lambda k: s[0] + k == pos(k))
    else:
        c.check(tag + ': source index length', c.shape(s)[0] == count)
        c.forall(tag + ': source positions', count, lambda k: c.at(s, k) == pos(k))


def selected(c, tag, dim, kw, res, count, pos, n, pos0):
    c.check(tag + ': length', len_(c, res) == count)
    c.check(tag + ': current size', res.size_current == count)
    c.check(tag + ': unlimited stays unlimited', (res.size is None) == ('size' not in kw))
    src_is(c, tag, res, count, pos)
    c.check(tag + ': name and flags kept', res.name == 'dim' and res.dist == kw.get('dist', False) and not res.is_empty)
    c.check(tag + ': a new object', res is not dim)
    c.check(tag + ': original length', len_(c, dim) == n)
    src_is(c, tag + ': original', dim, n, pos0)


def len_(c, d):
    return d.__len__()


@contract('C02', FUNCS, samples=500)
def dim_slice(c):
    """Any step-free slice: open ended, negative, past the end, reversed (empty)."""
    n = c.int('n', 1, small=8)
    dim, pos, kw = make_dim(c, n, unlimited=True)
    a, b = c.int('a', small=12), c.int('b', small=12)
    s = slice(c.choice('start', [None, a]), c.choice('stop', [None, b]))
    out = c.call(dim.__getitem__, s)
    c.ok('slicing returns', out)
    lo, hi = slice_range(c, s, n)
    selected(c, 'slice', dim, kw, out.value, hi - lo, pos and (lambda k: pos(lo + k)), n, pos)


@contract('C02', FUNCS, samples=300)
def dim_integer(c):
    """An integer, counted from either end."""
    n = c.int('n', 1, small=8)
    dim, pos, kw = make_dim(c, n, unlimited=True)
    i = c.int('i', small=8)
    c.assume(c.And(-n <= i, i < n))
    out = c.call(dim.__getitem__, i)
    c.ok('slicing returns', out)
    selected(c, 'integer', dim, kw, out.value, 1, pos and (lambda k: pos(wrapidx(c, i, n))), n, pos)


@contract('C02', FUNCS, samples=500)
def dim_int_array(c):
    """An integer array in any order, with repetitions and negative entries."""
    n = c.int('n', 1, small=8)
    dim, pos, kw = make_dim(c, n)
    m = c.int('m', 1, small=5)
    a = c.arr('a', m, 'i')
    c.assume_forall(m, lambda k: c.And(-n <= c.at(a, k), c.at(a, k) < n))
    s = c.snap(a)
    c.induct('lemma: steps of one', m, lambda k: s(k) == s(0) + k, hyp=c.all_(m - 1, lambda k: s(k + 1) - s(k) == 1))
    out = c.call(dim.__getitem__, a)
    c.ok('slicing returns', out)
    selected(c, 'integer array', dim, kw, out.value, m, pos and (lambda k: pos(wrapidx(c, s(k), n))), n, pos)
    c.forall('index array unchanged', m, lambda k: c.at(a, k) == s(k))


@contract('C02', FUNCS, samples=400)
def dim_bool_array(c):
    """A boolean array: length is the number of true entries, source positions are theirs, in order."""
    n = c.int('n', 1, small=8)
    dim, pos, kw = make_dim(c, n)
    a = c.arr('a', n, 'b')
    s = c.snap(a)
    out = c.call(dim.__getitem__, a)
    c.ok('slicing returns', out)
    res = out.value
    m = len_(c, res)
    c.check('length is the number of selected elements', m == c.count(n, lambda k: s(k)))
    c.check('name and flags kept', res.name == 'dim' and res.dist == kw.get('dist', False))
    c.check('original length', len_(c, dim) == n)
    if pos is None:
        c.check('no source index', res._src_idx is None)
        return
    src = res._src_idx
    c.check('array-based source index', not isinstance(src, tuple))
    c.check('one source position per element', c.shape(src)[0] == m)
    p = lambda k: c.at(src, k)
    if isinstance(dim._src_idx, tuple):
        off = dim._src_idx[0]
        c.forall('every position is a selected one', m, lambda k: c.And(0 <= p(k) - off, p(k) - off < n, s(p(k) - off)))
        c.forall('positions in order', (m, m), lambda i, j: c.Implies(i < j, p(i) < p(j)))
        c.forall('every selected element is there', n, lambda i: c.Implies(
            s(i), lambda: c.exists(m, lambda k: p(k) == off + i)))


@contract('C02', FUNCS, samples=300)
def dim_twice(c):
    """Slicing a slice composes."""
    n = c.int('n', 1, small=10)
    dim, pos, kw = make_dim(c, n, kinds=('bounds', 'fancy'))
    a, b, d, e = c.int('a', small=12), c.int('b', small=12), c.int('d', small=12), c.int('e', small=12)
    s, t = slice(a, b), slice(d, e)
    lo, hi = slice_range(c, s, n)
    c.assume(lo < hi)
    one = c.call(dim.__getitem__, s)
    c.ok('first slicing returns', one)
    two = c.call(one.value.__getitem__, t)
    c.ok('second slicing returns', two)
    lo2, hi2 = slice_range(c, t, hi - lo)
    selected(c, 'second slice', one.value, kw, two.value, hi2 - lo2, lambda k: pos(lo + lo2 + k), hi - lo,
             lambda k: pos(lo + k))


@contract('C02', [D + 'Dimension.__getitem__', D + 'Dimension.__init__', D + 'Dimension._src_idx'], samples=100)
def dim_rejects(c):
    """Zero-length dimensions are not slicable and source indices must fit the length."""
    cls = c.fn(D + 'Dimension')
    n = c.int('n', 0, small=5)
    m = c.int('m', 0, small=5)
    off = c.int('off', 0, small=5)
    zero = c.call(cls, 'z', size_current=0)
    c.ok('empty unlimited dimension', zero)
    c.check('cannot slice nothing', c.call(zero.value.__getitem__, slice(0, 1)).raised(IndexError))
    made = c.call(cls, 'd', size=n, src_idx=(off, off + m))
    if c.If(m == n):
        c.ok('fitting source bounds', made)
    else:
        c.check('misfitting source bounds are rejected', made.raised(ValueError))
    a = c.arr('src', m, 'i', 0)
    made = c.call(cls, 'd', size=n, src_idx=a)
    if c.If(m == n):
        c.ok('fitting source array', made)
    else:
        c.check('misfitting source array is rejected', made.raised(ValueError))
