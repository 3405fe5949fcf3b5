"""C03 Slice normalisation never changes which elements are selected."""
from contracts.common import slice_range, wrapidx
from engine.contract import contract

H = 'ocgis.util.helpers:'


def consecutive(c, a, m):
    """Ghost lemma: steps of one make a run."""
    c.induct('lemma: steps of one', m, lambda k: a(k) == a(0) + k,
             hyp=c.all_(m - 1, lambda k: a(k + 1) - a(k) == 1))


def same_selection(c, tag, res, n, count, pos):
    """The normalised index object selects count elements of an axis of length n, the k-th being pos(k)."""
    if isinstance(res, slice):
        c.check(tag + ': step free', res.step is None)
        lo, hi = slice_range(c, res, n)
        c.check(tag + ': same number of elements', hi - lo == count)
        c.forall(tag + ': same elements', count, lambda k: lo + k == pos(k))
    else:
        c.check(tag + ': one dimensional', len(c.shape(res)) == 1)
        c.check(tag + ': same number of elements', c.shape(res)[0] == count)
        c.forall(tag + ': same elements', count, lambda k: wrapidx(c, c.at(res, k), n) == pos(k))


@contract('C03', H + 'get_formatted_slice', samples=300)
def formatted_integer(c):
    """An integer index, counted from either end, becomes a slice selecting that element."""
    n = c.int('n', 1, small=8)
    i = c.int('i', small=8)
    c.assume(c.And(-n <= i, i < n))
    out = c.call(H + 'get_formatted_slice', i, 1)
    c.ok('returns', out)
    c.check('one index per dimension', len(out.value) == 1)
    same_selection(c, 'integer', out.value[0], n, 1, lambda k: wrapidx(c, i, n))


@contract('C03', [H + 'get_formatted_slice', H + 'get_optimal_slice_from_array'], samples=500)
def formatted_array(c):
    """An integer array index keeps its elements, order and repetitions."""
    n = c.int('n', 1, small=8)
    m = c.int('m', 1, small=5)
    a = c.arr('a', m, 'i')
    c.assume_forall(m, lambda k: c.And(-n <= c.at(a, k), c.at(a, k) < n))
    before = c.snap(a)
    consecutive(c, before, m)
    out = c.call(H + 'get_formatted_slice', a, 1)
    c.ok('returns', out)
    c.check('one index per dimension', len(out.value) == 1)
    same_selection(c, 'array', out.value[0], n, m, lambda k: wrapidx(c, before(k), n))


@contract('C03', [H + 'get_formatted_slice', H + 'get_optimal_slice_from_array'], samples=500, level='bounded',
          bound='literal sequences of one to three integers')
def formatted_sequence(c):
    """A Python sequence of integers selects its elements in order."""
    n = c.int('n', 1, small=8)
    m = c.choice('m', [1, 2, 3])
    v = [c.int('v%d' % k, small=8) for k in range(m)]
    for x in v:
        c.assume(c.And(-n <= x, x < n))
    seq = c.choice('kind', [list, tuple])(v)
    out = c.call(H + 'get_formatted_slice', seq, 1)
    c.ok('returns', out)
    c.check('one index per dimension', len(out.value) == 1)

    def pos(k):
        r = wrapidx(c, v[0], n)
        for j in range(1, m):
            r = c.Ite(k == j, wrapidx(c, v[j], n), r)
        return r
    same_selection(c, 'sequence', out.value[0], n, m, pos)


@contract('C03', [H + 'get_formatted_slice', H + 'get_optimal_slice_from_array'], samples=200)
def formatted_passthrough(c):
    """Slices, boolean masks and missing indices are left as they are."""
    n = c.int('n', 1, small=8)
    kind = c.choice('kind', ['slice', 'stepped', 'mask', 'none', 'full', 'tuple-slice', 'tuple-array'])
    if kind in ('slice', 'tuple-slice', 'stepped'):
        a, b = c.int('a', small=9), c.int('b', small=9)
        a = c.choice('start', [None, a])
        b = c.choice('stop', [None, b])
        s = slice(a, b) if kind != 'stepped' else slice(a, b, 2)
        out = c.call(H + 'get_formatted_slice', (s,) if kind == 'tuple-slice' else s, 1)
        c.ok('returns', out)
        c.check('one index', len(out.value) == 1)
        r = out.value[0]
        c.check('is a slice', isinstance(r, slice))
        c.check('same step', r.step == s.step)
        c.check('same start', (r.start is None) if a is None else c.eq(r.start, a))
        c.check('same stop', (r.stop is None) if b is None else c.eq(r.stop, b))
    elif kind in ('none', 'full'):
        out = c.call(H + 'get_formatted_slice', None if kind == 'none' else slice(None), 1)
        c.ok('returns', out)
        c.check('selects everything', out.value == (slice(None),))
    elif kind == 'mask':
        a = c.arr('mask', n, 'b')
        s = c.snap(a)
        out = c.call(H + 'get_formatted_slice', a, 1)
        c.ok('returns', out)
        r = out.value[0]
        c.check('one index', len(out.value) == 1)
        c.check('same length', c.shape(r)[0] == n)
        c.check('still boolean', r.dtype == bool)
        c.forall('same mask', n, lambda k: c.Iff(c.at(r, k), s(k)))
    else:
        m = c.int('m', 2, small=5)
        a = c.arr('a', m, 'i', 0)
        c.assume_forall(m, lambda k: c.at(a, k) < n)
        s = c.snap(a)
        consecutive(c, s, m)
        out = c.call(H + 'get_formatted_slice', (a,), 1)
        c.ok('returns', out)
        same_selection(c, 'wrapped array', out.value[0], n, m, lambda k: s(k))


@contract('C03', H + 'get_formatted_slice', samples=200)
def formatted_per_dimension(c):
    """With several dimensions there is one index per dimension, each normalised alone; a wrong count is an IndexError."""
    nd = c.choice('ndims', [2, 3])
    i = c.int('i', small=6)
    n = c.int('n', 1, small=8)
    c.assume(c.And(-n <= i, i < n))
    m = c.int('m', 1, small=4)
    a = c.arr('a', m, 'i', 0)
    c.assume_forall(m, lambda k: c.at(a, k) < n)
    s = c.snap(a)
    consecutive(c, s, m)
    lo, hi = c.int('lo', small=6), c.int('hi', small=6)
    parts = [i, a, slice(lo, hi)][:nd]
    out = c.call(H + 'get_formatted_slice', parts, nd)
    c.ok('returns', out)
    c.check('one index per dimension', len(out.value) == nd)
    same_selection(c, 'first', out.value[0], n, 1, lambda k: wrapidx(c, i, n))
    same_selection(c, 'second', out.value[1], n, m, lambda k: s(k))
    if nd == 3:
        c.check('third', c.And(out.value[2].start == lo, out.value[2].stop == hi))
    wrong = c.choice('wrong', [0, 1, 4])
    bad = c.call(H + 'get_formatted_slice', [i] * wrong if wrong else i, nd)
    c.check('wrong count is an index error', bad.raised(IndexError))
    f = c.call(H + 'get_formatted_slice', slice(None), nd)
    c.ok('full slice returns', f)
    c.check('full slice on every dimension', f.value == (slice(None),) * nd)


@contract('C03', H + 'get_reduced_slice', samples=200)
def reduced_slice(c):
    """The tightest contiguous slice holding every index."""
    m = c.int('m', 1, small=6)
    a = c.arr('a', m, 'i', 0)
    s = c.snap(a)
    out = c.call(H + 'get_reduced_slice', a)
    c.ok('returns', out)
    r = out.value
    c.forall('contains every index', m, lambda k: c.And(r.start <= s(k), s(k) < r.stop))
    c.check('first index is needed', c.exists(m, lambda k: s(k) == r.start))
    c.check('last index is needed', c.exists(m, lambda k: s(k) == r.stop - 1))


@contract('C03', H + 'get_trimmed_array_by_mask', samples=300, timeout=400)
def trimmed_2d(c):
    """Two dimensions: the window is exactly the smallest one holding every unmasked element."""
    from ocgis.exc import AllElementsMaskedError
    nr, nc = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    mask = c.arr('mask', (nr, nc), 'b', p=0.7)
    kind = c.choice('kind', ['bool', 'masked'])
    if kind == 'bool':
        arr = mask
    else:
        arr = c.marr(c.arr('data', (nr, nc)), mask)
    sm = c.snap(mask)
    sd = c.snap(arr)
    out = c.call(H + 'get_trimmed_array_by_mask', arr, return_adjustments=True)
    if out.exc is not None:
        c.check('error only when all is masked', out.raised(AllElementsMaskedError))
        c.forall('all masked', (nr, nc), lambda i, j: sm(i, j))
        return
    res, slc = out.value
    c.check('some element is unmasked', c.exists((nr, nc), lambda i, j: c.Not(sm(i, j))))
    r, k = slc
    c.check('window in range', c.And(0 <= r.start, r.start < r.stop, r.stop <= nr,
                                    0 <= k.start, k.start < k.stop, k.stop <= nc))
    c.forall('every unmasked element is inside', (nr, nc), lambda i, j: c.Implies(
        c.Not(sm(i, j)), c.And(r.start <= i, i < r.stop, k.start <= j, j < k.stop)))
    c.check('first row needed', c.exists(nc, lambda j: c.Not(sm(r.start, j))))
    c.check('last row needed', c.exists(nc, lambda j: c.Not(sm(r.stop - 1, j))))
    c.check('first column needed', c.exists(nr, lambda i: c.Not(sm(i, k.start))))
    c.check('last column needed', c.exists(nr, lambda i: c.Not(sm(i, k.stop - 1))))
    c.check('shape of the result', c.And(c.shape(res)[0] == r.stop - r.start, c.shape(res)[1] == k.stop - k.start))
    c.forall('values of the window', (r.stop - r.start, k.stop - k.start),
             lambda i, j: c.eq(c.at(res, i, j), sd(i + r.start, j + k.start)))
    if kind == 'masked':
        c.forall('mask of the window', (r.stop - r.start, k.stop - k.start),
                 lambda i, j: c.Iff(c.maskat(res, i, j), sm(i + r.start, j + k.start)))


@contract('C03', H + 'get_trimmed_array_by_mask', samples=200)
def trimmed_1d(c):
    """One dimension."""
    from ocgis.exc import AllElementsMaskedError
    n = c.int('n', 1, small=6)
    mask = c.arr('mask', n, 'b', p=0.7)
    sm = c.snap(mask)
    out = c.call(H + 'get_trimmed_array_by_mask', mask, return_adjustments=True)
    if out.exc is not None:
        c.check('error only when all is masked', out.raised(AllElementsMaskedError))
        c.forall('all masked', n, lambda i: sm(i))
        return
    res, (r,) = out.value
    c.check('window in range', c.And(0 <= r.start, r.start < r.stop, r.stop <= n))
    c.forall('every unmasked element is inside', n, lambda i: c.Implies(
        c.Not(sm(i)), c.And(r.start <= i, i < r.stop)))
    c.check('edges needed', c.And(c.Not(sm(r.start)), c.Not(sm(r.stop - 1))))
    c.check('length of the result', c.shape(res)[0] == r.stop - r.start)
