"""C14 Moving windows and convolutions use exactly the documented window."""
from engine.contract import contract

S = 'ocgis.calc.library.statistics:'
M = 'ocgis.calc.library.math:'


def window(c, n, k, mode):
    """First position, number of positions and the window [start, stop) of position o of a series of length n."""
    h = (k - 1) // 2
    if mode == 'valid':
        return h, c.max(n - k + 1, 0), lambda o: (o - h, o + h + 1)
    return 0, n, lambda o: (c.max(o - h, 0), c.min(o + h + 1, n))


@contract('C14', [S + 'MovingWindow._iter_kernel_values_'], samples=200)
def windows(c):
    """The positions visited, in order, and the window of each."""
    c.eager('_iter_kernel_values_')
    n, nr, nc = c.int('time', 1, small=9), c.int('rows', 1, small=2), c.int('cols', 1, small=2)
    h = c.int('half', 1, small=3)
    k = 2 * h + 1
    mode = c.choice('mode', ['valid', 'same'])
    v = c.arr('values', (n, nr, nc))
    s = c.snap(v)
    out = c.call(lambda a: c.seq(c.fn(S + 'MovingWindow._iter_kernel_values_')(a, k, mode=mode)), v)
    c.ok('returns', out)
    r = out.value
    first, total, win = window(c, n, k, mode)
    c.check('number of windows', c.len(r) == total)
    j = c.int('j', 0, small=6)
    c.assume(j < total)
    o, w = c.item(r, j)
    c.check('position', o == first + j)
    a, b = win(first + j)
    c.check('shape', c.same_shape(w, (b - a, nr, nc)))
    c.forall('exactly the values of the window', (b - a, nr, nc), lambda t, y, x: c.at(w, t, y, x) == s(a + t, y, x))


def window_spec(c, v, n, k, mode):
    """What ``windows`` states about _iter_kernel_values_ (same parameters as the function)."""
    def spec(values, k_, mode='valid'):
        if not c.If(c.And(k_ >= 3, k_ % 2 != 0)):
            raise AssertionError
        first, total, win = window(c, values.shape[0], k_, mode)

        def item(j):
            a, b = win(first + j)
            return first + j, values[a:b, :, :]
        return c.mklist(total, item)
    return staticmethod(spec)


def moving(c, ops):
    op = c.choice('operation', ops)
    mode = c.choice('mode', ['valid', 'same'])
    E, n, L = c.int('realizations', 1, small=2), c.int('time', 1, small=6), c.int('levels', 1, small=2)
    R, C = c.int('rows', 1, small=2), c.int('cols', 1, small=2)
    k = 2 * c.int('half', 1, small=2) + 1
    sh = (E, n, L, R, C)
    data, mask = c.arr('values', sh), c.arr('mask', sh, 'b')
    v, m = c.snap(data), c.snap(mask)
    values = c.marr(data, mask)
    if c.sym:
        c.patch(S + 'MovingWindow._iter_kernel_values_', window_spec(c, values, n, k, mode))
    obj = c.fn(S + 'MovingWindow')()
    out = c.call(obj.calculate, values, k=k, operation=op, mode=mode)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, sh))
    first, total, win = window(c, n, k, mode)

    def expect(e, t, l, y, x):
        a, b = win(t)
        inside = c.And(first <= t, t < first + total)
        if not c.If(inside):
            return c.maskat(r, e, t, l, y, x)
        w = c.marr(c.mk((b - a,), lambda q: v(e, a + q, l, y, x)), c.mk((b - a,), lambda q: m(e, a + q, l, y, x), 'b'))
        val, msk = c.red(op, w)
        c.check('masked exactly where the window holds nothing', c.Iff(c.maskat(r, e, t, l, y, x), msk))
        return c.And(True, c.Implies(c.Not(msk), lambda: c.close(c.at(r, e, t, l, y, x), val)))
    c.forall('statistic', sh, expect)
    c.forall('the input is unchanged', sh, lambda *i: c.And(c.eq(c.at(values, *i), v(*i)), c.Iff(c.maskat(values, *i), m(*i))))


@contract('C14', [S + 'MovingWindow.calculate'], samples=150)
def moving_window(c):
    """Every position carries the statistic of the unmasked values of its own window."""
    moving(c, ['mean', 'min', 'max', 'median', 'var', 'std'])


@contract('C14', [M + 'Convolve1D.calculate'], samples=120, level='bounded',
          bound='up to four time steps, kernels of one to three, two cells, two realizations and levels (every value, mask and mode)')
def convolution(c):
    """numpy's convolution along time of every unmasked cell; nothing invented where the kernel does not fit."""
    n, k = c.choice('time', [1, 2, 3, 4]), c.choice('kernel', [1, 2, 3])
    mode = c.choice('mode', ['valid', 'same'])
    if k > n:
        c.assume(False)
    # in valid mode also two realizations and two levels, each with its own mask
    E, L = (1, 1) if mode == 'same' else c.choice('realizations and levels', [(1, 1), (2, 1), (1, 2), (2, 2)])
    if E * L > 1 and n > 3:
        c.assume(False)
    v = [[[[c.real('v%d%d%d%d' % (e, t, l, x)) for x in range(2)] for l in range(L)] for t in range(n)] for e in range(E)]
    m = [[[c.bool('m%d%d%d' % (e, l, x)) for x in range(2)] for l in range(L)] for e in range(E)]
    w = [c.real('w%d' % j) for j in range(k)]
    shape = (E, n, L, 1, 2)
    values = c.marr(c.mk(shape, lambda e, t, l, y, x: pick(c, v, e, t, l, x)),
                    c.mk(shape, lambda e, t, l, y, x: pick(c, m, e, l, x), 'b'))
    kernel = c.mk((k,), lambda j: pick(c, w, j))
    obj = c.fn(M + 'Convolve1D')()
    out = c.call(obj.calculate, values, v=kernel, mode=mode)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, shape))
    first = k - 1 if mode == 'valid' else (k - 1) // 2
    for e in range(E):
        for t in range(n):
            for l in range(L):
                for x in range(2):
                    fits = mode == 'same' or t < n - k + 1
                    c.check('masked exactly where the cell is or the kernel does not fit',
                            c.Iff(c.maskat(r, e, t, l, 0, x), c.Or(m[e][l][x], not fits)))
                    if fits:
                        full = sum([v[e][t + first - j][l][x] * w[j] for j in range(k) if 0 <= t + first - j < n])
                        c.check('value', c.Implies(c.Not(m[e][l][x]), lambda: c.close(c.at(r, e, t, l, 0, x), full)))


def pick(c, v, *i):
    """v[i...] (numpy item access with a concrete index)"""
    for j in i:
        v = v[int(j)]
    return v
