"""C15 Run-length indices count every consecutive run; freeze-thaw events alternate."""
from engine.contract import contract

D = 'ocgis.calc.library.index.duration:'
F = 'ocgis.calc.library.index.freeze_thaw:'
OPS = ['gt', 'lt', 'gte', 'lte']


def holds(op, v, t):
    return v > t if op == 'gt' else v < t if op == 'lt' else v >= t if op == 'gte' else v <= t


def runs_of(flags):
    """Lengths of the maximal runs of true flags, in order; [0] where there is none."""
    out, n = [], 0
    for f in list(flags) + [False]:
        if f:
            n += 1
        elif n:
            out.append(n)
            n = 0
    return out or [0]


@contract('C15', [D + 'Duration._iter_consecutive_'], samples=200, level='bounded',
          bound='up to five time steps and two cells (every value, mask and operation)')
def runs(c):
    """One list per cell, in row-major order, holding the length of every maximal run; masked values break runs."""
    op = c.choice('operation', OPS)
    n, cells = c.choice('shape', [(1, 1), (2, 1), (3, 1), (4, 1), (5, 1), (2, 2)])
    th = c.real('threshold')
    sh = (n, cells, 1)
    data, mask = c.arr('values', sh), c.arr('mask', sh, 'b')
    v, m = c.snap(data), c.snap(mask)
    values = c.marr(data, mask)
    flags = [[bool(c.And(c.Not(m(t, x, 0)), holds(op, v(t, x, 0), th))) for t in range(n)] for x in range(cells)]
    obj = c.fn(D + 'Duration')()
    out = c.call(lambda: list(obj._iter_consecutive_(values, th, op)))
    c.ok('returns', out)
    r = out.value
    c.check('one list per cell', len(r) == cells)
    for x in range(cells):
        e = runs_of(flags[x])
        c.check('number of runs', len(r[x]) == len(e))
        for a, b in zip(r[x], e):
            c.check('length', c.eq(a, b))


@contract('C15', [D + 'Duration.calculate'], samples=150)
def duration(c):
    """Every cell carries the summary of its own runs, masked where the first step is."""
    op = c.choice('operation', OPS)
    summary = c.choice('summary', ['mean', 'median', 'std', 'max', 'min'])
    n, R, C = c.int('time', 1, small=8), c.int('rows', 1, small=3), c.int('cols', 1, small=3)
    th = c.real('threshold')
    sh = (n, R, C)
    data, mask = c.arr('values', sh), c.arr('mask', sh, 'b')
    v, m = c.snap(data), c.snap(mask)
    values = c.marr(data, mask)
    if c.sym:
        # What ``runs`` states: one list of at least one number per cell, in row-major order.
        more, run = c.snap(c.arr('more', (R * C,), 'i')), c.snap(c.arr('run', (R * C, n), 'i'))
        fill = lambda k: c.mk((1 + c.max(more(k), 0),), lambda j: run(k, j), 'i')
        c.patch(D + 'Duration._iter_consecutive_', lambda self, a, b, d: c.mklist(R * C, fill))
    else:
        flags = lambda y, x: [bool(not m(t, y, x) and holds(op, v(t, y, x), th)) for t in range(n)]
        fill = lambda k: runs_of(flags(*divmod(k, C)))
    obj = c.fn(D + 'Duration')()
    out = c.call(obj.calculate, values, threshold=th, operation=op, summary=summary)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, (R, C)))
    c.forall('mask of the first step', (R, C), lambda y, x: c.Iff(c.maskat(r, y, x), m(0, y, x)))

    def expect(y, x):
        if c.If(m(0, y, x)):
            return True
        val, _ = c.red(summary, c.marr(fill(y * C + x) if c.sym else c.mk((len(fill(y * C + x)),), lambda j: fill(y * C + x)[j]),
                                       None))
        return c.close(c.at(r, y, x), val)
    c.forall('summary of the runs', (R, C), expect)


@contract('C15', [D + 'FrequencyDuration._get_summary_'], samples=120, level='bounded', bound='up to four runs of one to three steps')
def frequencies(c):
    """Every distinct length once, with the number of runs of that length."""
    n = c.choice('runs', [1, 2, 3, 4])
    d = [c.choice('length%d' % i, [1, 2, 3]) for i in range(n)]
    obj = c.fn(D + 'FrequencyDuration')()
    out = c.call(obj._get_summary_, list(d))
    c.ok('returns', out)
    got = [(int(i['duration']), int(i['count'])) for i in out.value]
    c.check('counts', sorted(got) == sorted((k, d.count(k)) for k in set(d)))


@contract('C15', [D + 'FrequencyDuration.calculate'], samples=120, level='bounded',
          bound='up to three time steps, two cells (every value, mask and operation)')
def frequency(c):
    """The summary of each cell's own runs, masked where the first step is."""
    op = c.choice('operation', OPS)
    n, R, C = c.choice('shape', [(1, 1, 1), (2, 1, 2), (2, 2, 1), (3, 1, 1)])
    th = c.real('threshold')
    data, mask = c.arr('values', (n, R, C)), c.arr('mask', (n, R, C), 'b')
    v, m = c.snap(data), c.snap(mask)
    values = c.marr(data, mask)
    flags = lambda y, x: [bool(c.And(c.Not(m(t, y, x)), holds(op, v(t, y, x), th))) for t in range(n)]
    cells = [[runs_of(flags(y, x)) for x in range(C)] for y in range(R)]
    obj = c.fn(D + 'FrequencyDuration')()
    out = c.call(obj.calculate, values, threshold=th, operation=op)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, (R, C)))
    for y in range(R):
        for x in range(C):
            c.check('mask', c.Iff(c.maskat(r, y, x), m(0, y, x)))
            if not c.If(m(0, y, x)):
                got = [(int(i['duration']), int(i['count'])) for i in c.item(c.item(r, y), x)]
                d = cells[y][x]
                c.check('counts', sorted(got) == sorted((k, d.count(k)) for k in set(d)))


@contract('C15', [F + 'freezethaw1d'], samples=300, level='bounded', bound='up to three days (every value, mask and threshold), four unmasked days')
def freeze_thaw(c):
    """Events alternate; the first one is the initial state; a series that never reaches the threshold has none."""
    n = c.choice('days', [1, 2, 3, 4])
    masks = n < 4
    th = c.real('threshold')
    c.assume(th > 0)
    data, mask = c.arr('values', (n,)), c.arr('mask', (n,), 'b') if masks else c.mk((n,), lambda k: False, 'b')
    v, m = c.snap(data), c.snap(mask)
    days = [v(t) for t in range(n) if not c.If(m(t))]
    if not days:
        c.assume(False)
    out = c.call(c.fn(F + 'freezethaw1d'), c.marr(data, mask), th)
    c.ok('returns', out)
    # The degree days are summed from every change of sign on, unless it precedes the end of the last event.
    x = [0] + days
    starts = [0] + [t for t in range(len(x) - 1) if bool(x[t] >= 0) != bool(x[t + 1] >= 0)]
    last, sign, events = 0, 0, 0
    for s in starts:
        if s < last:
            continue
        total = 0
        for t in range(s + 1, len(x)):
            total = total + x[t]
            if bool(c.Or(total >= th, total <= -th)):
                now = 1 if bool(total > 0) else -1
                if now != sign:
                    last, sign, events = t, now, events + 1
                break
    c.check('transitions', c.eq(out.value, max(events - 1, 0)))
