"""C20 Pointwise calculations follow their definitions at every position."""
from engine.contract import contract

T = 'ocgis.calc.library.thresholds:'
M = 'ocgis.calc.library.math:'
S = 'ocgis.calc.library.statistics:'
H = 'ocgis.calc.library.index.heat_index:'
OPS = ['gt', 'lt', 'gte', 'lte']


def holds(op, v, t):
    return v > t if op == 'gt' else v < t if op == 'lt' else v >= t if op == 'gte' else v <= t


def formula(x, y):
    """The heat index regression (https://en.wikipedia.org/wiki/Heat_index)."""
    return (-42.379 + 2.04901523 * x + 10.14333127 * y - 0.22475541 * x * y - 6.83783e-3 * x * x - 5.481717e-2 * y * y
            + 1.22874e-3 * x * x * y + 8.5282e-4 * x * y * y - 1.99e-6 * x * x * y * y)


def masked(c, nm, sh, **k):
    data, mask = c.arr(nm, sh, **k), c.arr(nm + '_mask', sh, 'b')
    return c.marr(data, mask), c.snap(data), c.snap(mask)


def counted(c, r, sh, m, inside):
    """r[y, x] is the number of unmasked steps with inside(t, y, x), masked where every step is masked."""
    n = sh[0]
    c.check('shape', c.same_shape(r, sh[1:]))
    def f(y, x):
        return c.And(c.Iff(c.maskat(r, y, x), c.all_(n, lambda t: m(t, y, x))),
                     c.Implies(c.Not(c.all_(n, lambda t: m(t, y, x))), lambda: c.eq(
                         c.at(r, y, x), c.count(n, lambda t: c.And(c.Not(m(t, y, x)), inside(t, y, x))))))
    c.forall('count', sh[1:], f)


@contract('C20', [T + 'Threshold.calculate'], samples=150)
def threshold(c):
    """The number of steps for which the named comparison holds."""
    op = c.choice('operation', OPS)
    sh = (c.int('time', 1, small=4), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    th = c.real('threshold')
    values, v, m = masked(c, 'values', sh)
    out = c.call(c.fn(T + 'Threshold')().calculate, values, threshold=th, operation=op)
    c.ok('returns', out)
    counted(c, out.value, sh, m, lambda t, y, x: holds(op, v(t, y, x), th))


@contract('C20', [T + 'Threshold.calculate'], samples=20)
def threshold_unknown(c):
    """Anything but the four comparisons is refused."""
    sh = (c.int('time', 1, small=4), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    values, v, m = masked(c, 'values', sh)
    out = c.call(c.fn(T + 'Threshold')().calculate, values, threshold=c.real('threshold'), operation=c.choice('op', ['eq', 'GT', None]))
    c.check('refused', out.raised(NotImplementedError))


@contract('C20', [T + 'Between.calculate'], samples=150)
def between(c):
    """The number of steps within the closed range."""
    sh = (c.int('time', 1, small=4), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    lo, up = c.real('lower'), c.real('upper')
    values, v, m = masked(c, 'values', sh)
    out = c.call(c.fn(T + 'Between')().calculate, values, lower=lo, upper=up)
    if not c.If(lo <= up):
        c.check('refused', out.raised(AssertionError))
        return
    c.ok('returns', out)
    counted(c, out.value, sh, m, lambda t, y, x: c.And(lo <= v(t, y, x), v(t, y, x) <= up))


@contract('C20', [M + 'Sum.calculate', S + 'Max.calculate', S + 'Min.calculate', S + 'Mean.calculate', S + 'Median.calculate',
                  S + 'StandardDeviation.calculate'], samples=150)
def statistics(c):
    """numpy's statistic of the unmasked steps of the cell."""
    cls, op = c.choice('function', [(M + 'Sum', 'sum'), (S + 'Max', 'max'), (S + 'Min', 'min'), (S + 'Mean', 'mean'),
                                    (S + 'Median', 'median'), (S + 'StandardDeviation', 'std')])
    sh = (c.int('time', 1, small=4), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    values, v, m = masked(c, 'values', sh)
    out = c.call(c.fn(cls)().calculate, values)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, sh[1:]))

    def expect(y, x):
        w = c.marr(c.mk((sh[0],), lambda t: v(t, y, x)), c.mk((sh[0],), lambda t: m(t, y, x), 'b'))
        val, msk = c.red(op, w)
        return c.And(c.Iff(c.maskat(r, y, x), msk), c.Implies(c.Not(msk), lambda: c.close(c.at(r, y, x), val)))
    c.forall('statistic', sh[1:], expect)


@contract('C20', [M + 'Divide.calculate'], samples=150)
def divide(c):
    """The quotient at every position, masked where an input is masked or the divisor is zero."""
    sh = (c.int('time', 1, small=3), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    a, va, ma = masked(c, 'a', sh)
    b, vb, mb = masked(c, 'b', sh)
    out = c.call(c.fn(M + 'Divide')().calculate, arr1=a, arr2=b)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, sh))
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), c.Or(ma(*i), mb(*i), vb(*i) == 0)))
    c.forall('quotient', sh, lambda *i: c.Implies(c.Not(c.Or(ma(*i), mb(*i), vb(*i) == 0)), lambda: c.close(
        c.at(r, *i), c.div(va(*i), vb(*i)))))


@contract('C20', [M + 'NaturalLogarithm.calculate'], samples=100)
def logarithm(c):
    """The natural logarithm at every position, masked where the input is masked or not positive."""
    sh = (c.int('time', 1, small=3), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    a, va, ma = masked(c, 'a', sh)
    out = c.call(c.fn(M + 'NaturalLogarithm')().calculate, a)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, sh))
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), c.Or(ma(*i), va(*i) <= 0)))
    c.forall('logarithm', sh, lambda *i: c.Implies(c.Not(c.Or(ma(*i), va(*i) <= 0)), lambda: c.close(c.at(r, *i), c.log(va(*i)))))


@contract('C20', [H + 'HeatIndex.calculate'], samples=150)
def heat_index(c):
    """The regression of the heat index, masked below 80 degrees or 40 percent; the inputs stay as they are."""
    sh = (c.int('time', 1, small=3), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    a, t, mt = masked(c, 'tas', sh)
    b, h, mh = masked(c, 'rhs', sh)
    out = c.call(c.fn(H + 'HeatIndex')().calculate, tas=a, rhs=b)
    c.ok('returns', out)
    r = out.value
    c.check('shape', c.same_shape(r, sh))
    off = lambda *i: c.Or(mt(*i), mh(*i), t(*i) < 80, h(*i) < 40)
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), off(*i)))

    c.forall('heat index', sh, lambda *i: c.Implies(c.Not(off(*i)), lambda: c.close(c.at(r, *i), formula(t(*i), h(*i)))))
    c.forall('the inputs are unchanged', sh, lambda *i: c.And(
        c.Iff(c.maskat(a, *i), mt(*i)), c.Iff(c.maskat(b, *i), mh(*i)), c.eq(c.at(a, *i), t(*i)), c.eq(c.at(b, *i), h(*i))))


def field(c, order, names, orders=None, extra=None, suffix=''):
    """A field of time, row and column dimensions (as the dimension map names them) with float variables."""
    orders = orders or {}
    import numpy as np
    from ocgis import Variable, Field, Dimension
    size = {'time': c.int('n_time' + suffix, 1, small=3), 'y': c.int('n_y' + suffix, 1, small=2),
            'x': c.int('n_x' + suffix, 1, small=2)}
    dims = {k: Dimension(k, size=v) for k, v in size.items()}
    for k in extra or {}:
        size[k], dims[k] = extra[k], Dimension(k, size=extra[k])
    coords = [Variable(name=k, value=c.mk((size[k],), lambda i: i * 1.0), dimensions=dims[k]) for k in ('time', 'y', 'x')]
    out, snaps = [], []
    for nm in names:
        sh = tuple(size[k] for k in orders.get(nm, order))
        data, mask = c.arr(nm + suffix, sh), c.arr(nm + '_mask' + suffix, sh, 'b')
        out.append(Variable(name=nm, value=data, mask=mask, dimensions=[dims[k] for k in orders.get(nm, order)]))
        snaps.append((c.snap(data), c.snap(mask)))
    f = Field(variables=coords + out, is_data=names)
    for k in ('time', 'y', 'x'):
        f.dimension_map.set_variable(k, k, dimension=k)
    return f, tuple(size[k] for k in order), snaps


@contract('C20', ['ocgis.calc.base:AbstractUnivariateFunction._execute_', 'ocgis.calc.base:AbstractFunction._iter_conformed_arrays_',
                  'ocgis.calc.base:AbstractFunction.get_fill_variable'], samples=60)
def execute_univariate(c):
    """Every output value belongs to the input value at the same position; the source variable stays as it is."""
    order = c.choice('order', [('time', 'y', 'x'), ('x', 'y', 'time'), ('y', 'time', 'x')])
    f, sh, [(v, m)] = field(c, order, ['a'])
    fn = c.fn(M + 'NaturalLogarithm')(field=f, alias='out')
    out = c.call(fn.execute)
    c.ok('returns', out)
    r = out.value['out'].get_masked_value()
    c.check('shape', c.same_shape(r, sh))
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), c.Or(m(*i), v(*i) <= 0)))
    c.forall('value', sh, lambda *i: c.Implies(c.Not(c.Or(m(*i), v(*i) <= 0)), lambda: c.close(c.at(r, *i), c.log(v(*i)))))
    a = f['a'].get_masked_value()
    c.forall('source', sh, lambda *i: c.And(c.Iff(c.maskat(a, *i), m(*i)), c.eq(c.at(a, *i), v(*i))))


@contract('C20', ['ocgis.calc.base:AbstractMultivariateFunction._execute_', 'ocgis.calc.base:AbstractFunction._iter_conformed_arrays_'],
          samples=60)
def execute_multivariate(c):
    """Both inputs contribute their values at the position of the output value; they stay as they are."""
    order, other = c.choice('orders', [(('time', 'y', 'x'),) * 2, (('x', 'y', 'time'),) * 2, (('y', 'time', 'x'),) * 2,
                                       (('time', 'y', 'x'), ('x', 'time', 'y')), (('y', 'x', 'time'), ('time', 'y', 'x'))])
    f, sh, [(v, m), (w_, n_)] = field(c, order, ['a', 'b'], orders={'b': other})
    # Positions of the second input are given in the order of the first one.
    there = lambda i: tuple(i[order.index(k)] for k in other)
    w, n = lambda *i: w_(*there(i)), lambda *i: n_(*there(i))
    which = c.choice('function', ['divide', 'heat_index'])
    if which == 'divide':
        fn = c.fn(M + 'Divide')(field=f, alias='out', parms={'arr1': 'a', 'arr2': 'b'})
        off = lambda *i: c.Or(m(*i), n(*i), w(*i) == 0)
        val = lambda *i: c.div(v(*i), w(*i))
    else:
        f['a'].units, f['b'].units = 'fahrenheit', 'percent'
        fn = c.fn(H + 'HeatIndex')(field=f, alias='out', parms={'tas': 'a', 'rhs': 'b'})
        off = lambda *i: c.Or(m(*i), n(*i), v(*i) < 80, w(*i) < 40)
        val = lambda *i: formula(v(*i), w(*i))
    out = c.call(fn.execute)
    c.ok('returns', out)
    r = out.value['out'].get_masked_value()
    c.check('shape', c.same_shape(r, sh))
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), off(*i)))
    c.forall('value', sh, lambda *i: c.Implies(c.Not(off(*i)), lambda: c.close(c.at(r, *i), val(*i))))
    for nm, p, q in (('a', v, m), ('b', w, n)):
        a = f[nm].get_masked_value()
        own = there if nm == 'b' else tuple
        c.forall('source', sh, lambda *i: c.And(c.Iff(c.maskat(a, *own(i)), q(*i)), c.eq(c.at(a, *own(i)), p(*i))))


@contract('C20', ['ocgis.calc.base:AbstractFunction._get_temporal_agg_fill_', 'ocgis.calc.base:AbstractUnivariateSetFunction._execute_',
                  'ocgis.calc.base:AbstractFunction.get_sample_size'], samples=60, level='bounded',
          bound='one or two temporal groups; sizes, groups, values and masks unbounded')
def execute_grouped(c):
    """Every group's result at a cell is the statistic of the group's own steps at that cell."""
    import numpy as np
    from ocgis import Dimension
    order, cls, op, ss, count = c.choice('case', [
        (('time', 'y', 'x'), M + 'Sum', 'sum', True, 2), (('x', 'y', 'time'), S + 'Max', 'max', False, 2),
        (('y', 'time', 'x'), S + 'Mean', 'mean', True, 1), (('time', 'y', 'x'), S + 'Min', 'min', False, 1)])
    f, sh, [(v, m)] = field(c, order, ['a'])
    n_time = sh[order.index('time')]
    groups = [c.arr('group%d' % g, (n_time,), 'b') for g in range(count)]
    where = [c.where(g) for g in groups]
    for n, _ in where:
        c.assume(n >= 1)

    class Groups(object):
        dgroups = groups
        dimensions = (Dimension('time', size=len(groups)),)
        shape = (len(groups),)
    fn = c.fn(cls)(field=f, alias='out', tgd=Groups(), calc_sample_size=ss)
    out = c.call(fn.execute)
    c.ok('returns', out)
    r = out.value['out'].get_masked_value()
    rs = tuple(len(groups) if k == 'time' else s for k, s in zip(order, sh))
    c.check('shape', c.same_shape(r, rs))
    at = order.index('time')
    for g, (n, pos) in enumerate(where):
        def expect(a, b):
            idx = [a, b]
            full = lambda t: tuple(idx[:at] + [t] + idx[at:])
            w = c.marr(c.mk((n,), lambda j: v(*full(pos(j)))), c.mk((n,), lambda j: m(*full(pos(j))), 'b'))
            val, msk = c.red(op, w)
            res = c.And(c.Iff(c.maskat(r, *full(g)), msk), c.Implies(c.Not(msk), lambda: c.close(c.at(r, *full(g)), val)))
            if ss:
                q = out.value['n_out'].get_masked_value()
                res = c.And(res, c.Iff(c.maskat(q, *full(g)), msk), c.Implies(c.Not(msk), lambda: c.eq(
                    c.at(q, *full(g)), c.count(n, lambda j: c.Not(m(*full(pos(j))))))))
            return res
        c.forall('statistic of the group', tuple(s for k, s in zip(order, sh) if k != 'time'), expect)
    a = f['a'].get_masked_value()
    c.forall('source', sh, lambda *i: c.And(c.Iff(c.maskat(a, *i), m(*i)), c.eq(c.at(a, *i), v(*i))))


@contract('C20', ['ocgis.calc.base:AbstractFunction._get_temporal_agg_fill_', 'ocgis.calc.base:AbstractFunction.aggregate_temporal',
                  'ocgis.calc.base:AbstractUnivariateFunction._execute_', 'ocgis.calc.base:AbstractMultivariateFunction._execute_'],
          samples=60, level='bounded', bound='one or two temporal groups; sizes, groups, values and masks unbounded')
def execute_then_group(c):
    """A transform with a temporal grouping: every step is transformed, and a group's result is the mean of its steps."""
    from ocgis import Dimension
    order, which, ss, count = c.choice('case', [
        (('time', 'y', 'x'), 'log', True, 2), (('x', 'y', 'time'), 'log', False, 1), (('y', 'time', 'x'), 'divide', False, 2),
        (('time', 'y', 'x'), 'divide', False, 1)])
    two = which == 'divide'
    f, sh, snaps = field(c, order, ['a', 'b'] if two else ['a'])
    (v, m), (w, n) = snaps[0], snaps[-1]
    n_time = sh[order.index('time')]
    groups = [c.arr('group%d' % g, (n_time,), 'b') for g in range(count)]
    where = [c.where(g) for g in groups]
    for k, _ in where:
        c.assume(k >= 1)

    class Groups(object):
        dgroups = groups
        dimensions = (Dimension('time', size=len(groups)),)
        shape = (len(groups),)
    if two:
        off = lambda *i: c.Or(m(*i), n(*i), w(*i) == 0)
        val = lambda *i: c.Ite(off(*i), 0.0, lambda: c.div(v(*i), w(*i)))
        fn = c.fn(M + 'Divide')(field=f, alias='out', parms={'arr1': 'a', 'arr2': 'b'}, tgd=Groups(), calc_sample_size=ss)
    else:
        off = lambda *i: c.Or(m(*i), v(*i) <= 0)
        val = lambda *i: c.Ite(off(*i), 0.0, lambda: c.log(v(*i)))
        fn = c.fn(M + 'NaturalLogarithm')(field=f, alias='out', tgd=Groups(), calc_sample_size=ss)
    out = c.call(fn.execute)
    c.ok('returns', out)
    r = out.value['out'].get_masked_value()
    c.check('shape', c.same_shape(r, tuple(len(groups) if k == 'time' else s for k, s in zip(order, sh))))
    at = order.index('time')
    for g, (k, pos) in enumerate(where):
        def expect(a, b, g=g, k=k, pos=pos):
            idx = [a, b]
            full = lambda t: tuple(idx[:at] + [t] + idx[at:])
            z = c.marr(c.mk((k,), lambda j: val(*full(pos(j)))), c.mk((k,), lambda j: off(*full(pos(j))), 'b'))
            mean, msk = c.red('mean', z)
            res = c.And(c.Iff(c.maskat(r, *full(g)), msk), c.Implies(c.Not(msk), lambda: c.close(c.at(r, *full(g)), mean)))
            if ss:
                q = out.value['n_out'].get_masked_value()
                res = c.And(res, c.Iff(c.maskat(q, *full(g)), msk), c.Implies(c.Not(msk), lambda: c.eq(
                    c.at(q, *full(g)), c.count(k, lambda j: c.Not(off(*full(pos(j))))))))
            return res
        c.forall('mean of the group', tuple(s for d, s in zip(order, sh) if d != 'time'), expect)


@contract('C20', ['ocgis.calc.base:AbstractFunction._get_extra_indices_itr_and_src_names_',
                  'ocgis.calc.base:AbstractFunction._iter_conformed_arrays_', 'ocgis.calc.base:AbstractFunction._get_dimension_crosswalk_'],
          samples=60, level='bounded', bound='at most two dimensions outside the dimension map, of one to three elements; one temporal group')
def execute_extra(c):
    """Dimensions which the dimension map does not name are kept: every output value is the one of its own position."""
    from ocgis import Dimension
    order, extra, which = c.choice('case', [
        (('e', 'time', 'y', 'x'), {'e': 2}, 'log'), (('time', 'e', 'x', 'y'), {'e': 3}, 'group'),
        (('y', 'e', 'time', 'g', 'x'), {'e': 2, 'g': 2}, 'log'), (('g', 'time', 'x', 'e', 'y'), {'e': 1, 'g': 2}, 'group')])
    f, sh, [(v, m)] = field(c, order, ['a'], extra=extra)
    at = order.index('time')
    if which == 'log':
        fn = c.fn(M + 'NaturalLogarithm')(field=f, alias='out')
        rs = sh
        off = lambda *i: c.Or(m(*i), v(*i) <= 0)
        val = lambda *i: c.log(v(*i))
    else:
        group = c.arr('group', (sh[at],), 'b')
        k, pos = c.where(group)
        c.assume(k >= 1)

        class Groups(object):
            dgroups = [group]
            dimensions = (Dimension('time', size=1),)
            shape = (1,)
        fn = c.fn(M + 'Sum')(field=f, alias='out', tgd=Groups(), calc_sample_size=True)
        rs = tuple(1 if d == 'time' else s for d, s in zip(order, sh))
        step = lambda i, j: tuple(i[:at]) + (pos(j),) + tuple(i[at + 1:])
        res = lambda i: c.red('sum', c.marr(c.mk((k,), lambda j: v(*step(i, j))), c.mk((k,), lambda j: m(*step(i, j)), 'b')))
        off = lambda *i: res(i)[1]
        val = lambda *i: res(i)[0]
    out = c.call(fn.execute)
    c.ok('returns', out)
    r = out.value['out'].get_masked_value()
    c.check('shape', c.same_shape(r, rs))
    c.check('dimensions', tuple(d.name for d in out.value['out'].dimensions) == order)
    c.forall('mask', rs, lambda *i: c.Iff(c.maskat(r, *i), off(*i)))
    c.forall('value', rs, lambda *i: c.Implies(c.Not(off(*i)), lambda: c.close(c.at(r, *i), val(*i))))
    if which == 'group':
        q = out.value['n_out'].get_masked_value()
        c.forall('sample size', rs, lambda *i: c.And(c.Iff(c.maskat(q, *i), off(*i)), c.Implies(c.Not(off(*i)), lambda: c.eq(
            c.at(q, *i), c.count(k, lambda j: c.Not(m(*step(i, j))))))))
    a = f['a'].get_masked_value()
    c.forall('source', sh, lambda *i: c.And(c.Iff(c.maskat(a, *i), m(*i)), c.eq(c.at(a, *i), v(*i))))


@contract('C20', ['ocgis.calc.eval_function:EvalFunction._execute_', 'ocgis.calc.eval_function:EvalFunction._get_eval_string_',
                  'ocgis.calc.base:AbstractFunction._iter_conformed_arrays_'], samples=80, level='bounded',
          bound='the listed expressions; sizes, values and masks unbounded')
def execute_expression(c):
    """An expression of variables is evaluated at every position; positions where an input is masked are masked."""
    order, (expr, name, names, f) = c.choice('order', [('time', 'y', 'x'), ('x', 'y', 'time')]), c.choice('expression', [
        ('es=a*2+b', 'es', ['a', 'b'], lambda p, q: p * 2 + q),
        ('es = (ab - a) / 4', 'es', ['a', 'ab'], lambda p, q: (q - p) / 4),
        ('es=abs(a)-b-a', 'es', ['a', 'b'], lambda p, q: abs(p) - q - p),
        ('es=abs(absorbed)*3', 'es', ['absorbed'], lambda p, q: abs(p) * 3),
        ('es=abs(a - b) + b', 'es', ['a', 'b'], lambda p, q: abs(p - q) + q),
        ('a_2=a-1.5', 'a_2', ['a'], lambda p, q: p - 1.5)])
    fld, sh, snaps = field(c, order, names)
    (v, m), (w, n) = snaps[0], snaps[-1]
    fn = c.fn('ocgis.calc.eval_function:EvalFunction')(field=fld, expr=expr)
    out = c.call(fn.execute)
    c.ok('returns', out)
    c.check('named by the left side', sorted(out.value.keys()) == [name])
    r = out.value[name].get_masked_value()
    c.check('shape', c.same_shape(r, sh))
    off = lambda *i: c.Or(m(*i), n(*i))
    c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), off(*i)))
    c.forall('value', sh, lambda *i: c.Implies(c.Not(off(*i)), lambda: c.close(c.at(r, *i), f(v(*i), w(*i)))))
    for nm, (p, q) in zip(names, snaps):
        a = fld[nm].get_masked_value()
        c.forall('source', sh, lambda *i: c.And(c.Iff(c.maskat(a, *i), q(*i)), c.eq(c.at(a, *i), p(*i))))


@contract('C20', ['ocgis.calc.engine:CalculationEngine.execute', 'ocgis.calc.engine:format_return_field',
                  'ocgis.calc.base:AbstractFunction.iter_calculation_targets'], samples=80, level='bounded',
          bound='two selections of one field each; the listed calculations; sizes, values and masks unbounded')
def engine_execute(c):
    """Every requested calculation is found in every field of the collection, computed from that field's own data, which
    the calculations replace; coordinates stay."""
    from ocgis import Field
    from ocgis.collection.spatial import SpatialCollection
    log = (lambda v, m: (lambda *i: c.Or(m(*i), v(*i) <= 0)), lambda v: (lambda *i: c.log(v(*i))))
    lin = lambda k, d: (lambda v, m: m, lambda v: (lambda *i: v(*i) * k + d))
    calcs, expect = c.choice('calc', [
        ([{'func': 'ln', 'name': 'p'}], {'p': log}),
        (['p=a*2+1'], {'p': lin(2, 1)}),
        (['p=a*2', 'q=a*3-4'], {'p': lin(2, 0), 'q': lin(3, -4)}),
        ([{'func': 'ln', 'name': 'p'}, 'q=a*4'], {'p': log, 'q': lin(4, 0)}),
        (['q=a*4', {'func': 'ln', 'name': 'p'}], {'p': log, 'q': lin(4, 0)})])
    from ocgis.ops.parms.definition import Calc
    funcs = Calc(calcs).value
    order = ('time', 'y', 'x')
    coll = SpatialCollection()
    parts = []
    for u in (3, 8):
        f, sh, [(v, m)] = field(c, order, ['a'], suffix='_%d' % u)
        coll.children[u] = Field()
        coll.children[u].add_child(f)
        parts.append((u, f.name, sh, v, m))
    eng = c.fn('ocgis.calc.engine:CalculationEngine')(None, funcs)
    out = c.call(eng.execute, coll)
    c.ok('returns', out)
    for u, name, sh, v, m in parts:
        g = out.value.children[u].children[name]
        c.check('variables', sorted(g.keys()) == sorted(['time', 'x', 'y'] + list(expect)))
        c.check('data variables', sorted(d.name for d in g.data_variables) == sorted(expect))
        for k, (mask, value) in expect.items():
            r = g[k].get_masked_value()
            off, val = mask(v, m), value(v)
            c.check('shape', c.same_shape(r, sh))
            c.forall('mask', sh, lambda *i: c.Iff(c.maskat(r, *i), off(*i)))
            c.forall('value', sh, lambda *i: c.Implies(c.Not(off(*i)), lambda: c.close(c.at(r, *i), val(*i))))


@contract('C20', ['ocgis.calc.engine:CalculationEngine.execute', 'ocgis.calc.engine:format_return_field'], level='bounded',
          bound='two selections of one field each with at most ten days; the listed functions and groupings', concrete_only=True,
          samples=120)
def engine_grouped(c):
    """A grouped calculation holds one value per temporal group of the field, computed over the days of the group, and the
    field's time coordinate is the one of the groups."""
    import numpy as np
    from ocgis import Variable, Field, Dimension
    from ocgis.collection.spatial import SpatialCollection
    from ocgis.ops.parms.definition import Calc
    from ocgis.variable.temporal import TemporalVariable
    grouping = c.choice('grouping', [['month'], ['year', 'month'], ['year']])
    calc = c.choice('calc', [['sum'], ['max', 'mean'], ['ln'], ['min', 'ln']])
    funcs = Calc([{'func': k, 'name': 'r_' + k} for k in calc]).value
    n_time, n_x = c.int('n_time', 1, small=10), c.int('n_x', 1, small=3)
    days = c.sorted_arr('days', n_time, 'i')
    days = np.unique(np.abs(days) * c.int('stretch', 1, small=30))
    coll = SpatialCollection()
    parts = []
    for u in (3, 8):
        sh = (len(days), 1, n_x)
        data, mask = c.arr('a_%d' % u, sh), c.arr('a_mask_%d' % u, sh, 'b')
        time = TemporalVariable(name='time', value=days * 1.0, units='days since 2001-01-01', dimensions='time')
        a = Variable(name='a', value=data.copy(), mask=mask.copy(), dimensions=['time', 'y', 'x'])
        xy = [Variable(name=k, value=np.arange(s) * 1.0, dimensions=k) for k, s in (('y', 1), ('x', n_x))]
        f = Field(variables=[a] + xy, time=time, is_data=['a'])
        for k in ('y', 'x'):
            f.dimension_map.set_variable(k, k, dimension=k)
        coll.children[u] = Field()
        coll.children[u].add_child(f)
        parts.append((u, f.name, np.ma.array(data.copy(), mask=mask.copy())))
    eng = c.fn('ocgis.calc.engine:CalculationEngine')(grouping, funcs)
    out = c.call(eng.execute, coll)
    c.ok('returns', out)
    keys = np.array([[getattr(d, p) for p in grouping] for d in
                     (np.datetime64('2001-01-01') + days.astype(int)).astype(object)]).reshape(len(days), len(grouping))
    uniq = sorted(set(map(tuple, keys.tolist())))
    for u, name, a in parts:
        g = out.value.children[u].children[name]
        c.check('variables', 'a' not in g and sorted(d.name for d in g.data_variables) == sorted('r_' + k for k in calc))
        c.check('groups of the time coordinate', g.time.shape == (len(uniq),))
        for k in calc:
            r = g['r_' + k].get_masked_value()
            c.check('shape', r.shape == (len(uniq),) + a.shape[1:])
            for ii, key in enumerate(uniq):
                rows = a[(keys == np.array(key)).all(axis=1)]
                if k == 'ln':
                    e = np.ma.log(np.ma.masked_where(rows.data <= 0, rows)).mean(axis=0)
                else:
                    e = getattr(np.ma, k)(rows, axis=0)
                e = np.ma.array(e)
                c.check('mask', bool(np.all(np.ma.getmaskarray(r[ii]) == np.ma.getmaskarray(e))))
                c.check('value of the group', bool(np.ma.allclose(r[ii], e)))


@contract('C20', [S + 'FrequencyPercentile.calculate'], level='bounded', bound='at most six steps', concrete_only=True, samples=150)
def percentile(c):
    """The percentile interpolates linearly between the unmasked steps of the cell."""
    import numpy as np
    sh = (c.int('time', 1, small=6), c.int('rows', 1, small=2), c.int('cols', 1, small=2))
    values, v, m = masked(c, 'values', sh)
    q = c.choice('percentile', [0, 10, 50, 90, 100])
    out = c.call(c.fn(S + 'FrequencyPercentile')().calculate, values, percentile=q)
    c.ok('returns', out)
    r = out.value
    c.check('shape', r.shape == sh[1:])
    for y in range(sh[1]):
        for x in range(sh[2]):
            s = sorted(v(t, y, x) for t in range(sh[0]) if not m(t, y, x))
            c.check('masked where every step is masked', bool(np.ma.getmaskarray(r)[y, x]) == (len(s) == 0))
            if s:
                at = q / 100.0 * (len(s) - 1)
                lo = int(at)
                hi = min(lo + 1, len(s) - 1)
                c.check('percentile of the unmasked steps', abs(r.data[y, x] - (s[lo] + (s[hi] - s[lo]) * (at - lo))) < 1e-9)
