"""C23 Unions join exactly the unmasked geometries, and spatial averages are the area-weighted means of the unmasked data."""
import itertools

import numpy as np

from engine.contract import contract

V = 'ocgis.variable.geom:'


@contract('C23', [V + 'GeometryVariable.area', V + 'GeometryVariable.weights'], samples=200)
def area_weights(c):
    """The area of every unmasked geometry stands at its place and the weights are the areas - one for geometries without any - relative to
    the largest unmasked; both are masked where the geometries are."""
    n = c.int('n', 1, small=5)
    k = c.arr('mask', (n,), 'b') if c.choice('masked', [False, True]) else None
    areas = c.arr('areas', (n,), 'f', lo=0, hi=9)
    some = c.int('some', 0, small=4)
    from ocgis.variable.geom import GeometryVariable
    c.assume(some < n)
    if k is not None:
        c.assume(c.Not(c.at(k, some)))
    at = c.snap(areas)
    mk = c.snap(k) if k is not None else (lambda i: False)
    c.assume_forall((n,), lambda i: at(i) >= 0)
    if c.sym:
        class G(object):
            def __init__(self, i):
                self.area = at(i)

        class Self(object):
            is_empty = False
            area = property(GeometryVariable.area.fget)

            def get_masked_value(self):
                return areas

            def get_mask(self):
                return k

        def elements(arr, return_value=False):
            if k is None:
                return c.mklist(n, lambda q: ((q,), G(q)))
            m, w = c.where(c.mk(n, lambda i: c.Not(mk(i)), 'b'))
            return c.mklist(m, lambda q: ((w(q),), G(w(q))))
        c.patch('ocgis.variable.geom:iter_array', elements)
        gv = Self()
    else:
        from shapely.geometry import Point, box
        g = np.empty(n, dtype=object)
        for i in range(n):
            if c.choice('point%d' % i, [False, False, True]):
                areas[i] = 0
                g[i] = Point(i, 0)
            else:
                areas[i] = max(areas[i], 0.5)
                g[i] = box(2 * i, 0, 2 * i + 1, float(areas[i]))
        at = c.snap(areas)
        gv = GeometryVariable(name='g', value=g, mask=k, dimensions='n')
    out = c.call(GeometryVariable.area.fget, gv)
    c.ok('area', out)
    c.check('shape', c.same_shape(out.value, (n,)))
    c.forall('areas', (n,), lambda i: c.Implies(c.Not(mk(i)), c.eq(c.at(out.value, i), at(i))))
    c.forall('mask', (n,), lambda i: c.Iff(c.maskat(out.value, i), mk(i)))
    out = c.call(GeometryVariable.weights.fget, gv)
    c.ok('weights', out)
    w = out.value
    one = lambda i: c.Ite(c.eq(at(i), 0), 1.0, at(i))
    c.check('shape of the weights', c.same_shape(w, (n,)))
    c.forall('mask of the weights', (n,), lambda i: c.Iff(c.maskat(w, i), mk(i)))
    c.forall('at most one', (n,), lambda i: c.Implies(c.Not(mk(i)), c.And(c.at(w, i) > 0, c.at(w, i) <= 1 + 1e-12)))
    c.forall('proportional', (n, n), lambda i, j: c.Implies(c.Not(c.Or(mk(i), mk(j))), c.close(c.at(w, i) * one(j), c.at(w, j) * one(i))))


def field(c, dims, order, ints=False, vmask=None, gmask=None, kinds=None):
    """Disjoint boxes of different areas on some dimensions, and a variable on these in any order with others between."""
    from ocgis import Field, GeometryVariable, Variable
    from shapely.geometry import MultiPolygon, box
    sizes = {d: c.int('size_' + d, 1, 3) for d in dict.fromkeys(list(dims) + list(order))}
    shape = tuple(sizes[d] for d in dims)
    g = np.empty(shape, dtype=object)
    ar = c.arr('widths', shape, 'i', lo=1, hi=6)
    for q, i in enumerate(np.ndindex(*shape)):
        g[i] = box(q * 10, 0, q * 10 + float(ar[i]), 1)
        if q == 1:
            g[i] = MultiPolygon([g[i], box(q * 10, 5, q * 10 + 1, 6)])
    vs = tuple(sizes[d] for d in order)
    v = c.arr('data', vs, 'i' if ints else 'f', lo=-9, hi=9)
    gm = np.array(c.arr('gmask', shape, 'b')) if c.choice('gmasked', [False, True]) else None
    vm = np.array(c.arr('vmask', vs, 'b')) if c.choice('vmasked', [False, True]) else None
    if gm is not None:
        # data of masked geometries are masked
        if vm is None:
            vm = np.zeros(vs, bool)
        t = gm
        pos = [dims.index(d) for d in order if d in dims]
        t = np.transpose(gm, pos)
        vm = vm | t.reshape(tuple(sizes[d] if d in dims else 1 for d in order))
    f = Field()
    gv = GeometryVariable(name='geom', value=g.copy(), dimensions=dims, mask=None if gm is None else gm.copy())
    var = Variable(name='v', value=np.array(v), dimensions=order, mask=None if vm is None else vm.copy(), attrs={'k': 1})
    other = Variable(name='o', value=np.arange(sizes[order[0]]), dimensions=order[:1])
    for x in (gv, var, other):
        f.add_variable(x)
    f.set_geom(gv)
    return f, gv, var, g, np.zeros(shape, bool) if gm is None else gm, np.array(v), np.zeros(vs, bool) if vm is None else vm


ORDERS = [('y', 'x'), ('x', 'y'), ('t', 'y', 'x'), ('t', 'x', 'y'), ('x', 't', 'y'), ('y', 'x', 't'), ('t', 'l', 'y', 'x'), ('y', 't', 'x', 'l')]


@contract('C23', V + 'GeometryVariable.get_unioned', level='bounded', bound='sampled 1-D and 2-D geometries up to 3x3, every order of up to four axes',
          samples=160, concrete_only=True)
def union_average(c):
    """For every position along the other dimensions: the union of the unmasked geometries over the unioned dimensions, and the mean of the
    unmasked data over them weighted by area - masked if there are none, never truncated -, on the dimensions left and the union dimension
    last; whatever is not averaged and the source stay as they were."""
    dims, order = c.choice('case', [(('y', 'x'), o) for o in ORDERS] + [(('y',), o) for o in [('y',), ('t', 'y'), ('y', 't'), ('t', 'y', 'l')]])
    f, gv, var, g, gm, v, vm = field(c, dims, order, ints=c.choice('ints', [False, True]))
    over = c.choice('over', [None, None] + [d for n in range(1, len(dims) + 1) for d in itertools.permutations(dims, n)])
    average = c.choice('average', [None, ['v'], ['v'], 'v'])
    given = None if over is None else (list(over) if c.choice('names', [True, False]) else [f.dimensions[d] for d in over])
    u = tuple(dims) if over is None else over
    out = c.call(V + 'GeometryVariable.get_unioned', gv, dimensions=given, spatial_average=average)
    c.ok('returns', out)
    r = out.value
    left = [d for d in dims if d not in u]
    c.check('dimensions', r.dimension_names[:-1] == tuple(left) and r.shape[-1] == 1)
    rm = r.get_mask(create=True)
    from shapely.ops import unary_union
    for i in np.ndindex(*r.shape[:-1]):
        sel = tuple(i[left.index(d)] if d in left else slice(None) for d in dims)
        e = unary_union([x for x, m in zip(np.ravel(g[sel]), np.ravel(gm[sel])) if not m])
        a = r.get_value()[i + (0,)]
        c.check('union', a.equals(e) or (a.is_empty and e.is_empty))
    c.check('source geometries stay', all(gv.get_value()[i] is g[i] for i in np.ndindex(*g.shape)) and gv.dimension_names == tuple(dims))
    c.check('source mask stays', np.array_equal(gv.get_mask(create=True), gm))
    c.check('source data stay', np.array_equal(var.get_value(), v) and np.array_equal(var.get_mask(create=True), vm) and
            var.dimension_names == tuple(order))
    if average is None:
        return
    t = r.parent['v']
    keep = [d for d in order if d not in u]
    c.check('dimensions of the average', t.dimension_names == tuple(keep) + (r.dimension_names[-1],))
    area = np.vectorize(lambda x: x.area, otypes=[float])(g)
    pos = [dims.index(d) for d in order if d in dims]
    sizes = dict(zip(order, v.shape))
    w = np.broadcast_to(np.transpose(area, pos).reshape(tuple(sizes[d] if d in dims else 1 for d in order)), v.shape)
    ax = tuple(q for q, d in enumerate(order) if d in u)
    ww = np.where(vm, 0, w)
    tot = ww.sum(ax)
    with np.errstate(all='ignore'):
        e = (ww * v).sum(ax) / tot
    tv, tm = t.get_value()[..., 0], t.get_mask(create=True)[..., 0]
    c.check('shape of the average', tv.shape == e.shape)
    c.check('masked averages', np.array_equal(tm, tot == 0))
    c.check('averages', np.allclose(tv[tot > 0], e[tot > 0], rtol=1e-9, atol=1e-9))
    c.check('attributes', t.attrs.get('k') == 1)
    if order[0] not in dims:
        c.check('other data', np.array_equal(r.parent['o'].get_value(), np.arange(sizes[order[0]])))


class Ranks(object):
    """The ranks of a program run one after the other, the receiving rank last: every message of the others is there by then."""

    def __init__(self, size, rank, log):
        self.size, self.rank, self.ranks, self.log = size, rank, list(range(size)), log
        self.comm, self._n = self, 0
        log.setdefault('gathers', {}).setdefault(rank, [])
        log.setdefault('sent', {}).setdefault(rank, [])

    def gather(self, value, root=0):
        self.log['gathers'][self.rank].append(value)
        if self.rank == 0:
            n = len(self.log['gathers'][0]) - 1
            return [self.log['gathers'][r][n] for r in self.ranks]

    def send(self, value, dest=None):
        self.log['sent'][self.rank].append(value)

    def recv(self, source=None):
        return self.log['sent'][source].pop(0)

    def __getattr__(self, name):
        from ocgis import vm
        return getattr(vm, name)


@contract('C23', V + 'GeometryVariable.get_unioned', level='bounded', bound='sampled, up to 3 ranks of up to 3 boxes run one after the other',
          samples=120, concrete_only=True)
def union_average_ranks(c):
    """Spread over ranks, the union is that of all ranks' geometries and the average the area-weighted mean over all ranks with data - in
    whatever order the averages of the ranks come."""
    from ocgis import Field, GeometryVariable, Variable
    from shapely.geometry import Point, box
    from shapely.ops import unary_union
    size, nt = c.int('ranks', 2, 3), c.int('nt', 1, 3)
    point = c.choice('points', [False, False, True])
    log, allg, num, den = {}, [], np.zeros(nt), np.zeros(nt)
    fields = []
    for rank in range(size):
        n = c.int('n%d' % rank, 1, 3)
        w = c.arr('widths%d' % rank, (n,), 'i', lo=1, hi=6)
        g = np.empty(n, dtype=object)
        for i in range(n):
            g[i] = Point(rank * 100 + i * 10, 0) if point else box(rank * 100 + i * 10, 0, rank * 100 + i * 10 + float(w[i]), 1)
        d = np.array(c.arr('data%d' % rank, (nt, n), 'f', lo=-9, hi=9))
        gone = np.array(c.arr('masked%d' % rank, (nt,), 'b')) if c.choice('lost%d' % rank, [False, True]) else np.zeros(nt, bool)
        m = np.repeat(gone[:, None], n, 1)
        area = np.ones(n) if point else np.array(w) * 1.
        num += np.where(gone, 0, (d * area).sum(1))
        den += np.where(gone, 0, area.sum())
        allg += list(g)
        f = Field()
        gv = GeometryVariable(name='geom', value=g, dimensions='n')
        f.add_variable(gv)
        f.add_variable(Variable(name='v', value=d, mask=m if m.any() else None, dimensions=['t', 'n']))
        f.set_geom(gv)
        fields.append(gv)
    for rank in list(range(1, size)) + [0]:
        c.patch('ocgis.variable.geom:vm', Ranks(size, rank, log))
        out = c.call(V + 'GeometryVariable.get_unioned', fields[rank], spatial_average=['v'])
        c.unpatch()
        c.ok('rank %d' % rank, out)
        c.check('only the root has the outcome', (out.value is None) == (rank != 0))
    c.check('every message is taken', not any(log['sent'].values()))
    r = out.value
    e = unary_union(allg)
    c.check('union', r.get_value().flatten()[0].equals(e))
    t = r.parent['v']
    c.check('shape', t.shape == (nt, 1))
    tm = t.get_mask(create=True)[:, 0]
    c.check('masked averages', np.array_equal(tm, den == 0))
    with np.errstate(all='ignore'):
        e = num / den
    c.check('averages', np.allclose(t.get_value()[:, 0][den > 0], e[den > 0]), lambda: '%s %s' % (t.get_value()[:, 0], e))
