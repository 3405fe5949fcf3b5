"""C10: slicing keeps all members of a collection aligned."""
from contracts.common import optimal_slice_spec, slice_range, wrapidx
from engine.contract import contract

B = 'ocgis.variable.base:'
FUNCS = [B + 'VariableCollection.__getitem__', B + 'Variable.__getitem__', B + 'Variable._getitem_initialize_',
         B + 'Variable._getitem_main_', B + 'Variable.copy', B + 'VariableCollection.copy', B + 'get_dslice',
         'ocgis.util.helpers:get_formatted_slice', 'ocgis.variable.dimension:Dimension.__getitem__',
         'ocgis.base:orphaned']


def index(c, tag, n, forms, first=True):
    """An index into an axis of length n: (what is given, number of elements, position of each of them)."""
    form = c.choice('index ' + tag, forms)
    if form == 'none':
        return None, n, lambda k: k
    if form == 'slice':
        s = slice(c.int(tag + '0', small=6), c.int(tag + '1', small=6))
        lo, hi = slice_range(c, s, n)
        c.assume(lo < hi)
        return s, hi - lo, lambda k: lo + k
    if form == 'open':
        s = slice(None, c.int(tag + '1', small=6))
        lo, hi = slice_range(c, s, n)
        c.assume(lo < hi)
        return s, hi - lo, lambda k: lo + k
    if form == 'int':
        i = c.int(tag + 'i', small=6)
        c.assume(c.And(-n <= i, i < n))
        return i, 1, lambda k: wrapidx(c, i, n)
    if form == 'array':
        m = c.int(tag + 'm', 1, small=4)
        a = c.arr(tag + 'a', m, 'i')
        c.assume_forall(m, lambda k: c.And(-n <= c.at(a, k), c.at(a, k) < n))
        s = c.snap(a)
        return a, m, lambda k: wrapidx(c, s(k), n)
    a = c.arr(tag + 'b', n, kind='b')
    c.assume(c.exists(n, lambda k: c.at(a, k)))
    m, at = c.where(a)
    return a, m, at


DIMS = dict(data='tyx', swap='xt', ybnd='yb', y='y', x='x', mask='yx', other='k')


def collection(c, masks, small=3):
    """Members over several dimension orders, y with bounds, one unrelated; each a snapshot of value and mask."""
    from ocgis.variable.base import Variable, VariableCollection
    size = dict(t=c.int('t', 1, small=small), y=c.int('y', 1, small=4), x=c.int('x', 1, small=4), b=2, k=2)
    shp = {n: tuple(size[q] for q in d) for n, d in DIMS.items()}
    vals = {n: c.arr('v_' + n, s) for n, s in shp.items()}
    sv = {n: c.snap(a) for n, a in vals.items()}
    sm = {}
    vc = VariableCollection()
    made = {}
    for n, d in DIMS.items():
        kw = {}
        if n in masks:
            k = c.arr('m_' + n, shp[n], kind='b')
            sm[n] = c.snap(k)
            kw['mask'] = k
        if n == 'y':
            kw['bounds'] = made['ybnd']
        if n == 'y' and 'y' in masks:
            # bounds get masked along
            sm['ybnd'] = lambda i, j, f=sm['y']: f(i)
        made[n] = Variable(name=n, value=vals[n], dimensions=list(d), **kw)
    for n in DIMS:
        vc.add_variable(made[n], force=True)
    scalar = Variable(name='scalar', value=5., dimensions=[])
    vc.add_variable(scalar)
    return vc, size, shp, sv, sm


def same(c, tag, vc, size, sv, sm, count, at):
    """Every member of vc holds the elements at the given positions of each dimension."""
    for n, d in DIMS.items():
        v = vc[n]
        shape = tuple(count[q] for q in d)
        c.check('%s: shape of %s' % (tag, n), c.same_shape(v.get_value(), shape))
        c.check('%s: dimension names of %s' % (tag, n), tuple(v.dimension_names) == tuple(d))
        c.check('%s: dimension sizes of %s' % (tag, n), c.And(*[c.len(x) == count[q] for x, q in zip(v.dimensions, d)]))
        pos = lambda i: [at[q](j) for q, j in zip(d, i)]
        c.forall('%s: values of %s' % (tag, n), shape, lambda *i: c.at(v.get_value(), *i) == sv[n](*pos(i)))
        m = v.get_mask()
        if n in sm:
            c.forall('%s: mask of %s' % (tag, n), shape, lambda *i: c.Iff(c.at(m, *i), sm[n](*pos(i))))
        else:
            c.check('%s: no mask on %s' % (tag, n), m is None)
        c.check('%s: %s belongs to the collection' % (tag, n), v.parent is vc and vc[n] is v)
    c.check(tag + ': bounds go along', vc['y'].bounds is vc['ybnd'])
    c.check(tag + ': members', set(vc.keys()) == set(DIMS) | {'scalar'})
    c.check(tag + ': scalar', vc['scalar'].get_value() == 5. and vc['scalar'].parent is vc)
    for q in size:
        c.check('%s: dimension %s' % (tag, q), c.len(vc.dimensions[q]) == count[q])


def _slice(c, forms, masks):
    vc, size, shp, sv, sm = collection(c, masks)
    ident = {q: (lambda k: k) for q in size}
    count, at, item = dict(size), dict(ident), {}
    for q, fs in forms.items():
        s, m, p = index(c, q, size[q], fs)
        if s is not None:
            item[q], count[q], at[q] = s, m, p
    c.assume(bool(item))
    how = c.choice('how', ['collection', 'variable'])
    if c.sym:
        c.patch('ocgis.util.helpers:get_optimal_slice_from_array', optimal_slice_spec(c))
    if how == 'collection':
        out = c.call(vc.__getitem__, item)
        c.ok('returns', out)
        r = out.value
    else:
        full = {q: item.get(q, slice(None)) for q in 'tyx'}
        out = c.call(vc['data'].__getitem__, full if c.choice('by', ['name', 'position']) == 'name'
                     else tuple(full[q] for q in 'tyx'))
        c.ok('returns', out)
        c.check('the sliced member', out.value.name == 'data' and out.value.parent['data'] is out.value)
        r = out.value.parent
    c.check('a new collection', r is not vc)
    same(c, 'result', r, size, sv, sm, count, at)
    same(c, 'original', vc, size, sv, sm, size, ident)


@contract('C10', FUNCS, samples=120)
def slices(c):
    """Slices and integers on one or several dimensions."""
    _slice(c, dict(y=['slice', 'int', 'open'], x=['none', 'slice'], t=['none', 'int']), ('data', 'mask'))


@contract('C10', FUNCS, samples=120)
def index_array(c):
    """An index array in any order, with repetitions and negative entries, with or without a slice on another dimension."""
    _slice(c, dict(x=['array'], y=['none', 'slice']), ('swap', 'y'))


@contract('C10', FUNCS, samples=120)
def index_arrays(c):
    """Index arrays on two dimensions."""
    _slice(c, dict(x=['array'], y=['array']), ('data',))


@contract('C10', FUNCS, samples=120)
def bool_array(c):
    """A boolean array, with or without an index on another dimension."""
    _slice(c, dict(y=['bool'], x=['none', 'slice', 'bool']), ('data',))


@contract('C10', FUNCS, samples=120)
def unloaded(c):
    """A member with dimensions and a mask but no value yet, one with dimensions only: sliced along, and allocated later."""
    from ocgis.variable.base import Variable, VariableCollection
    from ocgis.variable.dimension import Dimension
    ny, nx = c.int('y', 1, small=4), c.int('x', 1, small=4)
    m = c.arr('mask', (ny, nx), kind='b')
    v = c.arr('value', (ny, nx))
    sm, sv = c.snap(m), c.snap(v)
    dims = [Dimension('y', ny), Dimension('x', nx)]
    vc = VariableCollection()
    vc.add_variable(Variable(name='masked', dimensions=dims, mask=m, dtype=float))
    vc.add_variable(Variable(name='bare', dimensions=dims, dtype=float))
    vc.add_variable(Variable(name='full', dimensions=dims, value=v))
    sy, my, py = index(c, 'y', ny, ['slice', 'int', 'array'])
    sx, mx, px = index(c, 'x', nx, ['none', 'slice', 'bool'])
    if c.sym:
        c.patch('ocgis.util.helpers:get_optimal_slice_from_array', optimal_slice_spec(c))
    if c.choice('how', ['collection', 'variable']) == 'collection':
        out = c.call(vc.__getitem__, {'y': sy} if sx is None else {'y': sy, 'x': sx})
        c.ok('returns', out)
        r = out.value
    else:
        out = c.call(vc[c.choice('which', ['masked', 'full'])].__getitem__, (sy, slice(None) if sx is None else sx))
        c.ok('returns', out)
        r = out.value.parent
    for n in ('masked', 'bare', 'full'):
        c.check('shape of %s' % n, c.And(r[n].shape[0] == my, r[n].shape[1] == mx))
    c.check('no value was made up', not r['masked'].has_allocated_value and not r['bare'].has_allocated_value)
    got = r['masked'].get_mask()
    c.check('shape of the mask', c.same_shape(got, (my, mx)))
    c.forall('mask', (my, mx), lambda i, j: c.Iff(c.at(got, i, j), sm(py(i), px(j))))
    c.check('no mask was made up', r['bare'].get_mask() is None and r['full'].get_mask() is None)
    val = r['full'].get_value()
    c.check('shape of the value', c.same_shape(val, (my, mx)))
    c.forall('value', (my, mx), lambda i, j: c.at(val, i, j) == sv(py(i), px(j)))
    keep = vc['masked'].get_mask()
    c.check('shape of the mask sliced', c.same_shape(keep, (ny, nx)))
    c.forall('mask sliced', (ny, nx), lambda i, j: c.Iff(c.at(keep, i, j), sm(i, j)))


@contract('C10', FUNCS, samples=120)
def chain(c):
    """Slicing a slice: positions compose."""
    vc, size, shp, sv, sm = collection(c, ('data',))
    ident = {q: (lambda k: k) for q in size}
    s, m, p = index(c, 'y', size['y'], ['slice', 'int'])
    one = c.call(vc.__getitem__, {'y': s})
    c.ok('first', one)
    t, m2, p2 = index(c, 'z', m, ['slice', 'int'])
    u, m3, p3 = index(c, 'x', size['x'], ['none', 'slice'])
    item = {'y': t} if u is None else {'y': t, 'x': u}
    two = c.call(one.value.__getitem__, item)
    c.ok('second', two)
    same(c, 'result', two.value, size, sv, sm, dict(size, y=m2, x=m3), dict(ident, y=lambda k: p(p2(k)), x=p3))
    same(c, 'first result', one.value, size, sv, sm, dict(size, y=m), dict(ident, y=p))


@contract('C10', [B + 'Variable.__setitem__', B + 'get_mapped_slice'], samples=200)
def assign(c):
    """Assigning a variable to an index: the addressed elements get its values and mask, in order, the others stay."""
    from ocgis.variable.base import Variable
    n, k = c.int('n', 1, small=5), c.int('k', 1, small=3)
    form = c.choice('form', ['slice', 'int', 'dict'])
    s, m, p = index(c, 'y', n, ['int' if form == 'int' else 'slice'])
    a, b = c.arr('a', (n, k)), c.arr('b', (m, k))
    oa, ob = c.snap(a), c.snap(b)
    mk = {}
    for q, shape in (('dst', (n, k)), ('src', (m, k))):
        if c.choice('masked ' + q, [False, True]):
            mk[q] = c.arr('m' + q, shape, kind='b')
    om = {q: c.snap(v) for q, v in mk.items()}
    bnds = c.choice('bounds', [False, True])
    kw, kw2 = {}, {}
    if bnds:
        c.assume(not mk)
        ba, bb = c.arr('ba', (n, k, 4)), c.arr('bb', (m, k, 4))
        oba, obb = c.snap(ba), c.snap(bb)
        kw['bounds'] = Variable(name='bnds', value=ba, dimensions=['y', 'x', 'c'])
        kw2['bounds'] = Variable(name='bnds', value=bb, dimensions=['yy', 'x', 'c'])
    dst = Variable(name='dst', value=a, dimensions=['y', 'x'], mask=mk.get('dst'), **kw)
    src = Variable(name='src', value=b, dimensions=['yy', 'x'], mask=mk.get('src'), **kw2)
    out = c.call(dst.__setitem__, {'x': slice(None), 'y': s} if form == 'dict' else (s, slice(None)), src)
    c.ok('accepted', out)
    lo = p(0)
    c.forall('addressed elements', (m, k), lambda i, j: c.at(dst.get_value(), p(i), j) == ob(i, j))
    hit = lambda i: c.And(lo <= i, i < lo + m)
    c.forall('other elements', (n, k), lambda i, j: c.Or(hit(i), c.at(dst.get_value(), i, j) == oa(i, j)))
    got = dst.get_mask()
    if got is None:
        c.check('no mask only without masks', not mk)
    else:
        c.forall('addressed mask', (m, k), lambda i, j: c.Iff(c.at(got, p(i), j), om['src'](i, j) if 'src' in om else False))
        c.forall('other mask', (n, k), lambda i, j: c.Or(hit(i), c.Iff(
            c.at(got, i, j), om['dst'](i, j) if 'dst' in om else False)))
    if bnds:
        v = dst.bounds.get_value()
        c.forall('addressed bounds', (m, k, 4), lambda i, j, q: c.at(v, p(i), j, q) == obb(i, j, q))
        c.forall('other bounds', (n, k, 4), lambda i, j, q: c.Or(hit(i), c.at(v, i, j, q) == oba(i, j, q)))
    c.forall('source untouched', (m, k), lambda i, j: c.at(src.get_value(), i, j) == ob(i, j))


@contract('C10', ['ocgis.spatial.grid:Grid.__getitem__', B + 'VariableCollection.__getitem__'], samples=120)
def grid_slice(c):
    """Slicing a grid slices its coordinates, bounds, mask and the data on it alike, in both layouts."""
    from contracts.c16 import grid
    two = c.choice('matrix', [False, True])
    g, (m, n), xy, s, sb, shp = grid(c, two, bounds=True, data=True)
    masked = c.choice('masked', [False, True])
    if masked:
        k = c.arr('mask', (m, n), kind='b')
        old = c.snap(k)
        g.set_mask(k)
    i, mi, pi = index(c, 'i', m, ['slice', 'int'])
    j, mj, pj = index(c, 'j', n, ['slice', 'int'])
    out = c.call(g.__getitem__, (i, j) if c.choice('by', ['position', 'name']) == 'position' else {'dy': i, 'dx': j})
    c.ok('returns', out)
    r = out.value
    for tag, h, win, p, q in (('result', r, (mi, mj), pi, pj), ('original', g, (m, n), lambda v: v, lambda v: v)):
        c.check(tag + ': shape', c.And(h.shape[0] == win[0], h.shape[1] == win[1]))
        for k, pk, nk in (('x', q, win[1]), ('y', p, win[0])):
            v = getattr(h, k)
            b = v.bounds
            if two:
                c.forall('%s: %s' % (tag, k), win, lambda a, b_: c.at(v.get_value(), a, b_) == s[k](p(a), q(b_)))
                c.forall('%s: bounds of %s' % (tag, k), win + (4,), lambda a, b_, e: c.at(
                    b.get_value(), a, b_, e) == sb[k](p(a), q(b_), e))
            else:
                c.check('%s: length of %s' % (tag, k), c.shape(v.get_value())[0] == nk)
                c.forall('%s: %s' % (tag, k), nk, lambda a: c.at(v.get_value(), a) == s[k](pk(a)))
                c.forall('%s: bounds of %s' % (tag, k), (nk, 2), lambda a, e: c.at(b.get_value(), a, e) == sb[k](pk(a), e))
        d = h.parent['d']
        c.forall(tag + ': data', (2,) + win, lambda t, a, b_: c.at(d.get_value(), t, a, b_) == s['d'](t, p(a), q(b_)))
        mask = h.get_mask()
        if masked:
            c.forall(tag + ': mask', win, lambda a, b_: c.Iff(c.at(mask, a, b_), old(p(a), q(b_))))
        else:
            c.check(tag + ': no mask', mask is None)


@contract('C10', ['ocgis.collection.field:Field.get_field_slice', 'ocgis.base:renamed_dimensions_on_variables',
                  'ocgis.base:revert_renamed_dimensions_on_variables'], samples=120)
def field_slice(c):
    """Slicing a field by axis names: the dimensions of each axis are sliced whatever they are called, names come back."""
    from ocgis import Field, Grid, TemporalVariable, Variable
    m, n, t = c.int('rows', 1, small=4), c.int('cols', 1, small=4), c.int('times', 1, small=4)
    names = c.choice('names', [('tt', 'yy', 'xx'), ('time', 'y', 'x'), ('time', 'xx', 'lon')])
    x, y, tm, d = c.arr('x', n), c.arr('y', m), c.arr('t', t), c.arr('d', (n, t, m))
    s = {k: c.snap(v) for k, v in dict(x=x, y=y, t=tm, d=d).items()}
    g = Grid(Variable(name='lon', value=x, dimensions=names[2]), Variable(name='lat', value=y, dimensions=names[1]))
    time = TemporalVariable(name='times', value=tm, dimensions=names[0])
    dv = Variable(name='d', value=d, dimensions=[names[2], names[0], names[1]])
    f = Field(grid=g, time=time, is_data=dv)
    item, count, at = {}, dict(time=t, y=m, x=n), {q: (lambda k: k) for q in ('time', 'y', 'x')}
    for q, forms in (('time', ['slice', 'none', 'int']), ('y', ['int', 'none']), ('x', ['none', 'slice'])):
        v, k, p = index(c, q, count[q], forms)
        if v is not None:
            item[q], count[q], at[q] = v, k, p
    c.assume(bool(item))
    keys = dict(item)
    if c.choice('strict', [True, False]):
        out = c.call(f.get_field_slice, item)
    else:
        item = dict(item, level=slice(0, 1))
        keys = dict(item)
        out = c.call(f.get_field_slice, item, strict=False)
    c.ok('returns', out)
    c.check('argument untouched', set(item) == set(keys))
    ident = {q: (lambda k: k) for q in count}
    for tag, h, cnt, p in (('result', out.value, count, at), ('original', f, dict(time=t, y=m, x=n), ident)):
        for vn, q, k in (('lon', 'x', 'x'), ('lat', 'y', 'y'), ('times', 'time', 't')):
            v = h[vn]
            c.check('%s: length of %s' % (tag, vn), c.shape(v.get_value())[0] == cnt[q])
            c.forall('%s: %s' % (tag, vn), cnt[q], lambda i: c.at(v.get_value(), i) == s[k](p[q](i)))
            c.check('%s: dimension of %s' % (tag, vn), v.dimension_names == (names[('time', 'y', 'x').index(q)],))
            c.check('%s: size of the dimension of %s' % (tag, vn), c.len(v.dimensions[0]) == cnt[q])
        v = h['d']
        c.check(tag + ': shape', c.same_shape(v.get_value(), (cnt['x'], cnt['time'], cnt['y'])))
        c.check(tag + ': dimensions', v.dimension_names == (names[2], names[0], names[1]))
        c.forall(tag + ': data', (cnt['x'], cnt['time'], cnt['y']), lambda i, j, k: c.at(
            v.get_value(), i, j, k) == s['d'](p['x'](i), p['time'](j), p['y'](k)))
        c.check(tag + ': coordinates', h.grid.x.name == 'lon' and h.grid.y.name == 'lat' and h.time.name == 'times')


@contract('C10', ['ocgis.spatial.grid:Grid.__setitem__', B + 'Variable.__setitem__'], samples=120)
def grid_assign(c):
    """Assigning a grid to a window: coordinates and mask of the window are the given ones, the rest stays."""
    from ocgis import Grid, Variable
    two = c.choice('matrix', [False, True])
    m, n = c.int('rows', 1, small=4), c.int('cols', 1, small=4)
    si, mi, pi = index(c, 'i', m, ['slice'])
    sj, mj, pj = index(c, 'j', n, ['slice'])
    s, gs, om = {}, {}, {}
    for tag, (a, b) in (('dst', (m, n)), ('src', (mi, mj))):
        vs = {}
        for k in 'xy':
            arr = c.arr(tag + k, (a, b) if two else ((b,) if k == 'x' else (a,)))
            s[tag + k] = c.snap(arr)
            vs[k] = Variable(name=k, value=arr, dimensions=['dy', 'dx'] if two else 'd' + k)
        gs[tag] = Grid(vs['x'], vs['y'])
        if c.choice('masked ' + tag, [False, True]):
            k = c.arr('m' + tag, (a, b), kind='b')
            om[tag] = c.snap(k)
            gs[tag].set_mask(k)
    d, r = gs['dst'], gs['src']
    out = c.call(d.__setitem__, (si, sj), r)
    c.ok('accepted', out)
    lo = (pi(0), pj(0))
    hit = lambda i, j: c.And(lo[0] <= i, i < lo[0] + mi, lo[1] <= j, j < lo[1] + mj)
    for k in 'xy':
        v = getattr(d, k).get_value()
        if two:
            c.forall('window', (mi, mj), lambda i, j: c.at(v, pi(i), pj(j)) == s['src' + k](i, j))
            c.forall('rest', (m, n), lambda i, j: c.Or(hit(i, j), c.at(v, i, j) == s['dst' + k](i, j)))
        else:
            q, w, nn, l0 = (pj, mj, n, lo[1]) if k == 'x' else (pi, mi, m, lo[0])
            c.forall('window', w, lambda i: c.at(v, q(i)) == s['src' + k](i))
            c.forall('rest', nn, lambda i: c.Or(c.And(l0 <= i, i < l0 + w), c.at(v, i) == s['dst' + k](i)))
    got = d.get_mask()
    if got is None:
        c.check('no mask only without masks', not om)
    else:
        c.forall('mask of the window', (mi, mj), lambda i, j: c.Iff(
            c.at(got, pi(i), pj(j)), om['src'](i, j) if 'src' in om else False))
        c.forall('mask of the rest', (m, n), lambda i, j: c.Or(hit(i, j), c.Iff(
            c.at(got, i, j), om['dst'](i, j) if 'dst' in om else False)))
