"""C09: masks combine, data under masks is kept."""
from engine.contract import contract

B = 'ocgis.variable.base:'


def var(c, name, dims, value, mask=None):
    from ocgis.variable.base import Variable
    v = Variable(name=name, value=value, dimensions=dims)
    if mask is not None:
        v.set_mask(mask)
    return v


@contract('C09', [B + 'set_mask_by_variable'], samples=200)
def cascade(c):
    """A target gets masked wherever the source is masked at the same position of the shared dimensions."""
    from ocgis.variable.base import set_mask_by_variable
    m, n, t = c.int('m', lo=1, hi=4), c.int('n', lo=1, hi=4), c.int('t', lo=1, hi=3)
    size = dict(t=t, y=m, x=n)
    src = c.choice('source', ['yx', 'y', 'xy'])
    dst = c.choice('target', ['tyx', 'yx', 'x', 'y', 'xty', 't'])
    ss, ds = tuple(size[k] for k in src), tuple(size[k] for k in dst)
    sm, sv = c.arr('sm', ss, kind='b'), c.arr('sv', ss)
    a = var(c, 'a', list(src), sv, sm)
    om = c.snap(sm)
    v = c.arr('v', ds)
    ov = c.snap(v)
    had = c.choice('target masked', [False, True])
    update = c.choice('update', [False, True])
    tm = lambda *i: False
    if had:
        k = c.arr('tm', ds, kind='b')
        tm = c.snap(k)
    b = var(c, 'b', list(dst), v, k if had else None)
    out = c.call(set_mask_by_variable, a, b, update=update)
    c.ok('returns', out)
    shared = [k for k in src if k in dst]
    lost = [k for k in src if k not in dst]

    def hit(i):
        at = dict(zip(dst, i))
        return c.exists(tuple(size[k] for k in lost), lambda *j: om(*[dict(at, **dict(zip(lost, j)))[k] for k in src])) if lost \
            else om(*[at[k] for k in src])
    mask = b.get_mask()
    same = src == dst and not update
    want = lambda *i: hit(i) if same else c.Or(tm(*i), hit(i))
    if mask is None:
        c.forall('no mask', ds, lambda *i: c.Not(want(*i)))
    else:
        c.forall('mask', ds, lambda *i: c.Iff(c.at(mask, *i), want(*i)))
    c.forall('data kept', ds, lambda *i: c.at(b.get_value(), *i) == ov(*i))
    c.forall('source mask kept', ss, lambda *i: c.Iff(c.at(a.get_mask(), *i), om(*i)))


@contract('C09', [B + 'Variable.set_mask', B + 'Variable.get_mask', B + 'Variable.get_masked_value'], samples=200)
def mask_history(c):
    """Two mask settings in a row: exactly the last one, or the union of both with update; values untouched; the arrays
    given stay as they are and are not shared."""
    from ocgis.variable.base import Variable
    shape = (c.int('m', 1, small=4), c.int('n', 1, small=4))
    a = c.arr('a', shape)
    oa = c.snap(a)
    v = var(c, 'v', ['y', 'x'], a)
    give = [c.choice('first', ['none', 'mask']), c.choice('second', ['none', 'mask'])]
    upd = [c.choice('update first', [False, True]), c.choice('update second', [False, True])]
    cur = None
    for q in range(2):
        k = c.arr('mask%d' % q, shape, kind='b') if give[q] == 'mask' else None
        s = c.snap(k) if k is not None else None
        out = c.call(v.set_mask, k, update=upd[q])
        c.ok('accepted', out)
        if k is not None:
            c.forall('argument untouched', shape, lambda *i: c.Iff(c.at(k, *i), s(*i)))
            c.check('argument not shared', v.get_mask() is not k)
        if upd[q] and cur is not None:
            cur = cur if s is None else (lambda *i, s=s, o=cur: c.Or(s(*i), o(*i)))
        elif upd[q]:
            cur = s
        else:
            cur = s
        got = v.get_mask()
        if cur is None:
            c.check('no mask', got is None)
        else:
            c.forall('mask', shape, lambda *i: c.Iff(c.at(got, *i), cur(*i)))
    c.forall('values kept', shape, lambda *i: c.at(v.get_value(), *i) == oa(*i))
    mv = v.get_masked_value()
    c.forall('masked value', shape, lambda *i: c.Iff(c.maskat(mv, *i), cur(*i) if cur is not None else False))
    c.forall('data of the masked value', shape, lambda *i: c.at(mv.data, *i) == oa(*i))


@contract('C09', [B + 'Variable.set_mask'], samples=60)
def mask_shape(c):
    """A mask of another shape is an error and leaves the variable as it was."""
    shape = (c.int('m', 1, small=4), c.int('n', 1, small=4))
    other = (c.int('p', 1, small=4), c.int('q', 1, small=4))
    c.assume(c.Or(shape[0] != other[0], shape[1] != other[1]))
    v = var(c, 'v', ['y', 'x'], c.arr('a', shape))
    had = c.choice('masked before', [False, True])
    if had:
        k = c.arr('k', shape, kind='b')
        s = c.snap(k)
        v.set_mask(k)
    out = c.call(v.set_mask, c.arr('b', other, kind='b'), update=c.choice('update', [False, True]))
    c.check('refused', out.exc is not None)
    if had:
        c.forall('mask kept', shape, lambda *i: c.Iff(c.at(v.get_mask(), *i), s(*i)))
    else:
        c.check('mask kept', v.get_mask() is None)


@contract('C09', [B + 'Variable.get_mask'], samples=150)
def mask_created(c):
    """get_mask: nothing is masked when created, only fill values when they are looked for; an existing mask is returned."""
    shape = (c.int('m', 1, small=4), c.int('n', 1, small=4))
    a = c.arr('a', shape)
    oa = c.snap(a)
    had = c.choice('masked before', [False, True])
    k = c.arr('k', shape, kind='b') if had else None
    s = c.snap(k) if had else None
    v = var(c, 'v', ['y', 'x'], a, k)
    fill = c.choice('fill', [None, 2])
    if fill is not None:
        v._fill_value = fill
    create, check = c.choice('create', [False, True]), c.choice('check_value', [False, True])
    out = c.call(v.get_mask, create=create, check_value=check)
    c.ok('returns', out)
    m = out.value
    if had:
        c.forall('existing mask', shape, lambda *i: c.Iff(c.at(m, *i), s(*i)))
    elif not create:
        c.check('no mask', m is None)
    else:
        fv = v.fill_value
        c.forall('created mask', shape, lambda *i: c.Iff(c.at(m, *i), c.And(oa(*i) == fv) if check else False))
        c.forall('kept on the variable', shape, lambda *i: c.Iff(c.at(v.get_mask(), *i), c.at(m, *i)))
    c.forall('values kept', shape, lambda *i: c.at(v.get_value(), *i) == oa(*i))


@contract('C09', [B + 'Variable.set_value'], samples=150)
def masked_value_given(c):
    """A masked array given as value: data and mask are those of the array, whatever the mask was before; an array without
    mask leaves the mask alone unless told to update it."""
    shape = (c.int('m', 1, small=4), c.int('n', 1, small=4))
    had = c.choice('masked before', [False, True])
    k = c.arr('k', shape, kind='b') if had else None
    sk = c.snap(k) if had else None
    v = var(c, 'v', ['y', 'x'], c.arr('a', shape), k)
    b, bm = c.arr('b', shape), c.arr('bm', shape, kind='b')
    masked = c.choice('given masked', [False, True])
    upd = c.choice('update_mask', [False, True])
    g = c.marr(b, bm) if masked else b
    sb, sm = c.snap(b), c.snap(bm)
    out = c.call(v.set_value, g, update_mask=upd)
    c.ok('accepted', out)
    c.forall('data', shape, lambda *i: c.at(v.get_value(), *i) == sb(*i))
    m = v.get_mask()
    want = (lambda *i: c.Or(sm(*i), sk(*i) if had and upd else False)) if masked else (sk if had else None)
    if want is None:
        c.check('no mask', m is None)
    else:
        c.forall('mask', shape, lambda *i: c.Iff(c.at(m, *i), want(*i)))
    if masked:
        c.forall('argument untouched', shape, lambda *i: c.Iff(c.maskat(g, *i), sm(*i)))


@contract('C09', [B + 'VariableCollection.set_mask', B + 'Variable.set_mask', B + 'set_mask_by_variable'], samples=100)
def collection(c):
    """Cascading through a collection: members sharing a dimension get masked at the source's masked positions, excluded
    and unrelated members and all data stay as they are."""
    from ocgis.variable.base import VariableCollection
    size = dict(t=c.int('t', 1, small=3), y=c.int('y', 1, small=3), x=c.int('x', 1, small=3), k=2)
    dims = dict(src=c.choice('source', ['yx', 'y']), data=c.choice('data', ['tyx', 'xy']), row='y', other='kt', out='tyx')
    shp = {n: tuple(size[q] for q in d) for n, d in dims.items()}
    vals = {n: c.arr(n, s) for n, s in shp.items()}
    sv = {n: c.snap(a) for n, a in vals.items()}
    k = c.arr('mask', shp['src'], kind='b')
    sm = c.snap(k)
    vc = VariableCollection(variables=[var(c, n, list(dims[n]), vals[n]) for n in dims])
    how = c.choice('how', ['collection', 'variable'])
    src = vc['src']
    if how == 'collection':
        src.set_mask(k)
        out = c.call(vc.set_mask, src, exclude=c.choice('exclude', [['out'], 'out']))
    else:
        vc.remove_variable('out')
        out = c.call(src.set_mask, k, cascade=True)
    c.ok('returns', out)
    for n in vc:
        d = dims[n]
        m = vc[n].get_mask()
        c.forall('data kept: ' + n, shp[n], lambda *i: c.at(vc[n].get_value(), *i) == sv[n](*i))
        if n == 'out' or not set(d) & set(dims['src']):
            c.check('mask kept: ' + n, m is None)
            continue
        lost = [q for q in dims['src'] if q not in d]

        def hit(*i):
            at = dict(zip(d, i))
            if not lost:
                return sm(*[at[q] for q in dims['src']])
            return c.exists(tuple(size[q] for q in lost), lambda *j: sm(*[dict(at, **dict(zip(lost, j)))[q]
                                                                        for q in dims['src']]))
        if m is None:
            c.forall('no mask: ' + n, shp[n], lambda *i: c.Not(hit(*i)))
        else:
            c.forall('mask: ' + n, shp[n], lambda *i: c.Iff(c.at(m, *i), hit(*i)))


@contract('C09', [B + 'Variable.set_mask', B + 'set_mask_by_variable'], samples=100)
def bounds_masked(c):
    """Bounds get masked along with their variable."""
    from ocgis.variable.base import Variable
    n = c.int('n', 1, small=5)
    a, b, k = c.arr('a', n), c.arr('b', (n, 2)), c.arr('k', n, kind='b')
    sk, sb = c.snap(k), c.snap(b)
    bv = Variable(name='b', value=b, dimensions=['x', 'bnds'])
    v = Variable(name='v', value=a, dimensions='x', bounds=bv)
    out = c.call(v.set_mask, k)
    c.ok('returns', out)
    c.forall('mask', n, lambda i: c.Iff(c.at(v.get_mask(), i), sk(i)))
    m = v.bounds.get_mask()
    if m is None:
        c.forall('no mask', n, lambda i: c.Not(sk(i)))
    else:
        c.forall('bounds mask', (n, 2), lambda i, j: c.Iff(c.at(m, i, j), sk(i)))
    c.forall('bounds kept', (n, 2), lambda i, j: c.at(v.bounds.get_value(), i, j) == sb(i, j))
