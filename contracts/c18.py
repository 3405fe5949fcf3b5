"""C18 Record iteration emits each element once with its own coordinates."""
import itertools

from engine.contract import contract

I = 'ocgis.variable.iterator:'
VB = 'ocgis.variable.base:'


@contract('C18', I + 'get_record', samples=200)
def record(c):
    """The value and mask at the index."""
    nd = c.choice('ndim', [1, 2, 3])
    shape = tuple(c.int('n%d' % i, 1, small=3) for i in range(nd))
    v = c.arr('value', shape)
    s = c.snap(v)
    masked = c.choice('masked', [False, True])
    m = c.arr('mask', shape, 'b') if masked else None
    ms = c.snap(m) if masked else None
    idx = tuple(c.int('i%d' % i, 0) for i in range(nd))
    for i, n in zip(idx, shape):
        c.assume(i < n)
    out = c.call(I + 'get_record', idx, v, m)
    c.ok('returns', out)
    c.check('value at the index', c.eq(out.value[0], s(*idx)))
    c.check('mask at the index', c.Iff(out.value[1], ms(*idx) if masked else False))


def make(c, name, dims, sizes, masked, repeat=None):
    shape = tuple(sizes[d] for d in dims)
    kw = {}
    m = None
    a = c.arr('data_' + name, shape)
    v = c.snap(a)
    if masked:
        mk = c.arr('mask_' + name, shape, 'b')
        m = c.snap(mk)
        kw['mask'] = mk
    out = c.call(VB + 'Variable', name=name, value=a, dimensions=list(dims), repeat_record=repeat, **kw)
    c.ok('variable is created', out)
    return out.value, v, m


def unchanged(c, var, shape, v, m):
    if len(shape) == 0:
        return
    s = c.snap(var.get_value())
    c.forall('values of the variables stay', shape, lambda *i: c.eq(s(*i), v(*i)))
    if m is None:
        c.check('no mask appears', var.get_mask() is None or not c.exists(shape, c.snap(var.get_mask())))
    else:
        ms = c.snap(var.get_mask())
        c.forall('masks of the variables stay', shape, lambda *i: c.Iff(ms(*i), m(*i)))


def expected(lead_dims, sizes, dims, v, m, idx):
    pos = dict(zip(lead_dims, idx))
    at = tuple(pos[d] for d in dims)
    return v(*at), (m(*at) if m is not None else False)


LEADS = [('a',), ('a', 'b'), ('b', 'a')]
SIZES = [dict(a=1, b=2), dict(a=2, b=2), dict(a=3, b=1)]
FOLL = {('a',): [[('a',)], [('a',), ('a',)]],
        ('a', 'b'): [[('a', 'b')], [('b', 'a')], [('a',)], [('b',)], [('a',), ('b', 'a')]],
        ('b', 'a'): [[('a', 'b')], [('a',), ('b',)]]}


@contract('C18', [I + 'Iterator.__init__', I + 'Iterator.__iter__', I + 'get_followers', I + 'get_record'], level='bounded',
          bound='up to two dimensions of size 1 to 3 (up to four elements), up to two followers in every dimension order; '
                'values and masks unbounded', samples=500, max_paths=20000)
def iterate(c):
    """One record per element of the lead in row-major order, with the followers' values at the same position."""
    lead = c.choice('lead', LEADS)
    sizes = c.choice('sizes', SIZES)
    fdims = c.choice('followers', FOLL[lead])
    masked = c.choice('masked', ['none', 'lead', 'follower', 'both'])
    if masked == 'both' and len(lead) == 2:
        c.assume(sizes['b'] == 1 or sizes['a'] == 1)
    allow = c.choice('allow masked', [True, False])
    clobber = c.choice('clobber', [True, False]) if masked == 'lead' else True
    primary = c.choice('primary', [None, 'f0']) if masked in ('follower', 'both') and not allow else None
    var, v, m = make(c, 'lead', lead, sizes, masked in ('lead', 'both'))
    fs = [make(c, 'f%d' % i, d, sizes, masked in ('follower', 'both') and i == 0) for i, d in enumerate(fdims)]
    how = c.choice('followers given as', ['variables', 'iterators']) if primary is None and allow else 'variables'
    given = [c.fn(I + 'Iterator')(f[0]) if how == 'iterators' else f[0] for f in fs]
    gave = list(given)
    out = c.call(lambda: c.fn(I + 'Iterator')(var, followers=given, allow_masked=allow, clobber_masked=clobber,
                                              primary_mask=primary))
    c.ok('iterator is created', out)
    it = out.value
    out = c.call(lambda: list(it))
    c.ok('records are made', out)
    c.check('the list of followers given stays', given == gave)
    want = []
    for idx in itertools.product(*[range(sizes[d]) for d in lead]):
        row = [('lead',) + expected(lead, sizes, lead, v, m, idx)]
        for i, (f, fd) in enumerate(zip(fs, fdims)):
            row.append(('f%d' % i,) + expected(lead, sizes, fd, f[1], f[2], idx))
        skip = row[0][2] if primary is None else row[1][2]
        if not allow and c.If(skip):
            continue
        want.append(row)
    c.check('one record per element', len(out.value) == len(want), lambda: '%d %d' % (len(out.value), len(want)))
    for r, w in zip(out.value, want):
        c.check('one entry per variable, lead first', list(r) == [n for n, _, _ in w])
        for n, val, msk in w:
            if (clobber or n != 'lead') and c.If(msk):
                c.check('masked values are missing', r[n] is None)
            else:
                c.check('value at the position of the record', r[n] is not None and c.eq(r[n], val))
    again = c.call(lambda: list(it))
    c.check('iterating again gives as many records', again.ok and len(again.value) == len(want))
    unchanged(c, var, tuple(sizes[d] for d in lead), v, m)
    for f, fd in zip(fs, fdims):
        unchanged(c, f[0], tuple(sizes[d] for d in fd), f[1], f[2])


@contract('C18', [I + 'Iterator.__init__', I + 'get_followers'], level='bounded', samples=150,
          bound='lead and iterator follower of two dimensions (2 by 3), in every order, with followers of its own')
def nested_followers(c):
    """Followers of followers take part with values at the lead's position."""
    sizes = dict(a=2, b=3)
    lead, f1 = c.choice('lead', [('a', 'b'), ('b', 'a')]), c.choice('follower', [('a', 'b'), ('b', 'a'), ('a',)])
    f2 = c.choice('inner', [('a', 'b'), ('b', 'a'), ('a',), ('b',)] if len(f1) == 2 else [('a',)])
    var, v, _ = make(c, 'lead', lead, sizes, False)
    a, av, _ = make(c, 'f1', f1, sizes, False)
    b, bv, _ = make(c, 'f2', f2, sizes, False)
    It = c.fn(I + 'Iterator')
    out = c.call(lambda: list(It(var, followers=[It(a, followers=[b])])))
    c.ok('records are made', out)
    idxs = list(itertools.product(*[range(sizes[d]) for d in lead]))
    c.check('one record per element', len(out.value) == len(idxs))
    for r, idx in zip(out.value, idxs):
        for n, d, val in (('lead', lead, v), ('f1', f1, av), ('f2', f2, bv)):
            c.check('value at the position of the record', n in r and
                    c.eq(r[n], expected(lead, sizes, d, val, None, idx)[0]))
    bad, _, _ = make(c, 'bad', ('z',), dict(z=2), False)
    c.check('followers with other dimensions are refused', c.call(lambda: It(var, followers=[bad])).raised(ValueError))


@contract('C18', [I + 'Iterator.__init__', I + 'Iterator.__iter__', I + 'get_repeaters'], level='bounded', samples=250,
          bound='one dimension of size 2, up to three melted variables; repeated attributes on any of them and on the call')
def melted_records(c):
    """One record per melted variable, each with its own name, value and repeated attributes, and the shared entries."""
    n = 2
    sizes = dict(a=n)
    rr = {'lead': [('units', 'K')], 'f0': [('units', 'm'), ('extra', 7)]}
    nf = c.choice('melted followers', [0, 1, 2])
    with_rr = c.choice('repeated attributes on', [(), ('lead',), ('f0',), ('lead', 'f0')])
    call_rr = c.choice('repeated attributes of the call', [None, [('source', 'x')]])
    names = ['lead'] + ['f%d' % i for i in range(nf)]
    vs = [make(c, nm, ('a',), sizes, nm == 'lead', list(rr[nm]) if nm in with_rr and nm in rr else None) for nm in names]
    coord, cv, _ = make(c, 'coord', ('a',), sizes, False)
    do_melt = c.choice('melted', [True, False])
    reps = list(call_rr) if call_rr is not None else None
    order = c.choice('order', [1, -1])
    melt = [v[0] for v in vs][::order]
    out = c.call(lambda: list(c.fn(I + 'Iterator')(vs[0][0], followers=[v[0] for v in vs[1:]] + [coord], repeaters=reps,
                                                   melted=melt if do_melt else None)))
    c.ok('records are made', out)
    c.check("the caller's repeated attributes are left alone", reps == call_rr, lambda: repr(reps))
    for v, nm in zip(vs, names):
        c.check("the variables' repeated attributes are left alone",
                v[0].repeat_record == (rr[nm] if nm in with_rr and nm in rr else None))
    own = {nm: dict(rr[nm]) if nm in with_rr and nm in rr else {} for nm in names}
    shared = dict(call_rr or [])
    if not do_melt:
        c.check('one record per element', len(out.value) == n)
        for k, r in enumerate(out.value):
            for v, nm in zip(vs, names):
                x, mk = v[1](k), v[2](k) if v[2] is not None else False
                if c.If(mk):
                    c.check('masked values are missing', r[nm] is None)
                else:
                    c.check('own values', r[nm] is not None and c.eq(r[nm], x))
                for key in own[nm]:
                    c.check('repeated attributes appear', r.get(key) in [own[q].get(key) for q in names])
            for key, val in shared.items():
                c.check('repeated attributes of the call appear', r.get(key) == val)
        return
    c.check('one record per element and melted variable', len(out.value) == n * len(names))
    pos = 0
    for k in range(n):
        for nm in names[::order]:
            r = out.value[pos]
            pos += 1
            v = vs[names.index(nm)]
            c.check('name of the melted variable', r['VARIABLE'] == nm)
            if v[2] is not None and c.If(v[2](k)):
                c.check('masked values are missing', r['VALUE'] is None)
            else:
                c.check('value of the melted variable', r['VALUE'] is not None and c.eq(r['VALUE'], v[1](k)))
            c.check('melted variables have no entry of their own', not any(q in r for q in names))
            c.check('shared coordinates', c.eq(r['coord'], cv(k)))
            for key, val in shared.items():
                c.check('repeated attributes of the call appear', r.get(key) == val)
            for key, val in own[nm].items():
                c.check("the melted variable's own attributes", r.get(key) == val, lambda: '%s %r' % (nm, r))
            for q in names:
                for key in own[q]:
                    if key not in own[nm]:
                        c.check('no attributes of other melted variables', r.get(key) is None, lambda: '%s %r' % (nm, r))


@contract('C18', [VB + 'Variable.get_iter', I + 'Iterator.__init__', I + 'Iterator.__iter__'], level='bounded', samples=200,
          bound='one dimension of size 1 to 3; values, bounds and masks unbounded')
def with_bounds(c):
    """Lower and upper bounds of the element on request; otherwise the value only."""
    n = c.choice('n', [1, 2, 3])
    a, b = c.arr('data', n), c.arr('bounds', (n, 2))
    v, bv = c.snap(a), c.snap(b)
    up = c.choice('bounds run', ['up', 'down'])
    for k in range(n):
        c.assume(bv(k, 0) < bv(k, 1) if up == 'up' else bv(k, 0) > bv(k, 1))
    hasb = c.choice('has bounds', [True, False])
    kw = dict(bounds=c.fn(VB + 'Variable')(name='bnds', value=b, dimensions=['a', 'bnd'])) if hasb else {}
    masked = c.choice('masked', [False, True])
    m = None
    if masked:
        mk = c.arr('mask', n, 'b')
        m = c.snap(mk)
        kw['mask'] = mk
    var = c.fn(VB + 'Variable')(name='v', value=a, dimensions='a', **kw)
    add = c.choice('add bounds', [True, False])

    def fmt(name, value, mask):
        return [(name + '!', value)]
    f = c.choice('formatter', [None, fmt])
    x = {} if f is None else {'formatter': f}
    mark = '' if f is None else '!'
    out = c.call(lambda: list(var.get_iter(add_bounds=add, **x)))
    c.ok('records are made', out)
    c.check('one record per element', len(out.value) == n)
    for k, r in enumerate(out.value):
        names = ['v'] + (['lb_v', 'ub_v'] if add and hasb else [])
        c.check('entries', list(r) == [q + mark for q in names], lambda: repr(list(r)))
        if masked and c.If(m(k)):
            c.check('masked values are missing', r['v' + mark] is None)
        else:
            c.check('value', r['v' + mark] is not None and c.eq(r['v' + mark], v(k)))
        if add and hasb:
            c.check('lower bound', c.eq(r['lb_v' + mark], bv(k, 0 if up == 'up' else 1)))
            c.check('upper bound', c.eq(r['ub_v' + mark], bv(k, 1 if up == 'up' else 0)))


@contract('C18', [VB + 'VariableCollection.iter', I + 'Iterator.__iter__'], level='bounded', samples=250,
          bound='two or three variables on one or two dimensions of size 2; every header map and option')
def collection_records(c):
    """Entries are renamed as the header map says; others are kept unless strict; the geometry is set apart."""
    sizes = dict(a=2, b=2)
    lead = c.choice('lead', [('a',), ('a', 'b')])
    vs = {nm: make(c, nm, d, sizes, False) for nm, d in (('u', lead), ('w', ('a',)), ('g', lead[::-1]))}
    vc = c.fn(VB + 'VariableCollection')(variables=[v[0] for v in vs.values()])
    dims = dict(u=lead, w=('a',), g=lead[::-1])
    hm = c.choice('header map', [None, {'u': 'U'}, {'w': 'W', 'u': 'U'}, {'u': 'U', 'missing': 'M'}])
    strict = c.choice('strict', [False, True])
    geom = c.choice('geom', [None, 'g'])
    explicit = c.choice('variable named', [False, True])
    hm_given = dict(hm) if hm is not None else None
    kw = dict(header_map=hm_given, strict=strict, geom=geom)
    if explicit:
        kw.update(variable='u', followers=['w'] + (['g'] if geom else []))
    out = c.call(lambda: list(vc.iter(**kw)))
    if hm is not None and strict and 'missing' in hm:
        c.check('a missing key is refused if strict', out.raised(KeyError))
        return
    if explicit:
        used = ['u', 'w'] + (['g'] if geom else [])
    else:
        used = [k for k in vs if k != geom]
    c.check('header map is left alone', hm_given == hm)
    if geom and not explicit:
        # The geometry is not iterated by default; it has to be part of the request.
        return
    c.ok('records are made', out)
    idxs = list(itertools.product(*[range(2) for d in lead]))
    c.check('one record per element', len(out.value) == len(idxs))
    for (g, r), idx in zip(out.value, idxs):
        def val(nm):
            return expected(lead, sizes, dims[nm], vs[nm][1], None, idx)[0]
        if geom:
            c.check('geometry of the record', g is not None and c.eq(g, val('g')))
        else:
            c.check('no geometry', g is None)
        rest = [u for u in used if u != geom]
        want = {}
        for u in rest:
            if hm is not None and u in hm:
                want[hm[u]] = u
            elif hm is None or not strict:
                want[u] = u
        c.check('entries of the record', sorted(r) == sorted(want), lambda: '%r %r' % (list(r), want))
        if hm is not None:
            c.check('mapped entries come first in the order of the map',
                    list(r)[:len([k for k in hm if k in rest])] == [hm[k] for k in hm if k in rest])
        for k, u in want.items():
            c.check('value at the position of the record', c.eq(r[k], val(u)))
