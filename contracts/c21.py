"""C21 Dimension maps survive conversion to and from plain dictionaries."""
import copy
import itertools

from engine.contract import contract

D = 'ocgis.driver.dimension_map:DimensionMap'
KEYS = ['x', 'y', 'time', 'level']
BOUND = 'every sequence of up to %s out of %d edits'


def filled(c, dm):
    """The map without the empty entries that asking for an absent entry leaves behind."""
    r = c.fn(D)()
    for k, v in copy.deepcopy(dm._storage).items():
        if k == 'groups' or k == 'topology':
            v = {n: filled(c, g) for n, g in v.items()}
        elif isinstance(v, dict) and v.get('variable') is None:
            continue
        r._storage[k] = v
    return r


class Model(object):
    """What a dimension map holds: entries by key, groups and topologies by name."""

    def __init__(self):
        self.entries, self.crs, self.mask, self.driver, self.props = {}, None, None, None, {}
        self.groups, self.topologies = {}, {}

    def same(self, c, tag, dm):
        for k in KEYS:
            e = self.entries.get(k)
            c.check(tag + ': variable of each key', dm.get_variable(k) == (e and e[0]),
                    lambda: '%s %r %r' % (k, dm.get_variable(k), e))
            c.check(tag + ': dimensions of each key', list(dm.get_dimension(k)) == (e[1] if e else []))
            c.check(tag + ': bounds of each key', dm.get_bounds(k) == (e and e[2]))
            c.check(tag + ': attributes of each key', dict(dm.get_attrs(k)) == (e[3] if e else {}),
                    lambda: '%s %r %r' % (k, dm.get_attrs(k), e))
            c.check(tag + ': section of each key', dm.as_dict()[k].get('section') == (e[4] if e else None))
            if e and k != 'time':
                c.check(tag + ': a spatial variable is found under its key', dm.inquire_is_xyz(e[0]) == k)
        c.check(tag + ': coordinate system', dm.get_crs() == self.crs)
        c.check(tag + ': spatial mask', dm.get_spatial_mask() == (self.mask and self.mask[0]))
        if self.mask:
            c.check(tag + ': attributes of the spatial mask', dict(dm.get_attrs('spatial_mask')) == self.mask[1])
        c.check(tag + ': driver', dm.get_driver() == (self.driver or 'netcdf-cf'), lambda: repr(dm.get_driver()))
        c.check(tag + ': abstraction', dm.get_grid_abstraction() == self.props.get('grid_abstraction', 'auto'))
        c.check(tag + ': properties', dm.get_property('is_isomorphic', 'none') == self.props.get('is_isomorphic', 'none'))
        for g, m in self.groups.items():
            out = c.call(dm.get_group, g)
            c.ok(tag + ': the group is there', out)
            m.same(c, tag + ' (group)', out.value)
            m.same(c, tag + ' (group)', dm.get_group([None, g]))
        c.check(tag + ': no other group', c.call(dm.get_group, 'not there').raised(c.fn('ocgis.exc:DimensionMapError')))
        c.check(tag + ': topologies', set(dm.get_available_topologies()) == set(self.topologies))
        for t, m in self.topologies.items():
            m.same(c, tag + ' (topology)', dm.get_topology(t))
        c.check(tag + ': no other topology', dm.get_topology('not there') is None)


TIME_ATTRS = {'axis': 'T'}


def put(m, k, var, dim=(), bounds=None, attrs=None, section=None):
    a = dict(attrs if attrs is not None else (TIME_ATTRS if k == 'time' else {}))
    if k in m.entries:
        a.update(m.entries[k][3])
    m.entries[k] = (var, list(dim), bounds, a, section)


def edit_bounds(dm, m, c):
    out = c.call(dm.set_bounds, 'x', 'other_bounds')
    if 'x' in m.entries:
        c.ok('bounds are set', out)
        e = m.entries['x']
        m.entries['x'] = (e[0], e[1], 'other_bounds', e[3], e[4])
    else:
        c.check('bounds without a variable are refused', out.raised(c.fn('ocgis.exc:DimensionMapError')), lambda: repr(out.exc))


def edit_refused(dm, m, c):
    out = c.call(dm.set_variable, 'level', 'v', section=(None, 0))
    c.check('a section without position or dimension is refused', out.raised(c.fn('ocgis.exc:DimensionMapError')))
    out = c.call(dm.set_variable, 'crs', 'v')
    c.check('entries with their own setters are refused', out.raised(c.fn('ocgis.exc:DimensionMapError')))
    out = c.call(dm.set_variable, 'nonsense', 'v')
    c.check('unknown entries are refused', out.raised(c.fn('ocgis.exc:DimensionMapError')))


def edit_ndim(dm, m, c):
    import numpy as np
    v = c.fn('ocgis.variable.base:Variable')(name='two', value=np.zeros((2, 3)), dimensions=['i', 'j'])
    out = c.call(dm.set_variable, 'level', v)
    c.check('a variable with two dimensions needs a position', out.raised(c.fn('ocgis.exc:DimensionMapError')))


def edit_object(dm, m, c):
    import numpy as np
    V = c.fn('ocgis.variable.base:Variable')
    v = V(name='lat', value=np.arange(3.), dimensions='ydim', attrs={'units': 'degrees'},
          bounds=V(name='lat_bounds', value=np.zeros((3, 2)), dimensions=['ydim', 'bnd']))
    dm.set_variable('y', v)
    put(m, 'y', 'lat', ['ydim'], 'lat_bounds', dict(v.attrs))


def edit_group(dm, m, c, name='g', key='x'):
    sub, sm = c.fn(D)(), Model()
    sub.set_variable(key, 'inner_' + key, dimension='inner')
    put(sm, key, 'inner_' + key, ['inner'])
    dm.set_group(name, sub)
    m.groups[name] = sm


def edit_topology(dm, m, c):
    t = dm.get_topology('polygon', create=True)
    tm = m.topologies.setdefault('polygon', Model())
    t.set_variable('x', 'poly_x', dimension=['elements'])
    put(tm, 'x', 'poly_x', ['elements'])
    t.set_variable('y', 'poly_y', dimension=['elements'])
    put(tm, 'y', 'poly_y', ['elements'])


def edit_attrs(dm, m, c):
    given = {'a': 1, 'axis': 'mine'}
    dm.set_variable('time', 't', dimension=['time'], attrs=given)
    put(m, 'time', 't', ['time'], None, {'a': 1, 'axis': 'mine'})
    c.check("the caller's attributes are left alone", given == {'a': 1, 'axis': 'mine'})
    given['a'] = 99


def edit_dims(dm, m, c):
    dims = ['i', 'j']
    dm.set_variable('x', 'x2', dimension=dims, bounds='b2')
    put(m, 'x', 'x2', ['i', 'j'], 'b2')
    dims.append('k')


def edit_section(dm, m, c):
    dm.set_variable('y', 'xy', dimension='elements', section=(None, 1))
    put(m, 'y', 'xy', ['elements'], section=(None, 1))


def edit_metadata(dm, m, c):
    meta = {'variables': {'t': {'dimensions': ('time',)}, 'lon': {'dimensions': ('other',)}, 'lone': {'dimensions': ['d0']}}}
    dm.update_dimensions_from_metadata(meta)
    for k, dims in (('t', ['time']), ('lon', ['other']), ('lone', ['d0'])):
        for key, e in list(m.entries.items()):
            if e[0] == k and not e[1]:
                m.entries[key] = (e[0], dims) + e[2:]


def remove(dm, m, c):
    dm.set_variable('x', None)
    m.entries.pop('x', None)


def mask_(attrs):
    def f(dm, m, c):
        dm.set_spatial_mask('mask', attrs=attrs)
        a = {'ocgis_role': 'spatial_mask', 'description': 'values matching fill value are spatially masked'}
        a.update(attrs or {})
        m.mask = ('mask', a)
    return f


def mask_object(dm, m, c):
    from ocgis import Variable
    own = {'q': 1, 'own': 3, 'description': 'mine'}
    dm.set_spatial_mask(Variable(name='mask', attrs=own), attrs={'q': 2})
    m.mask = ('mask', {'ocgis_role': 'spatial_mask', 'description': 'mine', 'own': 3, 'q': 2})
    c.check("the caller's attributes are left alone", own == {'q': 1, 'own': 3, 'description': 'mine'})


def mask_only(dm, m, c):
    dm.set_spatial_mask('mask', default_attrs={})
    m.mask = ('mask', {})


def simple(f, g):
    def h(dm, m, c):
        f(dm)
        g(m)
    return h


EDITS = [
    simple(lambda d: d.set_variable('x', 'lon', dimension='lon'), lambda m: put(m, 'x', 'lon', ['lon'])),
    edit_dims, edit_attrs, edit_object, remove, edit_bounds, edit_refused, edit_ndim,
    simple(lambda d: d.set_variable('time', 't', bounds='tb'), lambda m: put(m, 'time', 't', [], 'tb')),
    simple(lambda d: d.set_crs('crs1'), lambda m: setattr(m, 'crs', 'crs1')),
    mask_(None), mask_object, mask_only,
    simple(lambda d: d.set_driver('netcdf-ugrid'), lambda m: setattr(m, 'driver', 'netcdf-ugrid')),
    simple(lambda d: d.set_grid_abstraction('point'), lambda m: m.props.update(grid_abstraction='point')),
    simple(lambda d: d.set_property('is_isomorphic', True), lambda m: m.props.update(is_isomorphic=True)),
    edit_group, lambda d, m, c: edit_group(d, m, c, 'g', 'y'), lambda d, m, c: edit_group(d, m, c, 'h', 'time'),
    edit_topology, edit_section, edit_metadata,
    simple(lambda d: d.set_variable('level', 'lone', attrs={'p': 1}), lambda m: put(m, 'level', 'lone', attrs={'p': 1})),
]


def build(c, n, start=None):
    dm, m = start or (c.fn(D)(), Model())
    steps = []
    for i in range(n):
        k = c.choice('edit%d%s' % (i, '' if start is None else 'b'), list(range(len(EDITS))) + ([None] if i else []))
        if k is None:
            break
        steps.append(k)
        EDITS[k](dm, m, c)
    return dm, m


SET = [D + '.set_variable', D + '.set_bounds', D + '.set_crs', D + '.set_spatial_mask', D + '.set_group',
       D + '.set_driver', D + '.set_property', D + '.update_dimensions_from_metadata', D + '.inquire_is_xyz', D + '.get_topology', D + '._get_entry_', D + '._get_element_']


@contract('C21', SET, level='bounded', bound=BOUND % (3, len(EDITS)), samples=400, max_paths=20000)
def map_edits(c):
    """Every edit changes its own entry as documented and no other; refused edits change nothing."""
    dm, m = build(c, 3)
    m.same(c, 'after the edits', dm)


@contract('C21', [D + '.as_dict', D + '.from_dict'] + SET, level='bounded', bound=BOUND % (3, len(EDITS)), samples=400,
          max_paths=20000)
def map_round_trip(c):
    """Dictionary and back gives an equal map, which shares nothing with the dictionary or the first map."""
    dm, m = build(c, 3)
    before = copy.deepcopy(dm)
    dct = dm.as_dict()
    c.check('writing changes nothing', dm == before)

    def plain(x):
        if isinstance(x, dict):
            return all(isinstance(k, str) and plain(v) for k, v in x.items())
        if isinstance(x, (list, tuple)):
            return all(plain(i) for i in x)
        return x is None or isinstance(x, (str, int, float))
    c.check('the dictionary is plain', plain(dct))
    kept = copy.deepcopy(dct)
    out = c.call(c.fn(D + '.from_dict'), dct)
    c.ok('the dictionary is read', out)
    c.check('reading changes nothing', dct == kept)
    c.check('an equal map', filled(c, out.value) == filled(c, dm), lambda: '%r %r' % (out.value._storage, dm._storage))
    c.check('equal entries', filled(c, out.value).as_dict() == filled(c, dm).as_dict())
    m.same(c, 'the map read', out.value)

    def spoil(x):
        for k in list(x):
            if isinstance(x[k], dict):
                spoil(x[k])
            elif isinstance(x[k], list):
                x[k].append('spoilt')
        x['spoilt'] = 1
    spoil(dct)
    out.value.set_variable('x', 'spoilt', dimension='spoilt')
    out.value.set_crs('spoilt')
    out.value.get_topology('polygon', create=True).set_variable('x', 'spoilt')
    c.check('nothing is shared', filled(c, dm) == filled(c, before))


QUERIES = [lambda d: d.get_variable('x'), lambda d: d.get_attrs('x'), lambda d: d.get_bounds('time'),
           lambda d: d.get_dimension('y'), lambda d: d.get_crs(), lambda d: d.get_spatial_mask(),
           lambda d: d.get_topology('point'), lambda d: d.get_available_topologies(), lambda d: d.get_driver(),
           lambda d: d.get_grid_abstraction(), lambda d: d.get_property('is_isomorphic'),
           lambda d: d.get_attrs('spatial_mask'), lambda d: d.inquire_is_xyz('lon'), lambda d: d.get_group(None)]


@contract('C21', [D + '.get_variable', D + '.get_attrs', D + '.get_bounds', D + '.get_dimension', D + '.get_crs',
                  D + '.get_spatial_mask', D + '.get_topology', D + '.get_group', D + '.inquire_is_xyz'],
          level='bounded', bound=BOUND % (2, len(EDITS)) + ', every query', samples=300, max_paths=20000)
def map_queries(c):
    """Asking a map does not change it."""
    dm, m = build(c, 2)
    before = copy.deepcopy(dm)
    q = QUERIES[c.choice('query', list(range(len(QUERIES))))]
    c.ok('the query is answered', c.call(q, dm))
    c.check('the map is unchanged', filled(c, dm) == filled(c, before), lambda: '%r %r' % (dm._storage, before._storage))
    c.check('it reads back', filled(c, c.fn(D + '.from_dict')(dm.as_dict())) == filled(c, dm))


def merged(a, b):
    r = copy.deepcopy(a)
    r.entries.update(copy.deepcopy(b.entries))
    r.crs = b.crs or r.crs
    r.mask = copy.deepcopy(b.mask) or r.mask
    r.driver = b.driver or r.driver
    r.props.update(b.props)
    r.groups.update(copy.deepcopy(b.groups))
    r.topologies.update(copy.deepcopy(b.topologies))
    return r


@contract('C21', [D + '.update'] + SET, level='bounded', bound='one edit on each map and one afterwards, all of %d edits' % len(EDITS),
          samples=500, max_paths=20000)
def map_update(c):
    """Entries of the other map win, all others stay; the maps stay independent of each other."""
    a, am = build(c, 1)
    b, bm = build(c, 1, start=(c.fn(D)(), Model()))
    before = copy.deepcopy(b)
    a.update(b)
    exp = merged(am, bm)
    exp.same(c, 'updated map', a)
    c.check('the other map is unchanged', filled(c, b) == filled(c, before))
    k = c.choice('edit after', list(range(len(EDITS))))
    EDITS[k](a, exp, c)
    if exp.topologies:
        a.get_topology('polygon').set_variable('time', 'late')
    c.check('later edits do not reach the other map', filled(c, b) == filled(c, before), lambda: '%r %r' % (b._storage, before._storage))


@contract('C21', [D + '.set_group', D + '.get_group', 'ocgis.driver.dimension_map:get_dmap_group'], level='bounded',
          samples=200, bound='every sequence of up to three group assignments over five group paths')
def map_groups(c):
    """A group path leads to the map set for it last; other groups and the maps above stay."""
    dm = c.fn(D)()
    dm.set_crs('root')
    paths = [['g'], ['h'], ['g', 'k'], [None, 'g', 'k'], [None, 'h', 'k']]
    n = c.choice('n', [1, 2, 3])
    exp = {}
    for i in range(n):
        p = c.choice('path%d' % i, paths)
        sub = c.fn(D)()
        sub.set_crs('crs %d' % i)
        given = list(p)
        out = c.call(dm.set_group, given, sub)
        c.ok('the group is set', out)
        c.check('the path given is left alone', given == p)
        real = tuple(k for k in p if k is not None)
        exp = {k: v for k, v in exp.items() if k[:len(real)] != real}
        exp[real] = 'crs %d' % i
    for p, v in exp.items():
        for q in (list(p), [None] + list(p)):
            out = c.call(dm.get_group, q)
            c.ok('the group is found', out)
            c.check('the map set last is found', out.value.get_crs() == v, lambda: '%s %s' % (p, out.value.get_crs()))
    c.check('the root keeps its entries', dm.get_group(None) is dm and dm.get_crs() == 'root')
    c.check('it reads back', filled(c, c.fn(D + '.from_dict')(dm.as_dict())) == filled(c, dm))


@contract('C21', [D + '.from_metadata'], level='bounded', samples=100,
          bound='metadata with groups nested up to three deep, two per level')
def map_from_metadata(c):
    """Each group's map is built from that group's metadata and found under the group's path."""
    made = []

    class Driver(object):
        def create_dimension_map(self, meta):
            d = c.fn(D)()
            d.set_variable('x', meta['name'])
            made.append(meta['name'])
            return d
    depth = c.choice('depth', [0, 1, 2, 3])
    wide = c.choice('groups per level', [1, 2])
    paths = []

    def meta(path, d):
        r = {'name': 'x of ' + '/'.join(path)}
        paths.append(path)
        if d:
            r['groups'] = {k: meta(path + [k], d - 1) for k in ['p', 'q'][:wide]}
        return r
    m = meta([], depth)
    out = c.call(c.fn(D + '.from_metadata'), Driver(), m)
    c.ok('the map is built', out)
    for p in paths:
        g = c.call(out.value.get_group, [None] + p)
        c.ok('every group is found', g)
        c.check('built from its own metadata', g.value.get_variable('x') == 'x of ' + '/'.join(p),
                lambda: '%s: %s' % (p, g.value.get_variable('x')))
    c.check('once per group', sorted(made) == sorted('x of ' + '/'.join(p) for p in paths))
