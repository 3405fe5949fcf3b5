"""C17 Temporary scopes restore the state they changed, also on failure."""
import itertools

from engine.contract import contract

B = 'ocgis.base:'
V = 'ocgis.vmachine.core:'
VB = 'ocgis.variable.base:'


class Boom(Exception):
    pass


def leave(c, how):
    if how == 'raises':
        raise Boom()


def left(c, how, out):
    c.check('errors of the body propagate, normal bodies return', out.raised(Boom) if how == 'raises' else out.ok,
            lambda: repr(out.exc))


def variables(c, layout):
    """Collection with one variable per tuple of dimension names; symbolic sizes and values."""
    sizes = {}
    for names in layout.values():
        for n in names:
            if n not in sizes:
                sizes[n] = c.int('size_' + n, 1, small=3)
    vs = []
    for name, dims in layout.items():
        out = c.call(VB + 'Variable', name=name, value=c.arr('data_' + name, tuple(sizes[d] for d in dims)),
                     dimensions=list(dims))
        c.ok('variable is created', out)
        vs.append(out.value)
    out = c.call(VB + 'VariableCollection', variables=vs)
    c.ok('collection is created', out)
    return out.value, vs, sizes


def check_dims(c, tag, var, names, sizes):
    c.check(tag + ': dimension names', tuple(var.dimension_names) == tuple(names),
            lambda: '%s %s' % (var.dimension_names, names))
    dims = var.dimensions
    c.check(tag + ': dimension objects carry the names', tuple(d.name for d in dims) == tuple(names))
    for d, s in zip(dims, sizes):
        c.check(tag + ': dimension sizes', c.len(d) == s)


LAY = {'a': ('t', 'lat', 'lon'), 'b': ('lon',), 'c': ('lat', 'lon')}


@contract('C17', B + 'orphaned', level='bounded', samples=250,
          bound='three variables with up to three dimensions, up to three nested scopes; sizes and values unbounded')
def orphaned_scope(c):
    """The variable has no parent inside; parent, dimensions and cached dimensions are back afterwards."""
    vc, vs, sizes = variables(c, LAY)
    v = vs[c.choice('which', [0, 1, 2])]
    names = LAY[v.name]
    full = tuple(sizes[n] for n in names)
    keeps = c.choice('scopes', [k for n in (1, 2, 3) for k in itertools.product([False, True], repeat=n)
                                if k[0] or not any(k)])
    how = c.choice('body', ['returns', 'raises'])
    orphaned = c.fn(B + 'orphaned')

    def run(ks):
        if not ks:
            leave(c, how)
            return
        with orphaned(v, keep_dimensions=ks[0]) as inside:
            c.check('the same variable is scoped', inside is v)
            c.check('no parent inside', not v.has_initialized_parent and v.is_orphaned)
            kept = ks[0] or seen.count(True) > 0
            if kept:
                check_dims(c, 'dimensions kept inside', v, names, full)
                c.check('still orphaned', not v.has_initialized_parent)
            seen.append(ks[0])
            try:
                run(ks[1:])
            finally:
                seen.pop()
            c.check('no parent after an inner scope', not v.has_initialized_parent)
            if kept:
                check_dims(c, 'dimensions kept after an inner scope', v, names, full)
    seen = []
    out = c.call(run, keeps)
    left(c, how, out)
    c.check('parent is back', v.parent is vc)
    check_dims(c, 'dimensions are back', v, names, full)
    for n in names:
        c.check('dimensions are those of the collection', any(d is vc.dimensions[n] for d in v.dimensions))
    c.check('nothing is remembered', not isinstance(v._dimensions_cache, tuple))


@contract('C17', B + 'orphaned', level='bounded', samples=50, bound='coordinate reference systems, nesting of two')
def orphaned_crs(c):
    """Coordinate reference systems (which have no dimensions of their own) can be orphaned too."""
    crs = c.fn('ocgis.variable.crs:' + c.choice('crs', ['WGS84', 'Spherical']))()
    vc = c.fn(VB + 'VariableCollection')(variables=[crs])
    how = c.choice('body', ['returns', 'raises'])
    keep, inner = c.choice('keep', [False, True]), c.choice('inner', [False, True])

    def body():
        with c.fn(B + 'orphaned')(crs, keep_dimensions=keep):
            c.check('no parent inside', not crs.has_initialized_parent)
            with c.fn(B + 'orphaned')(crs, keep_dimensions=inner):
                c.check('no parent in an inner scope', not crs.has_initialized_parent)
            leave(c, how)
    out = c.call(body)
    left(c, how, out)
    c.check('parent is back', crs.parent is vc)


MAPS = [{'x': ['lon']}, {'y': ['lat'], 'x': ['lon']}, {'time': ['t'], 'x': ['lon', 'west_east']}, {},
        {'y': ['nothing']}, {'lon': ['lon'], 'y': ['lat']}]


@contract('C17', B + 'renamed_dimensions', level='bounded', samples=200,
          bound='three dimensions, six name mappings, nesting of two; sizes unbounded')
def renamed(c):
    """Dimensions carry the mapped names inside and their own names afterwards."""
    D = c.fn('ocgis.variable.dimension:Dimension')
    names = ['t', 'lat', 'lon']
    dims = [D(n, size=c.int('size_' + n, 1, small=3)) for n in names]
    sz = [d.size for d in dims]
    m = c.choice('mapping', MAPS)
    nest = c.choice('nested', [False, True])
    how = c.choice('body', ['returns', 'raises'])
    exp = [([k for k, v in m.items() if n in v] or [n])[0] for n in names]

    def body():
        with c.fn(B + 'renamed_dimensions')(dims, m):
            c.check('names inside', [d.name for d in dims] == exp)
            if nest:
                with c.fn(B + 'renamed_dimensions')(dims, {'other': exp}):
                    c.check('names in the inner scope', [d.name for d in dims] == ['other'] * 3)
                c.check('names after the inner scope', [d.name for d in dims] == exp)
            leave(c, how)
    out = c.call(body)
    left(c, how, out)
    c.check('names are back', [d.name for d in dims] == names)
    c.check('sizes are untouched', c.And(*[d.size == s for d, s in zip(dims, sz)]))


def state(vc):
    return ([(k, d, d.name) for k, d in vc._dimensions.items()],
            [(k, v, v._dimensions, v.parent) for k, v in vc.items()])


def same_state(c, tag, vc, before, gone=()):
    dims, vs = before
    now, nvs = state(vc)
    c.check(tag + ': dimensions', len(now) == len(dims) and
            all(a[0] == b[0] and a[1] is b[1] and a[2] == b[2] for a, b in zip(now, dims)), lambda: repr(now))
    vs = [v for v in vs if v[0] not in gone]
    c.check(tag + ': variables and the dimension names they use', len(nvs) == len(vs) and
            all(a[0] == b[0] and a[1] is b[1] and a[2] == b[2] and a[3] is b[3] for a, b in zip(nvs, vs)),
            lambda: repr(nvs))


@contract('C17', B + 'renamed_dimensions_on_variables', level='bounded', samples=250,
          bound='three variables with up to three dimensions, six name mappings, nesting of two; sizes and values unbounded')
def renamed_on_variables(c):
    """Variables and collection carry the mapped names inside; everything is back afterwards."""
    vc, vs, sizes = variables(c, LAY)
    m = c.choice('mapping', MAPS)
    how = c.choice('body', ['returns', 'raises', 'slices', 'removes', 'adds'])
    nest = c.choice('nested', [False, True])
    before = state(vc)

    def to(n):
        return ([k for k, v in m.items() if n in v] or [n])[0]
    scope = c.fn(B + 'renamed_dimensions_on_variables')

    def body():
        with scope(vc, m):
            for v in vs:
                check_dims(c, 'inside', v, [to(n) for n in LAY[v.name]], [sizes[n] for n in LAY[v.name]])
            if nest:
                inner = state(vc)
                with scope(vc, {'q': [to('lon')]}):
                    c.check('names in the inner scope', tuple(vs[1].dimension_names) == ('q',))
                same_state(c, 'after the inner scope', vc, inner)
            if how == 'slices':
                vc[{to('lon'): slice(0, 1), to('lat'): slice(None)}] if how == 'slices' else None
            if how == 'removes':
                vc.pop('b')
            if how == 'adds':
                vc.add_variable(c.fn(VB + 'Variable')(name='new', value=c.arr('new', sizes['lon']),
                                                      dimensions=[to('lon')]), force=True)
            leave(c, how)
    out = c.call(body)
    left(c, how, out)
    if how == 'adds':
        check_dims(c, 'a variable added inside', vc['new'], ['lon'], [sizes['lon']])
        vc.pop('new')
    same_state(c, 'afterwards', vc, before, gone=('b',) if how == 'removes' else ())
    for v in vs:
        if how == 'removes' and v.name == 'b':
            continue
        check_dims(c, 'afterwards', v, LAY[v.name], [sizes[n] for n in LAY[v.name]])


def make_grid(c, bounds):
    ny, nx = c.int('ny', 2, small=3), c.int('nx', 2, small=3)
    out = []
    for nm, n in (('y', ny), ('x', nx)):
        kw = {}
        if bounds:
            o = c.call(VB + 'Variable', name=nm + '_bounds', value=c.arr(nm + '_bounds', (n, 2)), dimensions=[nm, 'bnd'])
            c.ok('bounds are created', o)
            kw['bounds'] = o.value
        o = c.call(VB + 'Variable', name=nm, value=c.arr(nm, n), dimensions=nm, **kw)
        c.ok('coordinate is created', o)
        out.append(o.value)
    g = c.call('ocgis.spatial.grid:Grid', out[1], out[0])
    c.ok('grid is created', g)
    return g.value


@contract('C17', [B + 'grid_abstraction_scope', 'ocgis.spatial.grid:AbstractGrid.abstraction'], level='bounded', samples=150,
          bound='every abstraction inside and outside, nesting of two; grid sizes and coordinates unbounded')
def grid_abstraction(c):
    """The requested abstraction applies inside if the grid offers it; the setting made before is back afterwards."""
    bounds = c.choice('bounds', [False, True])
    g = make_grid(c, bounds)
    prior = c.choice('prior', ['auto', 'point', 'polygon'] if bounds else ['auto', 'point'])
    g.abstraction = prior
    setting = g.dimension_map.get_grid_abstraction()
    want = c.choice('want', ['point', 'polygon'])
    strict = c.choice('strict', [False, True])
    nest = c.choice('nested', [None, 'point', 'polygon'])
    how = c.choice('body', ['returns', 'raises'])
    resolved = g.abstraction
    offered = ['point'] + (['polygon'] if bounds else [])
    c.check('automatic choice is the highest order offered',
            resolved == (offered[-1] if prior == 'auto' else prior))
    entered = []

    def body():
        with c.fn(B + 'grid_abstraction_scope')(g, want, strict=strict):
            entered.append(1)
            exp = want if want in offered else resolved
            c.check('abstraction inside', g.abstraction == exp)
            if nest:
                with c.fn(B + 'grid_abstraction_scope')(g, nest):
                    c.check('abstraction in the inner scope', g.abstraction == (nest if nest in offered else exp))
                c.check('abstraction after the inner scope', g.abstraction == exp)
            leave(c, how)
    out = c.call(body)
    if strict and want not in offered:
        c.check('an abstraction not offered is refused if strict', out.raised(ValueError) and not entered)
    else:
        left(c, how, out)
    c.check('abstraction is back', g.abstraction == resolved)
    c.check('the setting (automatic or fixed) is back', g.dimension_map.get_grid_abstraction() == setting,
            lambda: '%s, was %s' % (g.dimension_map.get_grid_abstraction(), setting))


# ----------------------------------------------------------------------------------------------------- communicators
class Group(object):
    def __init__(self, comm, ranks=None):
        self.comm, self.ranks, self.freed = comm, ranks, 0
        comm.groups.append(self)

    def Incl(self, ranks):
        return Group(self.comm, [self.comm.ranks[r] for r in ranks])

    def Free(self):
        self.freed += 1


class Comm(object):
    """Stand-in for an MPI communicator: records what is created from it and what is freed."""

    def __init__(self, ranks, made):
        self.ranks, self.made, self.freed, self.groups = list(ranks), made, 0, []
        made.append(self)

    def Get_group(self):
        assert not self.freed
        return Group(self)

    def Create(self, group):
        assert not self.freed and not group.freed
        return Comm(group.ranks, self.made)

    def Free(self):
        self.freed += 1

    def Get_size(self):
        return len(self.ranks)

    def Get_rank(self):
        return 0


def vm_of(c, dummy):
    made = []
    comm = c.fn('ocgis.vmachine.mpi:DummyMPIComm')() if dummy else Comm(range(4), made)
    vm = c.fn(V + 'OcgVM')(comm)
    return vm, made


NULL = 'ocgis.vmachine.mpi:COMM_NULL'


@contract('C17', [V + 'vm_scope', V + 'OcgVM.create_subcomm', V + 'OcgVM.free_subcomm', V + 'OcgVM.set_comm',
                  V + 'OcgVM.comm', V + 'OcgVM.get_subcomm'], level='bounded', samples=300,
          bound='world of four ranks (and the serial stand-in), up to three nested scopes, every rank set of size 0 to 2')
def vm_scopes(c):
    """Inside, the named communicator over the ranks is current; afterwards the previous one is, and none is leaked."""
    dummy = c.choice('serial', [False, True])
    vm, made = vm_of(c, dummy)
    null = c.fn(NULL)
    depth = c.choice('depth', [1, 2, 3])
    names = c.choice('names', ['different', 'outer again'])
    how = c.choice('body', ['returns', 'raises'])
    ranks = [c.choice('ranks%d' % i, [[0], [0, 1], []]) for i in range(depth)]
    world = vm.comm

    def run(i):
        if i == depth:
            leave(c, how)
            return
        if vm.is_null:
            return run(depth)
        cur, curname, known = vm.comm, vm.current_comm_name, dict(vm._subcomms)
        name = 's%d' % (0 if names == 'outer again' else i)
        size = vm.size
        rk = [r for r in ranks[i] if r < size]
        try:
            with vm.scoped(name, rk) as inside:
                c.check('the machine itself is scoped', inside is vm)
                c.check('name inside', vm.current_comm_name == name)
                if dummy:
                    c.check('serial runs keep their communicator', vm.comm is world)
                elif not rk:
                    c.check('empty set of ranks: null', vm.is_null and vm.rank is None and vm.size is None)
                else:
                    c.check('a new communicator over the ranks',
                            isinstance(vm.comm, Comm) and vm.comm is not cur and
                            vm.comm.ranks == [cur.ranks[r] for r in rk])
                run(i + 1)
                c.check('name after an inner scope', vm.current_comm_name == name)
        except c.fn('ocgis.exc:SubcommAlreadyCreatedError'):
            c.check('only a name in use is refused', not dummy and name in known)
        finally:
            c.check('previous communicator is current again', vm.comm is cur and vm.current_comm_name == curname)
            if not dummy:
                c.check('registered communicators are as before', vm._subcomms == known)
    out = c.call(run, 0)
    c.check('errors of the body propagate, normal bodies return', out.ok or out.raised(Boom) and how == 'raises',
            lambda: repr(out.exc))
    c.check('the world communicator is current', vm.comm is world and vm.current_comm_name is None)
    for m in made:
        c.check('every communicator made is freed exactly once', m.freed == (0 if m is world else 1))
    if not dummy:
        c.check('nothing is registered', vm._subcomms == {})


@contract('C17', [V + 'OcgVM.create_subcomm', V + 'OcgVM.free_subcomm', V + 'OcgVM.finalize'], level='bounded', samples=200,
          bound='world of four ranks, sequences of up to four requests')
def subcomm_requests(c):
    """Sequences of create, replace and free requests leak no communicator; finalizing frees what is left."""
    vm, made = vm_of(c, False)
    world = vm.comm
    null = c.fn(NULL)
    known = {}
    n = c.choice('n', [1, 2, 3])
    for i in range(n):
        req = c.choice('request%d' % i, ['create', 'clobber', 'free'])
        name = c.choice('name%d' % i, ['p', 'q'])
        if req == 'free':
            out = c.call(vm.free_subcomm, name=name)
            if name in known:
                c.ok('a registered communicator is freed', out)
                known.pop(name)
            else:
                c.check('an unknown name is refused', out.raised(c.fn('ocgis.exc:SubcommNotFoundError')))
        else:
            ranks = c.choice('ranks%d' % i, [[], [1], [0, 2]])
            out = c.call(vm.create_subcomm, name, ranks, clobber=req == 'clobber')
            if name in known and req == 'create':
                c.check('a name in use is refused', out.raised(c.fn('ocgis.exc:SubcommAlreadyCreatedError')),
                        lambda: repr(out.exc))
            else:
                c.ok('a communicator is created', out)
                known[name] = ranks
        c.check('current communicator is untouched', vm.comm is world)
        c.check('exactly the expected names are registered', sorted(vm._subcomms) == sorted(known))
        for k, r in known.items():
            s = vm.get_subcomm(k)
            c.check('each over its ranks', (s == null) if not r else isinstance(s, Comm) and s.ranks == r and s.freed == 0)
        live = [m for m in made if not m.freed and m is not world]
        c.check('no communicator is leaked', len(live) == len([r for r in known.values() if r]))
        c.check('none is freed twice', all(m.freed <= 1 for m in made))
    vm.finalize()
    c.check('finalizing frees the rest, once each', all(m.freed == (0 if m is world else 1) for m in made))
    c.check('groups are freed once each', all(g.freed <= 1 for m in made for g in m.groups))


@contract('C17', [V + 'vm_scoped_by_name', V + 'vm_scoped_barrier'], level='bounded', samples=100,
          bound='world of four ranks, nesting of two')
def vm_by_name(c):
    """The named communicator is current inside and the previous one afterwards."""
    vm, made = vm_of(c, False)
    for nm, r in (('p', [0, 1]), ('q', [1])):
        vm.create_subcomm(nm, r)
    start = c.choice('start', [None, 'p'])
    vm.set_comm(start)
    a, b = c.choice('first', ['p', 'q', 'unknown']), c.choice('second', ['p', 'q', None])
    how = c.choice('body', ['returns', 'raises'])

    def body():
        with vm.scoped_by_name(a) as inside:
            c.check('the machine itself is scoped', inside is vm and vm.current_comm_name == a)
            if a != 'unknown':
                c.check('named communicator inside', vm.comm is vm._subcomms[a])
            with vm.scoped_by_name(b):
                c.check('inner name', vm.current_comm_name == b)
                leave(c, how)
            c.check('outer name after the inner scope', vm.current_comm_name == a)
    out = c.call(body)
    left(c, how, out)
    c.check('previous name is back', vm.current_comm_name == start)
    c.check('nothing is freed', all(m.freed == 0 for m in made))


class Driver(object):
    """Stand-in driver recording what is opened and closed."""

    def __init__(self, rd, is_open=()):
        self.rd, self.log, self.is_open = rd, [], list(is_open)

    def inquire_opened_state(self, x):
        return x in self.is_open

    def open(self, uri=None, mode='r', rd=None, **kwargs):
        self.log.append(('open', uri, mode, rd, kwargs))
        self.is_open.append('handle of ' + uri)
        return 'handle of ' + uri

    def close(self, x):
        self.log.append(('close', x))
        self.is_open.remove(x)


class Request(object):
    def __init__(self, uri, opened, driver_kwargs):
        self.uri, self.opened, self.driver_kwargs = uri, opened, driver_kwargs


@contract('C17', 'ocgis.driver.base:driver_scope', level='bounded', samples=200,
          bound='every combination of request dataset, path or open object, and open state; nesting of two')
def driver_scopes(c):
    """What the scope opens it closes, also on failure; what was open before stays open."""
    src = c.choice('source', ['path', 'handle', 'dataset', 'opened dataset', 'none'])
    opts = c.choice('dataset options', [None, {'mode2': 1}])
    how = c.choice('body', ['returns', 'raises'])
    nest = c.choice('nested', [False, True])
    mode = c.choice('mode', ['r', 'w'])
    rd = Request('file', 'opened file' if src == 'opened dataset' else None, opts) if 'dataset' in src else None
    d = Driver(rd, ['my handle', 'opened file'])
    was = list(d.is_open)
    given = {'path': 'path', 'handle': 'my handle'}.get(src)
    kw = {'slc': 3}
    exp = {'path': 'handle of path', 'handle': 'my handle', 'dataset': 'handle of file',
           'opened dataset': 'opened file'}.get(src)
    opens = src in ('path', 'dataset')

    def body():
        with c.fn('ocgis.driver.base:driver_scope')(d, opened_or_path=given, mode=mode, **kw) as f:
            c.check('the open object inside', f == exp and d.inquire_opened_state(f))
            if nest:
                with c.fn('ocgis.driver.base:driver_scope')(d, opened_or_path=f) as g:
                    c.check('an open object is reused', g == f)
                c.check('an inner scope does not close it', d.inquire_opened_state(f))
            leave(c, how)
    out = c.call(body)
    if src == 'none':
        c.check('nothing to scope is refused', out.raised(ValueError) and not d.log)
        return
    left(c, how, out)
    c.check('open objects are as before', d.is_open == was)
    if opens:
        c.check('opened once and closed once', [l[0] for l in d.log] == ['open', 'close'] and d.log[1][1] == exp)
        full = dict(kw)
        full.update((opts or {}) if rd is not None else {})
        c.check('mode and options reach the driver', d.log[0][2] == mode and d.log[0][4] == full and d.log[0][3] is rd)
    else:
        c.check('neither opened nor closed', d.log == [])
    c.check('options of the dataset are untouched', opts is None or opts == {'mode2': 1})
