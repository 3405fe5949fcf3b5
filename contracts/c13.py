"""C13 Chunk-local regridding indices merge to the right global cells."""
from contracts.common import Like
from engine.contract import contract

G = 'ocgis.spatial.grid:Grid.'
K = 'ocgis.spatial.grid_chunker:GridChunker.'


class Box(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Held(object):
    """A variable of the index file."""

    def __init__(self, value):
        self.value = value

    def get_value(self):
        return self.value


@contract('C13', G + '_gc_create_global_indices_', samples=200)
def global_indices(c):
    """One-based row-major numbers."""
    h, w = c.int('rows', 1, small=6), c.int('cols', 1, small=6)
    out = c.call(G + '_gc_create_global_indices_', (h, w))
    c.ok('returns', out)
    r = out.value
    c.check('shape is the grid shape', c.And(len(c.shape(r)) == 2, c.shape(r)[0] == h, c.shape(r)[1] == w))
    c.forall('one-based row-major', (h, w), lambda i, j: c.at(r, i, j) == i * w + j + 1)


@contract('C13', [K + '_gc_remap_weight_variable_', G + '_gc_create_global_indices_'], samples=400)
def remap(c):
    """Entry p of chunk file f becomes the global number of the cell at the local position within the chunk's slices."""
    H, W = c.int('rows', 1, small=8), c.int('cols', 1, small=8)
    HH, WW = c.int('other_rows', 1, small=8), c.int('other_cols', 1, small=8)
    nf = c.int('files', 1, small=4)
    ifc = c.fn('ocgis.constants:GridChunkerConstants').IndexFile
    names = dict(row=(ifc.NAME_Y_DST_BOUNDS_VARIABLE, ifc.NAME_X_DST_BOUNDS_VARIABLE),
                 col=(ifc.NAME_Y_SRC_BOUNDS_VARIABLE, ifc.NAME_X_SRC_BOUNDS_VARIABLE))
    wvn = c.choice('variable', ['row', 'col', 'S'])
    ii = c.int('file', 0, small=3)
    c.assume(ii < nf)
    yb, xb = c.arr('y_bounds', (nf, 2), 'i', 0, 8), c.arr('x_bounds', (nf, 2), 'i', 0, 8)
    yo, xo = c.arr('y_bounds_other', (nf, 2), 'i', 0, 8), c.arr('x_bounds_other', (nf, 2), 'i', 0, 8)
    if not c.sym:
        # meet the precondition often: order and clip the sampled bounds
        for b, n in ((yb, H), (xb, W)):
            b.sort(axis=1)
            b[:] = b % (n + 1)
            b.sort(axis=1)
    y, x = c.snap(yb), c.snap(xb)
    y0, y1, x0, x1 = y(ii, 0), y(ii, 1), x(ii, 0), x(ii, 1)
    c.assume(c.And(0 <= y0, y0 < y1, y1 <= H, 0 <= x0, x0 < x1, x1 <= W))
    m = c.int('entries', 0, small=8)
    if wvn == 'S':
        data = c.arr('weights', m)
        v = c.snap(data)
    else:
        data = c.arr('local', m, 'i', 1, None if c.sym else 4)
        v = c.snap(data)
        c.assume_forall(m, lambda k: v(k) <= (y1 - y0) * (x1 - x0))
    gidx, ifile = {}, {}
    for key, (yn, xn) in names.items():
        gidx[yn], gidx[xn] = yn, xn
        mine = (wvn == key)
        ifile[yn], ifile[xn] = Held(yb if mine else yo), Held(xb if mine else xo)
    g = c.fn(G + '_gc_create_global_indices_')
    mine, other = g((H, W)), g((HH, WW))
    src, dst = (mine, other) if wvn == 'col' else (other, mine)
    me = Like(c, K[:-1], dst_grid=Box(), src_grid=Box())
    out = c.call(K + '_gc_remap_weight_variable_', me, ii, wvn, data, src, dst, ifile, gidx, split_grids_directory='/none')
    c.ok('returns', out)
    r = out.value
    c.check('one entry per entry', c.shape(r)[0] == m)
    if wvn == 'S':
        c.forall('weights are left unchanged', m, lambda k: c.at(r, k) == v(k))
    else:
        nx = x1 - x0
        c.forall('local index becomes the global index of the same cell', m, lambda k:
                 c.at(r, k) == (y0 + (v(k) - 1) // nx) * W + x0 + (v(k) - 1) % nx + 1)
        c.forall('the entries handed in are not changed', m, lambda k: c.at(data, k) == v(k))


@contract('C13', G + '_gc_create_index_bounds_', samples=200, level='bounded',
          bound='up to three chunks; slice positions unbounded')
def index_bounds(c):
    """The recorded chunk bounds are the slices that cut the chunks."""
    role = c.fn('ocgis.constants:RegriddingRole')
    ifc = c.fn('ocgis.constants:GridChunkerConstants').IndexFile
    src = c.choice('role', [False, True])
    n = c.choice('chunks', [1, 2, 3])
    ends = [[c.int('%s%d' % (k, i), 0, small=20) for k in ('y0', 'y1', 'x0', 'x1')] for i in range(n)]
    slices = [{'lat': slice(e[0], e[1]), 'lon': slice(e[2], e[3])} for e in ends]
    Dim = c.fn('ocgis.variable.dimension:Dimension')
    added = []
    host = Box(attrs={})
    DMK = c.fn('ocgis.constants:DMK')
    dm = Box(get_dimension=lambda key: {DMK.X: ['lon'], DMK.Y: ['lat']}[key])
    me = Like(c, G[:-1], is_empty=False, dimension_map=dm)
    out = c.call(G + '_gc_create_index_bounds_', me, role.SOURCE if src else role.DESTINATION, host,
                 Box(add_variable=added.append), slices, Dim('nfiles', n), Dim('bounds', 2))
    c.ok('returns', out)
    got = {v.name: v for v in added}
    ny, nx = (ifc.NAME_Y_SRC_BOUNDS_VARIABLE, ifc.NAME_X_SRC_BOUNDS_VARIABLE) if src else \
        (ifc.NAME_Y_DST_BOUNDS_VARIABLE, ifc.NAME_X_DST_BOUNDS_VARIABLE)
    c.check('both variables are added under the names the index records',
            set(got) == {ny, nx} and host.attrs == {ny: ny, nx: nx})
    for i, e in enumerate(ends):
        for v, a, b in ((got[ny], e[0], e[1]), (got[nx], e[2], e[3])):
            c.check('recorded start', c.at(v.get_value(), i, 0) == a)
            c.check('recorded stop', c.at(v.get_value(), i, 1) == b)


C = 'ocgis.spatial.grid_chunker:'


class Names(object):
    """The variable of file names in the index file."""

    def __init__(self, names):
        self.names = names

    def join_string_value(self):
        return list(self.names)


class Source(object):
    """A stand-in for the files read: the objects held under each path."""

    def __init__(self, held):
        self.held = held

    def __call__(self, uri=None, *args, **kwargs):
        self.asked = uri
        return Box(get=lambda: self.held[uri], create_field=lambda: self.held[uri])


class Loaded(dict):
    """What is read from one file."""
    dimensions = attrs = None

    def load(self):
        pass


class Target(object):
    """A stand-in for the file written: the windows assigned per variable, in order."""

    def __init__(self):
        self.written = []
        self.variables = self
        self.opened = 0

    def __call__(self, path, mode):
        self.path, self.mode = path, mode
        self.opened += 1
        return self

    def __getitem__(self, name):
        return Window(self, name)

    def sync(self):
        pass

    def close(self):
        self.opened -= 1

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()


class Window(object):
    def __init__(self, target, name):
        self.target, self.name = target, name

    def __setitem__(self, where, value):
        self.target.written.append((self.name, where, value))


class Created(object):
    """A stand-in for the collection that lays out the merged file."""
    made = None

    def __init__(self):
        self.variables, self.attrs = {}, {}
        Created.made = self

    def add_variable(self, v):
        self.variables[v.name] = v

    def write(self, path, **kwargs):
        self.path = path


def chunk_bounds(c, tag, H, W):
    """Any window of the grid."""
    e = [c.int(tag + k, 0, small=5) for k in ('y0', 'y1', 'x0', 'x1')]
    if not c.sym:
        # meet the precondition often
        for i, n in ((0, H), (2, W)):
            e[i] %= n
            e[i + 1] = e[i] + 1 + e[i + 1] % (n - e[i])
    c.assume(c.And(0 <= e[0], e[0] < e[1], e[1] <= H, 0 <= e[2], e[2] < e[3], e[3] <= W))
    return e


@contract('C13', [K + 'create_merged_weight_file', K + '_gc_remap_weight_variable_'], samples=250, level='bounded',
          bound='up to three weight files, present, missing or empty; any number of entries, shapes and windows')
def merge(c):
    """The merged file holds the entries of every file present, in file order, each index rewritten for the window of its
    own chunk; a missing file is an error on request and skipped otherwise."""
    import os
    ifc = c.fn('ocgis.constants:GridChunkerConstants').IndexFile
    n = c.choice('files', [1, 2, 3])
    state = [c.choice('file%d' % i, ['present', 'missing', 'empty']) for i in range(n)]
    strict = c.choice('strict', [False, True])
    H, W = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    h, w = c.int('src rows', 1, small=5), c.int('src cols', 1, small=5)
    dst = [chunk_bounds(c, 'dst%d' % i, H, W) for i in range(n)]
    src = [chunk_bounds(c, 'src%d' % i, h, w) for i in range(n)]
    A = lambda rows, k: Held(c.mk((n, 2), lambda i, j: c.item([x for e in rows for x in e[k:k + 2]], i * 2 + j), kind='i'))
    keys = {ifc.NAME_Y_DST_BOUNDS_VARIABLE: A(dst, 0), ifc.NAME_X_DST_BOUNDS_VARIABLE: A(dst, 2),
            ifc.NAME_Y_SRC_BOUNDS_VARIABLE: A(src, 0), ifc.NAME_X_SRC_BOUNDS_VARIABLE: A(src, 2),
            ifc.NAME_WEIGHTS_VARIABLE: Names(['/elsewhere/w%d.nc' % i for i in range(n)])}
    attrs = {k: k for k in keys}
    attrs[ifc.NAME_SRC_GRID_SHAPE], attrs[ifc.NAME_DST_GRID_SHAPE] = (h, w), (H, W)
    index = Loaded(keys)
    index[ifc.NAME_INDEX_VARIABLE] = Box(attrs=attrs)
    held = {'/wd/index.nc': index}
    want = []
    for i in range(n):
        if state[i] == 'missing':
            continue
        m = c.int('entries%d' % i, 1, small=4) if state[i] == 'present' else 0
        r, k, s = c.arr('row%d' % i, m, 'i', 1, None if c.sym else 25), c.arr('col%d' % i, m, 'i', 1, None if c.sym else 25), \
            c.arr('S%d' % i, m)
        for a, e in ((r, dst[i]), (k, src[i])):
            size = (e[1] - e[0]) * (e[3] - e[2])
            if not c.sym:
                a[:] = (a - 1) % size + 1
        rs, ks, ss = c.snap(r), c.snap(k), c.snap(s)
        for v, e in ((rs, dst[i]), (ks, src[i])):
            c.assume_forall(m, lambda j, v=v, e=e: c.And(1 <= v(j), v(j) <= (e[1] - e[0]) * (e[3] - e[2])))
        d = Loaded(row=Held(r), col=Held(k), S=Held(s))
        d.dimensions = {'n_s': Box(size=m if state[i] == 'present' else None)}
        held['/wd/w%d.nc' % i] = d
        want.append((m, dict(row=(rs, dst[i], W), col=(ks, src[i], w), S=(ss, None, None))))
    read, out_file = Source(held), Target()
    c.patch(C + 'RequestDataset', read)
    c.patch(C + 'VariableCollection', Created)
    c.patch(C + 'nc', Box(Dataset=out_file))
    c.patch(C + 'os', Box(path=Box(exists=lambda p: p in held, join=os.path.join, split=os.path.split)))
    grid = Like(c, G[:-1])
    me = Like(c, K[:-1], src_grid=grid, dst_grid=grid, paths={'wd': '/wd'}, filemode='BASIC', nc_format='NETCDF4',
             create_full_path_from_template=lambda key, index=None: '/wd/index.nc')
    out = c.call(K + 'create_merged_weight_file', me, '/out/merged.nc', strict=strict)
    if strict and 'missing' in state:
        c.check('a missing file is an error', out.raised(IOError))
        c.check('nothing is merged', len(out_file.written) == 0)
        return
    c.ok('returns', out)
    made = Created.made
    total = 0
    for m, _ in want:
        total = total + m
    c.check('the merged file has the three variables', set(made.variables) == {'row', 'col', 'S'})
    c.check('written where asked', made.path == '/out/merged.nc' and out_file.path == '/out/merged.nc')
    c.check('closed', out_file.opened == 0)
    for name, v in made.variables.items():
        c.check('room for every entry', c.And(v.ndim == 1, v.shape[0] == total))
    for name in ('row', 'col', 'S'):
        got = [(where, value) for who, where, value in out_file.written if who == name]
        c.check('each file once', len(got) == len(want))
        offset = 0
        for (where, value), (m, d) in zip(got, want):
            v, e, width = d[name]
            c.check('follows the file before', c.And(where.start == offset, where.stop == offset + m))
            c.check('one entry per entry', c.len(value) == m)
            if e is None:
                c.forall('weights are left unchanged', m, lambda j, v=v, value=value: c.at(value, j) == v(j))
            else:
                nx = e[3] - e[2]
                c.forall('global index of the same cell', m, lambda j, v=v, e=e, width=width, nx=nx, value=value:
                         c.at(value, j) == (e[0] + (v(j) - 1) // nx) * width + e[2] + (v(j) - 1) % nx + 1)
            offset = offset + m


class Field(Loaded):
    """A destination file: its data variables, and the times and coordinates of the master."""


class Var(object):
    has_allocated_value = False

    def __init__(self, name, ndim, value=None):
        self.name, self.ndim, self.value = name, ndim, value

    def __getitem__(self, slc):
        self.asked = slc
        return Held2(self.value(slc))


class Held2(Held):
    has_allocated_value = False


@contract('C13', K + 'insert_weighted', samples=250, level='bounded',
          bound='up to three chunk files and two times; any shapes and windows')
def insert_weighted(c):
    """The data of each chunk file is written to the window recorded for it, per time, and nowhere else."""
    ifc = c.fn('ocgis.constants:GridChunkerConstants').IndexFile
    n, nt = c.choice('files', [1, 2, 3]), c.choice('times', [0, 1, 2])
    H, W = c.int('rows', 1, small=5), c.int('cols', 1, small=5)
    dst = [chunk_bounds(c, 'dst%d' % i, H, W) for i in range(n)]
    A = lambda k: Held(c.mk((n, 2), lambda i, j: c.item([x for e in dst for x in e[k:k + 2]], i * 2 + j), kind='i'))
    keys = {ifc.NAME_Y_DST_BOUNDS_VARIABLE: A(0), ifc.NAME_X_DST_BOUNDS_VARIABLE: A(2),
            ifc.NAME_DESTINATION_VARIABLE: Names(['d%d.nc' % i for i in range(n)])}
    index = Loaded(keys)
    index[ifc.NAME_INDEX_VARIABLE] = Box(attrs={k: k for k in keys})
    names = ['flux', 'height'] if c.choice('variables', [1, 2]) == 2 else ['flux']
    ndim = {'flux': 3 if nt else 2, 'height': 2}
    dim = lambda name: Box(dimensions=[Box(name=name)], shape=(nt,))
    master = Field()
    master.data_variables = [Var(k, ndim[k]) for k in names]
    master.time, master.y, master.x = dim('time'), dim('lat'), dim('lon')
    held = {'/in/index.nc': index, '/in/master.nc': master}
    data = {}
    for i, e in enumerate(dst):
        f = Field()
        for k in names:
            shape = (e[1] - e[0], e[3] - e[2])
            times = [c.arr('%s%d_%d' % (k, i, t), shape) for t in range(nt if ndim[k] == 3 else 1)]
            data[k, i] = times
            if ndim[k] == 3:
                f[k] = Var(k, 3, lambda slc, times=times: c.mk((1,) + tuple(c.shape(times[0])),
                                                               lambda z, y, x, a=times[slc['time']]: c.at(a, y, x)))
            else:
                f[k] = Held2(times[0])
        held['/chunks/d%d.nc' % i] = f
    out_file = Target()
    c.patch(C + 'RequestDataset', Source(held))
    c.patch(C + 'nc', Box(Dataset=out_file))
    out = c.call(K + 'insert_weighted', '/in/index.nc', '/chunks', '/in/master.nc')
    c.ok('returns', out)
    c.check('closed', out_file.opened == 0)
    want = {}
    for k in names:
        for i, e in enumerate(dst):
            for t in range(nt if ndim[k] == 3 else 1):
                want[k, i, t] = (e, data[k, i][t])
    c.check('every piece once', len(out_file.written) == len(want))
    c.check('into the master', not want or (out_file.path == '/in/master.nc' and out_file.mode == 'a'))
    seen = {}
    for name, where, value in out_file.written:
        order = seen.setdefault(name, [])
        order.append((where, value))
    for k in names:
        got = seen.get(k, [])
        times = range(nt if ndim[k] == 3 else 1)
        # the order of the times does not matter
        got = sorted(got, key=lambda p: int(p[0][0])) if ndim[k] == 3 else got
        pieces = [(t, i) for t in times for i in range(n)]
        c.check('pieces of each variable', len(got) == len(pieces))
        for (where, value), (t, i) in zip(got, pieces):
            e, a = want[k, i, t]
            if ndim[k] == 3:
                c.check('its time', where[0] == t)
                where = where[1:]
            c.check('its window', c.And(where[0].start == e[0], where[0].stop == e[1], where[1].start == e[2],
                                        where[1].stop == e[3]))
            last = c.shape(value)[-2:]
            c.check('its shape', c.And(last[0] == e[1] - e[0], last[1] == e[3] - e[2]))
            lead = (0,) * (len(c.shape(value)) - 2)
            c.forall('its data', (e[1] - e[0], e[3] - e[2]),
                     lambda y, x, a=a, value=value, lead=lead: c.at(value, *(lead + (y, x))) == c.at(a, y, x))
