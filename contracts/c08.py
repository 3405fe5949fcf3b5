"""C08 Temporal grouping assigns every time step to exactly one matching group."""
import datetime
import itertools

from engine.contract import contract
from contracts.c07 import Date, between

T = 'ocgis.variable.temporal:'
E = 'ocgis.exc:'


def dates(c, name, n, lo=1998, hi=2004):
    """n dates given by their parts: the list and its year, month and day functions."""
    ys, ms, ds = c.arr(name + '_year', n, 'i', lo=lo, hi=hi), c.arr(name + '_month', n, 'i', lo=1, hi=12), \
        c.arr(name + '_day', n, 'i', lo=1, hi=28)
    y, m, d = c.snap(ys), c.snap(ms), c.snap(ds)
    return (lambda k: Date(c, y(k), m(k), d(k)) if c.sym else datetime.datetime(int(y(k)), int(m(k)), int(d(k)))), y, m, d


def timevar(c, name, n, bounded=False, lo=1998, hi=2004):
    """A time variable of n dates (and bounds around them): with the functions giving the date and the interval of a step."""
    TV = c.fn(T + 'TemporalVariable')
    at = dates(c, name, n, lo, hi)[0]
    cols = [dates(c, name + '_' + w, n, lo, hi)[0] for w in ('lower', 'upper')] if bounded else None
    if bounded:
        c.assume_forall(n, lambda k: cols[0](k) <= cols[1](k))
        two = lambda k, q: c.Ite(q == 0, lambda: cols[0](k), lambda: cols[1](k)) if not c.sym else cols[q](k)
    if c.sym:
        tv = TV(name=name, value=c.mk(n, lambda k: k, 'i'), dimensions='time')
        known = {name: c.mklist(n, at)}
        if bounded:
            tv.set_bounds(TV(name='bounds', value=c.mk((n, 2), lambda k, q: k, 'i'), dimensions=['time', 'bounds']))
            known['bounds'] = c.mk((n, 2), lambda k, q: cols[q if isinstance(q, int) else c.const(q)](k), 'O')
        c.patch(T + 'TemporalVariable.value_datetime', property(lambda self: known[self.name]))
    else:
        tv = TV(name=name, value=c.mk(n, at, 'O'), dimensions='time', dtype=object)
        if bounded:
            tv.set_bounds(TV(name='bounds', value=c.mk((n, 2), lambda k, q: cols[q](k), 'O'), dtype=object,
                             dimensions=['time', 'bounds']))
    return tv, at, (lambda k: (cols[0](k), cols[1](k))) if bounded else None


@contract('C08', T + 'TemporalVariable.get_time_region', samples=300)
def time_region(c):
    """Exactly the steps whose date (with bounds: whose interval) has one of the requested months and years, in order; nothing
    left is an error."""
    if c.sym:
        c.patch(T + 'get_is_date_between', lambda a, b, **kw: between(c, a, b, **kw))
    n = c.int('n', 1, small=5)
    tv, at, iv = timevar(c, 'time', n, c.choice('bounds', [False, True]), 2000, 2002)
    by = c.choice('region', ['month', 'year', 'both', 'none year'])
    months = [c.int('m%d' % k, 1, 12) for k in range(2)]
    years = [c.int('y%d' % k, 2000, 2002) for k in range(c.choice('years', [1, 2]))]
    region = {}
    if by in ('month', 'both', 'none year'):
        region['month'] = months
    if by in ('year', 'both'):
        region['year'] = years
    if by == 'none year':
        region['year'] = None
    before = dict(region)

    def wanted(k):
        w = True
        if iv is None:
            d = at(k)
            f = lambda month=None, year=None: d.month == month if month is not None else d.year == year
        else:
            a, b = iv(k)
            f = lambda **kw: between(c, a, b, **kw)
        if 'month' in region:
            w = c.And(w, c.Or(*[f(month=x) for x in months]))
        if region.get('year'):
            w = c.And(w, c.Or(*[f(year=x) for x in years]))
        return w
    out = c.call(tv.get_time_region, region, return_indices=True)
    c.check('the request stays', region == before)
    if not c.If(c.exists(n, wanted)):
        c.check('nothing selected is an error', out.raised(c.fn(E + 'EmptySubsetError')))
        return
    c.ok('returns', out)
    idx = out.value[1]
    r = c.len(idx)
    i = c.snap(idx)
    c.forall('selected steps are requested', r, lambda k: c.And(0 <= i(k), i(k) < n, wanted(i(k))))
    c.forall('in order', r - 1, lambda k: i(k) < i(k + 1))
    c.forall('requested steps are selected', n, lambda k: c.Implies(wanted(k), lambda: c.exists(r, lambda q: i(q) == k)))
    c.check('one value per step', c.same_shape(out.value[0], (r,)))


PARTS = ['year', 'month', 'day', 'hour', 'minute', 'second']
CLASSES = {}


def calendar(c):
    """In the proof dates are numbers in the order of time whose parts are functions of the number (any calendar)."""
    if c.sym:
        from engine.sym import ENG, wrap, z3
        e = z3.Int('any_date')
        fs = {p: z3.Function(p + '_of', z3.IntSort(), z3.IntSort()) for p in PARTS}
        for p in PARTS:
            c.patch('engine.sym:SInt.' + p, property(lambda s, p=p: wrap(fs[p](s.e))))
        M, D = fs['month'], fs['day']
        ENG.assume(z3.ForAll([e], z3.And(M(e) >= 1, M(e) <= 12), patterns=[M(e)]))
        ENG.assume(z3.ForAll([e], z3.And(D(e) >= 1, D(e) <= 31), patterns=[D(e)]))


def axis(c, n, bounded, per=40, span=40):
    """A time variable of n arbitrary dates (within optional bounds); the date of a step and its interval."""
    calendar(c)
    TV = c.fn(T + 'TemporalVariable')
    num = c.arr('time', n, 'i', lo=0, hi=span)
    s = c.snap(num)
    ext = [c.snap(c.arr('before', n, 'i', lo=0, hi=2)), c.snap(c.arr('after', n, 'i', lo=0, hi=2))] if bounded else None
    if c.sym:
        at = s
        iv = lambda k: (s(k) - ext[0](k), s(k) + ext[1](k))
        tv = TV(name='time', value=num, dimensions='time')
    else:
        def of(x):
            return datetime.datetime(1999, 9, 3, 12) + datetime.timedelta(days=int(x) * per)
        at = lambda k: of(s(k))
        iv = lambda k: (at(k) - datetime.timedelta(days=int(ext[0](k))), at(k) + datetime.timedelta(days=int(ext[1](k))))
        tv = TV(name='time', value=c.mk(n, at, 'O'), dimensions='time', dtype=object)
    if bounded:
        b = c.mk((n, 2), lambda k, q: c.Ite(q == 0, iv(k)[0], iv(k)[1]) if c.sym else iv(k)[q], 'i' if c.sym else 'O')
        tv.set_bounds(TV(name='bounds', value=b, dimensions=['time', 'bounds'], dtype=None if c.sym else object))
    return tv, at, iv if bounded else (lambda k: (at(k), at(k)))


def members(c, n, dgroup, inside, what):
    g = c.snap(dgroup)
    c.check('one flag per step', c.same_shape(dgroup, (n,)))
    c.forall(what, n, lambda k: c.Iff(g(k), inside(k)))


def extent(c, n, inside, iv, lower, upper):
    """[lower, upper] are the earliest lower and the latest upper bound of the members."""
    c.forall('bounds contain the members', n, lambda k: c.Implies(inside(k), lambda: c.And(lower <= iv(k)[0], iv(k)[1] <= upper)))
    c.check('earliest bound of the members', c.exists(n, lambda k: c.And(inside(k), iv(k)[0] == lower)))
    c.check('latest bound of the members', c.exists(n, lambda k: c.And(inside(k), iv(k)[1] == upper)))


SEASONS = [[[12, 1, 2], [6, 7]], [[6, 7]], [[2, 3, 11, 12, 1], [1, 2]], [[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]]]


def representative(c):
    if c.sym:
        c.patch(T + 'TemporalVariable._get_grouping_representative_datetime_', lambda self, grouping, bounds, value: 'centres')


@contract('C08', T + 'TemporalVariable._get_grouping_other_', samples=200)
def seasonal(c):
    """Seasons over all years, for any seasons (also overlapping ones) and any time axis: each season with a step in it is a
    group of exactly the steps in its months, in the order of the first months; the bounds are those of its members."""
    n = c.int('n', 1, small=6)
    seasons = c.choice('seasons', SEASONS[:3] if c.sym else SEASONS)
    tv, at, iv = axis(c, n, c.choice('bounds', [False, True]))
    representative(c)
    out = c.call(tv._get_grouping_other_, [list(x) for x in seasons])
    if out.exc is not None:
        c.check('no season has a step', c.Not(c.exists(n, lambda k: c.Or(*[at(k).month == q for x in seasons for q in x]))))
        return
    bounds, parts, centres, dgroups = out.value
    b = c.snap(bounds)
    names = [list(p['months']) for p in parts]
    c.check('one part per group', len(dgroups) == len(names) and c.same_shape(bounds, (len(names), 2)))
    c.check('the groups are seasons in the order of their first months',
            names == [x for x in sorted(seasons, key=min) if x in names])
    for x in seasons:
        inside = lambda k: c.Or(*[at(k).month == q for q in x])
        c.check('a season is a group if it has steps', c.Iff(x in names, c.exists(n, inside)))
        if x in names:
            g = names.index(x)
            members(c, n, dgroups[g], inside, 'the steps of the season')
            extent(c, n, inside, iv, b(g, 0), b(g, 1))


def check_group(c, n, dgroup, inside, iv, bounds, g, what):
    """Group g holds the steps ``inside`` and its bounds are theirs."""
    c.check('one flag per step', dgroup.shape == (n,))
    c.check('the members of ' + what, [bool(x) for x in dgroup] == [inside(k) for k in range(n)])
    c.check('the bounds of ' + what, bounds[g, 0] == min(iv(k)[0] for k in range(n) if inside(k)) and
            bounds[g, 1] == max(iv(k)[1] for k in range(n) if inside(k)))


@contract('C08', T + 'TemporalVariable._get_grouping_other_', level='bounded', samples=250, concrete_only=True,
          bound='1 to 6 steps in any order on a grid of 41 days over four years, with and without bounds; 11 date part combinations')
def date_parts(c):
    """Grouping by date parts: one group per combination met, of exactly the steps with these parts; every step is in exactly
    one group; groups are in the order of year, month, day."""
    n = c.int('n', 1, 6)
    tv, at, iv = axis(c, n, c.choice('bounds', [False, True]), per=c.choice('grid', [1, 15, 40, 370]))
    grouping = c.choice('grouping', [['month'], ['year'], ['day'], ['month', 'year'], ['year', 'month'], ['month', 'day'],
                                     ['day', 'month'], ['day', 'year'], ['day', 'month', 'year'], ['year', 'month', 'day'],
                                     ('month', 'year')])
    out = c.call(tv.get_grouping, grouping)
    c.ok('returns', out)
    tgv = out.value
    used = [p for p in PARTS if p in grouping]
    key = lambda k: tuple(getattr(at(k), p) for p in used)
    want = sorted(set(key(k) for k in range(n)))
    c.check('one group per combination', len(tgv.dgroups) == len(want) and tgv.shape == (len(want),) and
            tgv.bounds.shape == (len(want), 2))
    got = tgv.bounds.value_datetime
    for g, parts in enumerate(want):
        check_group(c, n, tgv.dgroups[g], lambda k: key(k) == parts, iv, got, g, 'a combination')
        c.check('the parts of the group', all(tgv.date_parts[g][p] == v for p, v in zip(used, parts)) and
                all(tgv.date_parts[g][p] is None for p in PARTS if p not in used))
        rep = tgv.value_datetime[g]
        c.check('the date of the group has its parts', all(getattr(rep, p) == v for p, v in zip(used, parts)))
    c.check('every step is in exactly one group', all(sum(bool(d[k]) for d in tgv.dgroups) == 1 for k in range(n)))


@contract('C08', T + 'TemporalVariable._get_grouping_other_', level='bounded', samples=200, concrete_only=True,
          bound='1 to 6 steps in any order on a grid of 40 days over four years, with and without bounds; 5 sets of seasons')
def season_years(c):
    """Seasons by calendar year: one group for each year and season met, by year then first month."""
    n = c.int('n', 1, 6)
    tv, at, iv = axis(c, n, c.choice('bounds', [False, True]))
    seasons = c.choice('seasons', SEASONS + [[[9, 10, 11], [3, 4, 5]]])
    grouping = [list(x) for x in seasons]
    grouping.insert(c.int('at', 0, len(seasons)), 'year')
    before = [x if x == 'year' else list(x) for x in grouping]
    out = c.call(tv.get_grouping, grouping)
    c.check('the grouping stays', grouping == before)
    want = [(y, x) for y in sorted(set(at(k).year for k in range(n))) for x in sorted(seasons, key=min)
            if any(at(k).year == y and at(k).month in x for k in range(n))]
    if not want:
        c.check('no step in any season', out.exc is not None or len(out.value.dgroups) == 0)
        return
    c.ok('returns', out)
    tgv = out.value
    c.check('one group per year and season', len(tgv.dgroups) == len(want))
    got = tgv.bounds.value_datetime
    for g, (y, x) in enumerate(want):
        check_group(c, n, tgv.dgroups[g], lambda k: at(k).year == y and at(k).month in x, iv, got, g, 'a season of a year')
        c.check('the parts of the group', list(tgv.date_parts[g]['months']) == x and tgv.date_parts[g]['year'] == y)


@contract('C08', T + 'TemporalVariable._get_grouping_all_', samples=100)
def everything(c):
    """Grouping all: one group of every step; its bounds are the earliest and the latest (bound of a) step."""
    n = c.int('n', 1, small=6)
    tv, at, iv = axis(c, n, c.choice('bounds', [False, True]))
    if c.sym:
        c.patch(T + 'TemporalVariable.get_datetime', lambda self, values: values)
    out = c.call(tv._get_grouping_all_)
    c.ok('returns', out)
    bounds, parts, centre, dgroups = out.value
    c.check('one group', len(dgroups) == 1 and parts is None and c.same_shape(bounds, (1, 2)) and c.same_shape(centre, (1,)))
    flags = c.mk(n, lambda k: False, 'b')
    flags[dgroups[0]] = True
    f = c.snap(flags)
    c.forall('every step', n, f)
    b = c.snap(bounds)
    extent(c, n, lambda k: True, iv, b(0, 0), b(0, 1))
    m = c.snap(centre)(0)
    c.check('its date is that of a step', c.exists(n, lambda k: at(k) == m))


@contract('C08', [T + 'get_time_regions', T + 'iter_boolean_groups_from_time_regions', T + 'TemporalVariable._get_grouping_seasonal_unique_'],
          level='bounded', samples=250, concrete_only=True,
          bound='monthly steps over one to four years with any months left out and in any order; 6 sets of seasons; '
                'with and without bounds')
def unique_seasons(c):
    """Unique seasons: a group for each year in which every month of the season has a step (a season over the year end: its
    later months in the following year), of exactly these steps; incomplete seasons are left out or an error."""
    years = c.int('years', 2, 4)
    drop = c.choice('drop', [0.0, 0.05, 0.3])
    keep = [(2000 + y, m) for y in range(years) for m in range(1, 13) if c.real('keep%d_%d' % (y, m), 0, 1) >= drop]
    if c.choice('order', [False, True]):
        keep = keep[::-1]
    n = len(keep)
    seasons = c.choice('seasons', [[[12, 1, 2], [3, 4, 5], [6, 7, 8], [9, 10, 11]], [[11, 12, 1]], [[6, 7]], [[10, 12, 1, 3]],
                                   [[12, 1], [4]], [[2, 3, 11, 12, 1], [1, 2]]])
    if len(set(y for y, m in keep)) < 2:
        return
    at = [datetime.datetime(y, m, 16) for y, m in keep]
    TV = c.fn(T + 'TemporalVariable')
    tv = TV(name='time', value=at, dimensions='time', dtype=object)
    if c.choice('bounds', [False, True]):
        b = [[datetime.datetime(y, m, 1), datetime.datetime(y, m, 28)] for y, m in keep]
        tv.set_bounds(TV(name='bounds', value=b, dimensions=['time', 'bounds'], dtype=object))
    over = lambda x: 12 in x and 1 in x

    def split(x):
        """The months of an interannual season in the first year: those from its longest break on."""
        s = sorted(x)
        cut = max(range(1, len(s)), key=lambda i: (s[i] - s[i - 1], i))
        return s[cut:]

    def steps(x, y):
        first = split(x) if over(x) else x
        return [(y if m in first else y + 1, m) for m in x]
    have = set(keep)
    want = {}
    for y in sorted(set(y for y, m in keep)):
        for x in seasons:
            s = steps(x, y)
            if all(q in have for q in s):
                want[tuple(k for k in range(n) if keep[k] in s)] = x
    out = c.call(tv.get_grouping, [list(x) for x in seasons] + ['unique'])
    if not want:
        c.check('no complete season', out.exc is not None or len(out.value.dgroups) == 0)
        return
    c.ok('returns', out)
    tgv = out.value
    got = [tuple(k for k in range(n) if d[k]) for d in tgv.dgroups]
    c.check('the complete seasons and no others', sorted(got) == sorted(want))
    c.check('by year', [min(at[k] for k in g).year for g in got] == sorted(min(at[k] for k in g).year for g in got))
    for g, ks in enumerate(got):
        c.check('bounds of the season', list(tgv.bounds.value_datetime[g]) == [min(at[k] for k in ks), max(at[k] for k in ks)])
        c.check('its date is one of its steps', tgv.value_datetime[g] in [at[k] for k in ks])


@contract('C08', T + 'get_sorted_seasons', level='bounded', samples=300, concrete_only=True,
          bound='1 to 5 seasons of 1 to 4 months, also equal or sharing their first or last month')
def sorted_seasons(c):
    """The same seasons by their least (greatest) month, those sharing it in the given order; the request stays."""
    seasons = [[c.int('m%d_%d' % (k, q), 1, 12) for q in range(c.int('len%d' % k, 1, 4))] for k in range(c.int('count', 1, 5))]
    given = [list(x) for x in seasons]
    for method, f in (('min', min), ('max', max)):
        out = c.call(T + 'get_sorted_seasons', seasons, method=method)
        c.ok('returns', out)
        c.check('sorted', out.value == sorted(given, key=f))
        out.value[0].append(13)
        c.check('the request stays', seasons == given)
