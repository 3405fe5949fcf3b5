"""C07 Numeric times and dates stay in step."""
import datetime
import itertools

from engine.contract import contract

T = 'ocgis.variable.temporal:'
H = 'ocgis.util.helpers:'


class Date(object):
    """A date with symbolic parts. Ordered like datetime (midnight)."""
    def __init__(self, c, y, m, d):
        self.c, self.year, self.month, self.day = c, y, m, d

    def __le__(self, o):
        c = self.c
        return c.Or(self.year < o.year, c.And(self.year == o.year, c.Or(
            self.month < o.month, c.And(self.month == o.month, self.day <= o.day))))

    def __lt__(self, o):
        return self.c.Not(o <= self)

    def __ge__(self, o):
        return o <= self

    def __gt__(self, o):
        return self.c.Not(self <= o)

    def __eq__(self, o):
        return self.c.And(self <= o, o <= self)

    __hash__ = None


def date(c, name, lo=1, hi=9999):
    y, m, d = c.int(name + '.year', lo, hi), c.int(name + '.month', 1, 12), c.int(name + '.day', 1, 28)
    return Date(c, y, m, d) if c.sym else datetime.datetime(y, m, d)


class Stub(object):
    """Stands for the datetime module: building a date is modelled by its parts (years 1 to 9999, a day every month has)."""
    def __init__(self, c, ranged=True):
        self.c = c
        self.ranged = ranged

    def datetime(self, y, m, d, *rest):
        c = self.c
        if self.ranged and not c.If(c.And(1 <= y, y <= 9999, 1 <= m, m <= 12, 1 <= d, d <= 28)):
            raise ValueError('date out of range')
        return (y, m, d)


def parts(d):
    return d if isinstance(d, tuple) else (d.year, d.month, d.day)


def months(y, m):
    return 12 * y + m - 1


@contract('C07', T + 'get_difference_in_months', samples=200)
def months_between(c):
    """Twelve times the difference of the years plus the difference of the months, whichever date is first."""
    c.invariants('_count_')
    a, b = date(c, 'origin', 1850, 2150), date(c, 'target', 1850, 2150)
    out = c.call(T + 'get_difference_in_months', a, b)
    c.ok('returns', out)
    c.check('difference', c.eq(out.value, months(b.year, b.month) - months(a.year, a.month)))


def units(c):
    """The origin as (year, month) and the units. Reading the origin is by its contract (months_origin) in the proof."""
    y, m = c.int('year', 1600, 2400), c.int('month', 1, 12)
    u = 'months since 0001-01'
    if c.sym:
        o = Date(c, y, m, 1)
        c.patch(T + 'get_origin_datetime_from_months_units', lambda units: o)
        c.patch(T + 'datetime', Stub(c))
        c.patch(T + 'get_difference_in_months', lambda a, b: months(b.year, b.month) - months(a.year, a.month))
    else:
        u = 'months since %04d-%02d' % (y, m)
    return u, y, m


@contract('C07', T + 'get_datetime_from_months_time_units', samples=200)
def months_to_dates(c):
    """Any offsets in any order become the date that many months after the origin."""
    u, y, m = units(c)
    nd = c.choice('ndim', [1, 2])
    sh = tuple(c.int('n%d' % i, 0 if nd == 1 else 1, small=4) for i in range(nd))
    vec = c.arr('offsets', sh, 'i', lo=-4000, hi=4000)
    s = c.snap(vec)
    centre = c.int('centre', 1, 28)
    out = c.call(T + 'get_datetime_from_months_time_units', vec, u, month_centroid=centre)
    c.ok('returns', out)
    c.check('shape', c.same_shape(out.value, sh))

    def right(*i):
        d = parts(c.at(out.value, *i))
        return c.And(c.eq(months(d[0], d[1]), months(y, m) + s(*i)), c.eq(d[2], centre), d[1] >= 1, d[1] <= 12)
    c.forall('dates', sh, right)
    c.forall('offsets stay', sh, lambda *i: c.eq(c.at(vec, *i), s(*i)))


@contract('C07', T + 'get_num_from_months_time_units', samples=150)
def dates_to_months(c):
    """Every date becomes its number of months from the origin."""
    u, y, m = units(c)
    n = c.int('n', 0, small=5)
    ys, ms, ds = c.arr('years', n, 'i', lo=1600, hi=2400), c.arr('months', n, 'i', lo=1, hi=12), c.arr('days', n, 'i', lo=1, hi=28)
    sy, sm, sd = c.snap(ys), c.snap(ms), c.snap(ds)
    vec = c.mklist(n, lambda k: Date(c, sy(k), sm(k), sd(k)) if c.sym else datetime.datetime(int(sy(k)), int(sm(k)), int(sd(k))))
    out = c.call(T + 'get_num_from_months_time_units', vec, u)
    c.ok('returns', out)
    c.check('shape', c.same_shape(out.value, (n,)))
    c.forall('offsets', n, lambda k: c.eq(c.at(out.value, k), months(sy(k), sm(k)) - months(y, m)))


@contract('C07', [T + 'get_origin_datetime_from_months_units', T + 'get_num_from_months_time_units',
                  T + 'get_datetime_from_months_time_units'], level='bounded',
          bound='years 1 to 9999 sampled, all months, all five spellings, times of one or two dimensions', concrete_only=True, samples=120)
def months_origin(c):
    """The origin of units is the date they spell, in each spelling, and offsets survive the way to dates and back."""
    y, m, d = c.int('year', *c.choice('years', [(1, 9999), (1600, 2400)])), c.int('month', 1, 12), c.int('day', 1, 28)
    h, mi, s = c.int('hour', 0, 23), c.int('minute', 0, 59), c.int('second', 0, 59)
    for text, want in [('%04d-%02d' % (y, m), (y, m, 1)), ('%04d-%d' % (y, m), (y, m, 1)), ('%04d-%02d-%02d' % (y, m, d), (y, m, d)),
                       ('%04d-%02d-%02d %02d' % (y, m, d, h), (y, m, d, h)),
                       ('%04d-%d-%d %d' % (y, m, d, h), (y, m, d, h)),
                       ('%04d-%02d-%02d %02d:%02d' % (y, m, d, h, mi), (y, m, d, h, mi)),
                       ('%04d-%02d-%02d %02d:%02d:%02d' % (y, m, d, h, mi, s), (y, m, d, h, mi, s))]:
        out = c.call(T + 'get_origin_datetime_from_months_units', 'months since ' + text)
        c.ok('origin is read: %s' % len(want), out)
        c.check('origin', out.value == datetime.datetime(*want))
        if 1600 <= y <= 2400:
            sh = c.choice('shape', [(4,), (3, 2), (1,)])
            vec = c.arr('offsets', sh, 'i', lo=-3000, hi=3000)
            dates = c.fn(T + 'get_datetime_from_months_time_units')(vec, 'months since ' + text)
            back = c.call(T + 'get_num_from_months_time_units', dates, 'months since ' + text)
            c.ok('back', back)
            c.check('round trip', back.value.shape == sh and (back.value == vec).all())
            tv = c.fn(T + 'TemporalVariable')(name='time', value=vec.copy(), units='months since ' + text, dimensions=['a', 'b'][:len(sh)])
            back = c.call(tv.get_numtime, tv.value_datetime)
            c.ok('back from the variable', back)
            c.check('round trip of the variable', back.value.shape == sh and (back.value == vec).all())
            c.check('dates of the variable', (tv.value_datetime == dates).all())
    for bad in ['', 'yesterday', '2000-13', '2000-02-31']:
        c.check('anything else is refused', c.call(T + 'get_origin_datetime_from_months_units', 'months since ' + bad).raised(ValueError))


def between(c, a, b, month=None, year=None):
    """By month: the month is met from the lower month up to the upper month, over the end of the year as well; by year
    likewise. The month (year) of the upper end does not count unless both ends are in it."""
    if month is not None:
        t, lo, hi = month, a.month, b.month
        up = c.Ite(lo > hi, hi + 12, hi)
        t = c.Ite(c.And(lo > hi, t < lo), t + 12, t)
    else:
        t, lo, up = year, a.year, b.year
    return c.Or(c.And(lo <= t, t < up), c.And(lo == up, t == lo))


@contract('C07', H + 'get_is_date_between', samples=250)
def date_between(c):
    """An interval meets a month or a year: see between()."""
    a, b = date(c, 'lower', 1999, 2004), date(c, 'upper', 1999, 2004)
    c.assume(a <= b)
    by = c.choice('by', ['month', 'year'])
    t = c.int('month', 1, 12) if by == 'month' else c.int('year', 1998, 2005)
    out = c.call(H + 'get_is_date_between', a, b, **{by: t})
    c.ok('returns', out)
    c.check('between', c.Iff(out.value, between(c, a, b, **{by: t})))


def spell(c, u):
    """(year, month) of the origin in units."""
    y, _, m = u.split(' ')[2].partition('-')
    return int(y), int(m)


def converted(c, v, u):
    y, m = spell(c, u)
    t = months(y, m) + v
    return t // 12, t % 12 + 1


UNITS = ['months since 2000-01', 'months since 1990-11']


FOLLOW = [T + 'TemporalVariable.' + f for f in (
    'value_datetime', 'value_numtime', 'get_datetime', 'get_numtime', 'set_value', 'set_mask', '__setitem__', '_set_units_',
    '_getitem_finalize_', '_set_to_conform_value_')]


def follow(c, n, steps):
    VB = c.fn(T + 'TemporalVariable')
    if c.sym:
        c.patch(T + 'get_origin_datetime_from_months_units', lambda u: Date(c, *(spell(c, u) + (1,))))
        c.patch(T + 'datetime', Stub(c, ranged=False))
    a = c.arr('values', n, 'i', lo=-50, hi=50)
    v = c.snap(a)
    u = UNITS[0]
    tv = VB(name='time', value=a, units=u, dimensions='time')
    m = lambda k: False
    if c.choice('masked', [False, True]):
        b = c.arr('mask', n, 'b')
        m = c.snap(b)
        tv.set_mask(b)

    def agrees():
        dt, nt = tv.value_datetime, tv.value_numtime
        c.check('shape of the dates', c.same_shape(dt, (n,)))
        c.check('shape of the numeric times', c.same_shape(nt, (n,)))

        def date(k):
            d, w = parts(c.at(dt.data if not c.sym else dt, k)), converted(c, v(k), u)
            return c.And(c.eq(d[0], w[0]), c.eq(d[1], w[1]))
        c.forall('dates of the current values', n, date)
        c.forall('current values', n, lambda k: c.eq(c.at(nt.data if not c.sym else nt, k), v(k)))
        c.forall('masks', n, lambda k: c.And(c.Iff(c.maskat(dt, k), m(k)), c.Iff(c.maskat(nt, k), m(k))))
    for step in range(steps):
        # reading one thing may drop what was kept of another
        how = c.choice('read before edit %d' % step, ['nothing', 'dates', 'numbers, then dates'] + ['all'] * (steps == 1))
        if how == 'all':
            agrees()
        elif how != 'nothing':
            if how != 'dates':
                tv.value_numtime
            tv.value_datetime
        op = c.choice('edit %d' % step, ['set_value', 'set_mask', 'setitem', 'units', 'slice', 'copy', 'conform'])
        if op in ('set_value', 'conform'):
            b = c.arr('values %d' % step, n, 'i', lo=-50, hi=50)
            v = c.snap(b)
            (tv.set_value if op == 'set_value' else tv._set_to_conform_value_)(b)
        elif op == 'set_mask':
            b = c.arr('mask %d' % step, n, 'b')
            m = c.snap(b)
            tv.set_mask(b)
        elif op == 'setitem':
            b = c.arr('values %d' % step, 1, 'i', lo=-50, hi=50)
            k = c.int('position %d' % step, 0, small=4)
            c.assume(k < n)
            v, m = (lambda i, v=v, k=k, new=c.at(b, 0): c.Ite(i == k, new, lambda: v(i))), \
                   (lambda i, m=m, k=k: c.And(c.Not(i == k), m(i)))
            tv[k] = VB(name='time', value=b, units=u, dimensions='one')
        elif op == 'units':
            u = UNITS[1]
            tv.units = u
        elif op == 'slice':
            k = c.int('start %d' % step, 0, small=4)
            c.assume(k < n)
            v, m = (lambda i, v=v, k=k: v(i + k)), (lambda i, m=m, k=k: m(i + k))
            tv = tv[k:]
            n = n - k
        else:
            tv = tv.copy()
    agrees()


@contract('C07', FOLLOW, samples=250, timeout=400)
def dates_follow_values(c):
    """An edit of a time variable, whose dates have been read or not, leaves dates and numeric times of its current values,
    mask and units. By induction over the edits: after any sequence of edits."""
    follow(c, c.int('n', 1, small=4), 1)


@contract('C07', FOLLOW, level='bounded', bound='three time steps with any values, two edits in any order, two units',
          samples=250, timeout=400)
def dates_follow_edits(c):
    """Two edits in a row, with the dates read in between or not."""
    follow(c, 3, 2)


@contract('C07', FOLLOW + [T + 'TemporalVariable.set_bounds', T + 'TemporalVariable.calendar', T + 'TemporalVariable._set_units_',
                           T + 'TemporalVariable.get_datetime', T + 'TemporalVariable.get_numtime'],
          level='bounded', bound='sampled: up to four time steps with bounds, three edits, three calendars, three units',
          samples=300, concrete_only=True)
def dates_of_bounds(c):
    """Dates of a time variable and of its bounds are those of their current values under the units and calendar of the
    variable, whether they have been read before an edit or not; dates given convert to the numbers they come from."""
    import netCDF4 as nc
    import numpy as np
    VB = c.fn(T + 'TemporalVariable')
    units = ['days since 2000-01-01', 'hours since 1999-12-30 06:00:00', 'days since 1850-01-01']
    calendars = ['standard', 'noleap', '360_day']
    n = c.int('n', 1, small=4)
    v = c.arr('values', n, lo=40, hi=80, grid=[40, 58.5, 59, 59.5, 60, 61.25, 80])
    b = c.arr('bounds', (n, 2), lo=40, hi=80, grid=[40, 58.5, 59, 59.5, 60, 61.25, 80])
    u, cal = c.choice('units', units), c.choice('calendar', calendars)
    state = dict(v=v.copy(), b=b.copy(), u=u, cal=cal)
    bv = VB(name='time_bounds', value=b.copy(), dimensions=['time', 'bounds'], units=u, calendar=c.choice('calendar of the bounds', calendars))
    early = c.choice('bounds read first', [False, True])
    if early:
        bv.value_datetime, bv.value_numtime
    if c.choice('bounds are given', ['at once', 'later']) == 'at once':
        tv = VB(name='time', value=v.copy(), units=u, calendar=cal, dimensions='time', bounds=bv)
    else:
        tv = VB(name='time', value=v.copy(), units=u, calendar=cal, dimensions='time')
        if c.choice('dates read first', [False, True]):
            tv.value_datetime
        tv.set_bounds(bv)

    def instants(x):
        return [(d.year, d.month, d.day, d.hour, d.minute) for d in np.ravel(x)]

    def agrees():
        for what, got, want in (('', tv, state['v']), ('bounds: ', tv.bounds, state['b'])):
            w = np.atleast_1d(nc.num2date(want, state['u'], calendar=state['cal']))
            c.check(what + 'shape of the dates', got.value_datetime.shape == want.shape)
            c.check(what + 'dates', instants(got.value_datetime) == instants(w))
            c.check(what + 'numeric times', np.array_equal(got.value_numtime, want))
            c.check(what + 'numeric times of the dates', np.allclose(got.get_numtime(w), want))
            c.check(what + 'calendar', got.calendar == state['cal'])
        c.check('extent', np.allclose(tv.extent_numtime, (state['b'].min(), state['b'].max())))
    for step in range(3):
        # reading one thing may drop what was kept of another: the dates of both may be kept, of one of them, or of none
        for what in c.choice('read before edit %d' % step, [[], ['time'], ['bounds'], ['bounds', 'time'], ['all', 'time', 'bounds'],
                                                            ['numbers', 'time']]):
            if what == 'all':
                agrees()
            elif what == 'numbers':
                tv.value_numtime, tv.bounds.value_numtime
            else:
                (tv if what == 'time' else tv.bounds).value_datetime
        op = c.choice('edit %d' % step, ['calendar', 'units', 'values', 'slice', 'copy', 'bounds', 'nothing'])
        if op == 'calendar':
            state['cal'] = tv.calendar = c.choice('calendar %d' % step, calendars)
        elif op == 'units':
            state['u'] = tv.units = c.choice('units %d' % step, units)
            tv.bounds.units = state['u']
        elif op == 'values':
            state['v'] = c.arr('values %d' % step, len(state['v']), lo=40, hi=80, grid=[40, 58.5, 59, 59.5, 60, 61.25, 80])
            tv.set_value(state['v'].copy())
        elif op == 'slice':
            k = c.int('start %d' % step, 0, small=3)
            c.assume(k < len(state['v']))
            tv = tv[k:]
            state['v'], state['b'] = state['v'][k:], state['b'][k:]
        elif op == 'copy':
            tv = tv.copy()
        elif op == 'bounds':
            state['b'] = c.arr('bounds %d' % step, (len(state['v']), 2), lo=40, hi=80, grid=[40, 58.5, 59, 59.5, 60, 61.25, 80])
            tv.bounds.set_value(state['b'].copy())
    agrees()


@contract('C07', FOLLOW + [T + 'TemporalVariable.extent_numtime', T + 'TemporalVariable.extent_datetime'], level='bounded',
          bound='sampled: up to four dates, two edits, three units', samples=250, concrete_only=True)
def dates_given(c):
    """A time variable of dates: its dates are its values, its numeric times those of the dates under the current units,
    and both have its mask."""
    import datetime
    import netCDF4 as nc
    import numpy as np
    VB = c.fn(T + 'TemporalVariable')
    units = ['days since 2000-01-01', 'hours since 1999-12-30 06:00:00', 'days since 1850-01-01']
    day = lambda x: datetime.datetime(2000, 2, 20) + datetime.timedelta(hours=6 * int(x))

    def dates(x):
        r = np.empty(x.shape, dtype=object)
        r[...] = [day(i) for i in x]
        return r
    n = c.int('n', 1, small=4)
    v = dates(c.arr('values', n, 'i', lo=0, hi=60))
    m = c.arr('mask', n, 'b').copy() if c.choice('masked', [False, True]) else None
    u = c.choice('units', units)
    tv = VB(name='time', value=v.copy(), mask=None if m is None else m.copy(), units=u, dimensions='time')
    m = np.zeros(len(v), bool) if m is None else m

    def agrees():
        dt, nt = tv.value_datetime, tv.value_numtime
        c.check('shapes', dt.shape == v.shape and nt.shape == v.shape)
        c.check('dates', np.array_equal(np.ma.getdata(dt), v))
        c.check('numeric times', np.allclose(np.ma.getdata(nt).astype(float), nc.date2num(v, u, calendar='standard')))
        c.check('masks', np.array_equal(np.ma.getmaskarray(dt), m) and np.array_equal(np.ma.getmaskarray(nt), m))
        if not m.any():
            c.check('extent of the dates', tv.extent_datetime == (v.min(), v.max()))
            c.check('numeric extent', np.allclose(tv.extent_numtime, nc.date2num([v.min(), v.max()], u, calendar='standard')))
    for step in range(2):
        how = c.choice('read before edit %d' % step, ['nothing', 'dates', 'numbers', 'all'])
        if how == 'all':
            agrees()
        elif how != 'nothing':
            tv.value_datetime if how == 'dates' else tv.value_numtime
        op = c.choice('edit %d' % step, ['set_value', 'set_mask', 'setitem', 'units', 'slice', 'copy', 'nothing'])
        if op == 'set_value':
            v = dates(c.arr('values %d' % step, len(v), 'i', lo=0, hi=60))
            tv.set_value(v.copy())
        elif op == 'set_mask':
            m = c.arr('mask %d' % step, len(v), 'b').copy()
            tv.set_mask(m.copy())
        elif op == 'setitem':
            k = c.int('position %d' % step, 0, small=3)
            c.assume(k < len(v))
            b = dates(c.arr('values %d' % step, 1, 'i', lo=0, hi=60))
            tv[k] = VB(name='time', value=b.copy(), units=u, dimensions='one')
            v[k], m[k] = b[0], False
        elif op == 'units':
            tv.units = u = c.choice('units %d' % step, units)
        elif op == 'slice':
            k = c.int('start %d' % step, 0, small=3)
            c.assume(k < len(v))
            tv, v, m = tv[k:], v[k:].copy(), m[k:].copy()
        elif op == 'copy':
            tv = tv.copy()
    agrees()
