"""C11 Broadcasting by dimension name only permutes and inserts unit axes."""
import itertools

from engine.contract import contract

B = 'ocgis.util.broadcaster:'
NAMES = ['a', 'b', 'c', 'd']


def layouts(nmax):
    """(number of source dimensions, dropped source names, destination names)."""
    out = []
    for k in range(1, nmax + 1):
        src = NAMES[:k]
        for nd in range(0, min(k, 2)):
            for drop in itertools.combinations(src, nd):
                keep = [s for s in src if s not in drop]
                for new in ([], ['x'], ['x', 'y']):
                    if len(keep) + len(new) > 4 or (nd and len(new) == 2) or (k == 4 and (new or nd)):
                        continue
                    for p in itertools.permutations(keep + new):
                        if list(p).index('x') > list(p).index('y') if len(new) == 2 else False:
                            continue
                        out.append((k, drop, list(p)))
    return out


def is_broadcast(c, tag, res, src, dst, sizes, value, mask=None):
    c.check(tag + ': one axis per destination name', len(c.shape(res)) == len(dst))
    for ax, name in enumerate(dst):
        c.check(tag + ': axis lengths', c.shape(res)[ax] == sizes.get(name, 1))
    shape = tuple(sizes.get(n, 1) for n in dst)

    def pos(idx):
        d = dict(zip(dst, idx))
        return [d.get(n, 0) for n in src]
    c.forall(tag + ': every value sits at the position named by its dimensions', shape,
             lambda *idx: c.eq(c.at(res, *idx), value(*pos(idx))))
    if mask is not None:
        c.forall(tag + ': masks move with their values', shape,
                 lambda *idx: c.Iff(c.maskat(res, *idx), mask(*pos(idx))))


def source(c, k, drop):
    src = NAMES[:k]
    sizes = {n: (1 if n in drop else c.int('size_' + n, 1, small=3)) for n in src}
    return src, sizes, tuple(sizes[n] for n in src)


@contract('C11', [B + 'broadcast_array_by_dimension_names', 'ocgis.util.helpers:get_swap_chain'], level='bounded',
          bound='up to 4 dimensions (every order, up to two inserted and one dropped name); sizes and values unbounded',
          samples=800)
def broadcast_array(c):
    """Plain arrays."""
    k, drop, dst = c.choice('layout', layouts(4))
    src, sizes, shape = source(c, k, drop)
    a = c.arr('data', shape)
    v = c.snap(a)
    seq = c.choice('sequence', [list, tuple]) if k < 3 else list
    out = c.call(B + 'broadcast_array_by_dimension_names', a, list(src), seq(dst))
    c.ok('returns', out)
    is_broadcast(c, 'array', out.value, src, dst, sizes, v)
    c.forall('the source array is not changed', shape, lambda *i: c.eq(c.at(a, *i), v(*i)))


@contract('C11', [B + 'broadcast_array_by_dimension_names', 'ocgis.util.helpers:get_swap_chain'], level='bounded',
          bound='up to 3 dimensions (every order, up to two inserted and one dropped name); sizes and values unbounded',
          samples=500)
def broadcast_masked(c):
    """Masked arrays."""
    k, drop, dst = c.choice('layout', layouts(3))
    src, sizes, shape = source(c, k, drop)
    m = c.arr('mask', shape, 'b')
    a = c.marr(c.arr('data', shape), m)
    v, mv = c.snap(a), c.snap(m)
    out = c.call(B + 'broadcast_array_by_dimension_names', a, list(src), dst)
    c.ok('returns', out)
    is_broadcast(c, 'masked array', out.value, src, dst, sizes, v, mv)


@contract('C11', 'ocgis.util.helpers:get_swap_chain', level='bounded', bound='up to 5 names, every order', samples=300,
          max_paths=20000)
def swap_chain(c):
    """Applying the swaps one after the other turns the actual order into the desired one."""
    n = c.choice('n', [1, 2, 3, 4, 5])
    actual = list('abcde')[:n]
    desired = list(c.choice('order', list(itertools.permutations(actual))))
    out = c.call('ocgis.util.helpers:get_swap_chain', list(actual), list(desired))
    c.ok('returns', out)
    run = list(actual)
    for i, j in out.value:
        c.check('swap indices in range', 0 <= i < n and 0 <= j < n)
        run[i], run[j] = run[j], run[i]
    c.check('chain reaches the desired order', run == desired)


FV = [B + 'broadcast_variable', B + 'broadcast_scope', B + 'broadcast_array_by_dimension_names',
      'ocgis.variable.base:Variable.set_dimensions', 'ocgis.variable.base:Variable.set_value',
      'ocgis.variable.base:Variable.set_mask', 'ocgis.variable.base:Variable.remove_value']


class Boom(Exception):
    pass


@contract('C11', FV, level='bounded', samples=300,
          bound='up to 3 dimensions, every order; sizes, values and masks unbounded')
def scope(c):
    """Inside the scope the variable has the requested order; afterwards order, values and mask are back, also on error."""
    k = c.choice('k', [1, 2, 3])
    src = NAMES[:k]
    order = list(c.choice('order', list(itertools.permutations(src))))
    sizes = {n: c.int('size_' + n, 1, small=3) for n in src}
    shape = tuple(sizes[n] for n in src)
    a = c.arr('data', shape)
    v = c.snap(a)
    masked = c.choice('masked', [False, True])
    kw = {}
    mv = None
    if masked:
        m = c.arr('mask', shape, 'b')
        mv = c.snap(m)
        kw['mask'] = m
    made = c.call('ocgis.variable.base:Variable', name='v', value=a, dimensions=list(src), **kw)
    c.ok('variable is created', made)
    var = made.value
    fail = c.choice('body', ['returns', 'raises'])

    def body():
        with c.fn(B + 'broadcast_scope')(var, order) as inside:
            c.check('the same variable is broadcast', inside is var)
            c.check('names inside', list(var.dimension_names) == order)
            is_broadcast(c, 'inside', var.get_value(), src, order, sizes, v)
            if masked:
                ms = c.snap(var.get_mask())
                c.forall('mask inside', tuple(sizes[n] for n in order),
                         lambda *i: c.Iff(ms(*i), mv(*[dict(zip(order, i))[n] for n in src])))
            if fail == 'raises':
                raise Boom()
    out = c.call(body)
    c.check('errors of the body propagate', out.raised(Boom) if fail == 'raises' else out.ok, lambda: repr(out.exc))
    c.check('names restored', list(var.dimension_names) == src)
    is_broadcast(c, 'restored', var.get_value(), src, src, sizes, v)
    if masked:
        ms = var.get_mask()
        c.check('mask kept', ms is not None)
        s = c.snap(ms)
        c.forall('mask restored', shape, lambda *i: c.Iff(s(*i), mv(*i)))
    else:
        c.check('no mask appears', not var.has_mask)
