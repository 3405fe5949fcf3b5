"""Symbolic evaluation of contracts: path exploration and discharge of obligations."""
import itertools
import time
import traceback

from .sym import (ENG, EngineStop, Infeasible, PathDone, Retry, SBool, SInt, SReal, Sym, TooManyPaths, Unsupported, is_num, ite,
                  num, scal, ufunc, wrap, z3, zb, has_quant)
from . import arr as A
from . import snp
from .arr import SArr, SMa, as_e, band, bnot, bor, from_fn, iexp, iw, zb_
from .contract import Ctx, Out, StopContract


class Fail(EngineStop):
    pass


class Symbolic(Ctx):
    sym = True

    def __init__(self, rep):
        self.rep = rep
        self._patches = []
        self.dims = []
        self.specs = {}
        self.cond_depth = 0

    def call(self, f, *a, **k):
        from .contract import resolve
        if isinstance(f, str):
            f = resolve(f)
        try:
            r = f(*a, **k)
        except Exception as e:
            from .rt import engine_error
            engine_error(e)
            self.rep['exc_tb'] = traceback.format_exc()
            r = Out(None, e)
            if ENG.loops:
                raise Unsupported('symbolic loop left without its hook')
            return r
        if ENG.loops:
            raise Unsupported('symbolic loop left without its hook')
        return Out(r)

    # -- inputs
    def int(self, name, lo=None, hi=None, small=None):
        e = z3.Int(name)
        self.specs[name] = ('int', e)
        self.dims.append(e)
        if lo is not None:
            ENG.assume(e >= num(lo))
        if hi is not None:
            ENG.assume(e <= num(hi))
        return SInt(e)

    def real(self, name, lo=None, hi=None, grid=None):
        e = z3.Real(name)
        self.specs[name] = ('real', e)
        if lo is not None:
            ENG.assume(e >= num(lo))
        if hi is not None:
            ENG.assume(e <= num(hi))
        return SReal(e)

    def bool(self, name):
        e = z3.Bool(name)
        self.specs[name] = ('bool', e)
        return SBool(e)

    def choice(self, name, options):
        options = list(options)
        i = ENG.choose(len(options))
        self.specs['#' + name] = ('const', i)
        return options[i]

    def arr(self, name, shape, kind='f', lo=None, hi=None, grid=None, p=None, dtype=None):
        shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
        sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}[kind]
        import numpy as np
        dt = np.dtype(dtype or {'f': float, 'i': int, 'b': bool}[kind])
        if all(isinstance(s, int) for s in shape) and A.small(shape, 200):
            vals = {}
            for idx in itertools.product(*[range(s) for s in shape]):
                c = z3.Const('%s[%s]' % (name, ','.join(map(str, idx))), sort)
                vals[idx] = c
                if lo is not None:
                    ENG.assume(c >= num(lo))
                if hi is not None:
                    ENG.assume(c <= num(hi))
            self.specs[name] = ('carr', (shape, vals))
            wr = {k: wrap(v) for k, v in vals.items()}
            if not vals:
                return A.const_arr(0, shape, dt)
            return from_fn(lambda i: A._table(wr)(i), shape, dt)
        f = z3.Function(name, *([z3.IntSort()] * len(shape) + [sort]))
        self.specs[name] = ('arr', (shape, f))
        if lo is not None or hi is not None:
            ks = [z3.Int(ENG.fresh_name('q')) for _ in shape]
            cs = []
            if lo is not None:
                cs.append(f(*ks) >= num(lo))
            if hi is not None:
                cs.append(f(*ks) <= num(hi))
            # total functions: positions outside the array are never read, so the bound may be assumed everywhere
            ENG.assume(z3.ForAll(ks, z3.And(*cs), patterns=[f(*ks)]))
        return from_fn(lambda i: wrap(f(*[z3.IntVal(x) if isinstance(x, int) else x for x in i])), shape, dt)

    def sorted_arr(self, name, n, strict=True, decreasing=None, grid=None, lo=None, hi=None):
        a = self.arr(name, n, lo=lo, hi=hi)
        if isinstance(n, int):
            for i in range(n - 1):
                x, y = a.get((i,)), a.get((i + 1,))
                if decreasing:
                    x, y = y, x
                ENG.assume(zb(x < y if strict else x <= y))
            return a
        i, j = z3.Int(ENG.fresh_name('q')), z3.Int(ENG.fresh_name('q'))
        x, y = num(a.get((i,))), num(a.get((j,)))
        if decreasing:
            x, y = y, x
        ENG.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < num(n)), x < y if strict else x <= y)))
        # consecutive instances help the solver
        return a

    def eager(self, *names):
        ENG.eager.update(names)

    def invariants(self, *names):
        """Candidates come from runs on sampled inputs; each one is proved (initially true, kept by every iteration) before
        it is used."""
        from . import rt
        rep = self.rep
        todo = [n for n in names if n not in rep.setdefault('traces', {})]
        if todo:
            from .contract import run_concrete
            import random
            ENG.active = False
            rt.RECORD.clear()
            rt.RECORD.update({n: {} for n in todo})
            try:
                for s in range(80):
                    run_concrete(rep['spec'], random.Random(s))
            finally:
                ENG.active = True
                rep['traces'].update(rt.RECORD)
                rt.RECORD.clear()
        for n in names:
            ENG.invloops[n] = rep

    # -- logic
    def assume(self, cond):
        ENG.assume(as_e(zb_(cond)))

    def _rng(self, shape):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return [(s if isinstance(s, tuple) else (0, s)) for s in shape]

    def assume_forall(self, shape, f):
        rs = self._rng(shape)
        ks = [z3.Int(ENG.fresh_name('q')) for _ in rs]
        rng = band(*[band(A.ibin('le', iexp(lo), k), A.ibin('lt', k, iexp(hi))) for k, (lo, hi) in zip(ks, rs)])
        with ENG.binding(ks, as_e(rng)):
            body = as_e(zb_(f(*[SInt(k) for k in ks])))
        ENG.assume(z3.ForAll(ks, z3.Implies(as_e(rng), body)))

    def forall(self, name, shape, f, detail=None):
        rs = self._rng(shape)
        if all(isinstance(lo, int) and isinstance(hi, int) for lo, hi in rs):
            tot = 1
            for lo, hi in rs:
                tot *= max(0, hi - lo)
            if tot <= 12:
                for idx in itertools.product(*[range(lo, hi) for lo, hi in rs]):
                    self.check(name, f(*idx))
                if tot == 0:
                    self.rep['names'].setdefault(name, 0)
                return
        n1, n2 = len(ENG.pc), len(ENG.qpc)
        ENG.solver.push()
        ks = [ENG.fresh_int('any_' + name.replace(' ', '_')) for _ in rs]
        try:
            for k, (lo, hi) in zip(ks, rs):
                ENG.assume(z3.And(iexp(lo) <= k, k < iexp(hi)))
            if ENG.check() == z3.unsat:
                self.rep['names'].setdefault(name, 0)
                return
            self.check(name, f(*[SInt(k) for k in ks]), extra=ks)
        finally:
            ENG.solver.pop()
            del ENG.pc[n1:]
            del ENG.qpc[n2:]

    def induct(self, name, n, P, hyp=True, lo=0):
        """Lemma by induction: hyp implies P(k) for every lo <= k < n. Base and step are obligations of their own."""
        self.check(name + ' (base)', self.Implies(self.And(hyp, lo < n), lambda: P(lo)))
        k = ENG.fresh_int('ind')
        sk = SInt(k)
        self.check(name + ' (step)', self.Implies(self.And(hyp, lo <= sk, sk + 1 < n, P(sk)), lambda: P(sk + 1)))
        i = z3.Int(ENG.fresh_name('q'))
        with ENG.binding([i]):
            body = as_e(zb_(self.Implies(self.And(lo <= SInt(i), SInt(i) < n), lambda: P(SInt(i)))))
        ENG.assume(z3.Implies(as_e(zb_(hyp)), z3.ForAll([i], body)))

    def lemma(self, name, cond, given=None):
        """Ghost assertion: proved (from the given facts alone when stated), then available to later obligations."""
        if given is not None:
            for g in given:
                self.check(name + ' (premise)', g)
            pc, qpc = ENG.pc, ENG.qpc
            ENG.pc, ENG.qpc = [as_e(zb_(g)) for g in given], []
            try:
                self.check(name, cond)
            finally:
                ENG.pc, ENG.qpc = pc, qpc
        else:
            self.check(name, cond)
        ENG.assume(as_e(zb_(cond)))

    def check(self, name, cond, detail=None, extra=()):
        rep = self.rep
        if ENG.loops:
            raise Unsupported('check inside a symbolic loop')
        rep['obligations'] += 1
        rep['names'][name] = rep['names'].get(name, 0) + 1
        if time.time() > rep['deadline']:
            raise Unsupported('time budget of the contract exhausted')
        if isinstance(cond, (SArr, SMa)):
            cond = cond.all()
        g = as_e(zb_(cond)) if is_num(cond) or isinstance(cond, z3.ExprRef) else z3.BoolVal(bool(cond))
        A.extensionality(g)
        st, model = ENG.entails(g)
        if st == 'proved':
            rep['discharged'] += 1
            if z3.is_false(g) and not extra:
                raise Infeasible()      # the path's conditions contradict each other
            return
        inputs = self.find_input(z3.Not(g), model)
        d = detail() if callable(detail) else detail
        rep['failed'].append(dict(name=name, status=st, inputs=inputs, goal=str(z3.simplify(g))[:6000],
                                  path=[str(c)[:200] for c in ENG.pc[:40]], detail=str(d) if d else None,
                                  tb=rep.get('exc_tb') if d else None))
        if len(rep['failed']) >= rep['max_failed']:
            raise TooManyPaths()

    def find_input(self, neg, model):
        """A concrete input for the replay: prefer small sizes and simple values."""
        cand = []
        for extra in (True, False):
            s = z3.Solver()
            s.set('timeout', 3000)
            s.add(*ENG.pc)
            s.add(neg)
            if extra:
                for d in self.dims:
                    s.add(d <= 6, d >= -6)
            for q in (True, False):
                s.push()
                if q:
                    s.add(*ENG.qpc)
                if s.check() == z3.sat:
                    m = s.model()
                    s.pop()
                    try:
                        cand.append(self.extract(m))
                    except Exception:
                        pass
                    break
                s.pop()
        if not cand and model is not None:
            try:
                cand.append(self.extract(model))
            except Exception:
                pass
        return cand

    def extract(self, m):
        def val(e):
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
            if z3.is_rational_value(v):
                return '%s/%s' % (v.numerator_as_long(), v.denominator_as_long())
            if z3.is_algebraic_value(v):
                r = v.approx(12)
                return '%s/%s' % (r.numerator_as_long(), r.denominator_as_long())
            if z3.is_true(v):
                return True
            if z3.is_false(v):
                return False
            return None
        out = {}
        for k, (t, e) in self.specs.items():
            if t == 'const':
                out[k] = e
            elif t in ('int', 'real', 'bool'):
                out[k] = val(e)
            elif t == 'carr':
                shape, vals = e
                out[k] = [val(v) for v in vals.values()]
            else:
                shape, f = e
                dims = [s if isinstance(s, int) else m.eval(iexp(s), model_completion=True).as_long() for s in shape]
                n = 1
                for d in dims:
                    n *= max(d, 0)
                if n > 400:
                    dims = [min(d, 7) for d in dims]
                out[k] = [val(f(*[z3.IntVal(i) for i in idx])) for idx in itertools.product(*[range(d) for d in dims])]
        return out

    def flat(self, ks, sizes):
        for k, n in zip(ks, sizes):
            self.check('coordinate in range', self.And(0 <= k, k < n))
        f = ks[0]
        for k, n in zip(ks[1:], sizes[1:]):
            f = f * n + k
        tot = sizes[0]
        for n in sizes[1:]:
            tot = tot * n
        # 0 <= k_i < n_i for all i puts the row-major index within the product of the sizes
        ENG.assume(as_e(zb_(self.And(0 <= f, f < tot))))
        ENG.flats.append((z3.simplify(num(f)), [num(k) for k in ks], [num(n) for n in sizes]))
        return f

    def And(self, *a):
        r = band(*[zb_(x) for x in a])
        return r if isinstance(r, bool) else wrap(r)

    def Or(self, *a):
        r = bor(*[zb_(x) for x in a])
        return r if isinstance(r, bool) else wrap(r)

    def Not(self, a):
        r = bnot(zb_(a))
        return r if isinstance(r, bool) else wrap(r)

    def Implies(self, a, b):
        a = zb_(a)
        if a is False:
            return True
        b = b() if callable(b) else b
        b = zb_(b)
        r = bor(bnot(a), b)
        return r if isinstance(r, bool) else wrap(r)

    def Iff(self, a, b):
        return wrap(as_e(zb_(a)) == as_e(zb_(b)))

    def Ite(self, c, a, b):
        c = zb_(c)
        a = a() if callable(a) and c is not False else a
        b = b() if callable(b) and c is not True else b
        if c is True:
            return a
        if c is False:
            return b
        return ite(c, a, b)

    def If(self, c):
        return ENG.decide(as_e(zb_(c)))

    def exists(self, shape, f):
        rs = self._rng(shape)
        if all(isinstance(x, int) and isinstance(y, int) and y - x <= 12 for x, y in rs):
            return self.Or(False, *[f(*i) for i in itertools.product(*[range(x, y) for x, y in rs])])
        ks = [z3.Int(ENG.fresh_name('q')) for _ in rs]
        rng = band(*[band(A.ibin('le', iexp(lo), k), A.ibin('lt', k, iexp(hi))) for k, (lo, hi) in zip(ks, rs)])
        with ENG.binding(ks, as_e(rng)):
            body = as_e(zb_(f(*[SInt(k) for k in ks])))
        return wrap(z3.Exists(ks, z3.And(as_e(rng), body)))

    def all_(self, shape, f):
        rs = self._rng(shape)
        if all(isinstance(x, int) and isinstance(y, int) and y - x <= 12 for x, y in rs):
            return self.And(True, *[f(*i) for i in itertools.product(*[range(x, y) for x, y in rs])])
        ks = [z3.Int(ENG.fresh_name('q')) for _ in rs]
        rng = band(*[band(A.ibin('le', iexp(lo), k), A.ibin('lt', k, iexp(hi))) for k, (lo, hi) in zip(ks, rs)])
        with ENG.binding(ks, as_e(rng)):
            body = as_e(zb_(f(*[SInt(k) for k in ks])))
        return wrap(z3.ForAll(ks, z3.Implies(as_e(rng), body)))

    def eq(self, a, b):
        import numpy as np
        if a is np.ma.masked or b is np.ma.masked:
            return a is b
        return scal('eq', a, b) if is_num(a) and is_num(b) else (a == b)

    def abs(self, a):
        return self.Ite(a < 0, -a, a)

    def min(self, *a):
        r = a[0]
        for x in a[1:]:
            r = scal('min', r, x)
        return r

    def max(self, *a):
        r = a[0]
        for x in a[1:]:
            r = scal('max', r, x)
        return r

    def floor(self, x):
        return wrap(z3.ToInt(num(x))) if isinstance(x, SReal) else (x if isinstance(x, (SInt, int)) else __import__('math').floor(x))

    def ceil(self, x):
        return wrap(-z3.ToInt(-num(x))) if isinstance(x, SReal) else (x if isinstance(x, (SInt, int)) else __import__('math').ceil(x))

    def ceildiv(self, a, b):
        return wrap(snp.ceildiv(num(a), num(b)))

    def at(self, a, *idx):
        if isinstance(a, SMa):
            a = a.data
        a = A.as_sarr(a)
        ix = []
        for i, s in zip(idx, a.shape):
            i = iexp(i)
            if isinstance(i, int) and i < 0:
                i = A.ibin('add', iexp(s), i)
            ix.append(i)
        return a.get(tuple(ix))

    def len(self, x):
        from . import rt
        return rt.len_(x)

    def item(self, x, k):
        if isinstance(x, (list, tuple)):
            x = A.obj_vector(list(x))
        if isinstance(x, SArr):
            return x.get((iexp(k),))
        return x[k]

    def maskat(self, a, *idx):
        if isinstance(a, SMa):
            if a._mask is None:
                return False
            return a._mask.get(tuple(iexp(i) for i in idx))
        import numpy as np
        if isinstance(a, np.ma.MaskedArray):
            return self.at(np.ma.getmaskarray(a), *idx)
        return False

    def snap(self, a):
        a = a.data if isinstance(a, SMa) else A.as_sarr(a)
        f = a.snap()
        return lambda *idx: f(tuple(iexp(i) for i in idx))

    def snapmask(self, a):
        if isinstance(a, SMa):
            f = a.maskfn()
            return lambda *idx: f(tuple(iexp(i) for i in idx))
        return lambda *idx: False

    def shape(self, a):
        return tuple(a.shape)

    def same_shape(self, a, shape):
        s = self.shape(a)
        return len(s) == len(shape) and self.And(*[x == y for x, y in zip(s, shape)])

    def mk(self, shape, f, kind='f'):
        shape = shape if isinstance(shape, (tuple, list)) else (shape,)
        return from_fn(lambda i: A.cast_kind(f(*[iw(x) for x in i]), kind), shape, A.DT[kind])

    def mklist(self, n, f):
        """A list of length n given by its elements."""
        if isinstance(n, int):
            return [f(k) for k in range(n)]
        r = from_fn(lambda i: f(iw(i[0])), (iexp(n),), object)
        r.is_list = True
        return r

    def marr(self, data, mask):
        return SMa(data.copy(), None if mask is None else mask.copy())

    def is_int(self, x):
        return isinstance(x, (SInt, int)) and not isinstance(x, bool)

    def sum(self, n, f):
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = scal('add', r, f(k))
            return r
        r = A.sum_node(lambda k: f(iw(k[0])), iexp(n))
        A.same_sums(r)
        return r

    def count(self, n, f):
        if isinstance(n, int):
            r = 0
            for k in range(n):
                r = scal('add', r, ite(zb_(f(k)), 1, 0))
            return r
        r = A.sum_node(lambda k: ite(zb_(f(iw(k[0]))), 1, 0), iexp(n))
        A.same_sums(r)
        return r

    def red(self, op, w):
        if w._mask is None:
            return snp.FN[op](w.data), False
        x = SMa(A.from_fn(lambda i: w.data.get((i[1],)), (1,) + tuple(w.shape), w.data.dtype), None if w._mask is None else
                A.from_fn(lambda i: w._mask.get((i[1],)), (1,) + tuple(w.shape), bool))
        r = getattr(x, op)(axis=1)
        return r.data.get((0,)), r.mask_arr().get((0,))

    def log(self, a):
        return snp.real_fn('log')(a)

    def div(self, a, b):
        return scal('truediv', a, b)

    def close(self, a, b):
        return self.eq(a, b)

    def where(self, a):
        w = A.nonzero1(a)
        f = w.snap()
        return w.shape[0], lambda k: f((iexp(k),))

    def seq(self, x):
        return x

    def uf(self, name, *args):
        return wrap(ufunc(name, *[num(a) for a in args]))


def prove(spec, budget=None):
    """Explore every path of a contract and discharge its obligations."""
    t0 = time.time()
    rep = dict(name=spec['name'], obligations=0, discharged=0, names={}, failed=[], unsupported=[], paths=0,
               deadline=t0 + (budget or spec['timeout']), max_failed=3, reachable=False, spec=spec)
    ENG.reset_all()
    ENG.active = True
    ENG.max_paths = spec['max_paths']
    vac_tries = 0
    try:
        while True:
            ENG.begin_path()
            rep['paths'] += 1
            if rep['paths'] > ENG.max_paths:
                rep['unsupported'].append('more than %d paths' % ENG.max_paths)
                break
            if time.time() > rep['deadline']:
                rep['unsupported'].append('time budget of the contract exhausted')
                break
            c = Symbolic(rep)
            before = rep['obligations']
            retry = False
            try:
                try:
                    spec['fn'](c)
                except StopContract:
                    pass
                if ENG.loops:
                    rep['unsupported'].append('symbolic loop left without its hook')
                if rep['obligations'] > before and not rep['reachable'] and vac_tries < 20:
                    vac_tries += 1
                    st, _ = ENG.entails(z3.BoolVal(False), timeout=1500)
                    if st != 'proved':
                        rep['reachable'] = True
            except PathDone:
                pass
            except Infeasible:
                pass
            except Retry:
                retry = True
            except Unsupported as e:
                msg = str(e)
                if time.time() < rep['deadline']:
                    # is the path feasible at all?
                    if not ENG.binders and ENG.entails(z3.BoolVal(False), timeout=1500)[0] == 'proved':
                        continue_ok = True
                    else:
                        continue_ok = False
                else:
                    continue_ok = False
                if not continue_ok:
                    tb = traceback.extract_tb(e.__traceback__)
                    loc = [f for f in tb if '/ocgis/' in f.filename]
                    where = '%s:%s' % (loc[-1].filename.split('/ocgis/')[-1], loc[-1].lineno) if loc else ''
                    rep['unsupported'].append('%s [%s]' % (msg, where))
                    if len(rep['unsupported']) == 1:
                        rep['unsupported_tb'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
                    if len(rep['unsupported']) >= 5:
                        break
            except TooManyPaths:
                break
            except Exception as e:
                rep['unsupported'].append('contract or engine error: %r' % (e,))
                rep['unsupported_tb'] = traceback.format_exc()[-6000:]
                if len(rep['unsupported']) >= 3:
                    break
            finally:
                c.unpatch()
            if not retry and not ENG.advance():
                break
    finally:
        ENG.active = False
    rep['seconds'] = round(time.time() - t0, 2)
    rep['solver_s'] = round(ENG.stats['solver_s'], 2)
    rep['slowest'] = round(ENG.stats.get('slowest', 0), 2)
    rep['queries'] = ENG.stats['queries']
    rep['cross'] = ENG.cross
    rep['externals'] = sorted(ENG.externals)
    rep['lemmas'] = sorted(ENG.lemmas_used)
    rep.pop('deadline')
    for k in ('exc_tb', 'spec', 'traces', 'inv_drop'):
        rep.pop(k, None)
    if rep['failed']:
        rep['status'] = 'failed'
    elif rep['unsupported']:
        rep['status'] = 'undecided'
    elif rep['obligations'] == 0 or not rep['reachable']:
        rep['status'] = 'vacuous'
    else:
        rep['status'] = 'proved'
    return rep
