"""Symbolic values and the path engine (solver, forking by re-execution, obligations)."""
import sys
from fractions import Fraction
import numbers
import time

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
import numpy as _np  # noqa: E402


class EngineStop(BaseException):
    """Control flow of the engine; never caught by verified code (bare excepts are narrowed to Exception)."""


class PathDone(EngineStop):
    pass


class Infeasible(EngineStop):
    pass


class Retry(EngineStop):
    """A path is to be explored again from a shorter prefix."""


class Unsupported(EngineStop):
    """The verifier cannot model a construct: the obligation cannot be generated."""


class TooManyPaths(EngineStop):
    pass


# ---------------------------------------------------------------------------------------------------------- engine
def has_quant(e, _seen=None):
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        stack.extend(x.children())
    return False


def mentions(e, consts):
    ids = set(c.get_id() for c in consts)
    seen = set()
    stack = [e]
    while stack:
        x = stack.pop()
        if x.get_id() in ids:
            return True
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        else:
            stack.extend(x.children())
    return False


def _affine(e, v):
    """(coefficient, rest) with e == coefficient * v + rest for coefficient +-1, else None."""
    e0 = z3.simplify(z3.substitute(e, (v, z3.IntVal(0))))
    e1 = z3.simplify(z3.substitute(e, (v, z3.IntVal(1))))
    d = z3.simplify(e1 - e0)
    if not z3.is_int_value(d) or d.as_long() not in (1, -1):
        return None
    d = d.as_long()
    if not z3.is_int_value(z3.simplify(e - (e0 + d * v))):
        return None
    if mentions(e0, [v]):
        return None
    return d, e0


def reindexed(e):
    """Equivalent copies of the universal facts in e, with a bound index k that only occurs as f(k + c) or f(c - k)
    renamed so that f is applied to the bound index itself (the solver instantiates on such terms)."""
    if z3.is_and(e):
        return [r for c in e.children() for r in reindexed(c)]
    if z3.is_implies(e):
        return [z3.Implies(e.arg(0), r) for r in reindexed(e.arg(1))]
    if z3.is_or(e):
        out = []
        ch = e.children()
        for i, c in enumerate(ch):
            for r in reindexed(c):
                out.append(z3.Or(*(ch[:i] + [r] + ch[i + 1:])))
        return out
    if z3.is_not(e):
        c = e.arg(0)
        if z3.is_quantifier(c) and c.is_exists():
            vs = [z3.Const(ENG.fresh_name('x'), c.var_sort(i)) for i in range(c.num_vars())]
            body = z3.substitute_vars(c.body(), *reversed(vs))
            return reindexed(z3.ForAll(vs, z3.Not(body)))
        if z3.is_or(c):
            return [r for x in c.children() for r in reindexed(z3.Not(x))]
        if z3.is_implies(c):
            return reindexed(c.arg(0)) + reindexed(z3.Not(c.arg(1)))
        if z3.is_not(c):
            return reindexed(c.arg(0))
        return []
    if not (z3.is_quantifier(e) and e.is_forall()) or e.num_patterns():
        return []
    vs = [z3.Const(ENG.fresh_name('x'), e.var_sort(i)) for i in range(e.num_vars())]
    body = z3.substitute_vars(e.body(), *reversed(vs))
    out, done = [], set()
    seen, stack = set(), [body]
    while stack:
        x = stack.pop()
        if x.get_id() in seen or z3.is_quantifier(x):
            continue
        seen.add(x.get_id())
        stack.extend(x.children())
        if not (z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED):
            continue
        for a in x.children():
            if a.sort() != z3.IntSort() or any(a.eq(v) for v in vs):
                continue
            ms = [v for v in vs if v.sort() == z3.IntSort() and mentions(a, [v])]
            if len(ms) != 1:
                continue
            f = _affine(a, ms[0])
            if f is None or any(mentions(f[1], [v]) for v in vs):
                continue
            d, rest = f
            key = (ms[0].get_id(), d, rest.get_id())
            if key in done:
                continue
            done.add(key)
            nb = z3.substitute(body, (ms[0], d * (ms[0] - rest)))
            out.append(z3.ForAll(vs, z3.simplify(nb)))
            if len(out) >= 4:
                return out
    return out


class Late(object):
    def __init__(self, store):
        self.store = store


class _Binding(object):
    def __init__(self, eng, ks, rng=None):
        self.eng = eng
        self.ks = list(ks)
        self.rng = rng

    def __enter__(self):
        self.eng.binders.extend(self.ks)
        self.eng.ranges.append(z3.BoolVal(True) if self.rng is None or self.rng is True else self.rng)

    def __exit__(self, *a):
        del self.eng.binders[len(self.eng.binders) - len(self.ks):]
        self.eng.ranges.pop()
        return False


class Engine(object):
    def __init__(self):
        self.active = False
        self.reset_all()

    def reset_all(self):
        self.prefix = []
        self.loop_store = {}
        self.stats = dict(paths=0, forks=0, queries=0, solver_s=0.0)
        self.feas_timeout = 1500
        self.prove_timeout = 15000
        self.max_paths = 4000
        self.lemmas_used = set()
        self.flats = []
        self.sums = {}
        self.sumdefs = {}
        self.externals = set()
        self.cross = 0

    # -- path life cycle
    def begin_path(self):
        self.sums = {}
        self.eager = set()
        self.invloops = {}
        self.inverses = {}      # name of an enumeration function: its inverse, the number of values
        self.nz_cache = []      # (length, mask at a canonical index, its enumeration)
        self.flats = []         # (flat index, coordinates, sizes) stated in range by the contract
        self.pos = 0
        self.pc = []
        self.qpc = []
        self.counter = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.loops = []          # stack of active probe frames
        self.binders = []        # constants that stand for quantified variables while a body is being built
        self.ranges = []         # ... and the ranges they are used in, one per binding
        self.bufs = {}
        from . import arr
        arr._SEQ[0] = 1000000
        self.inputs = {}
        self.dead = False
        self.trace = []

    def fresh_name(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return '%s!%d' % (base, n)

    def fresh_int(self, base='k'):
        c = z3.Int(self.fresh_name(base))
        self._reg_fresh(c)
        return c

    def fresh_real(self, base='r'):
        c = z3.Real(self.fresh_name(base))
        self._reg_fresh(c)
        return c

    def fresh_bool(self, base='b'):
        c = z3.Bool(self.fresh_name(base))
        self._reg_fresh(c)
        return c

    def fresh_func(self, base, *sorts):
        f = z3.Function(self.fresh_name(base), *sorts)
        if self.binders:
            raise Unsupported('new unknown under a quantifier')
        for lp in self.loops:
            lp.fresh_funcs.append(f)
        return f

    def _reg_fresh(self, c):
        if self.binders:
            raise Unsupported('new unknown under a quantifier')
        for lp in self.loops:
            lp.fresh.append(c)

    def assume(self, e):
        """Add a constraint to the current path."""
        if isinstance(e, bool):
            if not e:
                raise Infeasible()
            return
        if isinstance(e, SBool):
            e = e.e
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Infeasible()
        for lp in self.loops:
            lp.conds.append(e)
        if has_quant(e):
            self.qpc.append(e)
            if not self.binders:
                self.qpc.extend(reindexed(e))
        else:
            self.pc.append(e)
            self.solver.add(e)

    def check(self, *extra):
        self.stats['queries'] += 1
        t = time.time()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.time() - t
        return r

    def choose(self, n, feasible=None):
        """Pick one of ``n`` options, exploring all by re-execution."""
        if self.pos < len(self.prefix):
            c, _ = self.prefix[self.pos]
            self.pos += 1
            return c
        opts = list(range(n)) if feasible is None else feasible
        if not opts:
            raise Infeasible()
        if len(opts) > 1:
            self.stats['forks'] += 1
        self.prefix.append((opts[0], opts[1:]))
        self.pos += 1
        return opts[0]

    def binding(self, ks, rng=None):
        """Terms built within mention the quantified ks, and are used only where ``rng`` holds."""
        return _Binding(self, ks, rng)

    def choose_late(self, store):
        """Loop rule: 0 = explore an arbitrary iteration; afterwards 2 = exit, 1 = iteration that leaves early."""
        if self.pos < len(self.prefix):
            c, _ = self.prefix[self.pos]
            self.pos += 1
            return c
        self.stats['forks'] += 1
        del store['records'][:]
        self.prefix.append((0, Late(store)))
        self.pos += 1
        return 0

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.binders and mentions(cond, self.binders):
            rs = [r for r in self.ranges if not z3.is_true(r)]
            if self.check(cond, *rs) == z3.unsat:
                return False
            if self.check(z3.Not(cond), *rs) == z3.unsat:
                return True
            for answer, c in ((True, cond), (False, z3.Not(cond))):
                if self.entails(z3.Implies(z3.And(*rs), c) if rs else c, 3000)[0] == 'proved':
                    return answer
            raise Unsupported('branch on a quantified variable')
        if self.pos < len(self.prefix):
            c, _ = self.prefix[self.pos]
            self.pos += 1
        else:
            opts = []
            if has_quant(cond):
                opts = [0, 1]
            else:
                if self.check(cond) != z3.unsat:
                    opts.append(0)
                if self.check(z3.Not(cond)) != z3.unsat:
                    opts.append(1)
            if not opts:
                raise Infeasible()
            if len(opts) > 1:
                self.stats['forks'] += 1
            self.prefix.append((opts[0], opts[1:]))
            self.pos += 1
            c = opts[0]
        if c == 0:
            self.assume(cond)
            return True
        self.assume(z3.Not(cond))
        return False

    def advance(self):
        """Move to the next unexplored prefix; False when exhausted."""
        while self.prefix:
            c, rest = self.prefix[-1]
            if isinstance(rest, Late):
                opts = [2]
                if any(r.outcome != 'cont' for r in rest.store['records']):
                    opts.append(1)
                self.prefix[-1] = (opts[0], opts[1:])
                return True
            if rest:
                self.prefix[-1] = (rest[0], rest[1:])
                return True
            self.prefix.pop()
        return False

    def prefix_key(self):
        return tuple(c for c, _ in self.prefix[:self.pos])

    # -- proving
    def entails(self, goal, timeout=None):
        """(status, model): status in proved / refuted / unknown"""
        if isinstance(goal, SBool):
            goal = goal.e
        if isinstance(goal, (bool, _np.bool_)):
            if goal:
                return 'proved', None
            goal = z3.BoolVal(False)
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return 'proved', None
        neg = z3.Not(goal)
        extra = reindexed(neg) if has_quant(neg) else []
        if extra:
            neg = z3.And(neg, *extra)
            extra = []
        timeout = timeout or self.prove_timeout
        t0 = time.time()
        try:
            ground = not self.qpc and not has_quant(neg)
            gm = None
            try_ground = True
            # short restarts with different seeds settle nonlinear goals more reliably than one long run
            for to, seed in ((1500, 0), (1500, 11), (2500, 29), (2500, 47), (timeout, 0)):
                if to > timeout:
                    continue
                if try_ground:
                    r, s = self._run(self.pc, neg, to, seed)
                    if r == z3.unsat:
                        return 'proved', None
                    if r == z3.sat:
                        if ground:
                            return 'refuted', s.model()
                        gm = s.model()
                        try_ground = False
                if self.qpc:
                    r, s = self._run(self.pc + self.qpc, neg, to, seed)
                    if r == z3.unsat:
                        return 'proved', None
                    if r == z3.sat:
                        return 'refuted', s.model()
                if to == 2500 and seed == 47:
                    r2 = self._second('nl', neg, 2500)
                    if r2 == 'unsat' or self._second('cvc5', neg, 3000) == 'unsat':
                        self.cross += 1
                        return 'proved', None
            # second opinions
            for tac in ('nl', 'cvc5'):
                r2 = self._second(tac, neg, timeout)
                if r2 == 'unsat':
                    self.cross += 1
                    return 'proved', None
            return 'unknown', gm
        finally:
            self.stats['solver_s'] += time.time() - t0
            self.stats['slowest'] = max(self.stats.get('slowest', 0), time.time() - t0)

    def _run(self, facts, neg, timeout, seed):
        self.stats['queries'] += 1
        s = z3.Solver()
        s.set('timeout', int(timeout))
        if seed:
            s.set('random_seed', seed)
        s.add(*facts)
        s.add(neg)
        return s.check(), s

    def _second(self, kind, neg, timeout):
        self.stats['queries'] += 1
        if kind == 'nl':
            try:
                s = z3.Then('simplify', 'solve-eqs', 'smt').solver()
                s.set('timeout', timeout)
                s.add(*self.pc)
                s.add(*self.qpc)
                s.add(neg)
                return str(s.check())
            except z3.Z3Exception:
                return 'unknown'
        s = z3.Solver()
        s.add(*self.pc)
        s.add(*self.qpc)
        s.add(neg)
        return cvc5_check(s.to_smt2(), timeout)


def cvc5_check(smt2, timeout):
    import os
    import subprocess
    import tempfile
    fd, p = tempfile.mkstemp(suffix='.smt2')
    try:
        with os.fdopen(fd, 'w') as f:
            f.write('(set-logic ALL)\n' + smt2)
        try:
            r = subprocess.run(['cvc5', '--tlimit=%d' % timeout, p], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout / 1000. + 5)
        except (subprocess.TimeoutExpired, OSError):
            return 'unknown'
        out = r.stdout.decode().strip().splitlines()
        return out[0] if out else 'unknown'
    finally:
        os.remove(p)


ENG = Engine()


# ---------------------------------------------------------------------------------------------------------- values
class Sym(object):
    __array_ufunc__ = None
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        raise Unsupported('hash of a symbolic value')

    def __repr__(self):
        return '<sym %s>' % (str(self.e)[:60],)

    def __str__(self):
        return '<sym>'

    def __format__(self, spec):
        return '<sym>'

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def is_sym(x):
    return isinstance(x, Sym)


def fracval(x):
    return z3.RealVal(str(Fraction(x)))


def num(x):
    """z3 arithmetic expression of a scalar value."""
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, Sym):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, (float, _np.floating)):
        x = float(x)
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float constant')
        return fracval(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, _np.ndarray) and x.ndim == 0:
        return num(x.item())
    raise NotImplementedError(type(x))


def is_num(x):
    return isinstance(x, (SInt, SReal, SBool, bool, _np.bool_, numbers.Number, Fraction)) and not isinstance(x, complex)


def wrap(e):
    """Wrap a z3 expression (constants are returned as Python values)."""
    if not isinstance(e, z3.ExprRef):
        return e
    s = e.sort()
    if s == z3.IntSort():
        if z3.is_int_value(e):
            return e.as_long()
        return SInt(e)
    if s == z3.RealSort():
        return SReal(e)
    if s == z3.BoolSort():
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        return SBool(e)
    raise Unsupported('sort %s' % s)


def zb(x):
    """z3 Bool of a truthy scalar, without forking."""
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, (bool, _np.bool_)):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SInt, SReal)):
        return x.e != 0
    if isinstance(x, numbers.Number):
        return z3.BoolVal(bool(x))
    if x is None:
        return z3.BoolVal(False)
    raise Unsupported('truth of %s' % type(x))


def _both(a, b):
    a, b = num(a), num(b)
    if a.sort() != b.sort():
        if a.sort() == z3.IntSort():
            a = z3.ToReal(a)
        else:
            b = z3.ToReal(b)
    return a, b


def _const(a, b):
    return not isinstance(a, Sym) and not isinstance(b, Sym)


def floordiv_e(a, b):
    """Python floor division on z3 ints; z3 div is floor for positive divisors."""
    if z3.is_int_value(b):
        bv = b.as_long()
        if bv > 0:
            return a / b
        return -a / z3.IntVal(-bv)
    return z3.If(b > 0, a / b, (-a) / (-b))


def mod_e(a, b):
    if z3.is_int_value(b) and b.as_long() > 0:
        return a % b
    return z3.If(b > 0, a % b, -((-a) % (-b)))


def _as_int_term(e):
    """The integer term behind a real term that is an integer by construction, or None."""
    if z3.is_rational_value(e) and e.denominator_as_long() == 1:
        return z3.IntVal(e.numerator_as_long())
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return e.arg(0)
    return None


def toint(e):
    """Floor of a real term; a quotient of integers becomes integer division."""
    i = _as_int_term(e)
    if i is not None:
        return i
    if z3.is_app_of(e, z3.Z3_OP_DIV):
        a, b = _as_int_term(e.arg(0)), _as_int_term(e.arg(1))
        if a is not None and b is not None:
            if not z3.is_int_value(b):
                if ENG.check(z3.Not(b > 0)) == z3.unsat:
                    return a / b
            return floordiv_e(a, b)
    return z3.ToInt(e)


def floor_real(e):
    return toint(e)


def scal(op, a, b=None):
    """Scalar operation on Python/symbolic numbers."""
    if b is None:
        if op == 'neg':
            return wrap(-num(a)) if isinstance(a, Sym) else -a
        if op == 'abs':
            if not isinstance(a, Sym):
                return abs(a)
            e = num(a)
            return wrap(z3.If(e >= 0, e, -e))
        if op == 'not':
            return wrap(z3.Not(zb(a)))
    if op in ('and', 'or', 'xor'):
        if not isinstance(a, Sym) and not isinstance(b, Sym):
            a, b = bool(a), bool(b)
            return {'and': a and b, 'or': a or b, 'xor': a != b}[op]
        a, b = zb(a), zb(b)
        r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a, b)
        return wrap(z3.simplify(r)) if (z3.is_true(a) or z3.is_false(a) or z3.is_true(b) or z3.is_false(b)) else wrap(r)
    if op in ('eq', 'ne'):
        if not (is_num(a) and is_num(b)):
            r = _obj_eq(a, b)
            return r if op == 'eq' else (not r)
        if isinstance(a, SBool) or isinstance(b, SBool):
            if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
                r = zb(a) == zb(b)
                return wrap(r if op == 'eq' else z3.Not(r))
    if _const(a, b):
        import operator as o
        f = {'add': o.add, 'sub': o.sub, 'mul': o.mul, 'truediv': o.truediv, 'floordiv': o.floordiv, 'mod': o.mod,
             'lt': o.lt, 'le': o.le, 'gt': o.gt, 'ge': o.ge, 'eq': o.eq, 'ne': o.ne, 'pow': o.pow,
             'max': max, 'min': min}[op]
        if op == 'truediv' and isinstance(a, numbers.Integral) and isinstance(b, numbers.Integral) and b != 0:
            return wrap(fracval(Fraction(int(a), int(b)))) if (int(a) % int(b)) else a / b
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = Fraction(a), Fraction(b)
        return f(a, b)
    x, y = _both(a, b)
    if op == 'add':
        return wrap(x + y)
    if op == 'sub':
        return wrap(x - y)
    if op == 'mul':
        return wrap(x * y)
    if op == 'truediv':
        if x.sort() == z3.IntSort():
            x, y = z3.ToReal(x), z3.ToReal(y)
        return wrap(x / y)
    if op == 'floordiv':
        if x.sort() == z3.IntSort():
            return wrap(floordiv_e(x, y))
        return wrap(z3.ToReal(z3.ToInt(x / y)))
    if op == 'mod':
        if x.sort() == z3.IntSort():
            return wrap(mod_e(x, y))
        return wrap(x - y * z3.ToReal(z3.ToInt(x / y)))
    if op == 'lt':
        return wrap(x < y)
    if op == 'le':
        return wrap(x <= y)
    if op == 'gt':
        return wrap(x > y)
    if op == 'ge':
        return wrap(x >= y)
    if op == 'eq':
        return wrap(x == y)
    if op == 'ne':
        return wrap(x != y)
    if op == 'max':
        return wrap(z3.If(x >= y, x, y))
    if op == 'min':
        return wrap(z3.If(x <= y, x, y))
    if op == 'pow':
        if z3.is_int_value(y) and 0 <= y.as_long() <= 12:
            r = z3.IntVal(1) if x.sort() == z3.IntSort() else z3.RealVal(1)
            for _ in range(y.as_long()):
                r = r * x
            return wrap(r)
        if z3.is_rational_value(y):
            q = Fraction(y.numerator_as_long(), y.denominator_as_long())
            if q.denominator == 1 and 0 <= q <= 12:
                r = z3.RealVal(1)
                for _ in range(int(q)):
                    r = r * x
                return wrap(r)
        if x.sort() == z3.IntSort():
            x, y = z3.ToReal(x), z3.ToReal(y)
        return wrap(ufunc('pow', x, y))
    raise Unsupported(op)


def _obj_eq(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    return bool(a == b)


_UF = {}


def ufunc(name, *args):
    """Application of an uninterpreted real function (external mathematics, e.g. log)."""
    args = [z3.ToReal(a) if a.sort() == z3.IntSort() else a for a in args]
    key = (name, len(args))
    if key not in _UF:
        _UF[key] = z3.Function('uf_' + name, *([z3.RealSort()] * (len(args) + 1)))
    ENG.externals.add('uninterpreted:' + name)
    return _UF[key](*args)


def _mk(op, rev=False):
    def f(self, other):
        if not is_num(other):
            r = _arr_op(op, self, other, rev)
            return r
        if rev:
            return scal_checked(op, other, self)
        return scal_checked(op, self, other)
    return f


def scal_checked(op, a, b):
    if op in ('truediv', 'floordiv', 'mod'):
        z = scal('eq', b, 0)
        if z is not False and ENG.decide(zb(z)):
            raise ZeroDivisionError('division by zero')
    return scal(op, a, b)


def _arr_op(op, a, b, rev):
    from . import arr
    if isinstance(b, (_np.ndarray, arr.SArr, arr.SMa)):
        return arr.elementwise(op, b, a) if rev else arr.elementwise(op, a, b)
    return NotImplemented


class _Arith(Sym):
    __slots__ = ()
    __add__ = _mk('add')
    __radd__ = _mk('add', True)
    __sub__ = _mk('sub')
    __rsub__ = _mk('sub', True)
    __mul__ = _mk('mul')
    __rmul__ = _mk('mul', True)
    __truediv__ = _mk('truediv')
    __rtruediv__ = _mk('truediv', True)
    __floordiv__ = _mk('floordiv')
    __rfloordiv__ = _mk('floordiv', True)
    __mod__ = _mk('mod')
    __rmod__ = _mk('mod', True)
    __pow__ = _mk('pow')
    __rpow__ = _mk('pow', True)
    __lt__ = _mk('lt')
    __le__ = _mk('le')
    __gt__ = _mk('gt')
    __ge__ = _mk('ge')

    def __eq__(self, o):
        if not is_num(o):
            r = _arr_op('eq', self, o, False)
            return r if r is not NotImplemented else False
        return scal('eq', self, o)

    def __ne__(self, o):
        if not is_num(o):
            r = _arr_op('ne', self, o, False)
            return r if r is not NotImplemented else True
        return scal('ne', self, o)

    __hash__ = Sym.__hash__

    def __neg__(self):
        return scal('neg', self)

    def __pos__(self):
        return self

    def __abs__(self):
        return scal('abs', self)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __bool__(self):
        return ENG.decide(zb(self))

    # numpy scalar protocol
    ndim = 0
    shape = ()
    size = 1

    def item(self):
        return self

    tolist = item

    def flatten(self):
        from . import arr
        return arr.from_nested([self])

    def copy(self):
        return self

    def any(self):
        return wrap(zb(self))

    all = any


class SInt(_Arith):
    __slots__ = ()
    dtype = _np.dtype('int64')

    def __index__(self):
        return concretise(self)

    def __int__(self):
        return concretise(self)

    def __trunc__(self):
        return self

    def __float__(self):
        raise Unsupported('float() of symbolic int')

    def __round__(self, n=None):
        return self

    def astype(self, dt):
        return cast_kind(self, _np.dtype(dt).kind)

    def __invert__(self):
        return scal('sub', scal('neg', self), 1)


class SReal(_Arith):
    __slots__ = ()
    dtype = _np.dtype('float64')

    def __int__(self):
        raise Unsupported('int() of symbolic real')

    def __float__(self):
        raise Unsupported('float() of symbolic real')

    def __floor__(self):
        return wrap(toint(self.e))

    def __ceil__(self):
        return wrap(-z3.ToInt(-self.e))

    def __round__(self, n=None):
        if n is None:
            return round_half_even(self)
        raise Unsupported('round')

    def astype(self, dt):
        return cast_kind(self, _np.dtype(dt).kind)


class SBool(_Arith):
    __slots__ = ()
    dtype = _np.dtype(bool)

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return scal('and', self, o)
        return _arr_op('and', self, o, False)

    def __or__(self, o):
        if isinstance(o, (SBool, bool, _np.bool_)):
            return scal('or', self, o)
        return _arr_op('or', self, o, False)

    def __xor__(self, o):
        return scal('xor', self, o)

    __rand__ = __and__
    __ror__ = __or__
    __rxor__ = __xor__

    def __invert__(self):
        return scal('not', self)

    def __index__(self):
        return 1 if ENG.decide(self.e) else 0

    def __int__(self):
        return self.__index__()

    def astype(self, dt):
        return cast_kind(self, _np.dtype(dt).kind)


def concretise(x, limit=40):
    """Fork over the values an integer can take (used where Python needs a real index)."""
    if not isinstance(x, Sym):
        return int(x)
    e = z3.simplify(x.e)
    if z3.is_int_value(e):
        return e.as_long()
    for _ in range(limit):
        # replay: the candidate must be deterministic, so use the smallest feasible by probing models once
        key = ('conc', ENG.prefix_key(), e.get_id() if False else str(e))
        if key in ENG.loop_store:
            v = ENG.loop_store[key]
        else:
            r = ENG.check()
            if r == z3.unsat:
                raise Infeasible()
            if r != z3.sat:
                raise Unsupported('cannot concretise')
            v = ENG.solver.model().eval(e, model_completion=True).as_long()
            ENG.loop_store[key] = v
        if ENG.decide(e == v):
            return v
    raise Unsupported('symbolic integer used as a concrete index with too many values')


def trunc_e(e):
    i = _as_int_term(e)
    if i is not None:
        return i
    return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))


def round_half_even(x):
    e = num(x)
    f = z3.ToInt(e)
    d = e - z3.ToReal(f)
    half = z3.RealVal('1/2')
    return wrap(z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1))))


def cast_kind(v, kind):
    """Cast a scalar to a numpy kind: i (truncation), f, b, O."""
    if kind == 'O':
        return v
    if kind in 'iu':
        if isinstance(v, SReal):
            return wrap(trunc_e(v.e))
        if isinstance(v, SBool):
            return wrap(num(v))
        if isinstance(v, SInt):
            return v
        if isinstance(v, Fraction):
            return int(v)
        if v is None:
            raise TypeError('int() argument')
        return int(v)
    if kind == 'f':
        if isinstance(v, SReal):
            return v
        if isinstance(v, Sym):
            return wrap(z3.ToReal(num(v)))
        if isinstance(v, Fraction):
            return v
        if isinstance(v, z3.ExprRef):
            return wrap(v)
        return float(v)
    if kind == 'b':
        if isinstance(v, Sym):
            return wrap(zb(v))
        return bool(v)
    if kind in 'SU':
        return v
    raise Unsupported('cast to kind %s' % kind)


def same(a, b):
    """Structural identity without forking."""
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.e.eq(b.e)
    if isinstance(a, Sym) or isinstance(b, Sym):
        return False
    if type(a) is not type(b):
        return False
    if type(a) in (tuple, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is slice:
        return same((a.start, a.stop, a.step), (b.start, b.stop, b.step))
    if type(a).__name__ in ('SArr', 'SMa'):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def ite(c, a, b):
    """If-then-else over values; c is a Python bool, SBool or z3 Bool."""
    if isinstance(c, SBool):
        c = c.e
    if isinstance(c, (bool, _np.bool_)):
        return a if c else b
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if isinstance(a, (SBool, bool, _np.bool_)) and isinstance(b, (SBool, bool, _np.bool_)):
        return wrap(z3.If(c, zb(a), zb(b)))
    if is_num(a) and is_num(b):
        x, y = _both(a, b)
        return wrap(z3.If(c, x, y))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        return [ite(c, x, y) for x, y in zip(a, b)]
    if isinstance(a, slice) and isinstance(b, slice):
        return slice(ite(c, a.start, b.start), ite(c, a.stop, b.stop), ite(c, a.step, b.step))
    # values of different shape: fork on the condition
    return a if ENG.decide(c) else b


def sub_value(v, pairs, fpairs=()):
    """Substitute z3 constants inside a value."""
    if isinstance(v, Sym):
        e = z3.substitute(v.e, *pairs) if pairs else v.e
        return wrap(e)
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, *pairs) if pairs else v
    if isinstance(v, tuple):
        return tuple(sub_value(x, pairs) for x in v)
    if isinstance(v, list):
        return [sub_value(x, pairs) for x in v]
    if isinstance(v, slice):
        return slice(sub_value(v.start, pairs), sub_value(v.stop, pairs), sub_value(v.step, pairs))
    if isinstance(v, dict):
        return {k: sub_value(x, pairs) for k, x in v.items()}
    return v
