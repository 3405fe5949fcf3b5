"""Symbolic numpy arrays: functions from index tuples to values, with symbolic shapes, views and in-place updates."""
import numbers
import operator
from functools import reduce

import numpy as _np

from .sym import (ENG, SBool, SInt, SReal, Sym, Unsupported, Infeasible, cast_kind, concretise, is_num, ite, num, same,
                  scal, sub_value, ufunc, wrap, z3, zb, has_quant)

_SEQ = [0]


# ----------------------------------------------------------------------------------------------------- index helpers
def iexp(x):
    """Index value: Python int or z3 Int expression."""
    if isinstance(x, SBool):
        return num(x)
    if isinstance(x, Sym):
        if isinstance(x, SReal):
            raise IndexError('float index')
        return x.e
    if isinstance(x, z3.ExprRef):
        return x
    return int(x)


def iw(x):
    return wrap(x) if isinstance(x, z3.ExprRef) else x


def ibin(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return getattr(operator, op)(a, b)
    if op == 'add':
        if isinstance(b, int) and b == 0:
            return a
        if isinstance(a, int) and a == 0:
            return b
        return a + b
    if op == 'sub':
        if isinstance(b, int) and b == 0:
            return a
        return a - b
    if op == 'mul':
        if isinstance(b, int) and b == 1:
            return a
        if isinstance(a, int) and a == 1:
            return b
        return a * b
    if op == 'eq':
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.eq(b):
            return True
        return z3.simplify(a == b) if False else (a == b)
    if op == 'lt':
        return (a < b)
    if op == 'le':
        return (a <= b)
    raise Unsupported(op)


def band(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if not c:
                return False
            continue
        if z3.is_true(c):
            continue
        if z3.is_false(c):
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def bor(*cs):
    out = []
    for c in cs:
        if isinstance(c, bool):
            if c:
                return True
            continue
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            continue
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def bnot(c):
    return (not c) if isinstance(c, bool) else z3.Not(c)


def known(cond):
    """True/False if the ground path condition decides ``cond``, else None (no fork)."""
    if isinstance(cond, (bool, _np.bool_)):
        return bool(cond)
    if isinstance(cond, SBool):
        cond = cond.e
    s = z3.simplify(cond)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    if has_quant(s):
        return None
    if ENG.check(z3.Not(s)) == z3.unsat:
        return True
    if ENG.check(s) == z3.unsat:
        return False
    return None


def simp(x):
    if isinstance(x, z3.ExprRef):
        s = z3.simplify(x)
        if z3.is_int_value(s):
            return s.as_long()
        return s
    return x


def kind_of(v):
    if isinstance(v, (SBool, bool, _np.bool_)):
        return 'b'
    if isinstance(v, (SInt, numbers.Integral)):
        return 'i'
    if isinstance(v, (SReal, float, _np.floating)) or type(v).__name__ == 'Fraction':
        return 'f'
    if isinstance(v, (str, bytes)):
        return 'O'
    return 'O'


DT = {'b': _np.dtype(bool), 'i': _np.dtype('int64'), 'f': _np.dtype('float64'), 'O': _np.dtype(object)}


def join_kind(a, b):
    order = 'bifO'
    return order[max(order.index(a), order.index(b))]


def dkind(dt):
    k = dt.kind
    return {'u': 'i', 'S': 'O', 'U': 'O', 'M': 'O', 'm': 'O', 'V': 'O'}.get(k, k)


class Buf(object):
    def __init__(self, fn, dtype, ndim):
        self.fn = fn
        self.dtype = dtype
        self.kind = dkind(dtype)
        self.ndim = ndim
        _SEQ[0] += 1
        self.seq = _SEQ[0]
        self.readonly = False
        self.tag = None
        if ENG.active:
            ENG.bufs[self.seq] = self

    def read(self, idx):
        if ENG.loops:
            for lp in ENG.loops:
                if self.seq < lp.seq and not self.own(lp, idx):
                    lp.reads.append((self, idx))
        return self.fn(idx)

    def own(self, lp, idx, upto=None):
        """The element has been written before in the same iteration."""
        for w in lp.writes[:upto]:
            if w[0] is self and w[3] is True and all(
                    c[0] == 'eq' and isinstance(c[1], int) and isinstance(x, int) and c[1] == x for c, x in zip(w[1], idx)):
                return True
        return False

    def snapshot(self):
        fn = self.fn
        within = [(lp, len(lp.writes)) for lp in ENG.loops]

        def f(idx):
            if ENG.loops:
                same = fn is self.fn
                for lp in ENG.loops:
                    if self.seq < lp.seq:
                        taken = [n for l, n in within if l is lp]
                        # taken in this iteration: it shows what earlier iterations left but for the writes before it
                        if (same or taken) and not self.own(lp, idx, taken[0] if taken else None):
                            lp.reads.append((self, idx))
            return fn(idx)
        return f

    def write(self, comps, valfn, cond=None):
        """comps: per buffer dim ('eq', e) | ('rng', start, stop); valfn(idx) -> value; cond(idx) extra condition."""
        if self.readonly:
            raise Unsupported('write to a summarised array')
        kind = self.kind
        self.tag = None
        lp = None
        for cand in ENG.loops:
            if self.seq < cand.seq:
                lp = cand
        if lp is not None:
            # Evaluate now at a generic position of the region so that reads are logged in program order.
            X = [z3.Int(ENG.fresh_name('wx')) for _ in comps]
            gen = tuple(c[1] if c[0] == 'eq' else x for c, x in zip(comps, X))
            pos_eq = [None if c[0] == 'eq' else x for c, x in zip(comps, X)]
            pushed = []
            for c, x in zip(comps, X):
                if c[0] == 'rng':
                    pushed.append(band(ibin('le', c[1], x), ibin('lt', x, c[2])))
            lp.bound_ctx.extend(pushed)
            with ENG.binding(X):
                v = cast_kind(valfn(gen), kind)
                ce = True if cond is None else cond(gen)
            lp.writes.append((self, comps, X, ce, v))
        old = self.fn

        def fn(idx):
            cs = []
            for c, x in zip(comps, idx):
                if c[0] == 'eq':
                    cs.append(ibin('eq', x, c[1]))
                else:
                    cs.append(ibin('le', c[1], x))
                    cs.append(ibin('lt', x, c[2]))
            cc = band(*cs)
            if cc is False:
                return old(idx)
            if cond is not None:
                cc = band(cc, cond(idx))
                if cc is False:
                    return old(idx)
            v = cast_kind(valfn(idx), kind)
            if cc is True:
                return v
            return ite(cc, v, old(idx))
        self.fn = fn


def _neg_norm(i, n):
    """Normalise a scalar index with bounds check (forks to IndexError)."""
    i = iexp(i)
    n = iexp(n)
    if isinstance(i, int) and isinstance(n, int):
        if i < -n or i >= n:
            raise IndexError('index %s is out of bounds for axis with size %s' % (i, n))
        return i + n if i < 0 else i
    if isinstance(i, int):
        if i >= 0:
            if not ENG.decide(ibin('lt', i, n)):
                raise IndexError('index out of bounds')
            return i
        if not ENG.decide(ibin('le', -i, n)):
            raise IndexError('index out of bounds')
        return ibin('add', n, i)
    ok = band(ibin('le', ibin('sub', 0, n), i), ibin('lt', i, n))
    if not ENG.decide(ok):
        raise IndexError('index out of bounds')
    k = known(i >= 0)
    if k is True:
        return i
    if k is False:
        return simp(i + n)
    return z3.If(i >= 0, i, i + n)


def norm_slice(s, n):
    """Python slice semantics with symbolic parts: returns (start, step, length)."""
    n = iexp(n)
    step = s.step
    if step is None:
        step = 1
    if isinstance(step, Sym):
        step = concretise(step)
    step = int(step)
    if step == 0:
        raise ValueError('slice step cannot be zero')

    def clamp(v, lo, hi):
        v = iexp(v)
        if isinstance(v, int) and isinstance(n, int):
            if v < 0:
                v += n
            return max(lo, min(v, hi))
        ve = z3.IntVal(v) if isinstance(v, int) else v
        isneg = (v < 0) if isinstance(v, int) else known(ve < 0)
        if isneg is True:
            w = ve + n
            need_hi, need_lo = False, True
        elif isneg is False:
            w = ve
            need_hi, need_lo = True, False
        else:
            w = z3.If(ve < 0, ve + n, ve)
            need_hi = need_lo = True
        if need_hi and known(w <= hi) is not True:
            w = z3.If(w <= hi, w, hi)
        if need_lo and known(w >= lo) is not True:
            w = z3.If(w >= lo, w, lo)
        return simp(w)

    if step > 0:
        start = 0 if s.start is None else clamp(s.start, 0, n)
        stop = n if s.stop is None else clamp(s.stop, 0, n)
        d = simp(ibin('sub', stop, start))
        if isinstance(d, int):
            ln = max(0, -(-d // step))
        else:
            pos = known(d >= 0)
            if step == 1:
                ln = d if pos is True else (0 if pos is False else z3.If(d >= 0, d, 0))
            else:
                ln = z3.If(d >= 0, (d + (step - 1)) / step, 0)
    else:
        hi = ibin('sub', n, 1)
        start = hi if s.start is None else clamp(s.start, -1, hi)
        stop = -1 if s.stop is None else clamp(s.stop, -1, hi)
        d = simp(ibin('sub', start, stop))
        if isinstance(d, int):
            ln = max(0, -(-d // -step))
        else:
            ln = z3.If(d >= 0, (d + (-step - 1)) / (-step), 0)
    return start, step, simp(ln)


def dims_equal(a, b):
    a, b = iexp(a), iexp(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return ENG.decide(ibin('eq', a, b))


def broadcast_shapes(*shapes):
    nd = max(len(s) for s in shapes)
    out = []
    for d in range(nd):
        cur = 1
        for s in shapes:
            k = d - (nd - len(s))
            if k < 0:
                continue
            v = s[k]
            if isinstance(v, int) and v == 1:
                continue
            if isinstance(cur, int) and cur == 1:
                cur = v
            elif same(cur, v):
                continue
            elif dims_equal(cur, v):
                continue
            elif isinstance(v, Sym) and ENG.decide(zb(v == 1)):
                continue
            elif isinstance(cur, Sym) and ENG.decide(zb(cur == 1)):
                cur = v
            else:
                raise ValueError('operands could not be broadcast together')
        out.append(cur)
    return tuple(out)


def bidx(idx, shape, out_shape):
    """Index of a broadcast operand."""
    nd = len(out_shape)
    off = nd - len(shape)
    res = []
    for k, s in enumerate(shape):
        if isinstance(s, int) and s == 1:
            res.append(0)
        elif isinstance(s, Sym) and not same(s, out_shape[k + off]):
            e = iexp(s)
            if known(ibin('eq', e, iexp(out_shape[k + off]))) is True:
                res.append(idx[k + off])
            elif known(ibin('eq', e, 1)) is True:
                res.append(0)
            else:
                res.append(idx[k + off])
        else:
            res.append(idx[k + off])
    return tuple(res)


def shape_prod(shape):
    r = 1
    for s in shape:
        r = r * s if not (isinstance(s, int) and s == 1) else r
    return r


class SArr(object):
    __array_ufunc__ = None
    __array_priority__ = 1000
    is_list = False

    def __init__(self, buf, vdims, shape):
        self.buf = buf
        self.vdims = tuple(vdims)
        self.shape = tuple(simp_dim(s) for s in shape)
        self.base = None
        self._ms = None
        self._flat = None       # (elements, shape) of the array these are all elements of, while they are not written to

    __hash__ = object.__hash__

    # (source fn, mask) of a boolean compression, as long as the compressed values have not been written to
    @property
    def mask_src(self):
        return self._ms[0] if self._ms is not None and self._ms[1] is self.buf.fn else None

    @mask_src.setter
    def mask_src(self, v):
        self._ms = None if v is None else (v, self.buf.fn)

    # -- basics
    @property
    def dtype(self):
        return self.buf.dtype

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        return shape_prod(self.shape)

    @property
    def T(self):
        return self.transpose()

    def bufidx(self, idx):
        out = []
        for v in self.vdims:
            if v[0] == 'f':
                out.append(v[1])
            else:
                _, ax, start, step = v
                out.append(ibin('add', start, ibin('mul', idx[ax], step)))
        return tuple(out)

    def get(self, idx):
        return self.buf.read(self.bufidx(idx))

    def snap(self):
        """Immutable element function of the present contents."""
        f = self.buf.snapshot()
        bi = self.bufidx
        return lambda idx: f(bi(idx))

    def __len__(self):
        if not self.shape:
            raise TypeError('len() of unsized object')
        return self.shape[0]

    def is_concrete_shape(self):
        return all(isinstance(s, int) for s in self.shape)

    def elements(self):
        import itertools
        for idx in itertools.product(*[range(s) for s in self.shape]):
            yield idx, self.get(idx)

    def __iter__(self):
        if not self.shape:
            raise TypeError('iteration over a 0-d array')
        if not isinstance(self.shape[0], int):
            raise Unsupported('iteration over an array of symbolic length')
        for i in range(self.shape[0]):
            yield self[i]

    def __array__(self, *a, **k):
        if not self.is_concrete_shape():
            raise Unsupported('real numpy needs a concrete array')
        out = _np.empty(self.shape, dtype=self.dtype)
        for idx, v in self.elements():
            if isinstance(v, Sym):
                raise Unsupported('real numpy needs concrete values')
            out[idx] = v
        return out

    def __repr__(self):
        return '<sarr %s %s>' % (self.kind, [str(s) for s in self.shape])

    def __bool__(self):
        if self.is_concrete_shape() and shape_prod(self.shape) == 1:
            return bool(self.get(tuple(0 for _ in self.shape)))
        if isinstance(self.size, int) and self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def _single(self):
        n = self.size
        if not (isinstance(n, int) and n == 1):
            if not (isinstance(n, Sym) and ENG.decide(zb(n == 1))):
                raise TypeError('only size-1 arrays can be converted to Python scalars')
        return self.get(tuple(0 for _ in self.shape))

    def __int__(self):
        v = self._single()
        return concretise(cast_kind(v, 'i')) if isinstance(v, Sym) else int(v)

    def item(self, *a):
        return self._single()

    def tolist(self):
        if self.ndim == 1 and not isinstance(self.shape[0], int):
            r = self.copy()
            r.is_list = True
            return r
        if self.ndim == 0:
            return self.get(())
        return [x.tolist() if isinstance(x, (SArr,)) else x for x in self]

    # -- indexing
    def _parse(self, key):
        """Returns (vdims, shape, fancy) where fancy is a list of (axis position, index array) or None."""
        if isinstance(key, list) and any(isinstance(k, slice) or k is Ellipsis or k is None for k in key):
            # numpy < 1.23: a list holding slices indexes like a tuple
            key = tuple(key)
        if not isinstance(key, tuple):
            key = (key,)
        key = list(key)
        # expand ellipsis
        ncons = 0
        for k in key:
            if k is None or k is Ellipsis:
                continue
            if isinstance(k, (SArr, _np.ndarray)) and dkind(k.dtype) == 'b' and k.ndim > 0:
                ncons += k.ndim
            else:
                ncons += 1
        if Ellipsis in [k for k in key if k is Ellipsis]:
            p = [i for i, k in enumerate(key) if k is Ellipsis][0]
            key[p:p + 1] = [slice(None)] * (self.ndim - ncons)
        else:
            key = key + [slice(None)] * (self.ndim - ncons)
        if ncons > self.ndim:
            raise IndexError('too many indices for array')
        return key

    def __getitem__(self, key):
        r = self._mask_key(key)
        if r is not None:
            return compress(self, r)
        key = self._parse(key)
        # each self-axis maps to: ('f', e) or ('a', newaxis, start, step)
        axmap = []
        shape = []
        fancy = []
        ax = 0
        for k in key:
            if k is None:
                shape.append(1)
                continue
            n = self.shape[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    st, sp, ln = 0, 1, n
                else:
                    st, sp, ln = norm_slice(k, n)
                axmap.append(('a', len(shape), st, sp))
                shape.append(iw(ln))
            elif isinstance(k, (SArr, _np.ndarray, list, tuple, SMa)) and not (isinstance(k, (SArr, _np.ndarray)) and k.ndim == 0):
                fancy.append((ax, len(shape), as_sarr(list(k) if isinstance(k, tuple) else k)))
                axmap.append(None)
                shape.append('fancy')
            else:
                if isinstance(k, (SArr, _np.ndarray)):
                    k = k.item()
                if isinstance(k, (bool, _np.bool_, SBool)):
                    raise Unsupported('boolean scalar index')
                if not isinstance(k, (SInt, numbers.Integral)):
                    try:
                        k = k.__index__()
                    except AttributeError:
                        raise IndexError('only integers, slices, ellipsis, newaxis and arrays are valid indices')
                axmap.append(('f', _neg_norm(k, n)))
            ax += 1
        if fancy:
            return self._fancy(axmap, shape, fancy)
        vd = self._compose(axmap)
        if not shape:
            return self.buf.read(tuple(v[1] for v in vd))
        out = SArr(self.buf, vd, shape)
        out.base = self
        out.is_list = self.is_list
        return out

    def _compose(self, axmap):
        vd = []
        for v in self.vdims:
            if v[0] == 'f':
                vd.append(v)
            else:
                _, ax, st, sp = v
                m = axmap[ax]
                if m[0] == 'f':
                    vd.append(('f', simp(ibin('add', st, ibin('mul', m[1], sp)))))
                else:
                    vd.append(('a', m[1], simp(ibin('add', st, ibin('mul', m[2], sp))), sp * m[3]))
        return vd

    def _fancy(self, axmap, shape, fancy):
        arrs = []
        for ax, pos, a in fancy:
            if a.kind == 'b':
                if a.ndim != 1:
                    raise Unsupported('n-d boolean with other indices')
                if not dims_equal(a.shape[0], self.shape[ax]):
                    raise IndexError('boolean index did not match indexed array')
                a = nonzero1(a)
            if a.kind == 'f':
                if a.shape == (0,):
                    a = a.astype('i8')
                else:
                    raise IndexError('arrays used as indices must be of integer (or boolean) type')
            arrs.append((ax, pos, a))
        bshape = broadcast_shapes(*[a.shape for _, _, a in arrs])
        # out of range indices raise
        norm = {}
        for ax, pos, a in arrs:
            n = iexp(self.shape[ax])
            f = a.snap()
            if a.is_concrete_shape() and (a.size if isinstance(a.size, int) else 99) <= 16:
                vals = {}
                for idx, v in a.elements():
                    vals[idx] = _neg_norm(v, self.shape[ax])
                nf = _table(vals)
            else:
                ks = [ENG.fresh_int('fi') for _ in a.shape]
                inr = band(*[band(ibin('le', 0, k), ibin('lt', k, iexp(s))) for k, s in zip(ks, a.shape)])
                v = num(f(tuple(ks)))
                bad = band(inr, bnot(band(ibin('le', ibin('sub', 0, n), v), ibin('lt', v, n))))
                if exists_decide(bad, ks):
                    raise IndexError('index out of bounds')
                nn = known_forall(band(inr), v >= 0)
                if nn:
                    nf = (lambda f: lambda idx: iexp(f(idx)))(f)
                else:
                    def nf(idx, f=f, n=n):
                        w = iexp(f(idx))
                        if isinstance(w, int) and isinstance(n, int):
                            return w + n if w < 0 else w
                        w = z3.IntVal(w) if isinstance(w, int) else w
                        return z3.If(w >= 0, w, w + n)
            norm[ax] = (nf, a.shape)
        positions = [pos for _, pos, _ in arrs]
        # output shape: if the fancy axes are adjacent the broadcast dims replace them, else they go first
        adj = all(positions[i + 1] - positions[i] == 1 for i in range(len(positions) - 1))
        # integer scalars between arrays would also count, not needed here
        first = positions[0] if adj else 0
        out_shape = []
        posmap = {}
        for i, s in enumerate(shape):
            if s == 'fancy' if isinstance(s, str) else False:
                continue
        if adj:
            before = [s for i, s in enumerate(shape) if i < first]
            after = [s for i, s in enumerate(shape) if i > positions[-1]]
            out_shape = before + list(bshape) + after
            foff = len(before)
            cnt = 0
            for i, s in enumerate(shape):
                if i < first:
                    posmap[i] = i
                elif i > positions[-1]:
                    posmap[i] = len(before) + len(bshape) + cnt
                    cnt += 1
        else:
            rest = [i for i in range(len(shape)) if i not in positions]
            out_shape = list(bshape) + [shape[i] for i in rest]
            foff = 0
            for c, i in enumerate(rest):
                posmap[i] = len(bshape) + c
        src = self.snap()
        nself = self.ndim

        def fn(idx):
            fi = idx[foff:foff + len(bshape)]
            full = []
            for ax in range(nself):
                m = axmap[ax]
                if m is None:
                    nf, ash = norm[ax]
                    full.append(nf(bidx(fi, ash, bshape)))
                elif m[0] == 'f':
                    full.append(m[1])
                else:
                    full.append(ibin('add', m[2], ibin('mul', idx[posmap[m[1]]], m[3])))
            return src(tuple(full))
        return from_fn(fn, out_shape, self.dtype)

    def _mask_key(self, key):
        """A full-shape boolean mask key, or None."""
        if isinstance(key, tuple) and len(key) == 1:
            key = key[0]
        if isinstance(key, SMa):
            key = key.filled(False) if False else key.data
        if isinstance(key, (SArr, _np.ndarray)) and dkind(key.dtype) == 'b' and key.ndim == self.ndim and key.ndim > 0:
            key = as_sarr(key)
            for a, b in zip(key.shape, self.shape):
                if not dims_equal(a, b):
                    raise IndexError('boolean index did not match indexed array')
            return key
        return None

    def __getattr__(self, k):
        if hasattr(list if self.__dict__.get('is_list') else _np.ndarray, k):
            raise Unsupported('array attribute ' + k)
        raise AttributeError(k)

    def __setitem__(self, key, value):
        if self.ndim == 1 and self.kind == 'O' and isinstance(key, (int, SInt, _np.integer)) and \
                (self.is_list or isinstance(value, (tuple, list)) or isinstance(value, _np.ndarray) and value.ndim > 0):
            from . import rt
            value = rt.freeze_value(value)
            i = _neg_norm(key, self.shape[0])
            v, = self.vdims
            x = simp(ibin('add', v[2], ibin('mul', i, v[3]))) if v[0] != 'f' else None
            self.buf.write([('eq', x)], lambda bi: value, lambda bi: True)
            return
        if isinstance(value, SMa):
            value = value.data
        mk = self._mask_key(key)
        if mk is not None:
            m = mk.snap()
            cond = lambda vi: zb_(m(vi))
            if isinstance(value, SArr) and value.ndim == 1 and value.mask_src is not None and \
                    same_mask(value.mask_src[1], mk):
                src = value.mask_src[0]
                self._write_view([('a',)] * self.ndim, lambda vi: src(vi), cond)
                return
            if isinstance(value, (SArr, _np.ndarray)) and value.ndim > 0:
                if mk.is_concrete_shape() and all(not isinstance(v, Sym) for _, v in mk.elements()):
                    value = as_sarr(value)
                    c = 0
                    for idx, v in mk.elements():
                        if v:
                            self[idx] = value[c] if value.shape[0] != 1 else value[0]
                            c += 1
                    return
                value = as_sarr(value)
                if value.ndim == 1:
                    if value.shape == (1,):
                        v = value.get((0,))
                        self._write_view([('a',)] * self.ndim, lambda vi: v, cond)
                        return
                    if mk.ndim > 1 and not mk.is_concrete_shape():
                        raise Unsupported('mask assignment')
                    w = nonzero1(mk if mk.ndim == 1 else mk.reshape(-1))
                    if not dims_equal(w.shape[0], value.shape[0]):
                        raise ValueError('cannot assign to boolean selection')
                    vf = value.snap()
                    pos = w.posfn

                    def at(vi):
                        p = vi[0]
                        for d in range(1, mk.ndim):
                            p = p * mk.shape[d] + vi[d]
                        return vf((pos(p),))
                    self._write_view([('a',)] * self.ndim, at, cond)
                    return
                raise Unsupported('mask assignment')
            if isinstance(value, (list,)):
                return self.__setitem__(key, as_sarr(value))
            self._write_view([('a',)] * self.ndim, lambda vi: value, cond)
            return
        key = self._parse(key)
        axmap = []
        shape = []
        ax = 0
        fancy = []
        for k in key:
            if k is None:
                raise Unsupported('newaxis assignment')
            n = self.shape[ax]
            if isinstance(k, slice):
                st, sp, ln = norm_slice(k, n) if not (k.start is None and k.stop is None and k.step is None) else (0, 1, n)
                axmap.append(('a', len(shape), st, sp, iexp(ln)))
                shape.append(iw(ln))
            elif isinstance(k, (SArr, _np.ndarray, list)) and not (isinstance(k, (SArr, _np.ndarray)) and k.ndim == 0):
                k = as_sarr(k)
                if k.kind == 'b':
                    if not dims_equal(k.shape[0], n):
                        raise IndexError('boolean index did not match indexed array')
                fancy.append((ax, k))
                axmap.append(('x', k))
            else:
                if isinstance(k, (SArr, _np.ndarray)):
                    k = k.item()
                axmap.append(('f', _neg_norm(k, n)))
            ax += 1
        if fancy:
            return self._set_fancy(axmap, shape, fancy, value)
        val, vshape = as_value(value)
        if vshape:
            if len(vshape) > len(shape):
                # leading ones may be dropped
                extra = len(vshape) - len(shape)
                if all(isinstance(s, int) and s == 1 for s in vshape[:extra]):
                    v0 = val
                    val = lambda i, v0=v0: v0((0,) * extra + tuple(i))
                    vshape = vshape[extra:]
                else:
                    raise ValueError('could not broadcast input array')
            full = broadcast_shapes(tuple(shape), vshape)
            for a, b in zip(full, shape):
                if not same(a, b) and not dims_equal(a, b):
                    raise ValueError('could not broadcast input array into shape')

        comps = []
        # map to buffer dims
        inv = [None] * len(shape)
        for v in self.vdims:
            if v[0] == 'f':
                comps.append(('eq', v[1]))
                continue
            _, ax, st, sp = v
            m = axmap[ax]
            if m[0] == 'f':
                comps.append(('eq', simp(ibin('add', st, ibin('mul', m[1], sp)))))
            else:
                s0 = simp(ibin('add', st, ibin('mul', m[2], sp)))
                s1 = sp * m[3]
                ln = m[4]
                comps.append(('lin', s0, s1, ln, m[1]))
        return self._do_write(comps, len(shape), (lambda oi: val(bidx(oi, vshape, tuple(shape))) if vshape else val(())), None)

    def _do_write(self, comps, nout, val, cond):
        """comps entries: ('eq', e) or ('lin', start, step, length, out axis)."""
        bc = []
        for c in comps:
            if c[0] == 'eq':
                bc.append(c)
            else:
                _, s0, s1, ln, _ax = c
                if s1 > 0:
                    last = ibin('add', s0, ibin('add', ibin('mul', ibin('sub', ln, 1), s1), 1))
                    bc.append(('rng', s0, simp(last)))
                else:
                    lo = ibin('add', s0, ibin('mul', ibin('sub', ln, 1), s1))
                    bc.append(('rng', simp(lo), simp(ibin('add', s0, 1))))

        def outidx(bi):
            oi = [0] * nout
            for c, x in zip(comps, bi):
                if c[0] == 'lin':
                    _, s0, s1, ln, ax = c
                    d = ibin('sub', x, s0)
                    if s1 == 1:
                        oi[ax] = d
                    elif s1 == -1:
                        oi[ax] = ibin('sub', s0, x)
                    else:
                        oi[ax] = d // s1 if isinstance(d, int) else (d / s1 if s1 > 0 else (-d) / (-s1))
            return tuple(oi)

        def bcond(bi):
            cs = []
            for c, x in zip(comps, bi):
                if c[0] == 'lin' and abs(c[2]) != 1:
                    d = ibin('sub', x, c[1])
                    m = abs(c[2])
                    cs.append((d % m == 0) if isinstance(d, int) else (d % m == 0))
            if cond is not None:
                cs.append(cond(outidx(bi)))
            return band(*cs)
        self.buf.write(bc, lambda bi: val(outidx(bi)), bcond)

    def _write_view(self, _unused, val, cond):
        comps = []
        for v in self.vdims:
            if v[0] == 'f':
                comps.append(('eq', v[1]))
            else:
                _, ax, st, sp = v
                comps.append(('lin', st, sp, iexp(self.shape[ax]), ax))
        self._do_write(comps, self.ndim, val, cond)

    def _set_fancy(self, axmap, shape, fancy, value):
        if len(fancy) == 1 and fancy[0][1].kind == 'b' and fancy[0][1].ndim == 1:
            ax0, m = fancy[0]
            if isinstance(value, (SArr, _np.ndarray, list)) and as_sarr(value).ndim > 0:
                raise Unsupported('assignment of an array through a boolean axis index')
            mf = m.snap()
            comps = []
            nout = 0
            order = {}
            for v in self.vdims:
                if v[0] == 'f':
                    comps.append(('eq', v[1]))
                    continue
                _, ax, st, sp = v
                mm = axmap[ax]
                if mm[0] == 'f':
                    comps.append(('eq', simp(ibin('add', st, ibin('mul', mm[1], sp)))))
                elif mm[0] == 'x':
                    comps.append(('lin', st, sp, iexp(self.shape[ax]), nout))
                    order[ax] = nout
                    nout += 1
                else:
                    comps.append(('lin', simp(ibin('add', st, ibin('mul', mm[2], sp))), sp * mm[3], mm[4], nout))
                    nout += 1
            p = order[ax0]
            return self._do_write(comps, nout, lambda oi: value, lambda oi: zb_(mf((oi[p],))))
        # concrete integer fancy assignment
        if all(k.is_concrete_shape() for _, k in fancy) and all(m[0] in 'xf' for m in axmap):
            bsh = broadcast_shapes(*[k.shape for _, k in fancy])
            import itertools
            val, vshape = as_value(value)
            for bi in itertools.product(*[range(s) for s in bsh]):
                full = []
                for m in axmap:
                    if m[0] == 'f':
                        full.append(iw(m[1]))
                    else:
                        full.append(m[1].get(bidx(bi, m[1].shape, bsh)))
                self[tuple(full)] = val(bidx(bi, vshape, bsh)) if vshape else val(())
            return
        raise Unsupported('fancy assignment')

    # -- elementwise
    def __eq__(self, o):
        if self.is_list:
            return list_eq(self, o)
        if o is None:
            return emap(lambda a: a is None, self, dtype=DT['b'])
        return elementwise('eq', self, o)

    def __ne__(self, o):
        if self.is_list:
            r = list_eq(self, o)
            return (not r)
        if o is None:
            return emap(lambda a: a is not None, self, dtype=DT['b'])
        return elementwise('ne', self, o)

    def __neg__(self):
        return emap(lambda a: scal('neg', a), self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return emap(lambda a: scal('abs', a), self)

    def __invert__(self):
        if self.kind == 'b':
            return emap(lambda a: scal('not', a), self)
        return emap(lambda a: scal('sub', scal('neg', a), 1), self)

    def _inplace(self, op, o):
        r = elementwise(op, self, o)
        if self.is_list:
            raise Unsupported('list in-place operator')
        if self.kind == 'i' and dkind(r.dtype) == 'f':
            raise TypeError('Cannot cast ufunc output from float to int with casting rule same_kind')
        if isinstance(r, SMa):
            r = r.data
        ms = r.mask_src if self.mask_src is not None else None
        self[...] = r
        if ms is not None:
            self.mask_src = ms
        return self

    def __iadd__(self, o):
        return self._inplace('add', o)

    def __isub__(self, o):
        return self._inplace('sub', o)

    def __imul__(self, o):
        return self._inplace('mul', o)

    def __itruediv__(self, o):
        return self._inplace('truediv', o)

    # -- methods
    def copy(self, order=None):
        r = from_fn(self.snap(), self.shape, self.dtype)
        r.buf.tag = self.buf.tag if self.whole() else None
        r.is_list = self.is_list
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def whole(self):
        return all(v[0] == 'a' and v[1] == i and same(v[2], 0) and v[3] == 1 for i, v in enumerate(self.vdims)) and \
            len(self.vdims) == len(self.shape)

    def astype(self, dt, copy=True):
        dt = _np.dtype(dt)
        k = dkind(dt)
        return emap(lambda a: cast_kind(a, k), self, dtype=dt)

    def view(self, *a, **k):
        return self[...] if self.shape else self

    def fill(self, v):
        self[...] = v

    def transpose(self, *axes):
        if len(axes) == 1 and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        if not axes:
            axes = tuple(range(self.ndim))[::-1]
        axes = [int(a) for a in axes]
        inv = {a: i for i, a in enumerate(axes)}
        vd = [v if v[0] == 'f' else ('a', inv[v[1]], v[2], v[3]) for v in self.vdims]
        return SArr(self.buf, vd, tuple(self.shape[a] for a in axes))

    def swapaxes(self, a, b):
        ax = list(range(self.ndim))
        a, b = range(self.ndim)[a], range(self.ndim)[b]
        ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def squeeze(self, axis=None):
        if axis is None:
            axis = [i for i, s in enumerate(self.shape) if (s == 1 if isinstance(s, int) else ENG.decide(zb(s == 1)))]
        elif not isinstance(axis, (tuple, list)):
            axis = [axis]
        axis = [range(self.ndim)[a] for a in axis]
        for a in axis:
            s = self.shape[a]
            if not (s == 1 if isinstance(s, int) else ENG.decide(zb(s == 1))):
                raise ValueError('cannot select an axis to squeeze out which has size not equal to one')
        keep = [i for i in range(self.ndim) if i not in axis]
        if not keep and False:
            pass
        m = {o: n for n, o in enumerate(keep)}
        vd = []
        for v in self.vdims:
            if v[0] == 'f':
                vd.append(v)
            elif v[1] in m:
                vd.append(('a', m[v[1]], v[2], v[3]))
            else:
                vd.append(('f', v[2]))
        return SArr(self.buf, vd, tuple(self.shape[i] for i in keep))

    def flatten(self, order='C'):
        r = self.ravel(order).copy()
        if self.ndim > 1:
            r._flat = (self.snap(), self.shape, r.buf.fn)
        return r

    def ravel(self, order='C'):
        if order == 'F':
            return self.transpose().reshape(-1)
        if order != 'C':
            raise Unsupported('flattening order')
        return self.reshape(-1)

    @property
    def flat(self):
        return self.reshape(-1)

    def resize(self, *shape, **kw):
        """In place, for an array of its own data and the same number of elements."""
        if not self.whole():
            raise Unsupported('resize of a view')
        r = SArr(self.buf, self.vdims, self.shape).reshape(*shape)
        self.buf, self.vdims, self.shape = r.buf, r.vdims, r.shape

    def reshape(self, *shape, **kw):
        if kw.get('order', 'C') == 'F':
            if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
                shape = tuple(shape[0])
            return self.transpose().reshape(*tuple(shape)[::-1]).transpose()
        if kw.get('order', 'C') != 'C':
            raise Unsupported('reshape order')
        if len(shape) == 1 and isinstance(shape[0], (tuple, list, SArr, _np.ndarray)):
            shape = tuple(shape[0])
        shape = list(shape)
        for i, s in enumerate(shape):
            if isinstance(s, numbers.Integral):
                shape[i] = int(s)
        old = self.shape
        if any(isinstance(s, int) and s == -1 for s in shape):
            p = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1][0]
            rest = shape_prod([s for i, s in enumerate(shape) if i != p])
            tot = self.size
            if isinstance(rest, int) and isinstance(tot, int):
                if rest == 0 or tot % rest:
                    raise ValueError('cannot reshape array')
                shape[p] = tot // rest
            else:
                # symbolic: cancel common factors
                o = [s for s in old if not (isinstance(s, int) and s == 1)]
                for i, s in enumerate(shape):
                    if i == p:
                        continue
                    for j, t in enumerate(o):
                        if same(s, t):
                            del o[j]
                            break
                    else:
                        if not (isinstance(s, int) and s == 1):
                            raise Unsupported('symbolic reshape')
                shape[p] = shape_prod(o)
        shape = tuple(simp_dim(s) for s in shape)
        if len(shape) == len(old) and all(same(a, b) for a, b in zip(shape, old)):
            return SArr(self.buf, self.vdims, shape)
        # inserting / removing unit dimensions keeps a view
        nz_old = [(i, s) for i, s in enumerate(old) if not (isinstance(s, int) and s == 1)]
        nz_new = [(i, s) for i, s in enumerate(shape) if not (isinstance(s, int) and s == 1)]
        if len(nz_old) == len(nz_new) and all(same(a[1], b[1]) or known(zb_(a[1] == b[1])) for a, b in zip(nz_old, nz_new)):
            m = {o[0]: n[0] for o, n in zip(nz_old, nz_new)}
            vd = []
            for v in self.vdims:
                if v[0] == 'f':
                    vd.append(v)
                elif v[1] in m:
                    vd.append(('a', m[v[1]], v[2], v[3]))
                else:
                    vd.append(('f', v[2]))
            return SArr(self.buf, vd, shape)
        # general: copy through the row-major offset
        tot_o, tot_n = self.size, shape_prod(shape)
        if isinstance(tot_o, int) and isinstance(tot_n, int):
            if tot_o != tot_n:
                raise ValueError('cannot reshape array of size %s into shape %s' % (tot_o, shape))
        elif not same(tot_o, tot_n) and known(zb_(tot_o == tot_n)) is not True:
            if not ENG.decide(zb(tot_o == tot_n)):
                raise ValueError('cannot reshape array')
        src = self.snap()
        osz = [iexp(s) for s in old]
        nsz = [iexp(s) for s in shape]

        def fn(idx):
            off = 0
            for x, s in zip(idx, nsz):
                off = ibin('add', ibin('mul', off, s), x)
            out = []
            rem = off
            for s in osz[::-1][:-1]:
                if isinstance(rem, int) and isinstance(s, int):
                    out.append(rem % s)
                    rem = rem // s
                else:
                    out.append(rem % s)
                    rem = rem / s
            out.append(rem)
            return src(tuple(out[::-1]))
        r = from_fn(fn, shape, self.dtype)
        r.flat_of = (src, old)
        return r

    # -- reductions
    def any(self, axis=None, **kw):
        return reduce_bool(self, True, axis, **kw)

    def all(self, axis=None, **kw):
        return reduce_bool(self, False, axis, **kw)

    def min(self, axis=None, **kw):
        return reduce_minmax(self, 'min', axis)

    def max(self, axis=None, **kw):
        return reduce_minmax(self, 'max', axis)

    def sum(self, axis=None, dtype=None, **kw):
        return reduce_sum(self, axis)

    def mean(self, axis=None, **kw):
        return reduce_mean(self, axis)

    def nonzero(self):
        from . import snp
        return snp.where(self)

    def argmin(self):
        return arg_minmax(self, 'min')

    def argmax(self):
        return arg_minmax(self, 'max')

    def std(self, axis=None, **kw):
        return reduce_uf(self, 'std', axis)

    def var(self, axis=None, **kw):
        return reduce_uf(self, 'var', axis)

    def take(self, idx, axis=None):
        if axis is None:
            return self.reshape(-1)[idx]
        key = [slice(None)] * self.ndim
        key[axis] = idx
        return self[tuple(key)]

    def cumsum(self, axis=None):
        if self.ndim == 1 and self.is_concrete_shape():
            out = []
            t = 0
            for i in range(self.shape[0]):
                t = scal('add', t, self.get((i,)))
                out.append(t)
            return from_nested(out)
        raise Unsupported('cumsum')

    def round(self, *a):
        raise Unsupported('round of an array')

    # -- list protocol for symbolic-length lists
    def append(self, v):
        if not self.is_list:
            raise AttributeError('append')
        raise Unsupported('append to a symbolic-length list')

    def index(self, v):
        raise Unsupported('index of a symbolic list')


def _dunder(op, rev=False):
    def f(self, o):
        if self.is_list and op == 'add' and isinstance(o, (list, SArr)):
            return list_concat(o, self) if rev else list_concat(self, o)
        if o is None or isinstance(o, str):
            raise TypeError('unsupported operand')
        return elementwise(op, o, self) if rev else elementwise(op, self, o)
    return f


for _n, _o in [('add', 'add'), ('sub', 'sub'), ('mul', 'mul'), ('truediv', 'truediv'), ('floordiv', 'floordiv'),
               ('mod', 'mod'), ('pow', 'pow'), ('and', 'and'), ('or', 'or'), ('xor', 'xor')]:
    setattr(SArr, '__%s__' % _n, _dunder(_o))
    setattr(SArr, '__r%s__' % _n, _dunder(_o, True))
for _n in ['lt', 'le', 'gt', 'ge']:
    setattr(SArr, '__%s__' % _n, _dunder(_n))


def zb_(x):
    """Bool condition: Python bool or z3 Bool."""
    if isinstance(x, (bool, _np.bool_)):
        return bool(x)
    if isinstance(x, SArr) and len(x.shape) == 0:
        x = x.get(())
        if isinstance(x, (bool, _np.bool_)):
            return bool(x)
    e = zb(x)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp_dim(s):
    if isinstance(s, Sym):
        if isinstance(s, SInt):
            v = z3.simplify(s.e)
            return v.as_long() if z3.is_int_value(v) else SInt(v)
        raise TypeError('float dimension')
    if isinstance(s, z3.ExprRef):
        return simp_dim(SInt(s))
    if isinstance(s, SArr):
        return simp_dim(s.item())
    return int(s)


def _table(vals):
    def f(idx):
        if all(isinstance(x, int) for x in idx):
            return vals[tuple(idx)]
        r = None
        for k, v in vals.items():
            c = band(*[ibin('eq', x, y) for x, y in zip(idx, k)])
            if r is None:
                r = v
            elif isinstance(v, (int,)) or isinstance(v, z3.ExprRef):
                r = iexp(ite(c, iw(v), iw(r)))
            else:
                r = ite(c, v, r)
        return r
    return f


def from_fn(fn, shape, dtype):
    shape = tuple(simp_dim(s) for s in shape)
    b = Buf(fn, _np.dtype(dtype), len(shape))
    return SArr(b, [('a', i, 0, 1) for i in range(len(shape))], shape)


def const_arr(v, shape, dtype):
    k = dkind(_np.dtype(dtype))
    c = cast_kind(v, k)
    return from_fn(lambda idx: c, shape, dtype)


def from_nested(x, dtype=None, ndmin=0):
    """numpy.array for nested sequences with symbolic leaves."""
    def shp(v):
        if isinstance(v, (list, tuple)) and not is_vec_leaf(v):
            if not v:
                return (0,)
            subs = [shp(i) for i in v]
            for s in subs[1:]:
                if len(s) != len(subs[0]):
                    return (len(v),)
            return (len(v),) + tuple(subs[0])
        if isinstance(v, (SArr, _np.ndarray, SMa)):
            return tuple(v.shape)
        return ()

    if isinstance(x, SMa):
        x = x.data
    if isinstance(x, SArr):
        r = x.copy()
        r.is_list = False
        if dtype is not None:
            r = r.astype(dtype)
        elif x.is_list and x.kind == 'O':
            r = infer_kind(r)
        return nd_min(r, ndmin)
    if isinstance(x, _np.ndarray):
        return nd_min(as_sarr(x if dtype is None else x.astype(dtype)).copy(), ndmin)
    s = shp(x)

    def at(v, idx):
        for n, i in enumerate(idx):
            if isinstance(v, (SArr, SMa)):
                return v.get(tuple(idx[n:])) if isinstance(v, SArr) else v.data.get(tuple(idx[n:]))
            if isinstance(v, _np.ndarray):
                v = v[tuple(idx[n:])]
                return v
            if isinstance(i, int):
                v = v[i]
            else:
                r = None
                rest = tuple(idx[n + 1:])
                for k in range(len(v)):
                    w = at(v[k], rest)
                    r = w if r is None else ite(ibin('eq', i, k), w, r)
                return r
        if isinstance(v, (SArr,)):
            return v.get(())
        return v
    import itertools
    if s and all(isinstance(d, int) for d in s):
        leaves = [at(x, i) for i in itertools.product(*[range(d) for d in s])]
    elif s == ():
        leaves = [x]
    else:
        leaves = [at(x, tuple(z3.Int('probe') for _ in s)[:0] + tuple(0 for _ in s))]
    if dtype is None:
        if not leaves:
            dt = DT['f']
        else:
            k = None
            for l in leaves:
                kk = kind_of(l)
                k = kk if k is None else join_kind(k, kk)
            dt = DT[k]
    else:
        dt = _np.dtype(dtype)
    k = dkind(dt)
    if s == ():
        v = cast_kind(x, k)
        r = from_fn(lambda idx: v, (), dt)
    else:
        frozen = _freeze(x)
        r = from_fn(lambda idx: cast_kind(at(frozen, idx), k), s, dt)
    return nd_min(r, ndmin)


def _freeze(x):
    if isinstance(x, (list, tuple)):
        return [_freeze(i) for i in x]
    if isinstance(x, SArr):
        return from_fn(x.snap(), x.shape, x.dtype)
    if isinstance(x, SMa):
        return _freeze(x.data)
    return x


def is_vec_leaf(v):
    return False


def infer_kind(r):
    if all(isinstance(s, int) for s in r.shape) and 0 in r.shape:
        return r
    v = r.get(tuple(0 for _ in r.shape)) if r.is_concrete_shape() else r.get(tuple(z3.Int('probe') for _ in r.shape))
    return r.astype(DT[kind_of(v)])


def nd_min(r, ndmin):
    while r.ndim < ndmin:
        r = r[None]  if r.ndim else r.reshape(1)
    return r


def as_sarr(x):
    if isinstance(x, SArr):
        return x
    if isinstance(x, SMa):
        return x.data
    if isinstance(x, _np.ndarray):
        a = x
        if a.dtype.kind in 'biufO':
            def fn(idx):
                if all(isinstance(i, int) for i in idx):
                    v = a[tuple(idx)]
                    return v.item() if isinstance(v, _np.generic) else v
                r = None
                if a.size > 4096:
                    raise Unsupported('large concrete array indexed symbolically')
                for k in _np.ndindex(*a.shape):
                    v = a[k]
                    v = v.item() if isinstance(v, _np.generic) else v
                    r = v if r is None else ite(band(*[ibin('eq', x, y) for x, y in zip(idx, k)]), v, r)
                return r
            ac = a.copy()
            a = ac
            return from_fn(fn, a.shape, a.dtype)
        return from_nested(a.tolist(), dtype=object)
    return from_nested(x)


def as_value(v):
    """(element function, shape) of an assigned value."""
    if isinstance(v, SMa):
        v = v.data
    if isinstance(v, (SArr, _np.ndarray)):
        v = as_sarr(v)
        if v.ndim == 0:
            x = v.get(())
            return (lambda i: x), ()
        return v.snap(), v.shape
    if isinstance(v, (list, tuple)):
        a = from_nested(v)
        return a.snap(), a.shape
    if isinstance(v, range):
        return as_value(list(v))
    return (lambda i: v), ()


def emap(f, *args, **kw):
    """Elementwise map with broadcasting over SArr/ndarray/scalars."""
    arrs = []
    for a in args:
        if isinstance(a, (SArr, _np.ndarray)):
            a = as_sarr(a)
            arrs.append((a.snap(), a.shape, a))
        elif isinstance(a, (list, tuple)):
            a = from_nested(a)
            arrs.append((a.snap(), a.shape, a))
        else:
            arrs.append(((lambda v: lambda i: v)(a), (), None))
    shape = broadcast_shapes(*[s for _, s, _ in arrs])

    def fn(idx):
        return f(*[g(bidx(idx, s, shape)) for g, s, _ in arrs])
    dtype = kw.get('dtype')
    if dtype is None:
        nz = [a for _, _, a in arrs if a is not None]
        dtype = nz[0].dtype
    k = dkind(_np.dtype(dtype))
    out = from_fn((lambda idx: cast_kind(fn(idx), k)) if k in 'if' else fn, shape, dtype)
    # boolean compression is preserved through maps with scalars
    srcs = [a.mask_src for _, _, a in arrs if a is not None and a.mask_src is not None]
    if srcs and all((a is None or a.mask_src is not None) for _, _, a in arrs) and \
            all(same_mask(s[1], srcs[0][1]) for s in srcs):
        m = srcs[0][1]
        parts = [(a.mask_src[0] if a is not None else None, g) for g, s, a in arrs]

        def src(vi):
            return f(*[ms(vi) if ms is not None else g(()) for ms, g in parts])
        out.mask_src = (src, m)
    return out


def elementwise(op, a, b):
    if isinstance(a, SMa) or isinstance(b, SMa):
        return ma_elementwise(op, a, b)
    if isinstance(a, _np.ma.MaskedArray) or isinstance(b, _np.ma.MaskedArray):
        return ma_elementwise(op, a, b)
    ka = dkind(a.dtype) if isinstance(a, (SArr, _np.ndarray)) else (kind_of(a) if not isinstance(a, (list, tuple)) else from_nested(a).kind)
    kb = dkind(b.dtype) if isinstance(b, (SArr, _np.ndarray)) else (kind_of(b) if not isinstance(b, (list, tuple)) else from_nested(b).kind)
    if op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        dt = DT['b']
        if op in ('eq', 'ne') and (ka == 'O' or kb == 'O'):
            return emap(lambda x, y: obj_cmp(op, x, y), a, b, dtype=dt)
    elif op in ('and', 'or', 'xor'):
        dt = DT['b']
    elif op == 'truediv':
        dt = DT['f']
    else:
        k = join_kind(ka, kb)
        if k == 'b':
            k = 'b' if op in ('add', 'mul') else 'i'
        dt = DT[k]
        # keep narrow dtypes when both sides agree
        if isinstance(a, (SArr, _np.ndarray)) and dkind(a.dtype) == k:
            dt = a.dtype
        elif isinstance(b, (SArr, _np.ndarray)) and dkind(b.dtype) == k:
            dt = b.dtype
        if k == 'b':
            op = {'add': 'or', 'mul': 'and'}[op]
    if 'O' in (ka, kb):
        import operator as o
        f = {'add': o.add, 'sub': o.sub, 'mul': o.mul, 'truediv': o.truediv, 'lt': o.lt, 'le': o.le, 'gt': o.gt,
             'ge': o.ge}.get(op)
        if f is not None:
            return emap(f, a, b, dtype=dt)
    return emap(lambda x, y: scal(op, x, y), a, b, dtype=dt)


def obj_cmp(op, x, y):
    if is_num(x) and is_num(y):
        return scal(op, x, y)
    r = (x == y)
    if op == 'ne':
        r = scal('not', r) if isinstance(r, Sym) else (not r)
    return r


def list_eq(a, b):
    if not isinstance(b, (list, tuple, SArr)):
        return False
    b = as_sarr(b) if not isinstance(b, SArr) else b
    if not dims_equal(a.shape[0], b.shape[0]):
        return False
    return bool(elementwise('eq', a, b).all())


def list_concat(a, b):
    a = as_list(a)
    b = as_list(b)
    r = concat([a, b], 0)
    r.is_list = True
    return r


def as_list(x):
    if isinstance(x, SArr):
        return x
    r = from_nested(x, dtype=object) if not any(isinstance(i, (list, tuple)) for i in x) else obj_vector(list(x))
    r.is_list = True
    return r


def obj_vector(items):
    items = list(items)
    def fn(idx):
        i = idx[0]
        if isinstance(i, int):
            return items[i]
        r = None
        for k, v in enumerate(items):
            r = v if r is None else ite(ibin('eq', i, k), v, r)
        return r
    return from_fn(fn, (len(items),), object)


# ----------------------------------------------------------------------------------------------- quantified helpers
def in_range(ks, shape):
    return band(*[band(ibin('le', 0, k), ibin('lt', k, iexp(s))) for k, s in zip(ks, shape)])


def exists_decide(cond, ks):
    """Fork on: exists ks. cond(ks). True branch has ks as witness; False branch assumes the universal negation."""
    if isinstance(cond, bool):
        if not cond:
            return False
    c = cond if isinstance(cond, z3.ExprRef) else z3.BoolVal(cond)
    b = ENG.fresh_bool('ex')
    bound = [z3.Int('qx!%d' % i) for i in range(len(ks))]
    neg = z3.Not(c)
    body = z3.substitute(neg, *list(zip(ks, bound)))
    # cheap static answer
    if known(c) is False:
        return False
    ENG.assume(z3.Implies(b, c))
    if ENG.decide(b):
        return True
    ENG.assume(z3.ForAll(bound, body) if bound else neg)
    return False


def known_forall(rng, cond):
    s = z3.Solver()
    s.set('timeout', 500)
    s.add(*ENG.pc)
    s.add(*ENG.qpc)
    if rng is not True:
        s.add(rng)
    s.add(z3.Not(cond))
    return s.check() == z3.unsat


def _axes(a, axis):
    if axis is None:
        return list(range(a.ndim))
    if isinstance(axis, (tuple, list)):
        return [range(a.ndim)[x] for x in axis]
    return [range(a.ndim)[axis]]


def _along(a, axis, f, dtype=None):
    """Apply reduction f(element function over reduced dims, shape of reduced dims, kept index) for the kept dims."""
    axes = _axes(a, axis)
    keep = [i for i in range(a.ndim) if i not in axes]
    rshape = [a.shape[i] for i in axes]
    src = a.snap()

    def g_at(kept):
        def g(ridx):
            full = [None] * a.ndim
            for i, k in zip(keep, kept):
                full[i] = k
            for i, k in zip(axes, ridx):
                full[i] = k
            return src(tuple(full))
        return g
    if not keep:
        return f(g_at(()), rshape, None, None)
    kshape = [a.shape[i] for i in keep]
    if small(rshape, 64):
        fn = lambda kept: f(g_at(kept), rshape, None, None)
    else:
        fn = f(g_at, rshape, keep, kshape)
    return from_fn(fn, kshape, dtype or a.dtype)


def small(rshape, limit=24):
    if not all(isinstance(s, int) for s in rshape):
        return False
    return shape_prod(rshape) <= limit


def reduce_bool(a, is_any, axis=None, **kw):
    import itertools

    def quant(g, rshape):
        ks = [z3.Int(ENG.fresh_name('q')) for _ in rshape]
        rng = as_e(in_range(ks, rshape))
        with ENG.binding(ks, rng):
            v = as_e(zb_(g(tuple(ks))))
        return ks, rng, v

    def f(g, rshape, keep, kshape):
        if keep is not None:
            def at(kept):
                ks, rng, v = quant(g(kept), rshape)
                if is_any:
                    return wrap(z3.Exists(ks, z3.And(rng, v)))
                return wrap(z3.ForAll(ks, z3.Implies(rng, v)))
            return at
        if small(rshape):
            vals = [g(i) for i in itertools.product(*[range(s) for s in rshape])]
            es = [zb_(v) for v in vals]
            r = bor(*es) if is_any else band(*es)
            return wrap(r) if not isinstance(r, bool) else r
        ks, rng, ve = quant(g, rshape)
        if is_any and z3.is_false(ve):
            return False
        if not is_any and z3.is_true(ve):
            return True
        if ENG.binders:
            return wrap(z3.Exists(ks, z3.And(rng, ve)) if is_any else z3.ForAll(ks, z3.Implies(rng, ve)))
        b = ENG.fresh_bool('any' if is_any else 'all')
        ws = [ENG.fresh_int('w') for _ in ks]
        sub = list(zip(ks, ws))
        vw, rw = z3.substitute(ve, *sub), z3.substitute(rng, *sub)
        if is_any:
            ENG.assume(z3.Implies(b, z3.And(rw, vw)))
            ENG.assume(z3.Implies(z3.Not(b), z3.ForAll(ks, z3.Implies(rng, z3.Not(ve)))))
        else:
            ENG.assume(z3.Implies(z3.Not(b), z3.And(rw, z3.Not(vw))))
            ENG.assume(z3.Implies(b, z3.ForAll(ks, z3.Implies(rng, ve))))
        return wrap(b)
    return _along(a, axis, f, DT['b'])


def reduce_minmax(a, which, axis=None):
    import itertools
    op = which
    if a._flat is not None and a._flat[2] is a.buf.fn:
        a, axis = from_fn(a._flat[0], a._flat[1], a.dtype), None

    def f(g, rshape, keep, kshape):
        if all(isinstance(s, int) for s in rshape) and shape_prod(rshape) == 0:
            raise ValueError('zero-size array to reduction operation %s which has no identity' % which)
        if keep is None and small(rshape, 64):
            vals = [g(i) for i in itertools.product(*[range(s) for s in rshape])]
            return reduce(lambda x, y: scal(op, x, y), vals)
        n = shape_prod(rshape)
        if isinstance(n, Sym):
            if ENG.decide(band(*[s > 0 if isinstance(s, int) else s.e > 0 for s in rshape]) if False else
                          as_e(bor(*[ibin('le', iexp(s), 0) for s in rshape]))):
                raise ValueError('zero-size array to reduction operation %s which has no identity' % which)
        fixed = [d for d, x in enumerate(rshape) if isinstance(x, int) and 0 < x <= 4]
        if keep is None and fixed and len(fixed) < len(rshape):
            # the extreme of the extremes along the short axes
            rest = [x for d, x in enumerate(rshape) if d not in fixed]
            vals = []
            for c in itertools.product(*[range(rshape[d]) for d in fixed]):
                def sub(i, c=c):
                    full, it = list(i), list(zip(fixed, c))
                    for d, x in it:
                        full.insert(d, x)
                    return g(tuple(full))
                vals.append(f(sub, rest, None, kshape))
            return reduce(lambda x, y: scal(op, x, y), vals)
        ks = [z3.Int(ENG.fresh_name('q')) for _ in rshape]
        rng = in_range(ks, rshape)
        if keep is None:
            with ENG.binding(ks, as_e(rng)):
                v = g(tuple(ks))
            ve = num(v)
            m = ENG.fresh_int(which) if ve.sort() == z3.IntSort() else ENG.fresh_real(which)
            ws = [ENG.fresh_int('w') for _ in ks]
            ENG.assume(as_e(in_range(ws, rshape)))
            ENG.assume(m == num(g(tuple(ws))))
            ENG.assume(z3.ForAll(ks, z3.Implies(as_e(rng), m <= ve if which == 'min' else m >= ve)))
            return wrap(m)
        kk = [z3.Int(ENG.fresh_name('q')) for _ in kshape]
        with ENG.binding(ks + kk):
            ve = num(g(tuple(kk))(tuple(ks)))
        isort = [z3.IntSort()] * len(kk)
        M = ENG.fresh_func(which, *(isort + [ve.sort()]))
        W = [ENG.fresh_func('w', *(isort + [z3.IntSort()])) for _ in ks]
        krng = in_range(kk, kshape)
        wk = tuple(w(*kk) for w in W)
        with ENG.binding(ks + kk):
            vw = num(g(tuple(kk))(wk))
        ENG.assume(z3.ForAll(kk, z3.Implies(as_e(krng), z3.And(as_e(in_range(wk, rshape)), M(*kk) == vw)),
                             patterns=[M(*kk)]))
        ENG.assume(z3.ForAll(kk + ks, z3.Implies(as_e(band(krng, rng)),
                                                 M(*kk) <= ve if which == 'min' else M(*kk) >= ve)))
        return lambda kept: wrap(M(*[z3.IntVal(k) if isinstance(k, int) else k for k in kept]))
    return _along(a, axis, f)


def arg_minmax(a, which):
    if a.ndim != 1:
        raise Unsupported('argmin n-d')
    if small(a.shape):
        best = a.get((0,))
        bi = 0
        for i in range(1, a.shape[0]):
            c = scal('lt' if which == 'min' else 'gt', a.get((i,)), best)
            best = ite(zb(c), a.get((i,)), best)
            bi = ite(zb(c), i, bi)
        return bi
    f = a.snap()
    w = ENG.fresh_int('arg')
    k = z3.Int(ENG.fresh_name('q'))
    n = iexp(a.shape[0])
    ENG.assume(z3.And(w >= 0, w < n))
    fw, fk = num(f((w,))), num(f((k,)))
    ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), fw <= fk if which == 'min' else fw >= fk)))
    ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < w), fk > fw if which == 'min' else fk < fw)))
    return wrap(w)


def as_e(c):
    return c if isinstance(c, z3.ExprRef) else z3.BoolVal(bool(c))


def zb_or_false(x):
    return zb(x)


def valid(f):
    """True without any assumption (cheap test)."""
    f = z3.simplify(f)
    if z3.is_true(f) or z3.is_false(f):
        return z3.is_true(f)
    s = z3.Solver()
    s.set('timeout', 250)
    s.add(z3.Not(f))
    return s.check() == z3.unsat


def free_consts(es, skip):
    """Constants of the expressions in order of first appearance, without those in ``skip``."""
    out, seen = [], set(c.get_id() for c in skip)
    for e in es:
        stack = [e]
        done = set()
        while stack:
            x = stack.pop()
            if x.get_id() in done:
                continue
            done.add(x.get_id())
            if z3.is_quantifier(x):
                stack.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    out.append(x)
            stack.extend(x.children()[::-1])
    return out


def uses_func(e, names):
    stack, done = [e], set()
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x):
            stack.append(x.body())
        elif z3.is_app(x):
            if x.num_args() and x.decl().name() in names:
                return True
            stack.extend(x.children())
    return False


def sum_node(g, n, nk=0, tag='sum', m=None):
    """Sum (or another reduction ``tag``) of the terms g(0..n-1) for symbolic n, where m(k) tells which are left out: an
    application of a canonical function symbol - one per form of the terms and the range - to the constants they contain."""
    import hashlib
    depth = sum(1 for x in ENG.binders for _ in [0] if str(x).startswith('sumk'))
    k = z3.Int('sumk%s' % (depth or ''))
    kk = [z3.Int('sumkept%d' % i) for i in range(nk)]
    with ENG.binding([k] + kk):
        e = z3.simplify(num((g(tuple(kk)) if nk else g)((k,))))
        me = z3.BoolVal(False)
        if m is not None:
            me = z3.simplify(as_e(zb_((m(tuple(kk)) if nk else m)((k,)))))
    ne = z3.simplify(num(iw(n)) if not isinstance(n, int) else z3.IntVal(n))
    if ENG.loops:
        inner = set(f.name() for lp in ENG.loops for f in lp.fresh_funcs)
        if inner and any(uses_func(x, inner) for x in (e, me, ne)):
            raise Unsupported('sum over values of an array made inside a symbolic loop')
    free = free_consts([e, me, ne], [k])
    params = [z3.Const('sf%d_%s' % (i, c.sort()), c.sort()) for i, c in enumerate(free)]
    sub = list(zip(free, params))
    canon = tuple(z3.simplify(z3.substitute(x, *sub)) for x in (e, me, ne)) if sub else (e, me, ne)
    h = hashlib.md5(repr((tag, depth) + tuple(x.sexpr() for x in canon)).encode()).hexdigest()[:12]
    ENG.lemmas_used.add('sum-extensionality')
    D = z3.Function('%s_%s' % (tag, h), *([c.sort() for c in params] + [z3.BoolSort() if tag == 'all' else e.sort()]))
    ENG.sumdefs[D.name()] = (params, k, canon, tag)
    r = D(*free)
    if not nk:
        if not ENG.binders and m is None and tag == 'sum':
            if r.sexpr() not in ENG.sums:
                # the same terms written differently
                for r2, k2, e2, n2 in ENG.sums.values():
                    if e2.sort() == e.sort() and valid(z3.And(n2 == ne, z3.substitute(e2, (k2, k)) == e)):
                        return wrap(r2)
            ENG.sums.setdefault(r.sexpr(), (r, k, e, ne))
        return wrap(r)
    return lambda kept: wrap(z3.substitute(r, *[(c, z3.IntVal(x) if isinstance(x, int) else x) for c, x in zip(kk, kept)]))


def extensionality(goal):
    """Instances of the axiom: two reductions of the same kind whose ranges agree and whose terms agree at every position
    are equal (the position where they might differ is a fresh constant)."""
    if not ENG.sumdefs:
        return
    apps, done, stack = [], set(), [goal]
    while stack:
        x = stack.pop()
        if x.get_id() in done:
            continue
        done.add(x.get_id())
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x):
            if x.decl().name() in ENG.sumdefs:
                apps.append(x)
            stack.extend(x.children())
    for x in apps:
        p, k, c, t = ENG.sumdefs[x.decl().name()]
        if t == 'all':
            # definition: true exactly when the predicate holds at every position
            sub = list(zip(p, x.children()))
            w = ENG.fresh_int('fails')
            m, n = z3.substitute(c[1], *sub), z3.substitute(c[2], *sub)
            mw = z3.substitute(m, (k, w))
            ENG.assume(z3.Implies(z3.Not(x), z3.And(0 <= w, w < n, z3.Not(mw))))
            ENG.assume(z3.Implies(x, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), m))))
    for i, x in enumerate(apps[:8]):
        for y in apps[i + 1:8]:
            (p1, k1, c1, t1), (p2, k2, c2, t2) = ENG.sumdefs[x.decl().name()], ENG.sumdefs[y.decl().name()]
            if t1 != t2:
                continue
            w = ENG.fresh_int('differ')

            def parts(x, p, k, c):
                sub = list(zip(p, x.children())) + [(k, w)]
                return [z3.substitute(v, *sub) for v in c]
            (e1, m1, n1), (e2, m2, n2) = parts(x, p1, k1, c1), parts(y, p2, k2, c2)
            a, b = x, y
            if e1.sort() != e2.sort():
                a, b, e1, e2 = [z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (a, b, e1, e2)]
            ENG.assume(z3.Implies(z3.And(n1 == n2, z3.Implies(z3.And(0 <= w, w < n1), z3.And(
                m1 == m2, z3.Implies(z3.Not(m1), e1 == e2)))), a == b))


def same_sums(x):
    """Equate the given sum with every other sum of this path whose range and terms are provably the same."""
    x = num(x)
    mine = [v for v in ENG.sums.values() if v[0].eq(x)]
    for r, k, e, n in mine:
        for r2, k2, e2, n2 in list(ENG.sums.values()):
            if r2.eq(r):
                continue
            e2 = z3.substitute(e2, (k2, k))
            if e.sort() != e2.sort():
                e, e2 = (z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (e, e2))
            if ENG.entails(n == n2, timeout=1500)[0] == 'proved' and ENG.entails(
                    z3.Implies(z3.And(k >= 0, k < n), e == e2), timeout=1500)[0] == 'proved':
                a, b = (z3.ToReal(v) if v.sort() == z3.IntSort() else v for v in (r, r2))
                ENG.assume(a == b)


def reduce_sum(a, axis=None):
    import itertools

    def f(g, rshape, keep, kshape):
        if keep is None and small(rshape, 64):
            vals = [g(i) for i in itertools.product(*[range(s) for s in rshape])]
            vals = [wrap(num(v)) if isinstance(v, SBool) else (int(v) if isinstance(v, (bool, _np.bool_)) else v) for v in vals]
            return reduce(lambda x, y: scal('add', x, y), vals, 0)
        if len(rshape) == 1:
            if keep is not None:
                return sum_node(g, iexp(rshape[0]), len(keep))
            t = a.buf.tag
            if t is not None and t[0] == 'diff' and a.ndim == 1 and a.whole():
                # telescoping: sum(diff(b)) = b[n] - b[0]
                ENG.lemmas_used.add('sum-of-differences-telescopes')
                b, n = t[1], t[2]
                return scal('sub', b((ibin('sub', n, 1),)), b((0,)))
            return sum_node(g, iexp(rshape[0]))
        raise Unsupported('sum over several symbolic axes')
    return _along(a, axis, f, DT['i'] if a.kind == 'b' else None)


def reduce_mean(a, axis=None):
    s = reduce_sum(a, axis)
    axes = _axes(a, axis)
    n = shape_prod([a.shape[i] for i in axes])
    if isinstance(s, SArr):
        return emap(lambda x: scal('truediv', x, n), s, dtype=DT['f'] if s.kind != 'f' else s.dtype)
    return scal('truediv', s, n)


def reduce_uf(a, name, axis=None):
    """Uninterpreted reduction (std, var ...): a function of the sequence of reduced elements (concrete length)."""
    import itertools
    axes = _axes(a, axis)
    if len(axes) == 1 and not small([a.shape[axes[0]]], 64):
        r = SMa(a, None)._reduce_long(name, a, const_arr(False, a.shape, bool), axes[0],
                                      [i for i in range(a.ndim) if i not in axes])
        if r is _np.ma.masked:
            raise Unsupported('%s of nothing' % name)
        return r.data if isinstance(r, SMa) else r

    def f(g, rshape, keep, kshape):
        if keep is not None:
            raise Unsupported('%s over a symbolic axis' % name)
        if not small(rshape, 64):
            raise Unsupported('%s over a symbolic axis' % name)
        vals = [g(i) for i in itertools.product(*[range(s) for s in rshape])]
        return wrap(ufunc('%s_%d' % (name, len(vals)), *[num(v) for v in vals]))
    return _along(a, axis, f, DT['f'])


# ----------------------------------------------------------------------------------------------- selection
def same_mask(a, b):
    if a is b:
        return True
    if len(a.shape) != len(b.shape) or not all(same(x, y) for x, y in zip(a.shape, b.shape)):
        return False
    ks = tuple(z3.Int('mk!%d' % i) for i in range(len(a.shape)))
    x, y = a.get(ks), b.get(ks)
    return same(x, y) or (isinstance(x, Sym) and isinstance(y, Sym) and z3.simplify(x.e).eq(z3.simplify(y.e)))


def nonzero1(mask):
    """Positions of True in a 1-d boolean array: strictly increasing enumeration (axiomatised)."""
    if mask.is_concrete_shape() and (mask.shape[0] <= 4 or all(not isinstance(v, Sym) for _, v in mask.elements()) or (
            mask.shape[0] <= 16 and not ENG.binders and all(known(zb_(v)) is not None for _, v in mask.elements()))):
        out = []
        for (i,), v in mask.elements():
            if ENG.decide(zb_(v)):
                out.append(i)
        r = from_nested(out, dtype='i8') if out else const_arr(0, (0,), 'i8')
        r.posfn = None
        lst = list(out)

        def pos(x):
            if isinstance(x, int):
                return lst.index(x)
            res = 0
            for j, o in enumerate(lst):
                res = z3.If(x == o, j, res)
            return res
        r.posfn = pos
        return r
    n = iexp(mask.shape[0])
    f = mask.snap()
    # The same mask has the same enumeration: a second request on this path returns the first one's.
    key = None
    if not ENG.binders:
        kc = z3.Int('nz!canon')
        with ENG.binding([kc]):
            me = z3.simplify(as_e(zb_(f((kc,)))))
        ns = z3.simplify(n) if isinstance(n, z3.ExprRef) else n
        for n0, m0, r0 in ENG.nz_cache:
            if valid(z3.And(num(iw(ns)) == num(iw(n0)), m0 == me)):
                r = from_fn(r0.snap(), r0.shape, 'i8')
                r.posfn, r.nz_mask = r0.posfn, r0.nz_mask
                return r
        if not ENG.loops:
            key = (ns, me)
    L = ENG.fresh_int('nz_len')
    W = ENG.fresh_func('nz', z3.IntSort(), z3.IntSort())
    P = ENG.fresh_func('nzpos', z3.IntSort(), z3.IntSort())
    ENG.inverses[W.name()] = (P, L)
    j, k = z3.Int(ENG.fresh_name('q')), z3.Int(ENG.fresh_name('q'))
    ne = z3.IntVal(n) if isinstance(n, int) else n
    ENG.assume(z3.And(L >= 0, L <= ne))
    # the number of true entries is the sum of the array
    ENG.assume(L == num(sum_node(lambda kk: ite(zb_(f(kk)), 1, 0), n)))
    with ENG.binding([j, k]):
        mw = as_e(zb_(f((W(j),))))
        mk = as_e(zb_(f((k,))))
    ENG.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L),
                                         z3.And(W(j) >= 0, W(j) < ne, mw, P(W(j)) == j)), patterns=[W(j)]))
    ENG.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < L), W(j) < W(k)), patterns=[z3.MultiPattern(W(j), W(k))]))
    ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ne, mk), z3.And(P(k) >= 0, P(k) < L, W(P(k)) == k)),
                         patterns=[P(k)]))
    # trigger for elements of the mask itself: an existential link usable without P in the goal
    ENG.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < ne, mk), z3.And(P(k) >= 0, P(k) < L, W(P(k)) == k))))
    r = from_fn(lambda idx: wrap(W(idx[0] if isinstance(idx[0], z3.ExprRef) else z3.IntVal(idx[0]))), (iw(L),), 'i8')
    r.posfn = lambda x: P(x if isinstance(x, z3.ExprRef) else z3.IntVal(x))
    r.nz_mask = from_fn(f, mask.shape, bool)
    if key is not None:
        r0 = from_fn(r.snap(), r.shape, 'i8')
        r0.posfn, r0.nz_mask = r.posfn, r.nz_mask
        ENG.nz_cache.append(key + (r0,))
    return r


def compress(a, mask):
    """a[mask] for a full-shape boolean mask."""
    if a.ndim == 1:
        w = nonzero1(mask)
        src = a.snap()
        wf = w.snap()
        r = from_fn(lambda idx: src((iexp(wf(idx)),)), (w.shape[0],), a.dtype)
        r.is_list = a.is_list
    elif a.is_concrete_shape():
        r = compress(a.reshape(-1), mask.reshape(-1))
    else:
        src = a.snap()
        L = ENG.fresh_int('nz_len')
        ENG.assume(L >= 0)
        Ws = [ENG.fresh_func('nz', z3.IntSort(), z3.IntSort()) for _ in a.shape]
        mf = mask.snap()
        j = z3.Int(ENG.fresh_name('q'))
        pt = tuple(W(j) for W in Ws)
        ENG.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L), as_e(band(in_range(pt, a.shape), zb_(mf(pt)))))))
        r = from_fn(lambda idx: src(tuple(W(idx[0]) for W in Ws)), (iw(L),), a.dtype)
    r.mask_src = (a.snap(), from_fn(mask.snap(), mask.shape, bool))
    return r


def concat(arrs, axis=0):
    arrs = [as_sarr(a) for a in arrs]
    nd = arrs[0].ndim
    axis = range(nd)[axis]
    k = None
    for a in arrs:
        k = a.kind if k is None else join_kind(k, a.kind)
        for d in range(nd):
            if d != axis and not same(a.shape[d], arrs[0].shape[d]) and not dims_equal(a.shape[d], arrs[0].shape[d]):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    dt = arrs[0].dtype if dkind(arrs[0].dtype) == k else DT[k]
    offs = []
    off = 0
    for a in arrs:
        offs.append(iexp(off) if not isinstance(off, int) else off)
        off = off + a.shape[axis]
    fs = [a.snap() for a in arrs]
    ends = offs[1:] + [iexp(off) if not isinstance(off, int) else off]

    def fn(idx):
        i = idx[axis]
        r = None
        for f, o, e in list(zip(fs, offs, ends))[::-1]:
            sub = list(idx)
            sub[axis] = ibin('sub', i, o)
            if r is None:
                if isinstance(i, int) and isinstance(o, int) and i < o:
                    continue
                r = f(tuple(sub))
            else:
                c = ibin('lt', i, e)
                if isinstance(c, bool):
                    if c and (not isinstance(o, int) or not isinstance(i, int) or i >= o):
                        r = f(tuple(sub))
                    continue
                r = ite(c, f(tuple(sub)), r)
        return cast_kind(r, k)
    shape = list(arrs[0].shape)
    shape[axis] = off
    return from_fn(fn, shape, dt)


# ----------------------------------------------------------------------------------------------- masked arrays
class SMa(object):
    """Masked array: data plus a mask array (or None for nomask)."""
    __array_ufunc__ = None
    __array_priority__ = 2000
    is_list = False

    def __init__(self, data, mask=None, fill_value=None):
        self.data = data
        self._mask = mask
        self.fill_value = fill_value if fill_value is not None else _np.ma.default_fill_value(data.dtype)

    @property
    def mask(self):
        if self._mask is None:
            return False
        return self._mask

    @mask.setter
    def mask(self, v):
        # an existing mask is overwritten in place (it may be shared)
        if self._mask is None:
            self._mask = const_arr(False, self.shape, bool)
        if isinstance(v, SMa):
            v = v.data
        if not isinstance(v, (SArr, _np.ndarray, bool, _np.bool_, SBool)):
            v = from_nested(v, dtype=bool)
        self._mask[(slice(None),) * self.ndim] = v

    shape = property(lambda s: s.data.shape)
    dtype = property(lambda s: s.data.dtype)
    kind = property(lambda s: s.data.kind)
    ndim = property(lambda s: s.data.ndim)
    size = property(lambda s: s.data.size)

    def __len__(self):
        return self.shape[0]

    def maskfn(self):
        if self._mask is None:
            return lambda i: False
        return self._mask.snap()

    def mask_arr(self):
        return self._mask if self._mask is not None else const_arr(False, self.shape, bool)

    def __getitem__(self, key):
        if isinstance(key, SMa):
            key = key.data
        d = self.data[key]
        m = None if self._mask is None else self._mask[key]
        if isinstance(d, SArr):
            if m is None and isinstance(d, SArr):
                return SMa(d, None, self.fill_value)
            return SMa(d, m, self.fill_value)
        if m is None:
            return d
        if ENG.decide(zb_(m)):
            return _np.ma.masked
        return d

    def get_fill_value(self):
        return self.fill_value

    def set_fill_value(self, v):
        self.fill_value = v

    def __getattr__(self, k):
        if hasattr(_np.ma.MaskedArray, k):
            raise Unsupported('masked array attribute ' + k)
        raise AttributeError(k)

    def __setitem__(self, key, v):
        if isinstance(v, SMa):
            self.data[key] = v.data
            if v._mask is not None or self._mask is not None:
                if self._mask is None:
                    self._mask = const_arr(False, self.shape, bool)
                self._mask[key] = v._mask if v._mask is not None else False
        elif v is _np.ma.masked:
            if self._mask is None:
                self._mask = const_arr(False, self.shape, bool)
            self._mask[key] = True
        else:
            self.data[key] = v
            if self._mask is not None:
                self._mask[key] = False

    def __iter__(self):
        if not isinstance(self.shape[0], int):
            raise Unsupported('iteration over a masked array of symbolic length')
        for i in range(self.shape[0]):
            yield self[i]

    def copy(self, order=None):
        return SMa(self.data.copy(), None if self._mask is None else self._mask.copy(), self.fill_value)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def compressed(self):
        if self._mask is None:
            return self.data.flatten()
        if not small(self._mask.shape) and known_forall_false(self.mask_arr()):
            return self.data.flatten()
        return self.data[~self._mask]

    def filled(self, v=None):
        if v is None:
            v = self.fill_value
        if self._mask is None:
            return self.data.copy()
        return emap(lambda d, m: ite(zb_(m), cast_kind(v, self.data.kind), d), self.data, self._mask, dtype=self.dtype)

    def astype(self, dt, copy=True):
        return SMa(self.data.astype(dt), None if self._mask is None else self._mask.copy(), self.fill_value)

    def _both(self, name, *a, **k):
        return SMa(getattr(self.data, name)(*a, **k),
                   None if self._mask is None else getattr(self._mask, name)(*a, **k), self.fill_value)

    def reshape(self, *a, **k):
        return self._both('reshape', *a, **k)

    def swapaxes(self, *a):
        return self._both('swapaxes', *a)

    def transpose(self, *a):
        return self._both('transpose', *a)

    def squeeze(self, *a, **k):
        return self._both('squeeze', *a, **k)

    def flatten(self, *a):
        return self._both('flatten', *a)

    def ravel(self, *a):
        return self._both('ravel', *a)

    flat = property(lambda s: s.flatten())
    T = property(lambda s: s.transpose())

    def __invert__(self):
        return SMa(~self.data, self._mask)

    def __neg__(self):
        return SMa(-self.data, self._mask)

    def _reduce(self, name, axis):
        """Reduction over unmasked elements; result masked where everything is masked."""
        import itertools
        d, m = self.data, self.mask_arr()
        axes = _axes(d, axis)
        keep = [i for i in range(d.ndim) if i not in axes]
        rshape = [d.shape[i] for i in axes]
        if not small(rshape, 64):
            if name not in ('std', 'var', 'median', 'count') and (self._mask is None or known_forall_false(m)):
                return SMa(getattr(d, name)(axis=axis), None) if keep else getattr(d, name)(axis=axis)
            if not keep and name in ('min', 'max'):
                return self._extreme_all(name, d, m, rshape)
            if len(axes) != 1 or name in ('any', 'all'):
                raise Unsupported('masked reduction over a symbolic axis')
            return self._reduce_long(name, d, m, axes[0], keep)
        df, mf = d.snap(), m.snap()
        if name in ('std', 'var', 'median'):
            if self._mask is None and name != 'median':
                return SMa(reduce_uf(d, name, axis), None) if keep else reduce_uf(d, name, axis)
            if len(axes) != 1:
                raise Unsupported('masked ' + name)
            return self._reduce_long(name, d, m, axes[0], keep)

        def at(kept):
            out = None
            cnt = 0
            allm = True
            for r in itertools.product(*[range(s) for s in rshape]):
                full = [None] * d.ndim
                for i, k in zip(keep, kept):
                    full[i] = k
                for i, k in zip(axes, r):
                    full[i] = k
                v, mm = df(tuple(full)), zb_(mf(tuple(full)))
                if name in ('sum', 'mean'):
                    out = scal('add', 0 if out is None else out, ite(mm, 0, v))
                    cnt = scal('add', cnt, ite(mm, 0, 1))
                elif name in ('min', 'max'):
                    out = v if out is None else ite(bnot_any(allm), ite(mm, out, scal(name, out, v)), v)
                elif name == 'count':
                    cnt = scal('add', cnt, ite(mm, 0, 1))
                elif name in ('any', 'all'):
                    x = band(bnot(mm), zb_(v)) if name == 'any' else bor(mm, zb_(v))
                    out = x if out is None else (bor(out, x) if name == 'any' else band(out, x))
                else:
                    raise Unsupported('masked ' + name)
                allm = band(allm, mm)
            if name == 'mean':
                out = scal('truediv', out, cnt)
            if name == 'count':
                return cnt, False
            if name in ('any', 'all'):
                out = wrap(out) if isinstance(out, z3.ExprRef) else out
            return out, (wrap(allm) if isinstance(allm, z3.ExprRef) else allm)
        if not keep:
            v, mm = at(())
            if ENG.decide(zb_(mm)):
                return _np.ma.masked
            return v
        sh = [d.shape[i] for i in keep]
        kd = {'mean': DT['f'], 'count': DT['i'], 'any': DT['b'], 'all': DT['b']}.get(name, d.dtype)
        if name == 'count':
            return from_fn(lambda i: at(i)[0], sh, kd)
        return SMa(from_fn(lambda i: at(i)[0], sh, kd), from_fn(lambda i: at(i)[1], sh, bool))

    def _extreme_all(self, name, d, m, shape):
        """The extreme of all unmasked elements: attained by one of them and passed by none; masked if there are none."""
        df, mf = d.snap(), m.snap()
        if ENG.decide(as_e(bor(*[ibin('le', iexp(s), 0) for s in shape]))):
            raise ValueError('zero-size array to reduction operation')
        ks = tuple(z3.Int(ENG.fresh_name('q')) for _ in shape)
        rng = as_e(in_range(ks, shape))
        with ENG.binding(list(ks), rng):
            ve, me = num(df(ks)), as_e(zb_(mf(ks)))
        if ENG.decide(ENG.fresh_bool('allm')):
            ENG.assume(z3.ForAll(list(ks), z3.Implies(rng, me)))
            return _np.ma.masked
        ws = tuple(ENG.fresh_int('w') for _ in shape)
        ENG.assume(as_e(in_range(ws, shape)))
        ENG.assume(as_e(bnot(zb_(mf(ws)))))
        r = ENG.fresh_int(name) if ve.sort() == z3.IntSort() else ENG.fresh_real(name)
        ENG.assume(r == num(df(ws)))
        ENG.assume(z3.ForAll(list(ks), z3.Implies(z3.And(rng, z3.Not(me)), r <= ve if name == 'min' else r >= ve)))
        return wrap(r)

    def _reduce_long(self, name, d, m, axis, keep):
        """The same along one axis of symbolic length."""
        df, mf = d.snap(), m.snap()
        n = iexp(d.shape[axis])
        nk = len(keep)

        def pick(f):
            def at(kept):
                def at2(r):
                    full = [None] * d.ndim
                    for i, k in zip(keep, kept):
                        full[i] = k
                    full[axis] = r[0]
                    return f(tuple(full))
                return at2
            return at
        gd, gm = pick(df), pick(mf)
        left = lambda z: (lambda kept: lambda r: ite(zb_(gm(kept)(r)), 0, z(gd(kept)(r))))
        if name in ('sum', 'mean', 'count'):
            node = sum_node(left(lambda v: (ite(zb_(v), 1, 0) if is_boolean(v) else v) if name != 'count' else 1), n, nk) \
                if nk else sum_node(left(lambda v: (ite(zb_(v), 1, 0) if is_boolean(v) else v) if name != 'count' else 1)(()), n)
            if name == 'mean':
                cnt = sum_node(left(lambda v: 1), n, nk) if nk else sum_node(left(lambda v: 1)(()), n)
        else:
            node = sum_node(gd, n, nk, 'ma_' + name, gm) if nk else sum_node(gd(()), n, 0, 'ma_' + name, gm(()))
        if not nk:
            val = lambda kept: node
            num_ = lambda kept: cnt
        else:
            val = node
            num_ = cnt if name == 'mean' else None

        def at(kept):
            v = val(kept)
            return scal('truediv', v, num_(kept)) if name == 'mean' else v

        zero = lambda r: 0
        anode = sum_node(lambda kept: zero, n, nk, 'all', gm) if nk else sum_node(zero, n, 0, 'all', gm(()))

        none_masked = known_forall_false(m)

        def allm(kept):
            if none_masked:
                return zb(scal('le', iw(n), 0))
            return zb(anode(kept) if nk else anode)
        if name == 'count':
            return from_fn(at, [d.shape[i] for i in keep], DT['i']) if nk else at(())
        if not nk:
            if ENG.decide(allm(())):
                q = z3.Int(ENG.fresh_name('q'))
                with ENG.binding([q], z3.And(q >= 0, q < as_e(n))):
                    me = as_e(zb_(gm(())((q,))))
                ENG.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < as_e(n)), me)))
                return _np.ma.masked
            r = at(())
            if name in ('min', 'max'):
                # the extreme is attained by an unmasked element and passed by none
                w, q = ENG.fresh_int('w'), z3.Int(ENG.fresh_name('q'))
                ENG.assume(as_e(band(w >= 0, w < as_e(n), bnot(zb_(gm(())((w,)))))))
                ENG.assume(num(r) == num(gd(())((w,))))
                with ENG.binding([q], z3.And(q >= 0, q < as_e(n))):
                    ve, me = num(gd(())((q,))), zb_(gm(())((q,)))
                ENG.assume(z3.ForAll([q], z3.Implies(as_e(band(q >= 0, q < as_e(n), bnot(me))),
                                                     num(r) <= ve if name == 'min' else num(r) >= ve)))
            return r
        sh = [d.shape[i] for i in keep]
        kd = DT['f'] if name in ('mean', 'median', 'std', 'var') else (DT['i'] if name == 'sum' and d.kind == 'b' else d.dtype)
        return SMa(from_fn(at, sh, kd), from_fn(lambda i: wrap(allm(i)), sh, bool))

    def median(self, axis=None, **k):
        return self._reduce('median', axis)

    def sum(self, axis=None, **k):
        return self._reduce('sum', axis)

    def mean(self, axis=None, **k):
        return self._reduce('mean', axis)

    def min(self, axis=None, **k):
        return self._reduce('min', axis)

    def max(self, axis=None, **k):
        return self._reduce('max', axis)

    def any(self, axis=None, **k):
        return self._reduce('any', axis)

    def all(self, axis=None, **k):
        return self._reduce('all', axis)

    def count(self, axis=None):
        return self._reduce('count', axis)

    def std(self, axis=None, **k):
        return self._reduce('std', axis)

    def var(self, axis=None, **k):
        return self._reduce('var', axis)

    def __eq__(self, o):
        return ma_elementwise('eq', self, o)

    def __ne__(self, o):
        return ma_elementwise('ne', self, o)

    __hash__ = object.__hash__

    def __iadd__(self, o):
        r = ma_elementwise('add', self, o)
        self.data[...] = r.data
        self._mask = r._mask
        return self

    def __array__(self, *a, **k):
        raise Unsupported('real numpy on a symbolic masked array')

    @property
    def __dict__(self):
        return _MaDict(self)


class _MaDict(dict):
    """Supports the ``arr.__dict__['_mask']`` access used by the package."""
    def __init__(self, ma):
        self.ma = ma

    def __getitem__(self, k):
        if k == '_mask':
            return self.ma.mask
        raise KeyError(k)

    def __setitem__(self, k, v):
        if k == '_mask':
            self.ma._mask = v
            return
        raise KeyError(k)


def bnot_any(c):
    return bnot(c)


def is_boolean(v):
    return isinstance(v, (bool, _np.bool_, SBool))


def as_int_(n):
    return z3.IntVal(n) if isinstance(n, int) else n


def bcast_fn(v, shape):
    f = v.snap()
    vs = v.shape
    return lambda idx: f(bidx(idx, vs, shape))


def known_forall_false(m):
    ks = [z3.Int(ENG.fresh_name('q')) for _ in m.shape]
    v = zb_(m.get(tuple(ks)))
    return v is False


def _ma_dunder(op, rev=False):
    def f(self, o):
        return ma_elementwise(op, o, self) if rev else ma_elementwise(op, self, o)
    return f


for _n in ['add', 'sub', 'mul', 'truediv', 'pow', 'and', 'or', 'mod', 'floordiv']:
    setattr(SMa, '__%s__' % _n, _ma_dunder(_n))
    setattr(SMa, '__r%s__' % _n, _ma_dunder(_n, True))
for _n in ['lt', 'le', 'gt', 'ge']:
    setattr(SMa, '__%s__' % _n, _ma_dunder(_n))


def ma_parts(x):
    if isinstance(x, SMa):
        return x.data, x._mask
    if isinstance(x, _np.ma.MaskedArray):
        m = _np.ma.getmaskarray(x)
        return as_sarr(_np.asarray(x.data)), as_sarr(m)
    return x, None


def ma_elementwise(op, a, b):
    da, m1 = ma_parts(a)
    db, m2 = ma_parts(b)
    if op == 'truediv' and b is _np.ma.masked:
        # everything is masked
        d = elementwise('add', da, 0.0)
        return SMa(d, from_fn(lambda i: True, d.shape, bool))
    d = elementwise(op, da, db)
    if op == 'truediv':
        # domained operation: division by zero is masked
        m3 = elementwise('eq', db, 0) if isinstance(db, (SArr, _np.ndarray)) else None
        m2 = m3 if m2 is None else (elementwise('or', m2, m3) if m3 is not None else m2)
    if m1 is None and m2 is None:
        return SMa(d, None)
    if m1 is None or m2 is None:
        m = m1 if m1 is not None else m2
        m = from_fn(bcast_fn(m, d.shape), d.shape, bool)
    else:
        m = elementwise('or', m1, m2)
        m = from_fn(bcast_fn(m, d.shape), d.shape, bool)
    return SMa(d, m)
