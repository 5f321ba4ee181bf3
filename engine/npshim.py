"""Stand-in for numpy inside the instrumented copies: symbolic arguments are interpreted here, everything else is numpy."""
import abc
import itertools
import math
import numbers
import types
from fractions import Fraction

import numpy as _np
import z3

from engine import terms as T
from engine.sym import *  # noqa: F401,F403
from engine.sym import _has_sym, _same_dim, _uns
from engine.terms import Unsupported, fresh_int, zsimp


def has_sym(*args):
    for a in args:
        if is_sym(a) or isinstance(a, SDtype):
            return True
        if isinstance(a, (list, tuple)) and has_sym(*a):
            return True
        if isinstance(a, dict) and has_sym(*a.values()):
            return True
        if isinstance(a, slice) and has_sym(a.start, a.stop, a.step):
            return True
        if isinstance(a, _np.ndarray) and a.dtype == object and has_sym(*a.reshape(-1)[:50]):
            return True
    return False


class ndarray(abc.ABC):
    pass


ndarray.register(_np.ndarray)
ndarray.register(SArr)


def norm_axis(ax, nd):
    if isinstance(ax, SInt):
        ax = ax.__index__()
    ax = int(ax)
    if not -nd <= ax < nd:
        raise IndexError(f'axis {ax} is out of bounds for array of dimension {nd}')
    return ax % nd


def dt_kind(dtype, default='f'):
    return default if dtype is None else SDtype.kind_from(dtype)


def shape_tuple(s):
    if isinstance(s, (SInt, numbers.Integral)):
        return (s,)
    if isinstance(s, SArr):
        return tuple(s)
    return tuple(x.item() if isinstance(x, _np.generic) else x for x in s)


_IMPL = {}


def impl(f):
    _IMPL[f.__name__.rstrip('_')] = f
    return f


@impl
def shape(a):
    if isinstance(a, (SArr,)):
        return a.shape
    if isinstance(a, SList):
        return to_arr(a).shape
    if is_scalar(a):
        return ()
    return to_arr(a).shape


@impl
def ndim(a):
    return len(shape(a))


@impl
def size(a, axis=None):
    sh = shape(a)
    if axis is not None:
        return sh[axis]
    r = 1
    for s in sh:
        r = s * r
    return r


@impl
def arange(start, stop=None, step=None, dtype=None):
    if stop is None:
        start, stop = 0, start
    step = 1 if step is None else step
    if isinstance(step, SInt):
        step = step.__index__()
    if not (is_intlike(start) and is_intlike(stop) and isinstance(step, numbers.Integral)):
        raise Unsupported('arange of reals')
    s, e = zint(start), zint(stop)
    step = int(step)
    c = ctx()
    if step == 1:
        d = e - s
    elif step > 0:
        d = (e - s + (step - 1)) / step
    else:
        d = (s - e + (-step - 1)) / (-step)
    if c.implies(d >= 0):
        ln = d
    elif c.implies(d < 0):
        ln = z3.IntVal(0)
    elif has_generic(d):
        ln = z3.If(d >= 0, d, z3.IntVal(0))
    else:
        ln = d if ex().decide(d >= 0) else z3.IntVal(0)
    return SArr.make((mkint(ln),), lambda idx: mkint(s + step * idx[0]), 'i')


@impl
def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False):
    a = to_arr(x)
    if isinstance(x, SArr):
        a = a.copy()
    if dtype is not None:
        a = a.astype(dtype)
    if a.ro or a.nw is not None:
        a = a.copy()
    return a


@impl
def asarray(x, dtype=None):
    a = to_arr(x)
    return a if dtype is None else a.astype(dtype)


_IMPL['ascontiguousarray'] = asarray


@impl
def copy(x, order=None):
    return to_arr(x).copy()


def _full(shape, val, kind):
    return SArr.make(shape_tuple(shape), lambda idx: val, kind)


def uninit():
    n = next(T._ctr)
    return n


@impl
def zeros(shape, dtype=None, order=None):
    k = dt_kind(dtype)
    return _full(shape, 0 if k in 'ifc' else False, k)


@impl
def ones(shape, dtype=None, order=None):
    return _full(shape, 1, dt_kind(dtype))


@impl
def empty(shape, dtype=None, order=None):
    n = next(T._ctr)
    sh = shape_tuple(shape)
    k = dt_kind(dtype)
    return SArr.make(sh, lambda idx: SNum(T.Elem(f'uninit{n}', [i if z3.is_expr(i) else T.iv(i) for i in idx]), k != 'c'), k)


@impl
def full(shape, fill_value, dtype=None):
    return _full(shape, fill_value, dt_kind(dtype, kind_of(fill_value)))


@impl
def zeros_like(a, dtype=None):
    a = to_arr(a)
    return _full(a.shape, 0, dt_kind(dtype, a.kind))


@impl
def ones_like(a, dtype=None):
    a = to_arr(a)
    return _full(a.shape, 1, dt_kind(dtype, a.kind))


@impl
def empty_like(a, dtype=None):
    a = to_arr(a)
    return empty(a.shape, dtype if dtype is not None else a.dtype)


@impl
def full_like(a, v, dtype=None):
    a = to_arr(a)
    return _full(a.shape, v, dt_kind(dtype, a.kind))


@impl
def eye(n, m=None, k=0, dtype=None):
    return SArr.make((n, n if m is None else m), lambda i: ite(i[1] == i[0] + k, 1, 0), dt_kind(dtype))


@impl
def identity(n, dtype=None):
    return eye(n, dtype=dtype)


@impl
def diag(a, k=0):
    a = to_arr(a)
    if k:
        raise Unsupported('diag with offset')
    s = a.snapshot()
    if a.ndim == 1:
        return SArr.make((a.shape[0], a.shape[0]), lambda i: ite(i[0] == i[1], s.get([i[0]]), 0), a.kind)
    if a.ndim == 2:
        if not _same_dim(*a.shape):
            raise Unsupported('diag of a rectangular array')
        return SArr.make((a.shape[0],), lambda i: s.get([i[0], i[0]]), a.kind, ro=True)
    raise ValueError('Input must be 1- or 2-d.')


@impl
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = to_arr(a).snapshot()
    a1, a2 = norm_axis(axis1, a.ndim), norm_axis(axis2, a.ndim)
    if offset or not _same_dim(a.shape[a1], a.shape[a2]):
        raise Unsupported('diagonal')
    rest = [i for i in range(a.ndim) if i not in (a1, a2)]

    def fn(idx):
        full = [None] * a.ndim
        for r, v in zip(rest, idx[:-1]):
            full[r] = v
        full[a1] = full[a2] = idx[-1]
        return a.get(full)
    return SArr.make([a.shape[r] for r in rest] + [a.shape[a1]], fn, a.kind, ro=True)


@impl
def trace(a, offset=0, axis1=0, axis2=1):
    return sum_(diagonal(a, offset, axis1, axis2), axis=-1)


def _concat(arrs, axis):
    arrs = [to_arr(a).snapshot() for a in arrs]
    nd = arrs[0].ndim
    ax = norm_axis(axis, nd)
    for a in arrs[1:]:
        if a.ndim != nd:
            raise ValueError('all the input array dimensions must match')
        for i in range(nd):
            if i != ax and not _same_dim(a.shape[i], arrs[0].shape[i]):
                if isinstance(a.shape[i], int) and isinstance(arrs[0].shape[i], int):
                    raise ValueError('all the input array dimensions except for the concatenation axis must match')
                obligation(zint(a.shape[i]) == zint(arrs[0].shape[i]), 'concatenate: dimensions must match')
    offs, tot = [], z3.IntVal(0)
    kind = arrs[0].kind
    for a in arrs:
        offs.append(tot)
        tot = zsimp(tot + zint(a.shape[ax]))
        kind = join_kind(kind, a.kind)
    sh = list(arrs[0].shape)
    sh[ax] = mkint(tot)

    def fn(idx):
        i = idx[ax]

        def at(k):
            j = list(idx)
            j[ax] = zsimp(i - offs[k])
            return arrs[k].get(j)

        def rec(k):
            if k == len(arrs) - 1:
                return at(k)
            cnd = zsimp(i < offs[k + 1]) if False else z3.simplify(i < offs[k + 1])
            d = ctx().decide(cnd)
            if d is True:
                return at(k)
            if d is False:
                return rec(k + 1)
            e = ex()
            n = e.push(cnd)
            x = at(k)
            e.pop(n)
            n = e.push(z3.Not(cnd))
            y = rec(k + 1)
            e.pop(n)
            return ite(cnd, x, y)
        return rec(0)
    return SArr.make(sh, fn, kind)


@impl
def concatenate(arrs, axis=0):
    if isinstance(arrs, SArr):
        arrs = list(arrs)
    return _concat(arrs, axis)


@impl
def stack(arrs, axis=0):
    if isinstance(arrs, SList) or hasattr(arrs, 'at') and hasattr(arrs, 'length'):
        r = to_arr(arrs)
        return moveaxis(r, 0, norm_axis(axis, r.ndim))
    arrs = [to_arr(a) for a in arrs]
    ax = norm_axis(axis, arrs[0].ndim + 1)
    return _concat([a[(slice(None),) * ax + (None,)] for a in arrs], ax)


@impl
def append(a, b, axis=None):
    if axis is None:
        return _concat([reshape(to_arr(a), (-1,)), reshape(to_arr(b), (-1,))], 0)
    return _concat([a, b], axis)


@impl
def hstack(arrs):
    arrs = [atleast_1d(a) for a in arrs]
    return _concat(arrs, 0 if arrs[0].ndim == 1 else 1)


@impl
def vstack(arrs):
    arrs = [a if a.ndim > 1 else a[None, :] for a in [to_arr(x) for x in arrs]]
    return _concat(arrs, 0)


@impl
def column_stack(arrs):
    arrs = [a if a.ndim > 1 else a[:, None] for a in [to_arr(x) for x in arrs]]
    return _concat(arrs, 1)


@impl
def atleast_1d(a):
    a = to_arr(a)
    return a if a.ndim else a._view((None,))


@impl
def conj(a):
    if is_scalar(a) or isinstance(a, SMask):
        return a.conjugate()
    return to_arr(a).conj()


_IMPL['conjugate'] = conj


@impl
def real(a):
    if is_scalar(a) or isinstance(a, SMask):
        return a.real
    return to_arr(a).real


@impl
def imag(a):
    if is_scalar(a) or isinstance(a, SMask):
        return a.imag
    return to_arr(a).imag


@impl
def isreal(a):
    raise Unsupported('isreal')


@impl
def abs_(a):
    return abs(a)


_IMPL['absolute'] = abs_


@impl
def flip(m, axis=None):
    m = to_arr(m)
    if axis is None:
        axes = range(m.ndim)
    else:
        axes = [norm_axis(a, m.ndim) for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]
        if len(set(axes)) != len(axes):
            raise ValueError('repeated axis')
    key = tuple(slice(None, None, -1) if i in axes else slice(None) for i in range(m.ndim))
    return m._view(key)


@impl
def fliplr(m):
    return flip(m, 1)


@impl
def flipud(m):
    return flip(m, 0)


@impl
def take(a, indices, axis=None):
    a = to_arr(a)
    if isinstance(indices, SArr) and indices.ndim == 0:
        indices = indices.item()
    if axis is None:
        a = reshape(a, (-1,))
        axis = 0
    ax = norm_axis(axis, a.ndim)
    if not is_intlike(indices):
        indices = to_arr(indices)
    r = a[(slice(None),) * ax + (indices,)]
    return r.copy() if isinstance(r, SArr) else r


@impl
def moveaxis(a, source, destination):
    a = to_arr(a)
    src = [norm_axis(s, a.ndim) for s in (source if isinstance(source, (tuple, list)) else (source,))]
    dst = [norm_axis(s, a.ndim) for s in (destination if isinstance(destination, (tuple, list)) else (destination,))]
    order = [n for n in range(a.ndim) if n not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


@impl
def swapaxes(a, i, j):
    a = to_arr(a)
    o = list(range(a.ndim))
    o[i], o[j] = o[j], o[i]
    return a.transpose(o)


@impl
def transpose(a, axes=None):
    a = to_arr(a)
    return a.transpose() if axes is None else a.transpose(axes)


_IMPL['reshape'] = lambda a, newshape=None, shape=None, order='C': reshape(to_arr(a), shape_tuple(newshape if newshape is not None else shape))


@impl
def squeeze(a, axis=None):
    return to_arr(a).squeeze(axis)


@impl
def expand_dims(a, axis):
    a = to_arr(a)
    ax = norm_axis(axis, a.ndim + 1)
    return a[(slice(None),) * ax + (None,)]


@impl
def ravel(a):
    return reshape(to_arr(a), (-1,))


@impl
def broadcast_to_(a, shape):
    return broadcast_to(to_arr(a).snapshot(), shape_tuple(shape))


_IMPL['broadcast_to'] = broadcast_to_


def _axes(axis, nd):
    if axis is None:
        return list(range(nd))
    return [norm_axis(a, nd) for a in (axis if isinstance(axis, (tuple, list)) else (axis,))]


def sum_(a, axis=None, dtype=None, keepdims=False, **kw):
    if kw:
        raise Unsupported(f'sum with {list(kw)}')
    if isinstance(a, SMask):
        return a.reduce(axis, False)
    a = to_arr(a).snapshot()
    axes = _axes(axis, a.ndim)
    rest = [i for i in range(a.ndim) if i not in axes]
    kind = 'i' if a.kind == 'b' else a.kind

    def fn(idx):
        if keepdims:
            idx = [idx[i] for i in rest]
        full = [None] * a.ndim
        for r, v in zip(rest, idx):
            full[r] = v
        return rec(full, list(axes))

    def rec(full, todo):
        if not todo:
            return a.get(full)
        ax = todo[0]
        n = a.shape[ax]
        if isinstance(n, int) and n <= 8:
            tot = 0
            for k in range(n):
                f2 = list(full)
                f2[ax] = z3.IntVal(k)
                tot = tot + rec(f2, todo[1:])
            return tot
        v = fresh_int('s')
        e = ex()
        m = e.push(z3.And(0 <= v, v < zint(n)))
        try:
            f2 = list(full)
            f2[ax] = v
            b = rec(f2, todo[1:])
        finally:
            e.pop(m)
        return SNum(T.Sum(v, z3.IntVal(0), zint(n), num_term(b)), is_real(b))

    sh = [1 if i in axes else s for i, s in enumerate(a.shape)] if keepdims else [a.shape[i] for i in rest]
    if not sh:
        return fn([])
    return SArr.make(sh, fn, kind)


_IMPL['sum'] = sum_


@impl
def mean(a, axis=None, keepdims=False, dtype=None):
    if isinstance(a, SMask):
        return a.reduce(axis, True)
    a = to_arr(a)
    n = 1
    for i in _axes(axis, a.ndim):
        n = a.shape[i] * n
    return sum_(a, axis, keepdims=keepdims) / n


@impl
def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    w = to_arr(weights)
    a = to_arr(a)
    if w.ndim == a.ndim:
        return sum_(a * w, axis) / sum_(w, axis)
    if w.ndim == 1 and isinstance(axis, int):
        ax = norm_axis(axis, a.ndim)
        ww = w[(None,) * ax + (slice(None),) + (None,) * (a.ndim - ax - 1)]
        return sum_(a * ww, ax) / sum_(w)
    raise Unsupported('average with weights')


@impl
def prod(a, axis=None, **k):
    if isinstance(a, (tuple, list)) and axis is None:
        r = 1
        for x in a:
            r = x * r
        return r
    a = to_arr(a)
    if a.ndim == 1 and isinstance(a.shape[0], int):
        r = 1
        for x in a:
            r = x * r
        return r
    raise Unsupported('prod')


@impl
def cumsum(a, axis=None):
    a = to_arr(a).snapshot()
    if a.ndim != 1:
        raise Unsupported('cumsum of nd array')

    def fn(idx):
        if isinstance(a.shape[0], int) and a.shape[0] <= 16 and z3.is_int_value(zsimp(idx[0])):
            t = 0
            for k in range(zsimp(idx[0]).as_long() + 1):
                t = t + a.get([k])
            return t
        v = fresh_int('s')
        e = ex()
        m = e.push(z3.And(0 <= v, v <= idx[0]))
        try:
            b = a.get([v])
        finally:
            e.pop(m)
        if is_intlike(b):
            r = int_prefix_sum(zsimp(zint(b)), v, idx[0] + 1)
            if r is not None:
                return mkint(r)
        return SNum(T.Sum(v, z3.IntVal(0), idx[0] + 1, num_term(b)), is_real(b))
    return SArr.make(a.shape, fn, a.kind)


def int_prefix_sum(b, v, n):
    """closed form of sum_{0<=v<n} b(v), n >= 0, for integer b piecewise constant in v; None if it has another form"""
    if not T.occurs(b, v):
        return zsimp(b * n)

    def ites(x):
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_ITE and T.occurs(x.arg(0), v):
                return x
            for k in x.children():
                r = ites(k)
                if r is not None:
                    return r
    it = ites(b)
    if it is None:
        return None
    c = it.arg(0)
    neg = False
    while z3.is_not(c):
        c, neg = c.arg(0), not neg
    k = c.decl().kind()
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        h, r = c.arg(0), c.children()[1:]
        r = (z3.And if k == z3.Z3_OP_AND else z3.Or)(*r) if len(r) > 1 else r[0]
        y, m = (it.arg(2), it.arg(1)) if neg else (it.arg(1), it.arg(2))
        nw = z3.If(h, z3.If(r, y, m), m) if k == z3.Z3_OP_AND else z3.If(h, y, z3.If(r, y, m))
        return int_prefix_sum(z3.substitute(b, (it, nw)), v, n)
    if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        return None
    d, c0 = T.lin(c.arg(0) - c.arg(1))
    co = [x[1] for x in d.values() if x[0].eq(v)]
    if len(co) != 1 or abs(co[0]) != 1 or any(T.occurs(x[0], v) for x in d.values() if not x[0].eq(v)):
        return None
    rest = T.from_lin({i: x for i, x in d.items() if not x[0].eq(v)}, c0)
    # c: co*v + rest <> 0 ; first threshold t such that the condition changes at v = t
    if co[0] == 1:
        up = k in (z3.Z3_OP_GE, z3.Z3_OP_GT)
        t = -rest if k in (z3.Z3_OP_GE, z3.Z3_OP_LT) else -rest + 1
    else:
        up = k in (z3.Z3_OP_LE, z3.Z3_OP_LT)
        t = rest if k in (z3.Z3_OP_LE, z3.Z3_OP_GT) else rest + 1
    if neg:
        up = not up
    hi, lo = (it.arg(1), it.arg(2)) if up else (it.arg(2), it.arg(1))
    t = zsimp(t)
    m = z3.If(t < 0, z3.IntVal(0), z3.If(t > n, n, t))
    low = int_prefix_sum(z3.substitute(b, (it, lo)), v, m)
    hb = z3.substitute(b, (it, hi))
    h1, h0 = int_prefix_sum(hb, v, n), int_prefix_sum(hb, v, m)
    if low is None or h1 is None or h0 is None:
        return None
    return zsimp(low + h1 - h0)


def _minmax(a, axis, lt):
    if isinstance(a, (list, tuple)) and axis is None and all(is_scalar(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = smin(r, x) if lt else smax(r, x)
        return r
    a = to_arr(a)
    if a.ndim == 0:
        return a.item()
    if axis is None and all(isinstance(s, int) for s in a.shape):
        its = [a.get(list(ix)) for ix in itertools.product(*[range(s) for s in a.shape])]
        return _minmax(its, None, lt)
    if a.ndim == 1 and axis in (None, 0, -1) and a.kind == 'i':
        n = zint(a.shape[0])
        if ctx().implies(n >= 1):
            # the extremum is at an end point: checked for a generic element
            lo, hi = zint(a.get([0])), zint(a.get([zsimp(n - 1)]))
            r = zsimp(z3.If(lo <= hi if lt else lo >= hi, lo, hi))
            v = fresh_int('m')
            e = ex()
            k = e.push(z3.And(0 <= v, v < n))
            try:
                x = zint(a.get([v]))
                ok = e.ctx().implies(r <= x if lt else r >= x)
            finally:
                e.pop(k)
            if ok:
                return mkint(r)
    if a.kind == 'f':
        # uninterpreted function of the data: equal data, equal extremum
        axes = list(range(a.ndim)) if axis is None else sorted(x % a.ndim for x in (axis if isinstance(axis, (tuple, list)) else (axis,)))
        rest = [x for x in range(a.ndim) if x not in axes]
        snap = a.snapshot()

        def fn(idx):
            vs = [fresh_int('x') for _ in axes]
            full = [None] * snap.ndim
            for x, i in zip(rest, idx):
                full[x] = i
            for x, v in zip(axes, vs):
                full[x] = v
            e = ex()
            k = e.push(*[z3.And(0 <= v, v < zint(snap.shape[x])) for x, v in zip(axes, vs)])
            try:
                b = num_term(snap.get(full))
            finally:
                e.pop(k)
            return SNum(T.Opq('amin' if lt else 'amax', [zint(snap.shape[x]) for x in axes], vs, b, (), real=True), True)
        return SArr.make(tuple(a.shape[x] for x in rest), fn, 'f') if rest else fn([])
    raise Unsupported('min/max over a symbolic axis')


def smin(a, b):
    if is_intlike(a) and is_intlike(b):
        return mkint(z3.If(zint(a) <= zint(b), zint(a), zint(b)))
    return a if a <= b else b


def smax(a, b):
    if is_intlike(a) and is_intlike(b):
        return mkint(z3.If(zint(a) >= zint(b), zint(a), zint(b)))
    return a if a >= b else b


@impl
def min_(a, axis=None):
    return _minmax(a, axis, True)


@impl
def max_(a, axis=None):
    return _minmax(a, axis, False)


_IMPL['amin'], _IMPL['amax'] = min_, max_


@impl
def minimum(a, b):
    if is_scalar(a) and is_scalar(b):
        return smin(a, b)
    return elementwise(smin, [a, b])


@impl
def maximum(a, b):
    if is_scalar(a) and is_scalar(b):
        return smax(a, b)
    return elementwise(smax, [a, b])


@impl
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    k = join_kind(to_arr(a).kind, to_arr(b).kind)
    r = elementwise(lambda x, y, z: ite(zbool(x), y, z), [c, a, b])
    r.kind = k
    return r if r.ndim else r.item()


@impl
def roll(a, shift, axis=None):
    a = to_arr(a).snapshot()
    if axis is None:
        if a.ndim != 1:
            raise Unsupported('roll of a flattened array')
        axis = 0
    if isinstance(shift, (SArr, _np.ndarray)):
        shift = [shift[k] for k in range(len(shift))] if shift.ndim else shift.item()
    axs = list(axis) if isinstance(axis, (tuple, list)) else [axis]
    shs = list(shift) if isinstance(shift, (tuple, list)) else [shift] * len(axs)
    if len(shs) == 1:
        shs = shs * len(axs)
    if len(shs) != len(axs):
        if len(axs) == 1:
            axs = axs * len(shs)
        else:
            raise ValueError("'shift' and 'axis' should be scalars or 1D sequences")
    axs = [norm_axis(x, a.ndim) for x in axs]

    def fn(idx):
        idx = list(idx)
        for ax, s in zip(axs, shs):
            idx[ax] = zsimp(idx[ax] - zint(s))
        for ax in set(axs):
            n = zint(a.shape[ax])
            idx[ax] = modn(idx[ax], n)
        return a.get(idx)
    return SArr.make(a.shape, fn, a.kind)


def modn(e, n):
    """e mod n for n>0"""
    e = zsimp(e)
    if z3.is_int_value(n):
        return zsimp(e % n)
    # (a mod n + b) mod n = (a + b) mod n; whole multiples of n drop out
    d, c = T.lin(e)
    inner = {i: v for i, v in d.items() if z3.is_app(v[0]) and v[0].decl().kind() == z3.Z3_OP_MOD and v[0].arg(1).eq(n)}
    if inner:
        rest = T.from_lin({i: v for i, v in d.items() if i not in inner}, c)
        e = zsimp(z3.Sum([rest] + [v[0].arg(0) * v[1] for v in inner.values()]))
        d, c = T.lin(e)
    keep = {i: v for i, v in d.items() if not (v[0].eq(n) or v[0].decl().kind() == z3.Z3_OP_MUL and any(x.eq(n) for x in v[0].children()))}
    if len(keep) != len(d):
        e = zsimp(T.from_lin(keep, c))
    return zmod(e, n)


def meshgrid(*xs, indexing='xy', **k):
    xs = [to_arr(x).snapshot() for x in xs]
    n = len(xs)
    order = list(range(n))
    sh = [x.shape[0] for x in xs]
    if indexing == 'xy' and n >= 2:
        sh[0], sh[1] = sh[1], sh[0]
    pos = list(range(n))
    if indexing == 'xy' and n >= 2:
        pos[0], pos[1] = 1, 0
    return [SArr.make(sh, (lambda i: lambda idx: xs[i].get([idx[pos[i]]]))(i), xs[i].kind) for i in range(n)]


_IMPL['meshgrid'] = meshgrid


@impl
def linspace(start, stop, num=50, endpoint=True, dtype=None, retstep=False):
    n = num
    div = (n - 1) if endpoint else n
    step = (stop - start) / div if not isinstance(div, int) or div else 0

    def fn(idx):
        return start + mkint(idx[0]) * step
    return SArr.make((n,), fn, 'f')


def _fn(name, real=None):
    def f(a):
        def one(v):
            if name == 'exp' and not is_sym(v) and v == 0:
                return 1.0
            rl = is_real(v)
            return SNum(T.Fn(name, [num_term(v)], rl), rl)
        if is_scalar(a):
            return one(a)
        return to_arr(a).map(one, join_kind(to_arr(a).kind, 'f'))
    f.__name__ = name
    return f


for _n in ('exp', 'cos', 'sin', 'sqrt', 'log', 'tanh', 'cosh', 'sinh', 'tan', 'arctan', 'sign', 'log10'):
    _IMPL[_n] = _fn(_n)


@impl
def apply_along_axis(func1d, axis, arr, *args, **kwargs):
    arr = to_arr(arr).snapshot()
    ax = norm_axis(axis, arr.ndim)
    rest = [i for i in range(arr.ndim) if i != ax]
    gen = [fresh_int('a') for _ in rest]
    e = ex()
    rngs = [z3.And(0 <= v, v < zint(arr.shape[r])) for v, r in zip(gen, rest)]
    if any(isinstance(arr.shape[r], int) and arr.shape[r] == 0 for r in rest):
        raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    for r in rest:
        if isinstance(arr.shape[r], SInt):
            if not e.decide(zint(arr.shape[r]) > 0):
                raise ValueError('Cannot apply_along_axis when any iteration dimensions are 0')
    n = e.push(*rngs)
    e.generic.append(([v.get_id() for v in gen], None))
    try:
        def line(i):
            full = [None] * arr.ndim
            for r, v in zip(rest, gen):
                full[r] = v
            full[ax] = i
            return arr.get(full)
        l1 = SArr.make((arr.shape[ax],), lambda idx: line(idx[0]), arr.kind)
        res = func1d(l1, *args, **kwargs)
        res = to_arr(res).snapshot()
    finally:
        e.generic.pop()
        e.pop(n)
    rsh = []
    for s in res.shape:
        if isinstance(s, SInt) and any(T.occurs(s.z, v) for v in gen):
            raise Unsupported('apply_along_axis: ragged')
        rsh.append(s)
    sh = [arr.shape[i] for i in range(ax)] + rsh + [arr.shape[i] for i in range(ax + 1, arr.ndim)]
    k = len(rsh)

    def fn(idx):
        ri = idx[ax:ax + k]
        oi = list(idx[:ax]) + list(idx[ax + k:])
        fv = [fresh_int('q') for _ in ri]
        ee = ex()
        m = ee.push(*(rngs + [z3.And(0 <= v, v < zint(s)) for v, s in zip(fv, rsh)]))
        # the generic line index is instantiated afterwards; make its facts available now
        try:
            val = res.get(fv)
        finally:
            ee.pop(m)
        return subst_val(val, list(zip(gen, oi)) + list(zip(fv, ri)))
    return SArr.make(sh, fn, res.kind)


def _matmul_kind(a, b):
    return join_kind(a.kind, b.kind)


def matmul(a, b):
    a, b = to_arr(a).snapshot(), to_arr(b).snapshot()
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    if a.ndim == 1 and b.ndim == 1:
        return sum_(a * b)
    if a.ndim == 1:
        r = matmul(a[None, :], b)
        return r._view((Ellipsis, 0, slice(None)))
    if b.ndim == 1:
        r = matmul(a, b[:, None])
        return r._view((Ellipsis, 0))
    # explicit contraction
    A = a[(Ellipsis, slice(None), slice(None), None)]
    B = b[(Ellipsis, None, slice(None), slice(None))]
    if not _same_dim(a.shape[-1], b.shape[-2]):
        obligation(zint(a.shape[-1]) == zint(b.shape[-2]), 'matmul: mismatch in core dimension')
    return sum_(A * B, axis=-2)


_IMPL['matmul'] = matmul


@impl
def dot(a, b):
    if is_scalar(a) or is_scalar(b):
        return a * b
    a, b = to_arr(a), to_arr(b)
    if a.ndim <= 2 and b.ndim <= 2:
        return matmul(a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, axes=(-1, -2 if b.ndim > 1 else -1))


@impl
def inner(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return tensordot(a, b, axes=(-1, -1))


@impl
def vdot(a, b):
    a, b = to_arr(a), to_arr(b)
    if a.ndim != b.ndim or not all(_same_dim(x, y) for x, y in zip(a.shape, b.shape)):
        raise Unsupported('vdot of arrays of different shape')
    return sum_(_IMPL['conjugate'](a) * b)


@impl
def outer(a, b):
    a, b = ravel(a), ravel(b)
    return a[:, None] * b[None, :]


@impl
def tensordot(a, b, axes=2):
    a, b = to_arr(a), to_arr(b)
    if isinstance(axes, int):
        xa, xb = list(range(a.ndim - axes, a.ndim)), list(range(axes))
    else:
        xa, xb = [list(x) if isinstance(x, (tuple, list)) else [x] for x in axes]
    xa, xb = [norm_axis(x, a.ndim) for x in xa], [norm_axis(x, b.ndim) for x in xb]
    la = [chr(ord('a') + i) for i in range(a.ndim)]
    lb = [chr(ord('A') + i) for i in range(b.ndim)]
    for x, y in zip(xa, xb):
        lb[y] = la[x]
    out = [c for i, c in enumerate(la) if i not in xa] + [c for i, c in enumerate(lb) if i not in xb]
    r = einsum(''.join(la) + ',' + ''.join(lb) + '->' + ''.join(out), a, b)
    return r


@impl
def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    if '...' in spec:
        ins = spec.split('->')[0].split(',')
        ext = [to_arr(o).ndim - len(s_.replace('...', '')) for s_, o in zip(ins, ops)]
        if any(k and '...' not in s_ for k, s_ in zip(ext, ins)) or '->' not in spec:
            raise Unsupported('einsum with ellipsis')
        n = max(ext)
        free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec][:n]
        ins = [s_.replace('...', ''.join(free[n - k:])) for k, s_ in zip(ext, ins)]
        spec = ','.join(ins) + '->' + spec.split('->')[1].replace('...', ''.join(free))
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    arrs = [to_arr(o).snapshot() for o in ops]
    dims = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            raise ValueError('einsum: wrong number of subscripts')
        for c, d in zip(s, a.shape):
            if c in dims and not _same_dim(dims[c], d):
                obligation(zint(dims[c]) == zint(d), 'einsum: dimension mismatch')
            dims.setdefault(c, d)
    allc = out + ''.join(sorted(set(''.join(ins)) - set(out)))
    kind = arrs[0].kind
    for a in arrs[1:]:
        kind = join_kind(kind, a.kind)

    def fn(idx):
        env = dict(zip(allc, idx))
        r = 1
        for s, a in zip(ins, arrs):
            r = r * a.get([env[c] for c in s])
        return r
    full = SArr.make([dims[c] for c in allc], fn, kind)
    ns = len(allc) - len(out)
    return full if ns == 0 else sum_(full, axis=tuple(range(len(out), len(allc))))


@impl
def tile(a, reps):
    raise Unsupported('tile')


@impl
def repeat(a, repeats, axis=None):
    a = to_arr(a)
    if axis is None:
        a, axis = reshape(a, (-1,)), 0
    ax = norm_axis(axis, a.ndim)
    if not is_intlike(repeats):
        raise Unsupported('repeat with an array')
    s = a.snapshot()
    sh = list(a.shape)
    n1 = isinstance(sh[ax], int) and sh[ax] == 1
    sh[ax] = repeats if n1 else sh[ax] * repeats

    def fn(idx):
        j = list(idx)
        j[ax] = z3.IntVal(0) if n1 else zsimp(idx[ax] / zint(repeats))
        return s.get(j)
    return SArr.make(sh, fn, a.kind)


@impl
def sort(a, axis=-1):
    raise Unsupported('sort of symbolic data')


@impl
def isclose(a, b, *r, **k):
    return elementwise(lambda x, y: x == y, [a, b], 'b')


def _norm_allclose(a, b, *r, **k):
    a, b = to_arr(a).snapshot(), to_arr(b).snapshot()
    shape = broadcast_shapes([a.shape, b.shape])
    a, b = broadcast_to(a, shape), broadcast_to(b, shape)
    fv = [fresh_int('q') for _ in shape]
    e = ex()
    n = e.push(*[z3.And(0 <= v, v < zint(d)) for v, d in zip(fv, shape)])
    try:
        x, y = a.get(fv), b.get(fv)
        if is_intlike(x) and is_intlike(y):
            ok = e.ctx().implies(zint(x) == zint(y))
        else:
            ok = T.prove_eq(num_term(x), num_term(y), e.ctx())[0] == 'proved'
    finally:
        e.pop(n)
    if ok:
        return True
    raise Unsupported('allclose on symbolic data')


_IMPL['allclose'] = _norm_allclose


@impl
def add(a, b):
    return a + b if not (is_scalar(a) and is_scalar(b)) else a + b


@impl
def multiply(a, b):
    return a * b


@impl
def divide(a, b):
    return a / b


@impl
def subtract(a, b):
    return a - b


def _ufunc(name, f):
    def g(*a, **kw):
        if kw:
            raise Unsupported(f'numpy.{name} with keywords')
        if len(a) == 2 and is_scalar(a[0]) and is_scalar(a[1]) or len(a) == 1 and is_scalar(a[0]):
            return f(*a)
        return f(*[x if is_scalar(x) or isinstance(x, SMask) else to_arr(x) for x in a])
    _IMPL[name] = g


for _n, _f in [('square', lambda a: a ** 2), ('negative', lambda a: -a), ('positive', lambda a: a), ('reciprocal', lambda a: sdiv(1, a) if is_scalar(a) else 1 / a),
               ('power', lambda a, b: a ** b), ('true_divide', lambda a, b: a / b), ('floor_divide', lambda a, b: a // b),
               ('mod', lambda a, b: a % b), ('remainder', lambda a, b: a % b), ('less', lambda a, b: a < b), ('less_equal', lambda a, b: a <= b),
               ('greater', lambda a, b: a > b), ('greater_equal', lambda a, b: a >= b), ('equal', lambda a, b: a == b),
               ('not_equal', lambda a, b: a != b)]:
    _ufunc(_n, _f)


@impl
def round_(a, decimals=0):
    raise Unsupported('round')


@impl
def diff(a, n=1, axis=-1):
    if not (isinstance(n, int) and n == 1):
        raise Unsupported('diff of higher order')
    a = to_arr(a)
    pre = (slice(None),) * norm_axis(axis, a.ndim)
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


@impl
def fill_diagonal(a, val, wrap=False):
    if a.ndim != 2 or not is_scalar(val):
        raise Unsupported('fill_diagonal')
    s = a.snapshot()
    a[...] = SArr.make(a.shape, lambda idx: ite(idx[0] == idx[1], val, s.get(idx)), a.kind)


@impl
def trapz(y, x=None, dx=1.0, axis=-1):
    y = to_arr(y)
    ax = norm_axis(axis, y.ndim)
    pre = (slice(None),) * ax
    if x is None:
        d = dx
    else:
        x = to_arr(x)
        d = x[1:] - x[:-1]
        if y.ndim > 1:
            d = d[(None,) * ax + (slice(None),) + (None,) * (y.ndim - ax - 1)]
    return sum_(d * (y[pre + (slice(1, None),)] + y[pre + (slice(None, -1),)]) / 2.0, axis=ax)


_IMPL['trapezoid'] = trapz


@impl
def iscomplexobj(a):
    return to_arr(a).kind == 'c'


@impl
def isnan(a):
    """symbolic numbers are mathematical numbers"""
    a = to_arr(a)
    return SArr.make(a.shape, lambda idx: False, 'b') if a.shape != () else False


@impl
def result_type(*a):
    k = 'b'
    for x in a:
        k = join_kind(k, x.kind if isinstance(x, (SArr, SDtype)) else (kind_of(x) if is_scalar(x) else SDtype.kind_from(x)))
    return SDtype(k)


def _generic_truth(a, axis):
    """True/False if every element is true/false (non empty arrays)"""
    if axis is not None:
        return None
    a = a.snapshot()
    c = ctx()
    if not c.implies(z3.And(*[zint(d) > 0 for d in a.shape])):
        return None
    fv = [fresh_int('q') for _ in a.shape]
    e = ex()
    n = e.push(*[z3.And(0 <= v, v < zint(d)) for v, d in zip(fv, a.shape)])
    try:
        return e.ctx().decide(zbool(a.get(fv)))
    finally:
        e.pop(n)


@impl
def any_(a, axis=None):
    a = to_arr(a)
    if all(isinstance(s, int) for s in a.shape) and axis is None:
        return mkbool(z3.Or(*[zbool(a.get(list(ix))) for ix in itertools.product(*[range(s) for s in a.shape])]))
    r = _generic_truth(a, axis)
    if r is not None:
        return r
    if axis is None and not ex().generic:
        return mkbool(_truths(a)[0])                            # havoc: either outcome is explored, the same one for equal arrays
    raise Unsupported('any over symbolic axis')


def _truths(a):
    """(is there a true element?, position of the first one in the flattened array or 0): the same for equal arrays"""
    e = ex()
    while len(a.shape) > 1:                  # equal blocks: the first true element is in the first block
        a = a.snapshot()
        v = [fresh_int('q') for _ in a.shape]
        k = e.push(*[z3.And(0 <= x, x < zint(d)) for x, d in zip(v, a.shape)])
        try:
            if not e.ctx().implies(zbool(a.get(v)) == zbool(a.get([z3.IntVal(0)] + v[1:]))):
                break
        finally:
            e.pop(k)
        if not e.ctx().implies(zint(a.shape[0]) > 0):
            break
        a = a._view((0,))
    a = a.snapshot()
    known = e.__dict__.setdefault('truths', [])
    v = [fresh_int('q') for _ in a.shape]
    for m, old, res in known:
        if m is not e.pc or len(old.shape) != len(a.shape) or not all(e.ctx().implies(zint(x) == zint(y)) for x, y in zip(old.shape, a.shape)):
            continue
        k = e.push(*[z3.And(0 <= x, x < zint(d)) for x, d in zip(v, a.shape)])
        try:
            if e.ctx().implies(zbool(a.get(v)) == zbool(old.get(v))):
                return res
        finally:
            e.pop(k)
    n = z3.IntVal(1)
    for d in a.shape:
        n = n * zint(d)
    res = z3.Bool(f'any!{T.fresh_int("b")}'), fresh_int('am')
    e.pc.append(z3.Implies(n > 0, z3.And(0 <= res[1], res[1] < n, z3.Implies(z3.Not(res[0]), res[1] == 0))))
    e._ctx = None
    if not e.local:
        known.append((e.pc, a, res))
    return res


@impl
def argmax_(a, axis=None):
    """position of the first maximum of a boolean array: all that is used is that it is a position of the flattened array"""
    a = to_arr(a)
    if axis is not None and not (axis in (-1, 0) and len(a.shape) == 1) or ex().generic:
        raise Unsupported('argmax along an axis')
    n = z3.IntVal(1)
    for d in a.shape:
        n = n * zint(d)
    if not ex().ctx().implies(n > 0):
        raise Unsupported('argmax of a possibly empty array')
    return mkint(_truths(a)[1])




def without_remainders(e):
    """a mod n written as a - n (a div n), sums of products in normal form: flat positions taken apart and put together again cancel"""
    if not z3.is_app(e) or not e.num_args():
        return e
    ch = [without_remainders(c) for c in e.children()]
    if e.decl().kind() == z3.Z3_OP_MOD:
        return ch[0] - ch[1] * (ch[0] / ch[1])
    if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
        return e.decl()(*ch)
    return e.decl()(*[z3.simplify(c, som=True) if c.sort() == z3.IntSort() else c for c in ch])


@impl
def unravel_index(indices, shape, order='C'):
    if order != 'C':
        raise Unsupported('unravel_index in Fortran order')
    sc = is_scalar(indices)
    a = None if sc else to_arr(indices).snapshot()
    shape = tuple(shape)
    n = z3.IntVal(1)
    for d in shape:
        n = n * zint(d)
    if sc:
        obligation(z3.And(0 <= zint(indices), zint(indices) < n), 'index is out of bounds for array')
    else:
        v = [fresh_int('q') for _ in a.shape]
        mark = ex().push(*[z3.And(0 <= x, x < zint(d)) for x, d in zip(v, a.shape)])
        try:
            p = zint(a.get(v))
            obligation(z3.And(0 <= p, p < n), 'index is out of bounds for array')
        finally:
            ex().pop(mark)

    def part(p, k):
        rest = z3.IntVal(1)
        for d in shape[k + 1:]:
            rest = rest * zint(d)
        q = divmod_sym(p, z3.simplify(rest))[0]
        return q if k == 0 else divmod_sym(q, zint(shape[k]))[1]
    if sc:
        return tuple(mkint(part(zint(indices), k)) for k in range(len(shape)))
    return tuple(SArr.make(a.shape, lambda ix, k=k: mkint(part(zint(a.get(ix)), k)), 'i') for k in range(len(shape)))


@impl
def unique_(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    """assumed contract of numpy.unique (documented): one position for every value, the value of every position, the number of positions"""
    a = to_arr(ar)
    e = ex()
    if axis is not None or kw or a.kind != 'i' or e.generic or e.local:
        raise Unsupported('unique')
    flat = reshape(a, (-1,)).snapshot()
    n = zint(flat.shape[0])
    if not e.ctx().implies(n > 0):
        raise Unsupported('unique of a possibly empty array')
    num = e.__dict__.setdefault('uniques', [0])
    num[0] += 1
    I = z3.IntSort()
    tag = f'{num[0]}:{fresh_int("u")}'
    ind, inv, cnt = (z3.Function(f'unique {s} {tag}', I, I) for s in ('index', 'inverse', 'counts'))
    M = fresh_int('nu')
    e.pc.append(z3.And(1 <= M, M <= n))
    e._ctx = None

    x = fresh_int('x')
    mark = e.push(0 <= x, x < n)
    try:
        Lx = without_remainders(zint(flat.get([x])))
    finally:
        e.pop(mark)

    def L(k):
        return z3.substitute(Lx, (x, k))
    T.AXIOMS[inv.name()] = lambda k: z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= inv(k), inv(k) < M, L(ind(inv(k))) == L(k)))
    T.AXIOMS[ind.name()] = lambda m: z3.Implies(z3.And(0 <= m, m < M), z3.And(0 <= ind(m), ind(m) < n, inv(ind(m)) == m))
    T.AXIOMS[cnt.name()] = lambda m: z3.Implies(z3.And(0 <= m, m < M), z3.And(1 <= cnt(m), cnt(m) <= n))
    T.COUNTS[cnt.name()] = (M, inv, n, lambda k: (L(ind(inv(k))), L(k)))
    out = [SArr.make((mkint(M),), lambda ix: mkint(L(ind(ix[0]))), 'i')]
    for want, f in ((return_index, ind), (return_inverse, inv), (return_counts, cnt)):
        if want:
            out.append(SArr.make((mkint(n) if f is inv else mkint(M),), lambda ix, f=f: mkint(f(ix[0])), 'i'))
    return tuple(out) if len(out) > 1 else out[0]


@impl
def argmin_(a, axis=None):
    """position of the (first) smallest element of a vector: one and the same position for equal vectors"""
    a = to_arr(a)
    if axis is not None and not (axis in (-1, 0) and len(a.shape) == 1) or a.ndim != 1 or ex().generic or ex().local or a.kind == 'c':
        raise Unsupported('argmin along an axis')
    e = ex()
    n = zint(a.shape[0])
    if not e.ctx().implies(n > 0):
        raise Unsupported('argmin of a possibly empty array')
    a = a.snapshot()
    known = e.__dict__.setdefault('argmins', [])
    v = fresh_int('q')
    for m, old, r in known:
        if m is not e.pc or not e.ctx().implies(zint(old.shape[0]) == n):
            continue
        k = e.push(0 <= v, v < n)
        try:
            if T.prove_eq(num_term(a.get([v])), num_term(old.get([v])), e.ctx())[0] == 'proved':
                return mkint(r)
        finally:
            e.pop(k)
    r = fresh_int('am')
    e.pc.append(z3.And(0 <= r, r < n))
    e._ctx = None
    known.append((e.pc, a, r))
    return mkint(r)


@impl
def all_(a, axis=None):
    a = to_arr(a)
    if all(isinstance(s, int) for s in a.shape) and axis is None:
        return mkbool(z3.And(*[zbool(a.get(list(ix))) for ix in itertools.product(*[range(s) for s in a.shape])]))
    r = _generic_truth(a, axis)
    if r is not None:
        return r
    raise Unsupported('all over symbolic axis')


@impl
def logical_not(a):
    if isinstance(a, SBool):
        return ~a
    return elementwise(lambda x: mkbool(z3.Not(zbool(x))), [a], 'b')


@impl
def logical_and(a, b):
    return elementwise(lambda x, y: mkbool(z3.And(zbool(x), zbool(y))), [a, b], 'b')


@impl
def logical_or(a, b):
    return elementwise(lambda x, y: mkbool(z3.Or(zbool(x), zbool(y))), [a, b], 'b')


@impl
def logical_xor(a, b):
    return elementwise(lambda x, y: mkbool(z3.Xor(zbool(x), zbool(y))), [a, b], 'b')


# ---------------------------------------------------------------- functionals with assumed contracts
def opaque(name, arr, naxes, real=False, out_kind='c'):
    """uninterpreted functional acting on the trailing/selected axes of arr"""
    raise NotImplementedError


def matinv(a):
    a = to_arr(a).snapshot()
    if a.ndim < 2:
        raise ValueError('array must be at least two-dimensional')
    if not _same_dim(a.shape[-1], a.shape[-2]):
        obligation(zint(a.shape[-1]) == zint(a.shape[-2]), 'Last 2 dimensions of the array must be square')
    n = a.shape[-1]
    nl = a.ndim - 2
    if isinstance(n, int) and n == 1:
        return a.map(lambda v: sdiv(1, v))

    def fn(idx):
        p, q = fresh_int('m'), fresh_int('m')
        e = ex()
        m = e.push(z3.And(0 <= p, p < zint(n)), z3.And(0 <= q, q < zint(n)))
        try:
            b = num_term(a.get(list(idx[:nl]) + [p, q]))
        finally:
            e.pop(m)
        return SNum(T.Opq('matinv', (zint(n), zint(n)), (p, q), b, idx[nl:]), a.kind != 'c')
    return SArr.make(a.shape, fn, 'c' if a.kind == 'c' else 'f')


class _Linalg:
    def __getattr__(self, k):
        real = getattr(_np.linalg, k)
        if not callable(real):
            return real

        def f(*a, **kw):
            if not has_sym(a, kw):
                return real(*a, **kw)
            if k == 'inv':
                return matinv(*a)
            if k == 'norm' and len(a) == 1 and not kw:
                x = to_arr(a[0])
                sq = sum_(x * x.conj())
                sq = SNum(num_term(sq), True)
                return SNum(T.Fn('sqrt', [sq.t], True), True)
            raise Unsupported(f'numpy.linalg.{k}')
        return f


class _Fft:
    def __getattr__(self, k):
        real = getattr(_np.fft, k)

        def f(*a, **kw):
            if not has_sym(a, kw):
                return real(*a, **kw)
            if k in ('fftn', 'ifftn', 'fft', 'ifft', 'fft2', 'ifft2'):
                return fft(k, *a, **kw)
            raise Unsupported(f'numpy.fft.{k}')
        return f


def fft(name, a, s=None, axes=None, axis=None, n=None):
    a = to_arr(a).snapshot()
    if s is not None or n is not None:
        raise Unsupported('fft with explicit size')
    if name in ('fft', 'ifft'):
        axes = [norm_axis(-1 if axis is None else axis, a.ndim)]
    else:
        axes = list(range(a.ndim)) if axes is None else [norm_axis(x, a.ndim) for x in axes]
    sign = 1 if name.startswith('i') else -1

    def fn(idx):
        vs = [fresh_int('f') for _ in axes]
        full = list(idx)
        e = ex()
        m = e.push(*[z3.And(0 <= v, v < zint(a.shape[x])) for v, x in zip(vs, axes)])
        try:
            for v, x in zip(vs, axes):
                full[x] = v
            t = num_term(a.get(full))
        finally:
            e.pop(m)
        return SNum(T.Opq(name[0:4] if sign > 0 else 'fft', [zint(a.shape[x]) for x in axes], vs, t, [idx[x] for x in axes]))
    return SArr.make(a.shape, fn, 'c')


class _Random:
    """random numbers of a symbolic shape are arbitrary real contents"""
    count = 0

    def __getattr__(self, k):
        real = getattr(_np.random, k)

        def f(*a, **kw):
            if not has_sym(a, kw):
                return real(*a, **kw)
            shape = a if k in ('rand', 'randn') else (a[0] if a else kw.get('size')) if k in ('random', 'random_sample') else None
            if shape is None:
                raise Unsupported(f'numpy.random.{k}')
            shape = tuple(shape) if isinstance(shape, (tuple, list)) else (shape,)
            _Random.count += 1
            nm = f'rnd:{_Random.count}'
            return SArr.make(shape, lambda ix: SNum(T.Elem(nm, tuple(zint(i) for i in ix), real=True), True), 'f')
        return f


# set for a second attempt when symbolic values are stored in an array of fixed size
CREATE_SYMBOLIC = [False]


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self.random = _Random()
        self.ndarray = ndarray
        self.linalg = _Linalg()
        self.fft = _Fft()

    def __getattr__(self, k):
        f = _IMPL.get(k)
        try:
            real = getattr(_np, k)
        except AttributeError:
            if k in ('int', 'float', 'complex', 'bool', 'object'):
                raise AttributeError(f"module 'numpy' has no attribute '{k}'")
            raise
        if f is None:
            if callable(real) and not isinstance(real, type):
                def g(*a, **kw):
                    if has_sym(a, kw):
                        raise Unsupported(f'numpy.{k} on symbolic arguments')
                    return real(*a, **kw)
                g.__name__ = k
                return g
            return real

        def g(*a, **kw):
            if not has_sym(a, kw) and not (CREATE_SYMBOLIC[0] and k in ('zeros', 'ones', 'empty', 'full')):
                return real(*a, **kw)
            return f(*a, **kw)
        g.__name__ = k
        return g


class _Floaty:
    pass


NP = NumpyShim()
NP.pi = SNum(T.PI, True)
for _t in ('int64', 'int32'):
    pass
_IMPL['asanyarray'] = _IMPL['asarray']
_IMPL['count_nonzero'] = lambda a, axis=None: sum_(to_arr(a).map(lambda v: v._i() if isinstance(v, SBool) else int(bool(v)) if isinstance(v, (bool, _np.bool_)) else v != 0, 'i'), axis=axis)
