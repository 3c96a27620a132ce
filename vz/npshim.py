"""NumPy / math / builtin stand-ins installed into the namespaces of the modules under test."""
import builtins
import math as _math
import sys
import types
from fractions import Fraction

import numpy as np

from .core import *  # noqa
from .core import _asobj, _btruth, _has_sym, _lift_vec, _obj, _plain, _s0
from . import core as C


def _reg(name):
    def d(f):
        AF[name] = f
        return f

    return d


def aslike(x):
    """argument -> SArr (object or int), arrays and lists and scalars"""
    if isinstance(x, SArr):
        return x
    if isinstance(x, np.ndarray):
        return wrap(x)
    return mkarray(x)


def _scalarize(r):
    if isinstance(r, np.ndarray) and r.ndim == 0:
        return r[()]
    return r


@_reg("where")
def where(c, *ab):
    if not ab:
        m = aslike(c)
        if m.dtype == object:
            m = realmask(np.frompyfunc(_btruth, 1, 1)(np.asarray(m)))
        return tuple(wrap(i) for i in np.nonzero(np.asarray(m)))
    a, b = ab
    c, a, b = (np.asarray(aslike(x)) for x in (c, a, b))
    if c.dtype != object and a.dtype.kind in "iub" and b.dtype.kind in "iub":
        return wrap(np.where(c, a, b))
    r = np.frompyfunc(ite, 3, 1)(_asobj(c), _asobj(a), _asobj(b))
    return C.tidy_bool(_obj(r)) if isinstance(r, np.ndarray) else r


@_reg("select")
def select(condlist, choicelist, default=0):
    r = default
    for c, v in reversed(list(zip(condlist, choicelist))):
        r = where(c, v, r)
    return r


@_reg("isclose")
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = lift(x), lift(y)
        if x.special or y.special:
            if x.special and y.special:
                return (x.t == y.t) or (equal_nan and x.t != x.t and y.t != y.t)
            return False
        return s_le(s_abs(x - y), lift(atol) + lift(rtol) * s_abs(y))

    r = np.frompyfunc(f, 2, 1)(_asobj(aslike(a)), _asobj(aslike(b)))
    return C.tidy_bool(_obj(r)) if isinstance(r, np.ndarray) else r


@_reg("allclose")
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = isclose(a, b, rtol, atol, equal_nan)
    if isinstance(r, np.ndarray):
        r = r.all()
    return bool(r)


@_reg("array_equal")
def array_equal(a, b, equal_nan=False):
    a, b = aslike(a), aslike(b)
    if a.shape != b.shape:
        return False
    r = a == b
    return bool(r.all()) if isinstance(r, np.ndarray) else bool(r)


@_reg("clip")
def clip(a, a_min=None, a_max=None, out=None, **k):
    a_min = k.pop("min", a_min)
    a_max = k.pop("max", a_max)
    r = a
    if a_min is not None:
        r = NP.maximum(r, a_min)
    if a_max is not None:
        r = NP.minimum(r, a_max)
    if out is not None:
        out[...] = r
        return out
    return r


@_reg("around")
def around(a, decimals=0, out=None):
    a = aslike(a)
    if a.dtype != object and a.dtype.kind in "iu" and decimals >= 0:
        return a
    p = Fraction(10) ** decimals

    def f(x):
        x = lift(x)
        return s_rint(x) if decimals == 0 else s_rint(x * p) / p

    return _obj(np.frompyfunc(f, 1, 1)(_asobj(a)))


AF["round"] = around
AF["round_"] = around


def _slices(nd, ax, s):
    k = [slice(None)] * nd
    k[ax] = s
    return tuple(k)


@_reg("gradient")
def gradient(f, *varargs, axis=None, edge_order=1):
    f = liftarr(aslike(f))
    nd = f.ndim
    axes = tuple(range(nd)) if axis is None else ((axis,) if not isinstance(axis, tuple) else axis)
    axes = tuple(a % nd for a in axes)
    if len(varargs) == 0:
        dxs = [1] * len(axes)
    elif len(varargs) == 1 and np.ndim(varargs[0]) == 0:
        dxs = [varargs[0]] * len(axes)
    elif len(varargs) == len(axes):
        dxs = list(varargs)
    else:
        raise TypeError("invalid number of arguments")
    res = []
    for ax, dx in zip(axes, dxs):
        n = f.shape[ax]
        if n < edge_order + 1:
            raise ValueError("Shape of array too small to calculate a numerical gradient")
        out = np.empty(f.shape, dtype=object).view(SArr)
        sl = lambda s: _slices(nd, ax, s)
        if np.ndim(dx) == 0:
            out[sl(slice(1, -1))] = (f[sl(slice(2, None))] - f[sl(slice(None, -2))]) / (2 * dx)
            d0 = dn = dx
            h = [dx, dx, dx, dx]
            uniform = True
        else:
            x = liftarr(aslike(dx))
            d = x[1:] - x[:-1]
            shp = [1] * nd
            shp[ax] = -1
            h1 = d[:-1].reshape(shp)
            h2 = d[1:].reshape(shp)
            a = -h2 / (h1 * (h1 + h2))
            b = (h2 - h1) / (h1 * h2)
            c = h1 / (h2 * (h1 + h2))
            if n > 2:
                out[sl(slice(1, -1))] = (
                    a * f[sl(slice(None, -2))] + b * f[sl(slice(1, -1))] + c * f[sl(slice(2, None))]
                )
            d0, dn = d[0], d[-1]
            uniform = False
        if edge_order == 1:
            out[sl(0)] = (f[sl(1)] - f[sl(0)]) / d0
            out[sl(-1)] = (f[sl(-1)] - f[sl(-2)]) / dn
        else:
            if uniform:
                out[sl(0)] = (-1.5 * f[sl(0)] + 2 * f[sl(1)] - 0.5 * f[sl(2)]) / dx
                out[sl(-1)] = (0.5 * f[sl(-3)] - 2 * f[sl(-2)] + 1.5 * f[sl(-1)]) / dx
            else:
                raise EngineLimit("gradient edge_order=2 nonuniform")
        res.append(out)
    if len(res) == 1:
        return res[0]
    return tuple(res)


@_reg("dot")
def dot(a, b, out=None):
    a, b = aslike(a), aslike(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.dtype != object and b.dtype != object:
        return wrap(np.matmul(np.asarray(a), np.asarray(b)))
    a, b = _asobj(a), _asobj(b)
    A = a if a.ndim > 1 else a[None, :]
    B = b if b.ndim > 1 else b[:, None]
    pre = np.broadcast_shapes(A.shape[:-2], B.shape[:-2])
    A = np.broadcast_to(A, pre + A.shape[-2:])
    B = np.broadcast_to(B, pre + B.shape[-2:])
    if A.shape[-1] != B.shape[-2]:
        raise ValueError("shapes not aligned")
    r = np.empty(pre + (A.shape[-2], B.shape[-1]), dtype=object)
    for p in np.ndindex(pre):
        for i in range(A.shape[-2]):
            for j in range(B.shape[-1]):
                v = ZERO
                for k in range(A.shape[-1]):
                    v = v + lift(A[p + (i, k)]) * lift(B[p + (k, j)])
                r[p + (i, j)] = v
    if a.ndim == 1:
        r = r[..., 0, :]
    if b.ndim == 1:
        r = r[..., 0] if isinstance(r, np.ndarray) else r
    return _obj(r) if isinstance(r, np.ndarray) else r


AF["matmul"] = dot


@_reg("outer")
def outer(a, b, out=None):
    a, b = aslike(a).reshape(-1), aslike(b).reshape(-1)
    return a[:, None] * b[None, :]


@_reg("inner")
def inner(a, b):
    return (aslike(a) * aslike(b)).sum(axis=-1)


@_reg("vdot")
def vdot(a, b):
    return (aslike(a).reshape(-1) * aslike(b).reshape(-1)).sum()


@_reg("einsum")
def einsum(spec, *ops, **k):
    ops = [np.asarray(liftarr(aslike(o))) for o in ops]
    if "->" not in spec or "." in spec:
        raise EngineLimit("einsum implicit")
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    dims = {}
    for s, o in zip(ins, ops):
        for ch, n in zip(s, o.shape):
            dims[ch] = n
    summ = [c for c in dims if c not in out]
    r = np.empty([dims[c] for c in out], dtype=object)
    for idx in np.ndindex(r.shape):
        env = dict(zip(out, idx))
        v = ZERO
        for sidx in np.ndindex(*[dims[c] for c in summ]):
            env.update(zip(summ, sidx))
            p = ONE
            for s, o in zip(ins, ops):
                p = p * lift(o[tuple(env[c] for c in s)])
            v = v + p
        r[idx] = v
    return _obj(r)


def _det(m):
    n = m.shape[0]
    if n == 1:
        return lift(m[0, 0])
    if n == 2:
        return lift(m[0, 0]) * m[1, 1] - lift(m[0, 1]) * m[1, 0]
    r = ZERO
    for j in range(n):
        sub = np.delete(np.delete(m, 0, 0), j, 1)
        t = lift(m[0, j]) * _det(sub)
        r = r + t if j % 2 == 0 else r - t
    return r


@_reg("linalg.det")
def det(a):
    a = _asobj(aslike(a))
    r = np.empty(a.shape[:-2], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = _det(a[i])
    return _scalarize(r.view(SArr))


@_reg("linalg.inv")
def inv(a):
    a = _asobj(aslike(a))
    n = a.shape[-1]
    r = np.empty(a.shape, dtype=object)
    for p in np.ndindex(a.shape[:-2]):
        m = a[p]
        d = _det(m)
        if bool(d == 0):
            raise np.linalg.LinAlgError("Singular matrix")
        for i in range(n):
            for j in range(n):
                c = _det(np.delete(np.delete(m, j, 0), i, 1)) if n > 1 else ONE
                r[p + (i, j)] = (c if (i + j) % 2 == 0 else -c) / d
    return r.view(SArr)


@_reg("linalg.solve")
def solve(a, b):
    return dot(inv(a), b)


@_reg("linalg.norm")
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) and not (ord == "fro"):
        raise EngineLimit("norm ord")
    x = aslike(x)
    return NP.sqrt((x * x).sum(axis=axis, keepdims=keepdims))


@_reg("interp")
def interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise EngineLimit("interp period")
    xp, fp = aslike(xp), aslike(fp)
    n = len(xp)

    def one(v):
        v = lift(v)
        if bool(v < xp[0]):
            return fp[0] if left is None else left
        if bool(v > xp[n - 1]):
            return fp[n - 1] if right is None else right
        for i in range(n - 1):
            if i == n - 2 or bool(v <= xp[i + 1]):
                return fp[i] + (fp[i + 1] - fp[i]) * ((v - xp[i]) / (xp[i + 1] - xp[i]))
        return fp[0]

    if np.ndim(x) == 0:
        return lift(one(x))
    return _obj(np.frompyfunc(lambda v: lift(one(v)), 1, 1)(_asobj(aslike(x))))


@_reg("searchsorted")
def searchsorted(a, v, side="left", sorter=None):
    a = aslike(a)

    def one(x):
        x = lift(x)
        for i in range(len(a)):
            if bool((x <= a[i]) if side == "left" else (x < a[i])):
                return i
        return len(a)

    if np.ndim(v) == 0:
        return one(v)
    return convert(_obj(np.frompyfunc(one, 1, 1)(_asobj(aslike(v)))), int)


@_reg("count_nonzero")
def count_nonzero(a, axis=None, **k):
    a = aslike(a)
    return (a != 0).sum(axis=axis) if not all(isb(x) for x in np.asarray(a).reshape(-1)) else a.sum(axis=axis)


@_reg("std")
def std(a, axis=None, ddof=0, **k):
    return NP.sqrt(var(a, axis, ddof=ddof))


@_reg("var")
def var(a, axis=None, ddof=0, **k):
    a = aslike(a)
    d = a - (a.mean(axis=axis, keepdims=True) if axis is not None else a.mean())
    s = (d * d).sum(axis=axis)
    n = a.size if axis is None else a.shape[axis]
    return s / (n - ddof)


@_reg("mean")
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    return aslike(a).mean(axis=axis, keepdims=bool(keepdims) if keepdims is not np._NoValue else False)


@_reg("average")
def average(a, axis=None, weights=None, **k):
    a = aslike(a)
    if weights is None:
        return a.mean(axis=axis)
    w = aslike(weights)
    if axis is None or w.shape == a.shape:
        return (a * w).sum(axis=axis) / w.sum(axis=axis)
    shp = [1] * a.ndim
    shp[axis] = -1
    return (a * w.reshape(shp)).sum(axis=axis) / w.sum()


@_reg("cross")
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    a, b = aslike(a), aslike(b)
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = np.moveaxis(np.asarray(liftarr(a)), axisa, 0).view(SArr), np.moveaxis(np.asarray(liftarr(b)), axisb, 0).view(SArr)
    if len(a) == 2 and len(b) == 2:
        return a[0] * b[1] - a[1] * b[0]
    r = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    return np.moveaxis(np.asarray(mkarray(r)), 0, axisc).view(SArr)


@_reg("nan_to_num")
def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(v):
        v = lift(v)
        if v.special:
            if v.t != v.t:
                return lift(nan)
            return lift(posinf if v.t > 0 and posinf is not None else (1.7e308 if v.t > 0 else -1.7e308))
        return v

    return _obj(np.frompyfunc(f, 1, 1)(_asobj(aslike(x))))


@_reg("full_like")
def full_like(a, v, dtype=None, **k):
    a = aslike(a)
    if dtype is None and a.dtype != object:
        dtype = a.dtype
    if dtype is None and a.size and all(isb(x) for x in np.asarray(a).reshape(-1)):
        dtype = bool
    return full(k.get("shape") or a.shape, v, dtype=dtype if dtype is not None else float)


@_reg("zeros_like")
def zeros_like(a, dtype=None, **k):
    return full_like(a, 0, dtype, **k)


@_reg("ones_like")
def ones_like(a, dtype=None, **k):
    return full_like(a, 1, dtype, **k)


@_reg("empty_like")
def empty_like(a, dtype=None, **k):
    a = aslike(a)
    if dtype is None and a.dtype != object:
        dtype = a.dtype
    return empty(k.get("shape") or a.shape, dtype=dtype)


@_reg("vectorize")
def _vec(*a, **k):
    raise EngineLimit("vectorize")


@_reg("apply_along_axis")
def apply_along_axis(f, axis, arr, *a, **k):
    arr = aslike(arr)
    m = np.moveaxis(np.asarray(arr), axis, -1)
    res = [f(m[i].view(SArr), *a, **k) for i in np.ndindex(m.shape[:-1])]
    r = mkarray(res)
    r = r.reshape(m.shape[:-1] + r.shape[1:])
    if r.ndim == m.ndim:
        r = np.moveaxis(np.asarray(r), -1, axis).view(SArr)
    return r


@_reg("nansum")
def nansum(a, axis=None, **k):
    a = aslike(a)
    return where(NP.isnan(a), 0, a).sum(axis=axis)


@_reg("trapezoid")
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = np.moveaxis(np.asarray(liftarr(aslike(y))), axis, -1).view(SArr)
    if x is None:
        d = dx
    else:
        x = liftarr(aslike(x))
        d = x[..., 1:] - x[..., :-1]
        if x.ndim != 1:
            d = np.moveaxis(np.asarray(d), axis, -1).view(SArr)
    return (d * (y[..., 1:] + y[..., :-1]) / 2).sum(axis=-1)


AF["trapz"] = trapezoid


@_reg("sum")
def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=True):
    if hasattr(a, "__next__"):
        a = list(a)
    if keepdims is np._NoValue:
        keepdims = False
    a = aslike(a)
    if a.dtype != object:
        return wrap(np.asarray(a).sum(axis=axis, keepdims=keepdims))
    r = do_ufunc(np.add, "reduce", (a,), dict(axis=axis, keepdims=keepdims))
    if out is not None:
        out[...] = r
        return out
    return r


def _mm(uf, nm):
    def f(a, axis=None, out=None, keepdims=False, initial=np._NoValue, where=True):
        a = aslike(a)
        if keepdims is np._NoValue:
            keepdims = False
        return do_ufunc(uf, "reduce", (a,), dict(axis=axis, keepdims=keepdims, initial=initial)
                        if a.dtype == object else dict(axis=axis, keepdims=keepdims))

    f.__name__ = nm
    return f


AF["max"] = AF["amax"] = AF["nanmax"] = _mm(np.maximum, "amax")
AF["min"] = AF["amin"] = AF["nanmin"] = _mm(np.minimum, "amin")


def _aa(uf, nm):
    def f(a, axis=None, out=None, keepdims=False, where=True):
        if hasattr(a, "__next__"):
            a = list(a)
        a = aslike(a)
        if keepdims is np._NoValue:
            keepdims = False
        if not isinstance(a, np.ndarray):
            return _btruth(a)
        return do_ufunc(uf, "reduce", (a,), dict(axis=axis, keepdims=keepdims))

    f.__name__ = nm
    return f


AF["any"] = _aa(np.logical_or, "any")
AF["all"] = _aa(np.logical_and, "all")


@_reg("argmax")
def argmax(a, axis=None, **k):
    a = aslike(a)
    if a.dtype != object:
        return wrap(np.argmax(np.asarray(a), axis=axis))
    if axis is None:
        els = list(np.asarray(a).reshape(-1))
        best = 0
        for i in range(1, len(els)):
            if bool(lift(els[i]) > lift(els[best])):
                best = i
        return best
    m = np.moveaxis(np.asarray(a), axis, -1)
    r = np.empty(m.shape[:-1], dtype=int)
    for i in np.ndindex(r.shape):
        r[i] = argmax(m[i].view(SArr))
    return wrap(r)


@_reg("argmin")
def argmin(a, axis=None, **k):
    a = aslike(a)
    return argmax(-a if a.dtype != object else do_ufunc(np.negative, "__call__", (a,), {}), axis)


@_reg("argsort")
def argsort(a, axis=-1, **k):
    a = aslike(a)
    if a.dtype != object:
        return wrap(np.argsort(np.asarray(a), axis=axis, kind="stable"))
    if a.ndim != 1:
        raise EngineLimit("argsort nd")
    els = list(np.asarray(a))
    idx = []
    for i in range(len(els)):
        j = len(idx)
        while j > 0 and bool(lift(els[i]) < lift(els[idx[j - 1]])):
            j -= 1
        idx.insert(j, i)
    return wrap(np.array(idx, dtype=int))


@_reg("sort")
def sort(a, axis=-1, **k):
    a = aslike(a)
    return a[argsort(a)]


@_reg("nonzero")
def nonzero(a):
    return where(a)


@_reg("flatnonzero")
def flatnonzero(a):
    return where(aslike(a).reshape(-1))[0]


@_reg("argwhere")
def argwhere(a):
    return wrap(np.stack([np.asarray(i) for i in where(a)], axis=1))


@_reg("diff")
def diff(a, n=1, axis=-1, **k):
    a = aslike(a)
    if k:
        raise EngineLimit("diff prepend")
    for _ in range(n):
        nd = a.ndim
        ax = axis % nd
        a = a[_slices(nd, ax, slice(1, None))] - a[_slices(nd, ax, slice(None, -1))]
    return a


@_reg("cumsum")
def cumsum(a, axis=None, dtype=None, out=None):
    if out is not None:
        raise EngineLimit("cumsum out")
    a = aslike(a)
    if axis is None:
        a, axis = a.reshape(-1), 0
    a = np.moveaxis(a, axis, 0)
    r, s = [], None
    for v in a:
        s = v if s is None else s + v
        r.append(s)
    r = mkarray(r) if r else a
    return np.moveaxis(r, 0, axis)


@_reg("piecewise")
def _pw(*a, **k):
    raise EngineLimit("piecewise")


@_reg("real")
def real(a):
    return a if isinstance(a, (S, SArr)) else np.real(a)


@_reg("isscalar")
def isscalar(a):
    return isinstance(a, (S, SB)) or np.isscalar(a)


# ------------------------------------------------------------- creation functions (never dispatched by numpy)
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(int(x) for x in s)
    if isinstance(s, np.ndarray):
        return tuple(int(x) for x in np.asarray(s).reshape(-1))
    return (int(s),)


def full(shape, v, dtype=None, **k):
    shape = _shape(shape)
    if dtype is not None and is_int_dtype(dtype):
        r = np.empty(shape, dtype=int)
        r[...] = int(v) if np.ndim(v) == 0 else np.asarray(v)
        return r.view(SArr)
    if dtype is None and np.ndim(v) == 0 and isinstance(v, (int, np.integer)) and not isb(v):
        return np.full(shape, int(v)).view(SArr)
    r = np.empty(shape, dtype=object).view(SArr)
    if (dtype is not None and is_bool_dtype(dtype)) or (dtype is None and isb(v)):
        v = bool(v) if not isinstance(v, (SB, np.ndarray)) else v
        if not isinstance(v, np.ndarray):
            for i in np.ndindex(shape):
                np.asarray(r)[i] = v
            return r
    if dtype is not None and dtype is not object and not (is_float_dtype(dtype) or is_bool_dtype(dtype)):
        raise EngineLimit("full dtype %r" % (dtype,))
    if np.ndim(v) == 0:
        v = lift(v)
        base = np.asarray(r)
        for i in np.ndindex(shape):
            base[i] = v
    else:
        r[...] = aslike(v)
    return r


def zeros(shape, dtype=None, *a, **k):
    return full(shape, 0, dtype if dtype is not None else float)


def ones(shape, dtype=None, *a, **k):
    return full(shape, 1, dtype if dtype is not None else float)


def empty(shape, dtype=None, *a, **k):
    if dtype is not None and (is_int_dtype(dtype) or is_bool_dtype(dtype)):
        return full(shape, 0, dtype)
    if dtype is object:
        return np.empty(_shape(shape), dtype=object).view(SArr)
    # uninitialised memory: every read is unspecified, poison it
    return full(shape, float("nan"), float)


def array(obj, dtype=None, *, copy=True, ndmin=0, **k):
    if hasattr(obj, "__next__"):
        return arr0(obj)
    return mkarray(obj, dtype, bool(copy) if copy is not None else False, ndmin)


def asarray(obj, dtype=None, *a, **k):
    if isinstance(obj, SArr) and (dtype is None or (is_float_dtype(dtype) and obj.dtype == object
                                                     and not any(isb(x) for x in np.asarray(obj).reshape(-1)))):
        return obj
    return mkarray(obj, dtype, False)


def fromiter(it, dtype=float, count=-1, **k):
    it = list(it)
    if count is not None and count >= 0:
        it = it[: int(count)]
    if not it:
        return zeros((0,), dtype)
    return mkarray(it, dtype)


def arange(*a, dtype=None, **k):
    if any(isinstance(x, S) and not x.const for x in a):
        a = [x.__index__() if isinstance(x, S) else x for x in a]
    a = [(int(x.t) if x.t.denominator == 1 and x.isint else float(x.t)) if isinstance(x, S) else x for x in a]
    r = np.arange(*a)
    if dtype is not None:
        return convert(wrap(r), dtype)
    return wrap(r)


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    if np.ndim(start) == 0 and np.ndim(stop) == 0:
        start, stop = lift(start), lift(stop)
    else:
        start, stop = aslike(start), aslike(stop)
        if axis != 0:
            raise EngineLimit("linspace axis")
    div = (num - 1) if endpoint else num
    step = (stop - start) / div if div else NAN
    els = [start + (stop - start) * Fraction(i, div) if div else start for i in range(num)]
    if endpoint and num > 1:
        els[-1] = stop
    r = mkarray(els) if els else zeros((0,))
    if dtype is not None:
        r = convert(r, dtype)
    return (r, step) if retstep else r


def identity(n, dtype=None, **k):
    return wrap(np.eye(int(n)))


class vectorize:
    def __init__(self, f, otypes=None, **k):
        self.f = f

    def __call__(self, *a):
        a = [_asobj(aslike(x)) for x in a]
        r = np.frompyfunc(self.f, len(a), 1)(*a)
        if isinstance(r, np.ndarray):
            return mkarray(r.tolist()).reshape(r.shape)
        return r


CREATE = dict(
    zeros=zeros, ones=ones, empty=empty, full=full, array=array, asarray=asarray, asanyarray=asarray,
    ascontiguousarray=asarray, asfarray=asarray, fromiter=fromiter, arange=arange, linspace=linspace,
    identity=identity, vectorize=vectorize, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like,
    full_like=full_like,
)


class _UfuncProxy:
    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def _go(self, method, args, kw):
        args = [(mkarray(a) if isinstance(a, (list, tuple)) else a) for a in args]
        if len(args) > self._uf.nin and method == "__call__":
            kw = dict(kw, out=args[self._uf.nin])
            args = args[: self._uf.nin]
        return do_ufunc(self._uf, method, tuple(args), kw)

    def __call__(self, *args, **kw):
        return self._go("__call__", args, kw)

    def reduce(self, *args, **kw):
        if len(args) > 1:
            kw["axis"] = args[1]
            args = args[:1]
        return self._go("reduce", args, kw)

    def accumulate(self, *args, **kw):
        return self._go("accumulate", args, kw)

    def outer(self, *args, **kw):
        return self._go("outer", args, kw)

    def at(self, *args, **kw):
        return self._go("at", args, kw)

    def __getattr__(self, n):
        return getattr(self._uf, n)


class _ModProxy:
    def __init__(self, mod, prefix=""):
        self.__dict__["_mod"] = mod
        self.__dict__["_prefix"] = prefix
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache
        if name in c:
            return c[name]
        obj = getattr(self._mod, name)
        r = self._make(name, obj)
        c[name] = r
        return r

    def _make(self, name, obj):
        if not self._prefix and name in CREATE:
            return CREATE[name]
        if self._prefix and self._prefix + name in AF:
            return _call_conv(AF[self._prefix + name])
        if not self._prefix and name in AF:
            return AF[name]
        if isinstance(obj, np.ufunc):
            return _UfuncProxy(obj)
        if isinstance(obj, types.ModuleType):
            return _ModProxy(obj, name + ".") if name in ("linalg", "fft", "random") else obj
        if isinstance(obj, type) or not callable(obj):
            if name in ("float64", "float32", "double"):
                return SymFloat
            if name in ("int64", "int32", "int_", "intp"):
                return _NpIntMeta(name, (SymInt,), dict(dtype=np.dtype(obj), _real=obj))
            if name in ("r_", "c_"):
                return _RC(name)
            return obj
        return _wrapfn(obj)


def _call_conv(f):
    return f


class _RC:
    def __init__(self, n):
        self.n = n

    def __getitem__(self, k):
        k = k if isinstance(k, tuple) else (k,)
        parts = []
        for x in k:
            if isinstance(x, slice):
                parts.append(wrap(np.r_[x]))
            elif np.ndim(x) == 0:
                parts.append(mkarray([x]))
            else:
                parts.append(aslike(x))
        if self.n == "r_":
            return NP.concatenate(parts)
        return NP.column_stack(parts)


def _symarg(a):
    if isinstance(a, (S, SB)):
        return True
    if isinstance(a, np.ndarray):
        return a.dtype == object
    if isinstance(a, (list, tuple)):
        return any(_symarg(x) for x in a)
    return False


def _wrapfn(fn):
    def w(*args, **kw):
        if any(_symarg(a) for a in args) or any(_symarg(v) for v in kw.values()):
            a2 = []
            for a in args:
                if isinstance(a, list) and _symarg(a) and all(not isinstance(x, np.ndarray) for x in a):
                    a = mkarray(a)
                elif isinstance(a, (S, SB)):
                    a = arr0(a)
                elif isinstance(a, (list, tuple)):
                    a = type(a)(liftarr(x) if isinstance(x, np.ndarray) and x.dtype.kind == "f" else _s0(x) for x in a)
                a2.append(a)
            kw = dict(kw)
            if is_float_dtype(kw.get("dtype")):
                kw["dtype"] = object
            return wrap(fn(*a2, **kw))
        if getattr(kw.get("dtype"), "_vz_float", False):
            kw = dict(kw, dtype=float)
        if getattr(kw.get("dtype"), "_vz_int", False):
            kw = dict(kw, dtype=int)
        out = kw.get("out")
        return wrap(fn(*args, **kw))

    w.__name__ = getattr(fn, "__name__", "fn")
    return w


# ------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, np.floating)) or (isinstance(x, S) and not x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, np.floating)) or c is S

    def __call__(cls, x=0.0):
        if isinstance(x, (S, SB)):
            return lift(x)
        if isinstance(x, np.ndarray) and x.dtype == object:
            return lift(x.reshape(())[()])
        return builtins.float(x)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or o is np.float64

    def __hash__(cls):
        return hash(builtins.float)


class SymFloat(metaclass=_FloatMeta):
    _vz_float = True
    dtype = np.dtype(float)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.int, np.integer)) or (isinstance(x, S) and x.isint)

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.int, np.integer))

    def __call__(cls, x=0, *a):
        return builtins.int(x, *a)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or o is np.int64

    def __hash__(cls):
        return hash(builtins.int)


class SymInt(metaclass=_IntMeta):
    _vz_int = True
    dtype = np.dtype(int)


class _NpIntMeta(_IntMeta):
    """numpy integer type: plain numbers stay numpy scalars"""

    def __call__(cls, x=0, *a):
        if not a and isinstance(x, (builtins.int, np.integer)):
            return cls._real(x)
        return builtins.int(x, *a)

    def __hash__(cls):
        return hash(builtins.int)


class _MathProxy:
    _m = dict(sqrt=s_sqrt, sin=s_sin, cos=s_cos, tan=s_tan, exp=s_exp, log=s_log, fabs=s_abs, atan=s_arctan,
              asin=s_arcsin, acos=s_arccos, isnan=s_isnan, isinf=s_isinf, isfinite=s_isfinite)
    _m2 = dict(atan2=s_arctan2, hypot=s_hypot, fmod=s_fmod, pow=s_pow, copysign=s_copysign)

    def __getattr__(self, name):
        if name in self._m:
            f, g = self._m[name], getattr(_math, name)
            return lambda x: f(lift(x)) if _symarg(x) else g(x)
        if name in self._m2:
            f2, g2 = self._m2[name], getattr(_math, name)
            return lambda x, y: f2(lift(x), lift(y)) if _symarg(x) or _symarg(y) else g2(x, y)
        if name in ("fsum",):
            return lambda it: builtins.sum(it)
        if name == "isclose":
            def ic(a, b, rel_tol=1e-9, abs_tol=0.0):
                a, b = lift(a), lift(b)
                return s_le(s_abs(a - b), s_max(lift(rel_tol) * s_max(s_abs(a), s_abs(b)), lift(abs_tol)))
            return ic
        return getattr(_math, name)


def sym_min(*a, **k):
    if len(a) == 1 and not k and _symarg(list(a[0]) if not isinstance(a[0], np.ndarray) else a[0]):
        a = tuple(a[0])
    if not k and len(a) > 1 and any(isinstance(x, S) for x in a):
        r = lift(a[0])
        for x in a[1:]:
            r = s_min(r, lift(x))
        return r
    return builtins.min(*a, **k)


def sym_max(*a, **k):
    if len(a) == 1 and not k and _symarg(list(a[0]) if not isinstance(a[0], np.ndarray) else a[0]):
        a = tuple(a[0])
    if not k and len(a) > 1 and any(isinstance(x, S) for x in a):
        r = lift(a[0])
        for x in a[1:]:
            r = s_max(r, lift(x))
        return r
    return builtins.max(*a, **k)


NP = _ModProxy(np)
MATH = _MathProxy()


def install(extra=None, skip=()):
    """Patch every loaded zoidberg module (by object identity, so aliases and `from numpy import x` work)."""
    ids = {}
    for k in dir(np):
        try:
            o = getattr(np, k)
        except Exception:
            continue
        if callable(o) and not isinstance(o, type):
            ids[id(o)] = k
    for k in ("vectorize",):
        ids[id(getattr(np, k))] = k
    for k in dir(np.linalg):
        o = getattr(np.linalg, k)
        if callable(o) and not isinstance(o, type) and id(o) not in ids:
            ids[id(o)] = "linalg." + k
    extra = extra or {}
    ex = {id(k): v for k, v in extra.items()} if isinstance(extra, dict) else {id(k): v for k, v in extra}
    keep = list(extra.keys()) if isinstance(extra, dict) else [k for k, _ in extra]
    install._keep = getattr(install, "_keep", []) + keep
    mathfn = {id(getattr(_math, k)): k for k in dir(_math) if callable(getattr(_math, k))}
    for name, mod in list(sys.modules.items()):
        if not (name == "zoidberg" or name.startswith("zoidberg.")) or mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            if k.startswith("__"):
                continue
            if id(v) in ex:
                g[k] = ex[id(v)]
            elif v is np:
                g[k] = NP
            elif v is np.linalg:
                g[k] = NP.linalg
            elif v is _math:
                g[k] = MATH
            elif id(v) in ids and getattr(v, "__name__", None):
                n = ids[id(v)]
                g[k] = getattr(NP.linalg, n[7:]) if n.startswith("linalg.") else getattr(NP, n)
            elif id(v) in mathfn:
                g[k] = getattr(MATH, mathfn[id(v)])
        g["float"] = SymFloat
        g["int"] = SymInt
        g["min"] = sym_min
        g["max"] = sym_max
