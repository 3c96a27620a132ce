"""Stand-ins for SciPy routines, used where the real one cannot take symbolic numbers."""
import sys
from fractions import Fraction

import numpy as np

from .core import EngineLimit, PathAbort, S, lift, mkarray


def mods():
    return [m for n, m in list(sys.modules.items()) if (n == "zoidberg" or n.startswith("zoidberg.")) and m is not None]


def stub(cx, owner, name, fake):
    """replace owner.name, wherever a zoidberg module refers to it"""
    import importlib

    o = importlib.import_module(owner) if isinstance(owner, str) else owner
    real = getattr(o, name)
    for m in mods():
        for k, v in list(m.__dict__.items()):
            if v is real and not k.startswith("__"):
                cx.patch(m, k, fake)
    cx.patch(o, name, fake)
    return real


# ---------------------------------------------------------------- splines
_basis_cache = {}


def _fr(v):
    v = float(v)
    if abs(v) < 1e-11:
        return Fraction(0)
    return Fraction(v).limit_denominator(10**10)


def basis(x, k=3, bc=None):
    """cardinal splines on the points x: list over intervals of (lo, hi, coef[point][power])"""
    from scipy.interpolate import PPoly, make_interp_spline

    x = tuple(float(v) for v in x)
    key = (x, k, bc)
    if key in _basis_cache:
        return _basis_cache[key]
    n = len(x)
    out = None
    for j in range(n):
        e = np.zeros(n)
        e[j] = 1.0
        p = PPoly.from_spline(make_interp_spline(np.array(x), e, k=min(k, n - 1), bc_type=bc))
        if out is None:
            keep = [i for i in range(len(p.x) - 1) if p.x[i + 1] - p.x[i] > 1e-12]
            out = [(Fraction(p.x[i]), Fraction(p.x[i + 1]), []) for i in keep]
        for o, i in zip(out, keep):
            c = p.c[:, i]  # descending powers of (t - lo)
            o[2].append([_fr(v) for v in c[::-1]])
    _basis_cache[key] = out
    return out


def ev_basis(x, t, d=0, k=3, bc=None):
    """values of the d-th derivative of the cardinal splines at t (symbolic or not); extrapolates with the end pieces"""
    bs = basis(x, k, bc)
    t = lift(t)
    pick = bs[-1]
    for b in bs[:-1]:
        if bool(t < b[1]):
            pick = b
            break
    u = t - pick[0]
    pw = [lift(1)]
    K = len(pick[2][0])
    for _ in range(K - 1):
        pw.append(pw[-1] * u)
    r = []
    for cj in pick[2]:
        s = lift(0)
        for q in range(d, K):
            if cj[q] == 0:
                continue
            f = 1
            for m in range(d):
                f *= q - m
            s = s + pw[q - d] * (cj[q] * f)
        r.append(s)
    return r


class RectSpline:
    """RectBivariateSpline with exact linear dependence on the data; piecewise polynomial in the point"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0):
        self.x = [float(v) for v in np.asarray(x)]
        self.y = [float(v) for v in np.asarray(y)]
        self.z = np.asarray(z, dtype=object)
        assert self.z.shape == (len(self.x), len(self.y)), "x, y, z dimensions"
        self.kx, self.ky = kx, ky

    def one(self, a, b, dx, dy):
        a, b = lift(a), lift(b)
        # RectBivariateSpline clamps to the data range
        lo, hi = self.x[0], self.x[-1]
        if bool(a < lo):
            a = lift(lo)
        elif bool(a > hi):
            a = lift(hi)
        lo, hi = self.y[0], self.y[-1]
        if bool(b < lo):
            b = lift(lo)
        elif bool(b > hi):
            b = lift(hi)
        bx = ev_basis(self.x, a, dx, self.kx)
        by = ev_basis(self.y, b, dy, self.ky)
        s = lift(0)
        for i, p in enumerate(bx):
            if p.const and p.t == 0:
                continue
            t = lift(0)
            for j, q in enumerate(by):
                if q.const and q.t == 0:
                    continue
                t = t + q * lift(self.z[i, j])
            s = s + p * t
        return s

    def __call__(self, a, b, dx=0, dy=0, grid=True):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        if grid:
            a, b = a.reshape(-1, 1), b.reshape(1, -1)
        a, b = np.broadcast_arrays(a, b)
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(*a.shape):
            r[i] = self.one(a[i], b[i], dx, dy)
        return mkarray(r) if r.shape else r[()]

    def ev(self, a, b, dx=0, dy=0):
        return self(a, b, dx, dy, grid=False)


class Spline1:
    """make_interp_spline / InterpolatedUnivariateSpline with symbolic data"""

    def __init__(self, x, y, k=3, bc=None):
        self.x, self.k, self.bc = [float(v) for v in np.asarray(x)], k, bc
        self.y = np.asarray(y, dtype=object)

    def __call__(self, t, nu=0):
        t = np.asarray(t, dtype=object)
        r = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            s = lift(0)
            for p, v in zip(ev_basis(self.x, t[i], nu, self.k, self.bc), self.y):
                if not (p.const and p.t == 0):
                    s = s + p * lift(v)
            r[i] = s
        return mkarray(r) if r.shape else r[()]


# ---------------------------------------------------------------- time integration
def euler(f, y0, t, args=(), **k):
    """odeint replaced by one explicit Euler step per output interval (exact for constant right hand sides)"""
    y = mkarray(y0)
    out = [y]
    tt = list(np.asarray(t, dtype=object))
    for a, b in zip(tt[:-1], tt[1:]):
        y = y + mkarray(f(y, a, *args)) * (b - a)
        out.append(y)
    r = np.empty((len(out),) + np.shape(y), dtype=object)
    for i, v in enumerate(out):
        r[i] = np.asarray(v, dtype=object)
    return mkarray(r)


def midpoint(f, y0, t, args=(), **k):
    """odeint replaced by one explicit midpoint step per output interval (exact for right hand sides linear in
    the independent variable and constant along each solution)"""
    y = mkarray(y0)
    out = [y]
    tt = list(np.asarray(t, dtype=object))
    for a, b in zip(tt[:-1], tt[1:]):
        h = (b - a) * 0.5
        k1 = mkarray(f(y, a, *args))
        y = y + mkarray(f(y + k1 * h, a + h, *args)) * (b - a)
        out.append(y)
    r = np.empty((len(out),) + np.shape(y), dtype=object)
    for i, v in enumerate(out):
        r[i] = np.asarray(v, dtype=object)
    return mkarray(r)


class GridInterp:
    """RegularGridInterpolator (linear) for concrete query points and symbolic values; extrapolates if fill_value is None"""

    def __init__(self, points, values, method="linear", bounds_error=True, fill_value=float("nan")):
        if method != "linear":
            raise EngineLimit("RegularGridInterpolator method " + str(method))
        self.p = [[float(v) for v in np.asarray(p, dtype=object)] for p in points]
        self.v = np.asarray(values, dtype=object)
        self.be, self.fv = bounds_error, fill_value

    def __call__(self, xi, method=None):
        if isinstance(xi, tuple):
            xs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in xi])
        else:
            a = np.asarray(xi, dtype=object)
            xs = [a[..., i] for i in range(a.shape[-1])]
        r = np.empty(xs[0].shape, dtype=object)
        for idx in np.ndindex(*r.shape):
            q = [float(a[idx]) for a in xs]
            out = any(t < p[0] or t > p[-1] for t, p in zip(q, self.p))
            if out and self.be:
                raise ValueError("One of the requested xi is out of bounds")
            if out and self.fv is not None:
                r[idx] = lift(self.fv)
                continue
            loc = []
            for t, p in zip(q, self.p):
                i = min(max(int(np.searchsorted(p, t, side="right")) - 1, 0), len(p) - 2)
                loc.append((i, lift((t - p[i]) / (p[i + 1] - p[i]))))
            s = lift(0)
            for c in np.ndindex(*(2,) * len(loc)):
                w = lift(1)
                for (i, f), b in zip(loc, c):
                    w = w * (f if b else 1 - f)
                s = s + w * lift(self.v[tuple(i + b for (i, _), b in zip(loc, c))])
            r[idx] = s
        return mkarray(r) if r.shape else r[()]


# ---------------------------------------------------------------- periodic splines
_per_cache = {}


def per_basis(x, k):
    """periodic cardinal splines on x[0..n] (x[n] is the end of the period): [(lo, hi, coef[point][power])]"""
    from scipy.interpolate import PPoly, make_interp_spline

    x = tuple(float(v) for v in x)
    if (x, k) in _per_cache:
        return _per_cache[x, k]
    if k % 2 == 0:
        raise EngineLimit("periodic spline of even order")
    n = len(x) - 1
    out = None
    for j in range(n):
        e = np.zeros(n + 1)
        e[j] = 1.0
        e[n] = e[0]
        if k == 1:
            p = PPoly(np.array([np.diff(e) / np.diff(x), e[:-1]]), np.array(x))
        else:
            p = PPoly.from_spline(make_interp_spline(np.array(x), e, k=k, bc_type="periodic"))
        keep = [i for i in range(len(p.x) - 1) if p.x[i + 1] - p.x[i] > 1e-12 and x[0] - 1e-9 <= p.x[i] < x[-1] - 1e-9]
        if out is None:
            out = [(Fraction(p.x[i]), Fraction(p.x[i + 1]), []) for i in keep]
        for o, i in zip(out, keep):
            o[2].append([_fr(v) for v in p.c[:, i][::-1]])
    _per_cache[x, k] = out
    return out


class Tck:
    """what splrep(per=True) returns"""

    def __init__(self, x, y, k):
        self.x, self.y, self.k = [float(v) for v in x], list(np.asarray(y, dtype=object)), k


def splrep(x, y, w=None, xb=None, xe=None, k=3, task=0, s=None, t=None, full_output=0, per=0, quiet=1):
    if not per or t is not None or w is not None or full_output or s not in (None, 0, 0.0):
        raise EngineLimit("splrep arguments")
    x = np.asarray(x, dtype=object)
    y = np.asarray(y, dtype=object)
    assert x.shape == y.shape
    return Tck(x, y[:-1], k)


def splev(t, tck, der=0, ext=0):
    bs = per_basis(tck.x, tck.k)
    t = np.asarray(t, dtype=object)
    r = np.empty(t.shape, dtype=object)
    for i in np.ndindex(*t.shape):
        v = lift(t[i])
        lo, hi = tck.x[0], tck.x[-1]
        pick = bs[-1]
        for b in bs[:-1]:
            if bool(v < b[1]):
                pick = b
                break
        u = v - pick[0]
        s = lift(0)
        for cj, y in zip(pick[2], tck.y):
            q = lift(0)
            for e in range(len(cj) - 1, der - 1, -1):
                f = 1
                for m in range(der):
                    f *= e - m
                q = q * u + cj[e] * f
            if not (q.const and q.t == 0):
                s = s + q * lift(y)
        r[i] = s
    return mkarray(r) if r.shape else r[()]


def ratio(a, b):
    """a / b, a constant if both are multiples of the same monomial"""
    from . import laurent

    a, b = lift(a), lift(b)
    if not a.const and not b.const:
        N = laurent.Norm({}, [])
        try:
            p, q = N.poly(a.t), N.poly(b.t)
        except laurent.TooBig:
            return a / b
        if len(p) == len(q) == 1:
            (m, c), (n, d) = list(p.items())[0], list(q.items())[0]
            if m == n:
                return lift(c / d)
    return a / b


class Interp1:
    """interp1d (linear) with symbolic points and values"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=float("nan"), assume_sorted=False):
        if kind != "linear":
            raise EngineLimit("interp1d kind")
        self.x = [lift(v) for v in np.asarray(x, dtype=object)]
        self.y = [lift(v) for v in np.asarray(y, dtype=object)]
        assert len(self.x) == len(self.y)
        self.be = bounds_error is not False and not fill_value == "extrapolate"

    def one(self, t):
        t = lift(t)
        if self.be and (bool(t < self.x[0]) or bool(t > self.x[-1])):
            raise ValueError("A value in x_new is outside the interpolation range.")
        n = len(self.x)
        i = n - 2
        for j in range(1, n - 1):
            if bool(t < self.x[j]):
                i = j - 1
                break
        a, b = self.x[i], self.x[i + 1]
        return self.y[i] + (self.y[i + 1] - self.y[i]) * ratio(t - a, b - a)

    def __call__(self, t):
        t = np.asarray(t, dtype=object)
        r = np.empty(t.shape, dtype=object)
        for i in np.ndindex(*t.shape):
            r[i] = self.one(t[i])
        return mkarray(r) if r.shape else r[()]


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = np.asarray(y, dtype=object)
    assert y.ndim == 1
    out = [lift(initial)] if initial is not None else []
    s = lift(0)
    for i in range(1, len(y)):
        h = lift(x[i]) - lift(x[i - 1]) if x is not None else lift(dx)
        s = s + (lift(y[i]) + lift(y[i - 1])) * 0.5 * h
        out.append(s)
    r = np.empty(len(out), dtype=object)
    r[:] = out
    return mkarray(r)


def rz(cx):
    """all of them, for rzline"""
    if cx.sym:
        stub(cx, "scipy.interpolate", "splrep", splrep)
        stub(cx, "scipy.interpolate", "splev", splev)
        stub(cx, "scipy.interpolate", "interp1d", Interp1)
        stub(cx, "scipy.integrate", "cumulative_trapezoid", cumtrapz)
