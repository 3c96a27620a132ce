"""C09: following field lines: every line ends where its own start leads, in the caller's array shape."""
import itertools

import numpy as np

from .. import stubs

TOL = 2e-5


class Lines:
    """field whose direction is constant along each line but for a term linear in y, so that lines are known exactly"""

    def __init__(self, cx, n=None):
        self.p, self.q = cx.real("p", "-1/2", "1/2"), cx.real("q", "-1/2", "1/2")
        self.a, self.b, self.c = (cx.real(k, -1, 1) for k in "abc")
        self.cx = cx
        self.calls = []

    def rate(self, x, z, y):
        return self.a + self.b * (self.q * x - self.p * z) + self.c * y

    def field_direction(self, pos, y, flatten=False):
        N = self.cx.np
        if flatten:
            r = pos.reshape((-1, 2))
            x, z = r[:, 0], r[:, 1]
        else:
            x, z = pos
        f = self.rate(x, z, y)
        if flatten:
            return N.column_stack((self.p * f, self.q * f)).flatten()
        return [self.p * f, self.q * f]

    def at(self, x, z, y0, y1):
        s = (self.a + self.b * (self.q * x - self.p * z)) * (y1 - y0) + self.c * (y1 * y1 - y0 * y0) * 0.5
        return x + self.p * s, z + self.q * s


def _ode(cx):
    import scipy.integrate as SI

    real = SI.odeint
    seen = []

    def wrapped(f, y0, t, args=(), **k):
        seen.append(k.get("rtol"))
        return (stubs.midpoint if cx.sym else real)(f, y0, t, args=args, **k)

    stubs.stub(cx, "scipy.integrate", "odeint", wrapped)
    return seen


def _ys(cx, n, forward=True):
    y = [cx.real("y0", -2, 2)]
    for i in range(1, n):
        d = cx.real("dy%d" % i, "1/10", 1)
        y.append(y[-1] + d if forward else y[-1] - d)
    return y


def shapes(cx, xs, zs, ny, forward, rtol=None, container="array"):
    import zoidberg.fieldtracer as FT

    seen = _ode(cx)
    f = Lines(cx)
    mk = lambda name, s: cx.real(name, -2, 2) if s == () else cx.reals(name, s, -2, 2)
    x, z = mk("x", xs), mk("z", zs)
    y = _ys(cx, ny, forward)
    tr = FT.FieldTracer(f)
    conv = (lambda v: v) if container == "array" else (lambda v: v.tolist() if isinstance(v, np.ndarray) else v)
    X, Z, Y = conv(x), conv(z), (cx.np.array(y) if container == "array" else y)
    kx = np.array(x, dtype=object, copy=True)
    kw = {} if rtol is None else dict(rtol=rtol)
    r = tr.follow_field_lines(X, Z, Y, **kw)
    s = np.broadcast_shapes(xs, zs)
    if s == ():
        s = (1,)
    cx.check(np.shape(r) == (ny,) + s + (2,), "shape of the result")
    if np.shape(r) != (ny,) + s + (2,):
        return
    xb = np.broadcast_to(np.asarray(x, dtype=object), s)
    zb = np.broadcast_to(np.asarray(z, dtype=object), s)
    for i in np.ndindex(*s):
        cx.eq(r[(0,) + i + (0,)], xb[i], "starts at x")
        cx.eq(r[(0,) + i + (1,)], zb[i], "starts at z")
        for k in range(1, ny):
            ex, ez = f.at(xb[i], zb[i], y[0], y[k])
            cx.eq(r[(k,) + i + (0,)], ex, "x of line %s at y%d" % (i, k), tol=TOL)
            cx.eq(r[(k,) + i + (1,)], ez, "z of line %s at y%d" % (i, k), tol=TOL)
    cx.eq(np.asarray(x, dtype=object), kx, "starting points are not modified")
    cx.check(all(v == rtol for v in seen), "the requested tolerance is used")


def invalid(cx):
    import zoidberg.fieldtracer as FT

    _ode(cx)
    for cls in (FT.FieldTracer, FT.FieldTracerReversible):
        t = cls(Lines(cx))
        x3, x2 = cx.np.array([1.0, 2.0, 3.0]), cx.np.array([1.0, 2.0])
        y = cx.np.array([0.0, 1.0])
        cx.check(cx.raises(lambda: t.follow_field_lines(x3, x2, y), ValueError), "different sizes are rejected")
        cx.check(cx.raises(lambda: t.follow_field_lines(x3, x3, cx.np.array([1.0])), ValueError), "a single y is rejected")
        cx.check(cx.raises(lambda: t.follow_field_lines(x3, x3, cx.np.array([[0.0, 1.0], [1.0, 2.0]])), ValueError), "two-dimensional y is rejected")


class Slab(Lines):
    """as Lines, with fixed coefficients"""

    def __init__(self, cx):
        self.cx = cx
        self.p, self.q, self.a, self.b, self.c = 0.25, 0.5, 0.5, 0.25, 0.0


def many(cx, n, shape, where):
    """sizes that are traced in several pieces: two of the lines are free, the others are fixed and distinct"""
    import zoidberg.fieldtracer as FT

    _ode(cx)
    f = Slab(cx)
    x = cx.np.array(np.arange(n) / 1024.0)
    z = cx.np.array(-np.arange(n) / 512.0)
    i, j = cx.choice("i", where), cx.choice("j", [0, n // 2])
    x[i], z[i] = cx.real("xi", -2, 2), cx.real("zi", -2, 2)
    if j != i:
        x[j], z[j] = cx.real("xj", -2, 2), cx.real("zj", -2, 2)
    y = cx.np.array([0.0, 1.0])
    r = FT.FieldTracer(f).follow_field_lines(x.reshape(shape), z.reshape(shape), y)
    cx.check(np.shape(r) == (2,) + shape + (2,), "shape of the result")
    if np.shape(r) != (2,) + shape + (2,):
        return
    r = r.reshape((2, n, 2))
    for k in range(n):
        ex, ez = f.at(x[k], z[k], 0.0, 1.0)
        cx.eq(r[1, k, 0], ex, "x of line %d" % k, tol=TOL)
        cx.eq(r[1, k, 1], ez, "z of line %d" % k, tol=TOL)


def poincare(cx, nslice, revs, nover, shape, given=True):
    import zoidberg.fieldtracer as FT

    _ode(cx)
    f = Lines(cx)
    L = cx.real("period", 1, 4)
    x, z = (cx.reals(k, shape, -2, 2) if shape else cx.real(k, -2, 2) for k in "xz")
    if given:
        sl = [cx.real("s%d" % i, 0, 4) for i in range(nslice)]
        for s in sl:
            cx.assume(s <= L - cx.margin(1e-6))
        for a, b in itertools.combinations(sl, 2):
            cx.assume(cx.np.abs(a - b) > cx.margin(0.01))
        arr = cx.np.array(sl)
        r, ys = FT.trace_poincare(f, x, z, L, y_slices=arr, revs=revs, nover=nover)
        for a, b in zip(arr, sl):
            cx.eq(a, b, "the given slices are not modified")
        want = sorted(sl)  # decided by the solver
    else:
        r, ys = FT.trace_poincare(f, x, z, L, nplot=nslice, revs=revs, nover=nover)
        want = [L * i / nslice for i in range(nslice)]
    s = shape or (1,)
    cx.check(np.shape(r) == (revs, nslice) + s + (2,), "shape of the result %s" % (np.shape(r),))
    cx.check(len(ys) == nslice, "number of slices")
    if np.shape(r) != (revs, nslice) + s + (2,):
        return
    xb, zb = (np.asarray(v, dtype=object).reshape(s) for v in (x, z))
    for k in range(nslice):
        cx.eq(ys[k], want[k], "slice %d" % k)
        for n in range(revs):
            for i in np.ndindex(*s):
                ex, ez = f.at(xb[i], zb[i], want[0], want[k] + n * L)
                cx.eq(r[(n, k) + i + (0,)], ex, "x of turn %d, slice %d" % (n, k), tol=1e-4)
                cx.eq(r[(n, k) + i + (1,)], ez, "z of turn %d, slice %d" % (n, k), tol=1e-4)


def slices_range(cx):
    import zoidberg.fieldtracer as FT

    _ode(cx)
    f = Slab(cx)
    L = cx.real("period", 1, 4)
    s = [cx.real("s%d" % i, -2, 6) for i in range(2)]
    bad = False
    for v in s:
        for lim in (0.0, L):
            cx.assume(cx.np.abs(v - lim) > cx.margin(0.001))
        bad = (v < 0) | (v > L) | bad
    cx.assume(cx.np.abs(s[0] - s[1]) > cx.margin(0.01))
    r = cx.raises(lambda: FT.trace_poincare(f, 0.0, 0.0, L, y_slices=cx.np.array(s), revs=1, nover=1), ValueError)
    cx.eq(r, bad, "slices outside the period are rejected, others are not")
    cx.check(cx.raises(lambda: FT.trace_poincare(f, 0.0, 0.0, L, nplot=None), ValueError), "no slices given")


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    for nm, xs, zs, ny, fw in (("1d", (3,), (3,), 3, True), ("1d-backward", (2,), (2,), 3, False), ("2d", (2, 3), (2, 3), 2, True), ("3d", (2, 1, 2), (2, 1, 2), 2, True),
                               ("scalar-x", (), (3,), 2, True), ("scalar-z", (2, 2), (), 2, False), ("scalars", (), (), 3, True), ("one-x", (1,), (3,), 2, True), ("one-z", (3,), (1,), 2, True)):
        cs.append(dict(name="shape-" + nm, fn=shapes, params=dict(xs=xs, zs=zs, ny=ny, forward=fw), bounds="x %s, z %s, %d planes" % (xs, zs, ny), opts=o, cost=2))
    cs.append(dict(name="shape-rtol", fn=shapes, params=dict(xs=(2,), zs=(2,), ny=2, forward=True, rtol=1e-9), bounds="rtol given", opts=o, cost=2))
    cs.append(dict(name="shape-lists", fn=shapes, params=dict(xs=(2, 2), zs=(2, 2), ny=3, forward=True, container="list"), bounds="lists instead of arrays", opts=o, cost=2))
    cs.append(dict(name="invalid", fn=invalid, bounds="mismatched inputs", opts=o, cost=1))
    for n, shape, where in ((999, (999,), [0, 1, 998]), (1000, (10, 100), [0, 999]), (2001, (3, 667), [999, 1000, 1001, 2000]), (3003, (3003,), [1000, 1001, 2001, 2002, 3002])):
        cs.append(dict(name="many-%d" % n, fn=many, params=dict(n=n, shape=shape, where=where), bounds="%d lines, two of them free" % n, opts=dict(budget_s=300, path_s=120, obl_batch=200), cost=6, concrete_timeout=400, case_timeout=200, max_cases=6))
    for nm, ns, rv, nv, sh in (("given-2", 2, 2, 2, (2,)), ("given-3", 3, 2, 1, ()), ("given-1", 1, 3, 3, (1, 2)), ("given-over", 2, 1, 5, ())):
        cs.append(dict(name="poincare-" + nm, fn=poincare, params=dict(nslice=ns, revs=rv, nover=nv, shape=sh), bounds="%d slices anywhere in any order, %d turns, %d-fold oversampling" % (ns, rv, nv), opts=o, cost=4))
    for nm, ns, rv, nv, sh in (("spaced-3", 3, 2, 2, (2,)), ("spaced-1", 1, 4, 2, ())):
        cs.append(dict(name="poincare-" + nm, fn=poincare, params=dict(nslice=ns, revs=rv, nover=nv, shape=sh, given=False), bounds="%d equal slices, %d turns" % (ns, rv), opts=o, cost=4))
    cs.append(dict(name="poincare-range", fn=slices_range, bounds="two slices anywhere", opts=o, cost=2))
    if tier != "quick":
        cs.append(dict(name="shape-big", fn=shapes, params=dict(xs=(3, 3), zs=(3, 3), ny=6, forward=True), bounds="9 lines, 6 planes", opts=dict(budget_s=1200, obl_timeout_ms=60000), cost=9))
        cs.append(dict(name="poincare-4", fn=poincare, params=dict(nslice=4, revs=3, nover=4, shape=(2,)), bounds="4 slices, 3 turns", opts=dict(budget_s=2400, obl_timeout_ms=60000), cost=9))
        for n in (1999, 5000):
            cs.append(dict(name="many-%d" % n, fn=many, params=dict(n=n, shape=(n,), where=list(range(990, 1010)) + [n - 1]), bounds="%d lines" % n, opts=dict(budget_s=1200, path_s=300, obl_batch=200), cost=9, concrete_timeout=1200, case_timeout=300, max_cases=6))
    return cs
