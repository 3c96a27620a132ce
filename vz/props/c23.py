"""C23: grids between two closed lines."""
import numpy as np

from .. import core, stubs

TAU = 2 * np.pi


class Line:
    """line with an independent position at every angle; positions near a given shape, some of them free"""

    def __init__(self, cx, name, shape, free, box, n=6, order=None):
        self.cx, self.name, self.shape, self.free, self.box = cx, name, shape, free, box
        self.theta = np.linspace(0, TAU, n, endpoint=False)
        self.R, self.Z = [cx.np.array([self.at(t, d) for t in self.theta]) for d in (0, 1)]
        self.order = order
        self.asked = []

    def key(self, t):
        return int(round(float(t) / TAU * 10080)) % 10080

    def at(self, t, d):
        k = self.key(t)
        v = self.shape(TAU * k / 10080)[d]
        if k in self.free:
            v = v + self.cx.real("%s%s%d" % (self.name, "RZ"[d], k), "-" + self.box, self.box)
        return v

    def _value(self, t, d, deriv):
        assert not deriv
        t = np.arange(len(self.R)) * TAU / len(self.R) if t is None else np.asarray(t)
        if not t.shape:
            return self.at(t[()], d)
        r = self.cx.np.zeros(t.shape)
        for i in np.ndindex(*t.shape):
            r[i] = self.at(t[i], d)
        return r

    def Rvalue(self, theta=None, deriv=0):
        return self._value(theta, 0, deriv)

    def Zvalue(self, theta=None, deriv=0):
        return self._value(theta, 1, deriv)

    def position(self, theta=None, deriv=0):
        return self.Rvalue(theta, deriv), self.Zvalue(theta, deriv)

    def closestPoint(self, R, Z, **k):
        """known in advance, for the points of the other line"""
        for t, want in self.order:
            p = self.other.at(t, 0), self.other.at(t, 1)
            if _same(p[0], R) and _same(p[1], Z):
                return want
        raise AssertionError("not a point of the outer line")


def _same(a, b):
    d = _const(a - b)
    return d is not None and abs(d) < 1e-9


def _const(d):
    """number, None if it depends on inputs"""
    if isinstance(d, core.S):
        return float(d.t) if d.const else None
    return float(d)


def circle(R0, Z0, a, e=1.0, t=0.0):
    return lambda x: (R0 + a * np.cos(x + t * np.sin(x)), Z0 + a * e * np.sin(x))


def _grid(cx, g, coords):
    if coords:
        return g
    return g.R, g.Z


def annulus(cx, nx, nz, coords):
    """straight lines between the two boundaries"""
    import zoidberg.poloidal_grid as P

    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", stubs.RectSpline)
    allk = [int(round(10080 * k / nz)) for k in range(nz)]
    inner = Line(cx, "i", circle(3.0, 0.0, 0.5), allk, "1/8")
    outer = Line(cx, "o", circle(3.1, 0.125, 1.5, 1.25), allk, "1/8")
    if not coords and cx.sym:
        made = []

        class Stand:
            def __init__(self, R, Z, *a, **k):
                self.R, self.Z = R, Z

        stubs.stub(cx, P, "StructuredPoloidalGrid", Stand)
    R, Z = _grid(cx, P.grid_annulus(inner, outer, nx, nz, show=False, return_coords=coords), coords)
    cx.check(np.shape(R) == (nx, nz) and np.shape(Z) == (nx, nz), "shape")
    for i in range(nx):
        for k in range(nz):
            x, t = i / (nx - 1), TAU * k / nz
            for v, d in ((R, 0), (Z, 1)):
                cx.eq(v[i, k], (1 - x) * inner.at(t, d) + x * outer.at(t, d), "%s along the straight line" % "RZ"[d])


def step(cx, nx, nz, gi, go, fi, fo, kw, coords=True, ort=None):
    """boundary lines with free points: boundaries of the grid and cells beyond them, whatever the interior is"""
    import zoidberg.poloidal_grid as P

    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", stubs.RectSpline)
    f = lambda ks: [int(round(10080 * k / nz)) for k in ks]
    inner = Line(cx, "i", circle(3.0, 0.0, 0.5), f(fi), "1/8")
    outer = Line(cx, "o", circle(3.1, 0.125, 1.5, 1.25), f(fo), "1/8")
    inner.other = outer
    ths = [TAU * k / nz for k in range(nz)]
    if ort is not None:
        # closest points of the inner line, at given angles
        inner.order = [(t, float(np.remainder(t + 0.05 * np.sin(t + 1), TAU))) for t in ths]
        m = nz
        for r in range(3):
            m = int(m / kw.get("restrict_factor", 2))
            if m > 1:
                inner.order += [(TAU * k / m, float(np.remainder(TAU * k / m + 0.05 * np.sin(TAU * k / m + 1), TAU))) for k in range(m)]
    if not coords and cx.sym:

        class Stand:
            def __init__(self, R, Z, *a, **k):
                self.R, self.Z = R, Z

        stubs.stub(cx, P, "StructuredPoloidalGrid", Stand)
    kw = dict(kw)
    if gi:
        kw["nx_inner"] = gi
    if go:
        kw["nx_outer"] = go
    g = P.grid_elliptic(inner, outer, nx, nz, tol=1e6, align=False, inner_ort=ort is not None, return_coords=coords, **kw)
    R, Z = _grid(cx, g, coords)
    cx.check(np.shape(R) == (nx, nz) and np.shape(Z) == (nx, nz), "requested number of points")
    lo, hi = gi, nx - 1 - go
    for k in range(nz):
        for v, d in ((R, 0), (Z, 1)):
            n = "RZ"[d]
            cx.eq(v[hi, k], outer.at(ths[k], d), n + " on the outer line")
            if ort is None:
                cx.eq(v[lo, k], inner.at(ths[k], d), n + " on the inner line")
            for j in range(1, go + 1):
                cx.eq(v[hi + j, k] - v[hi, k], j * (v[hi, k] - v[hi - 1, k]), n + " beyond the outer line", tol=1e-5)
            for j in range(1, gi + 1):
                cx.eq(v[lo - j, k] - v[lo, k], j * (v[lo, k] - v[lo + 1, k]), n + " beyond the inner line", tol=1e-5)


SHAPES = dict(
    round=(circle(3.0, 0.0, 0.5), circle(3.0, 0.0, 1.5)),
    shifted=(circle(3.25, 0.125, 0.5, 1.5), circle(3.0, 0.0, 1.5, 1.25)),
    bean=(circle(3.0, 0.0, 0.5, 1.25, 0.25), circle(3.0, 0.0, 1.5, 1.5, 0.5)),
)


def solved(cx, nx, nz, which, kw, ni=8, no=8, shift=0, guards=(0, 0), align=None, tol=1e-10, order=None):
    """anywhere in the plane: on the boundaries, solution of the equations, no folded cells"""
    import zoidberg.poloidal_grid as P
    import zoidberg.rzline as L

    stubs.rz(cx)
    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", stubs.RectSpline)
    d = [cx.real("R0", -8, 8), cx.real("Z0", -8, 8)]
    sh = SHAPES[which]
    lines = []
    for s, n, o in ((sh[0], ni, 0), (sh[1], no, shift)):
        p = [s(TAU * (k + o) / n) for k in range(n)]
        lines.append(L.RZline(cx.np.array([d[0] + float(v[0]) for v in p]), cx.np.array([d[1] + float(v[1]) for v in p]), spline_order=order))
    inner, outer = lines
    kw = dict(kw)
    if guards[0]:
        kw["nx_inner"] = guards[0]
    if guards[1]:
        kw["nx_outer"] = guards[1]
    R, Z = P.grid_elliptic(inner, outer, nx, nz, tol=tol, return_coords=True, **kw)
    cx.check(np.shape(R) == (nx, nz) and np.shape(Z) == (nx, nz), "requested number of points")
    X = cx.np.zeros((2, nx, nz))
    for i in range(nx):
        for k in range(nz):
            for q, v in ((0, R), (1, Z)):
                X[q, i, k] = v[i, k] - d[q]
    lo, hi = guards[0], nx - 1 - guards[1]
    G = X[:, lo:hi + 1]
    # the outer boundary is sampled at equal angles, starting anywhere if aligned
    t = np.linspace(0, TAU, nz, endpoint=False)
    oR, oZ = _aligned(cx, L, outer, inner, sh, align)
    wantR, wantZ = oR.Rvalue(t), oR.Zvalue(t)
    for k in range(nz):
        cx.eq(X[0, hi, k], wantR[k] - d[0], "R on the outer line", tol=1e-5)
        cx.eq(X[1, hi, k], wantZ[k] - d[1], "Z on the outer line", tol=1e-5)
    if not kw.get("inner_ort", True):
        wantR, wantZ = oZ.Rvalue(t), oZ.Zvalue(t)
        for k in range(nz):
            cx.eq(X[0, lo, k], wantR[k] - d[0], "R on the inner line", tol=1e-5)
            cx.eq(X[1, lo, k], wantZ[k] - d[1], "Z on the inner line", tol=1e-5)
    else:
        at, turns = _on_line(cx, inner, d, G[:, 0], nz)
        f = kw.get("maxfac_inner")
        if f:
            cx.check(max(turns) <= (f + 1e-4) * min(turns), "ratio of the largest to the smallest spacing on the inner line")
        m = kw.get("inner_maxmode")
        if m:
            modes = np.abs(np.fft.rfft(turns))
            cx.check(all(modes[j] < 1e-4 for j in range(m + 1, nz // 2)), "no modes above the given one in the spacing on the inner line")
            plain = P.grid_elliptic(inner, outer, nx, nz, tol=tol, return_coords=True, **dict(kw, inner_maxmode=None))
            at0, turns0 = _on_line(cx, inner, d, [[plain[q][lo, k] - d[q] for k in range(nz)] for q in (0, 1)], nz)
            # the spacing of the lower modes is the one without the limit
            modes0 = np.fft.rfft(turns0)
            modes = np.fft.rfft(turns)
            for j in range(min(m, nz // 2)):
                cx.check(abs(modes[j] - modes0[j]) < 1e-3, "lower modes of the spacing on the inner line are kept")
    for k in range(nz):
        for q in (0, 1):
            for j in range(1, guards[1] + 1):
                cx.eq(X[q, hi + j, k] - X[q, hi, k], j * (X[q, hi, k] - X[q, hi - 1, k]), "RZ"[q] + " beyond the outer line", tol=1e-5)
            for j in range(1, guards[0] + 1):
                cx.eq(X[q, lo - j, k] - X[q, lo, k], j * (X[q, lo, k] - X[q, lo + 1, k]), "RZ"[q] + " beyond the inner line", tol=1e-5)
    # the equations, with the poloidal derivatives multiplied by the relaxation factor
    m = G.shape[1]
    dx, dz = 1.0 / (m - 1), TAU / nz
    f = kw.get("dz_relax") or 10.0 / 3.0
    for i in range(1, m - 1):
        for k in range(nz):
            p, q = (k + 1) % nz, (k - 1) % nz
            gz = [f * (G[c, i, p] - G[c, i, q]) / (2 * dz) for c in (0, 1)]
            gx = [(G[c, i + 1, k] - G[c, i - 1, k]) / (2 * dx) for c in (0, 1)]
            a, b, c = gz[0] ** 2 + gz[1] ** 2, gz[0] * gx[0] + gz[1] * gx[1], gx[0] ** 2 + gx[1] ** 2
            for e in (0, 1):
                xx = (G[e, i + 1, k] - 2 * G[e, i, k] + G[e, i - 1, k]) / dx**2
                zz = (G[e, i, p] - 2 * G[e, i, k] + G[e, i, q]) / dz**2
                xz = (G[e, i + 1, p] - G[e, i - 1, p] - G[e, i + 1, q] + G[e, i - 1, q]) / (4 * dx * dz)
                res = (a * xx - 2 * b * xz + c * zz) / (2 * a / dx**2 + 2 * c / dz**2)
                cx.eq(res, 0.0, "elliptic equation of %s" % "RZ"[e], tol=4 * tol**0.5)
    for i in range(nx - 1):
        for k in range(nz):
            p = (k + 1) % nz
            u = [X[e, i + 1, p] - X[e, i, k] for e in (0, 1)]
            v = [X[e, i, p] - X[e, i + 1, k] for e in (0, 1)]
            cx.le(0.0, u[0] * v[1] - u[1] * v[0], "cells are not folded")


def _aligned(cx, L, outer, inner, sh, align):
    if align is None:
        return outer, inner
    # align: (roll of outer, roll of inner)
    roll = lambda l, n: L.RZline(cx.np.array([l.R[(i + n) % len(l.R)] for i in range(len(l.R))]), cx.np.array([l.Z[(i + n) % len(l.R)] for i in range(len(l.R))]))
    return roll(outer, align[0]), roll(inner, align[1])


def _on_line(cx, line, d, pts, nz):
    """each point is on the line, and they follow each other around it; the angles"""

    def nearest(t, p):
        c = line.Rvalue(t), line.Zvalue(t)
        dist = np.array([np.hypot(*(_const(c[q][j] - d[q]) - p[q] for q in (0, 1))) for j in range(len(t))])
        j = int(np.argmin(dist))
        return t[j], dist[j]

    every = np.linspace(0, TAU, 120, endpoint=False)
    at = []
    for k in range(nz):
        p = [_const(pts[q][k]) for q in (0, 1)]
        if None in p:  # not moved with the line
            cx.check(False, "on the inner line")
            return np.zeros(nz), np.full(nz, TAU / nz)
        w = TAU / 120
        t, e = nearest(every, p)
        while w > 1e-6:
            t, e = nearest(np.linspace(t - w, t + w, 17), p)
            w /= 8
        cx.check(e < 1e-5, "on the inner line")
        at.append(t)
    turns = [(at[(k + 1) % nz] - at[k]) % TAU for k in range(nz)]
    cx.check(abs(sum(turns) - TAU) < 1e-3, "inner points follow each other once around the line")
    return np.array(at), np.array(turns)


def configs(tier):
    cs = []
    o = dict(budget_s=200, normal_first=True, obl_timeout_ms=20000)
    s = dict(budget_s=300, affine=True, path_s=280)

    def add(nm, fn, b, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=b, opts=opts, cost=cost))

    for nx, nz in ((2, 2), (3, 4), (5, 3)):
        add("annulus-%dx%d" % (nx, nz), annulus, "%dx%d points, all boundary points free" % (nx, nz), nx=nx, nz=nz, coords=True)
    add("annulus-grid", annulus, "4x4 points, all boundary points free", nx=4, nz=4, coords=False)
    for gi, go, nz in ((0, 0, 3), (1, 2, 5), (2, 0, 4), (0, 1, 2)):
        add("boundary-%d-%d-%d" % (gi, go, nz), step, "2x%d points, %d and %d beyond the boundaries, all boundary points free" % (nz, gi, go), nx=2 + gi + go, nz=nz, gi=gi, go=go, fi=range(nz), fo=range(nz), kw={}, opts=s)
    add("boundary-grid", step, "2x4 points, one beyond each boundary, all boundary points free", nx=4, nz=4, gi=1, go=1, fi=range(4), fo=range(4), kw={}, coords=False, opts=s)
    add("boundary-orthogonal", step, "2x8 points, inner points closest to the outer ones, all outer points free", nx=3, nz=8, gi=0, go=1, fi=(), fo=range(8), kw={}, ort=True, opts=s, cost=3)
    N = dict(inner_ort=False, align=False)
    add("solved-round", solved, "4x8 points anywhere", nx=4, nz=8, which="round", kw=dict(N), opts=s, cost=4)
    add("solved-shifted", solved, "5x8 points anywhere", nx=5, nz=8, which="shifted", kw=dict(N), opts=s, cost=4)
    add("solved-bean-beyond", solved, "4x10 points and two beyond, anywhere", nx=6, nz=10, which="bean", kw=dict(N), guards=(1, 1), opts=s, cost=4)
    add("solved-relax", solved, "4x8 points anywhere, other relaxation", nx=4, nz=8, which="shifted", kw=dict(N, dz_relax=2.0), opts=s, cost=4)
    add("solved-orthogonal", solved, "4x8 points anywhere, inner points closest to the outer ones", nx=4, nz=8, which="shifted", kw=dict(), opts=s, cost=5)
    add("solved-maxfac", solved, "4x8 points anywhere, limited ratio of the inner spacings", nx=4, nz=8, which="shifted", kw=dict(maxfac_inner=1.5), opts=s, cost=5)
    add("solved-equal", solved, "4x8 points anywhere, equal inner spacings", nx=4, nz=8, which="shifted", kw=dict(maxfac_inner=1), opts=s, cost=5)
    add("solved-maxmode", solved, "4x8 points anywhere, smoothed inner spacings", nx=4, nz=8, which="shifted", kw=dict(inner_maxmode=2), opts=s, cost=5)
    add("solved-coarse", solved, "8x8 points anywhere, from a coarse grid", nx=8, nz=8, which="round", kw=dict(N, restrict_size=5), opts=s, cost=6)
    add("solved-aligned", solved, "4x8 points anywhere, outer line starts at the third point", nx=4, nz=8, which="round", kw=dict(inner_ort=False), shift=3, align=(5, 0), opts=s, cost=4)
    add("solved-aligned-shorter", solved, "4x8 points anywhere, outer line with more points", nx=4, nz=8, which="round", kw=dict(inner_ort=False), ni=6, no=12, shift=5, align=(7, 0), opts=s, cost=4)
    add("solved-aligned-legacy", solved, "4x8 points anywhere", nx=4, nz=8, which="round", kw=dict(inner_ort=False, legacy_align=True), shift=2, align=(6, 0), opts=s, cost=4)
    return cs
