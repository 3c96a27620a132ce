"""C03: curvilinear poloidal grid: index <-> position."""
import numpy as np

from .. import stubs

ANN = dict(R0=5.0)


def annulus(nx, nz):
    """concrete, mildly shaped annulus"""
    x = np.arange(nx)[:, None]
    th = 2 * np.pi * np.arange(nz)[None, :] / nz
    r = 1.0 + 0.5 * x
    return 5.0 + r * np.cos(th + 0.1 * x), 0.3 + 1.2 * r * np.sin(th + 0.1 * x)


def _spline(cx):
    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", stubs.RectSpline)
        stubs.stub(cx, "scipy.spatial", "cKDTree", lambda *a, **k: None)


def nodes(cx, nx, nz):
    """the position of grid point (i,j), through every index that names it"""
    import zoidberg.poloidal_grid as P

    _spline(cx)
    R = cx.reals("R", (nx, nz), 1, 9)
    Z = cx.reals("Z", (nx, nz), -5, 5)
    g = P.StructuredPoloidalGrid(R, Z)
    cx.check(g.nx == nx and g.nz == nz, "nx, nz")
    k = int(cx.int("k", -2, 2))
    xi, zi = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    r, z = g.getCoordinate(xi, zi + k * nz)
    cx.eq(r, R, "R at the grid points", tol=1e-5)
    cx.eq(z, Z, "Z at the grid points", tol=1e-5)
    i, j = int(cx.int("i", 0, nx - 1)), int(cx.int("j", 0, nz - 1))
    r, z = g.getCoordinate(i, j)
    cx.eq(r, R[i, j], "R at one grid point", tol=1e-5)
    cx.eq(z, Z[i, j], "Z at one grid point", tol=1e-5)


def periodic(cx, nx, nz, axis):
    """getCoordinate is periodic in z, for all derivative orders; symbolic points"""
    import zoidberg.poloidal_grid as P

    _spline(cx)
    R, Z = annulus(nx, nz)
    g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Z))
    if axis == "z":
        x, z = cx.choice("x", [0.0, 0.5, 1.75, nx - 1.0]), cx.real("z", 0, nz)
        cx.assume(z <= nz - cx.margin(1e-4))
    else:
        x, z = cx.real("x", 0, nx - 1), cx.choice("z", [0.25, nz - 0.5, 1.0])
    a, b = cx.choice("order", [(0, 0), (1, 0), (0, 1), (1, 1), (2, 0), (0, 2)])
    k = int(cx.int("k", -2, 2))
    p = g.getCoordinate(cx.np.array([x]), cx.np.array([z]), dx=a, dz=b)
    q = g.getCoordinate(cx.np.array([x]), cx.np.array([z + k * nz]), dx=a, dz=b)
    cx.check(np.shape(p[0]) == (1,) and np.shape(p[1]) == (1,), "shape")
    cx.eq(p[0], q[0], "R is periodic in z", tol=1e-5)
    cx.eq(p[1], q[1], "Z is periodic in z", tol=1e-5)
    # independent reference: the interpolating spline of the periodically repeated grid points
    ref = reference(cx, R, Z, x, z, a, b)
    cx.eq(p[0][0], ref[0], "R of the interpolating spline", tol=1e-5)
    cx.eq(p[1][0], ref[1], "Z of the interpolating spline", tol=1e-5)


def reference(cx, R, Z, x, z, a, b):
    nx, nz = R.shape
    out = []
    for D in (R, Z):
        E = np.concatenate((D, D, D), axis=1)
        if cx.sym:
            s = stubs.RectSpline(np.arange(nx), np.arange(3 * nz), E)
            out.append(s.one(x, z + nz, a, b))
        else:
            from scipy.interpolate import RectBivariateSpline

            s = RectBivariateSpline(np.arange(nx), np.arange(3 * nz), E)
            out.append(float(s(x, z + nz, dx=a, dy=b, grid=False)))
    return out


def seam(cx, nx, nz):
    """no jump when crossing z = 0, and values stay near the neighbouring grid points"""
    import zoidberg.poloidal_grid as P

    _spline(cx)
    R, Z = annulus(nx, nz)
    g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Z))
    e = cx.real("e", 0, "1/1000")
    x = cx.choice("x", [0.0, 1.5, nx - 1.0])
    p = g.getCoordinate(cx.np.array([x, x]), cx.np.array([e, -e]))
    cx.check((p[0][0] - p[0][1] <= 0.03) & (p[0][1] - p[0][0] <= 0.03), "R is continuous across the seam")
    cx.check((p[1][0] - p[1][1] <= 0.03) & (p[1][1] - p[1][0] <= 0.03), "Z is continuous across the seam")


def derivs(cx, nx, nz, axis):
    """derivatives are those of the coordinates: Simpson's rule is exact for cubics"""
    import zoidberg.poloidal_grid as P

    _spline(cx)
    R, Z = annulus(nx, nz)
    g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Z))
    N = cx.np
    h = 0.125
    if axis == "x":
        x = cx.real("x", h, 1 - h)
        z = cx.choice("z", [0.0, 0.5, nz - 0.75])
        f = lambda t, d: g.getCoordinate(N.array([t]), N.array([z]), dx=d)
        v = x
    else:
        z = cx.real("z", 1 + h, 2 - h)
        x = cx.choice("x", [0.0, 0.5, nx - 1.0])
        f = lambda t, d: g.getCoordinate(N.array([x]), N.array([t]), dz=d)
        v = z
    hi, lo, d1, dl, dh = f(v + h, 0), f(v - h, 0), f(v, 1), f(v - h, 1), f(v + h, 1)
    for q, n in ((0, "R"), (1, "Z")):
        cx.eq(hi[q] - lo[q], h / 3 * (dl[q] + 4 * d1[q] + dh[q]), "d%s/d%s" % (n, axis), tol=1e-5)


def domain(cx, nx, nz):
    """x indices outside the grid are refused, all others accepted"""
    import zoidberg.poloidal_grid as P

    if cx.sym:
        cls = type("Any", (), dict(__init__=lambda s, *a, **k: None, __call__=lambda s, x, z, **k: np.zeros(np.shape(x)),
                                   ev=lambda s, x, z, **k: np.zeros(np.shape(x))))
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", cls)
        stubs.stub(cx, "scipy.spatial", "cKDTree", lambda *a, **k: None)
    R, Z = annulus(nx, nz)
    g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Z))
    x = [cx.real("x%d" % i, -3, nx + 3) for i in range(2)]
    ok = True
    for v in x:
        ok = ok & (v >= 0) & (v <= nx - 1)
    bad = cx.raises(lambda: g.getCoordinate(cx.np.array(x), cx.np.array([0.25, 1.5])), ValueError)
    cx.eq(bad, neg(ok), "ValueError exactly when an x index is outside the grid")


def neg(a):
    return (not a) if isinstance(a, (bool, np.bool_)) else ~a


class Affine:
    """affine coordinate map with a seam half-way between the last and the first point in z"""

    cfg = None

    def __init__(self, x, y, z, *a, **k):
        c = self.cfg
        self.nz = c["nz"]
        z00 = float(np.asarray(z, dtype=object)[0, 0])
        self.w = c["R"] if abs(z00 - c["R"][0]) < 1e-9 else c["Z"]

    def one(self, x, z, dx, dy):
        o, a, b = self.w
        if dx + dy > 1:
            return 0.0
        if dx:
            return a
        if dy:
            return b
        z = z % self.nz
        if z >= self.nz - 0.5:
            z = z - self.nz
        return o + a * x + b * z

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        x, y = np.broadcast_arrays(np.asarray(x), np.asarray(y))
        r = np.empty(x.shape, dtype=object if self.cfg["sym"] else float)
        for i in np.ndindex(*x.shape):
            r[i] = self.one(x[i], y[i], dx, dy)
        if not r.shape:
            return r[()]
        return self.cfg["np"].array(r)

    def ev(self, x, y, dx=0, dy=0):
        return self(x, y, dx, dy, grid=False)


class Tree:
    """nearest grid point of the affine grid (orthogonal directions)"""

    def __init__(self, cfg):
        self.c = cfg

    def query(self, p, *a, **k):
        c = self.c
        (ro, ra, rb), (zo, za, zb) = c["R"], c["Z"]
        out = []
        for r, z in np.asarray(p, dtype=object).reshape(-1, 2):
            dr, dz = r - ro, z - zo
            x = (dr * ra + dz * za) / (ra * ra + za * za)
            t = (dr * rb + dz * zb) / (rb * rb + zb * zb)
            i = near(x, c["nx"])
            j = near(t, c["nz"])
            out.append(i * c["nz"] + j)
        return np.zeros(len(out)), np.array(out)


def near(v, n):
    for i in range(n - 1):
        if bool(v <= i + 0.5):
            return i
    return n - 1


def find(cx, nx, nz, geo, npts, shape=None, xbox=None, zbox=None):
    """findIndex on an affine grid: exact inverse inside, -1 / nx outside, points independent of each other"""
    import zoidberg.poloidal_grid as P

    (ro, ra, rb), (zo, za, zb) = geo
    cfg = dict(nx=nx, nz=nz, R=(ro, ra, rb), Z=(zo, za, zb), sym=cx.sym, np=cx.np)
    Af = type("Af", (Affine,), dict(cfg=cfg))
    stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", Af)
    tree = Tree(cfg)
    if cx.sym:
        stubs.stub(cx, "scipy.spatial", "cKDTree", lambda *a, **k: tree)
    X, Zg = np.meshgrid(np.arange(nx), np.arange(nz), indexing="ij")
    R = ro + ra * X + rb * Zg
    Zz = zo + za * X + zb * Zg
    g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Zz))
    xs, zs = [], []
    for i in range(npts):
        lo, hi = (xbox or {}).get(i, (-1, nx))
        xs.append(cx.real("x%d" % i, lo, hi))
        lo, hi = (zbox or {}).get(i, (-0.375, nz - 0.625))
        zs.append(cx.real("z%d" % i, str(lo) if False else lo, hi))
        for t in (0.5, nx - 1.5):
            cx.assume((xs[i] <= t - cx.margin(1e-4)) | (xs[i] >= t + cx.margin(1e-4)))
    N = cx.np
    tR = N.array([ro + ra * x + rb * z for x, z in zip(xs, zs)])
    tZ = N.array([zo + za * x + zb * z for x, z in zip(xs, zs)])
    if shape is not None:
        tR, tZ = tR.reshape(shape), tZ.reshape(shape)
    xi, zi = g.findIndex(tR, tZ)
    want = tuple(shape) if shape is not None else (npts,)
    cx.check(np.shape(xi) == want and np.shape(zi) == want, "shape of the result")
    xi, zi = xi.reshape(-1), zi.reshape(-1)
    for i in range(npts):
        x, z = xs[i], zs[i]
        if bool(x < 0.5):
            cx.eq(xi[i], -1.0, "point %d: before the first grid line -> -1" % i)
        elif bool(x > nx - 1.5):
            cx.eq(xi[i], float(nx), "point %d: beyond the last grid line -> nx" % i)
        else:
            cx.eq(xi[i], x, "point %d: x index" % i, tol=1e-5)
            d = zi[i] - z
            cx.check(((d <= 1e-5) & (d >= -1e-5)) | ((d - nz <= 1e-5) & (d - nz >= -1e-5)) | ((d + nz <= 1e-5) & (d + nz >= -1e-5)),
                     "point %d: z index (modulo nz)" % i)


def configs(tier):
    cs = []
    cs.append(dict(name="nodes-4x4", fn=nodes, params=dict(nx=4, nz=4), bounds="4x4 arbitrary R,Z in a box, index shifted by up to 2 periods"))
    for nx, nz in [(4, 6)] + ([] if tier == "quick" else [(5, 8), (6, 9)]):
        for ax in "xz":
            cs.append(dict(name="periodic-%s-%dx%d" % (ax, nx, nz), fn=periodic, params=dict(nx=nx, nz=nz, axis=ax), cost=3,
                           bounds="%dx%d annulus, symbolic %s, shifts of up to 2 periods, derivative orders up to 2" % (nx, nz, ax),
                           opts=dict(budget_s=200, max_witness=30)))
            cs.append(dict(name="derivative-%s-%dx%d" % (ax, nx, nz), fn=derivs, params=dict(nx=nx, nz=nz, axis=ax), bounds="%dx%d annulus, symbolic %s" % (nx, nz, ax)))
        cs.append(dict(name="seam-%dx%d" % (nx, nz), fn=seam, params=dict(nx=nx, nz=nz), bounds="|z| < 0.001"))
        cs.append(dict(name="domain-%dx%d" % (nx, nz), fn=domain, params=dict(nx=nx, nz=nz), bounds="two x indices in [-3,nx+3]"))
    geos = [((3.0, 0.5, 0.0), (-1.0, 0.0, 0.25)), ((3.0, 0.375, -0.5), (1.0, 0.5, 0.375))]
    for k, geo in enumerate(geos):
        cs.append(dict(name="find-1-%d" % k, fn=find, params=dict(nx=5 if k else 4, nz=4, geo=geo, npts=1), cost=4,
                       bounds="affine grid, one target anywhere in x in [-1,nx], z over a period", opts=dict(budget_s=200)))
    cs.append(dict(name="find-scalar", fn=find, params=dict(nx=4, nz=3, geo=geos[1], npts=1, shape=()), cost=3, bounds="scalar target", opts=dict(budget_s=200)) )
    cs.append(dict(name="find-2", fn=find, params=dict(nx=4, nz=3, geo=geos[1], npts=2, shape=(2, 1), zbox={0: (0.5, 1.5), 1: (0.5, 1.5)}), cost=6,
                   bounds="two targets anywhere in x", opts=dict(budget_s=250)))
    cs.append(dict(name="find-3", fn=find, params=dict(nx=4, nz=3, geo=geos[0], npts=3, shape=(3,), xbox={0: (-1, 0.25), 1: (1, 2), 2: (2.75, 4)}, zbox={0: (0.5, 1.5), 1: (-0.375, 1.5), 2: (0.5, 1.5)}), cost=6,
                   bounds="one target on each side and one inside", opts=dict(budget_s=250)))
    if tier != "quick":
        cs.append(dict(name="find-2-wide", fn=find, params=dict(nx=5, nz=4, geo=geos[0], npts=2, shape=(1, 2)), cost=9, bounds="two targets anywhere", opts=dict(budget_s=2400, max_paths=20000)))
    return cs
