"""C04: poloidal metric tensors and cell sizes."""
import numpy as np

from .. import stubs


class Table:
    """coordinate spline with free derivatives at the grid points"""

    def __init__(self, tabs, which, nz, N):
        self.tabs, self.which, self.nz, self.N = tabs, which, nz, N

    def __call__(self, x, z, dx=0, dy=0, grid=True):
        x, z = np.asarray(x), np.asarray(z)
        if grid:
            x, z = x.reshape(-1, 1), z.reshape(1, -1)
        x, z = np.broadcast_arrays(x, z)
        t = self.tabs[self.which, dx, dy]
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            r[i] = t[int(x[i]), int(z[i]) % self.nz]
        return self.N.array(r) if self.N is not np else r.astype(float)

    def ev(self, x, z, dx=0, dy=0):
        return self(x, z, dx, dy, grid=False)


def _grids(cx, nx, nz, n, tag="", sym_cells=None):
    """n structured poloidal grids with symbolic derivatives -> (grids, tables)"""
    import zoidberg.poloidal_grid as P

    tabs_all, grids = [], []
    state = {}

    def mk(x, z, data, *a, **k):
        d = np.asarray(data, dtype=object)
        which = "R" if float(d[0, 0]) > 50 else "Z"
        return Table(state["tabs"], which, nz, cx.np)

    stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", mk)
    if cx.sym:
        stubs.stub(cx, "scipy.spatial", "cKDTree", lambda *a, **k: None)
    for s in range(n):
        tabs = {}
        R = 100.0 + np.arange(nx)[:, None] * np.ones((1, nz))
        Z = np.ones((nx, 1)) * np.arange(nz)[None, :]
        tabs["R", 0, 0], tabs["Z", 0, 0] = R, Z
        for w in "RZ":
            for a, b in ((1, 0), (0, 1)):
                t = np.empty((nx, nz), dtype=object)
                for i in np.ndindex(nx, nz):
                    if sym_cells is None or i in sym_cells:
                        t[i] = cx.real("d%s%s%d_%d_%d%s%d" % (w, "x" if a else "z", s, i[0], i[1], tag, a), -3, 3)
                    else:
                        t[i] = 1.5 if (w == "R") == bool(a) else 0.25
                tabs[w, a, b] = t
        for i in np.ndindex(nx, nz):
            det = tabs["R", 1, 0][i] * tabs["Z", 0, 1][i] - tabs["R", 0, 1][i] * tabs["Z", 1, 0][i]
            cx.assume(det >= cx.margin(0.05))
        state["tabs"] = tabs
        g = P.StructuredPoloidalGrid(cx.np.array(R), cx.np.array(Z))
        grids.append(g)
        tabs_all.append(tabs)
    return grids, tabs_all


KEYS = ["gxx", "g_xx", "gxz", "g_xz", "gzz", "g_zz"]


def check_cell(cx, m, i, tabs, c, label):
    """m[key][i] is the metric of cell c"""
    rx, zx = tabs["R", 1, 0][c], tabs["Z", 1, 0][c]
    rz, zz = tabs["R", 0, 1][c], tabs["Z", 0, 1][c]
    dx, dz = at(m["dx"], i), at(m["dz"], i)
    cx.check((dx > 0) & (dz > 0), label + ": positive spacing")
    cx.eq(at(m["g_xx"], i) * dx * dx, rx * rx + zx * zx, label + ": g_xx dx^2 = |dr/dx|^2", tol=1e-5)
    cx.eq(at(m["g_zz"], i) * dz * dz, rz * rz + zz * zz, label + ": g_zz dz^2 = |dr/dz|^2", tol=1e-5)
    cx.eq(at(m["g_xz"], i) * dx * dz, rx * rz + zx * zz, label + ": g_xz dx dz = dr/dx.dr/dz", tol=1e-5)
    # contravariant = inverse; with D = det of the covariant block: gxx D = g_zz etc.
    gxx, gxz, gzz = (at(m[k], i) for k in ("gxx", "gxz", "gzz"))
    cxx, cxz, czz = (at(m[k], i) for k in ("g_xx", "g_xz", "g_zz"))
    D = cxx * czz - cxz * cxz
    cx.eq(gxx * D, czz, label + ": gxx = g_zz/det", tol=1e-5)
    cx.eq(gzz * D, cxx, label + ": gzz = g_xx/det", tol=1e-5)
    cx.eq(gxz * D, -cxz, label + ": gxz = -g_xz/det", tol=1e-5)


def at(a, i):
    return a[i] if isinstance(a, np.ndarray) and a.ndim else a


def single(cx, nx, nz, cells):
    (g,), (tabs,) = _grids(cx, nx, nz, 1, sym_cells=cells)
    m = g.metric()
    for k in KEYS + ["dx", "dz"]:
        cx.check(np.shape(m[k]) in ((nx, nz), ()), "shape of " + k)
    for c in np.ndindex(nx, nz):
        check_cell(cx, m, c, tabs, c, "cell %s" % (c,))


def stacked(cx, nx, nz, ny):
    """Grid.metric of different planes: every plane keeps its own metric"""
    import zoidberg.grid as G

    grids, tabs = _grids(cx, nx, nz, ny, sym_cells=[(1, 0)])
    g = G.Grid(list(grids), cx.np.array([1.0 * j for j in range(ny)]), 1.0 * ny, yperiodic=True)
    for rep in range(2):
        m = g.metric()
        for k in KEYS + ["dx", "dy", "dz", "gyy", "g_yy"]:
            cx.check(np.shape(m[k]) == (nx, ny, nz), "shape of " + k)
        for x, y, z in np.ndindex(nx, ny, nz):
            check_cell(cx, m, (x, y, z), tabs[y], (x, z), "plane %d cell %s" % (y, (x, z)))
            cx.eq(m["dy"][x, y, z], 1.0, "dy")
            cx.eq(m["g_yy"][x, y, z] * m["gyy"][x, y, z], 1.0, "g_yy gyy = 1")


class JPol:
    def __init__(self, nx, nz, vals, J=None):
        self.nx, self.nz, self.v, self.J = nx, nz, vals, J

    def metric(self):
        m = dict(self.v)
        if self.J is not None:
            m["J"] = self.J
        return m


def anyplane(cx, nx, nz, ny, hasJ):
    """planes with arbitrary metric values (as any poloidal grid may return): stacked without mixing"""
    import zoidberg.grid as G

    vals, Js = [], []
    for y in range(ny):
        vals.append({k: cx.reals("%s_%d" % (k, y), (nx, nz), -5, 5) for k in KEYS + ["dx", "dz"]})
        Js.append(cx.reals("J_%d" % y, (nx, nz), -5, 5) if hasJ else None)
    pols = [JPol(nx, nz, v, j) for v, j in zip(vals, Js)]
    g = G.Grid(pols, cx.np.array([0.5 + j for j in range(ny)]), 1.0 * ny, yperiodic=False)
    m = g.metric()
    for k in KEYS + ["dx", "dz"] + (["J"] if hasJ else []):
        for y in range(ny):
            cx.eq(m[k][:, y, :], Js[y] if k == "J" else vals[y][k], "%s of plane %d" % (k, y))
    cx.check(("J" in m) == bool(hasJ), "J present iff the planes have one")


def spacing(cx, ny, periodic, mode):
    """dy is the distance between the planes"""
    import zoidberg.grid as G

    Ly = cx.real("Ly", 1, 20)
    one = dict.fromkeys(KEYS + ["dx", "dz"], 1.0)
    pol = JPol(2, 1, one)
    if mode == "uniform":
        h = Ly / ny
        ys = [(j + (0 if periodic else 0.5)) * h for j in range(ny)]
    else:
        ys = []
        for j in range(ny):
            y = cx.real("y%d" % j, 0, 20)
            cx.assume(y <= Ly - cx.margin(0.01))
            if ys:
                cx.assume(y >= ys[-1] + cx.margin(0.01))
            ys.append(y)
    g = G.Grid([pol] * ny, cx.np.array(ys), Ly, yperiodic=periodic)
    m = g.metric()
    dy = m["dy"]
    cx.check(np.shape(dy) == (2, ny, 1), "shape of dy")
    for j in range(ny):
        cx.eq(dy[0, j, 0], dy[1, j, 0], "dy is a function of y only")
    d = [dy[0, j, 0] for j in range(ny)]
    if ny == 1:
        cx.eq(d[0], Ly, "a single plane covers the whole length")
    elif mode == "uniform":
        for j in range(ny):
            cx.eq(d[j], Ly / ny, "uniform spacing, plane %d" % j)
    elif periodic:
        t = 0.0
        for j in range(ny):
            up = ys[j + 1] if j + 1 < ny else ys[0] + Ly
            dn = ys[j - 1] if j > 0 else ys[-1] - Ly
            cx.eq(d[j], (up - dn) / 2, "half the distance between the neighbours, plane %d" % j)
            t = t + d[j]
        cx.eq(t, Ly, "the spacings add up to the period")
    else:
        for j in range(1, ny - 1):
            cx.eq(d[j], (ys[j + 1] - ys[j - 1]) / 2, "half the distance between the neighbours, plane %d" % j)
        cx.eq(d[0], ys[1] - ys[0], "first plane")
        cx.eq(d[-1], ys[-1] - ys[-2], "last plane")
    cx.eq(m["g_yy"], 1.0, "unit g_yy")
    cx.eq(m["gyy"], 1.0, "unit gyy")


def rect(cx, nx, nz, ny):
    import zoidberg.grid as G

    Lx, Ly, Lz = cx.real("Lx", "1/10", 10), cx.real("Ly", "1/10", 10), cx.real("Lz", "1/10", 10)
    g = G.rectangular_grid(nx, ny, nz, Lx=Lx, Ly=Ly, Lz=Lz, yperiodic=cx.choice("periodic", [True, False]))
    m = g.metric()
    for i in np.ndindex(nx, ny, nz):
        cx.eq(m["dx"][i], Lx / (nx - 4), "dx")
        cx.eq(m["dy"][i], Ly / ny, "dy")
        cx.eq(m["dz"][i], Lz / nz, "dz")
        for k in ("gxx", "g_xx", "gzz", "g_zz", "gyy", "g_yy"):
            cx.eq(m[k][i], 1.0, k)
        for k in ("gxz", "g_xz"):
            cx.eq(m[k][i], 0.0, k)


def configs(tier):
    cs = [
        dict(name="cells-2x2", fn=single, params=dict(nx=2, nz=2, cells=[(0, 0), (1, 1)]), bounds="free derivatives in two cells", opts=dict(budget_s=200, obl_timeout_ms=20000), cost=3),
        dict(name="cells-3x2", fn=single, params=dict(nx=3, nz=2, cells=[(2, 0)]), bounds="free derivatives in one cell", opts=dict(budget_s=200, obl_timeout_ms=20000), cost=3),
        dict(name="stacked-2x2x3", fn=stacked, params=dict(nx=2, nz=2, ny=3), bounds="free derivatives in one cell of each of 3 planes", opts=dict(budget_s=200, obl_timeout_ms=20000), cost=3),
        dict(name="planes-J", fn=anyplane, params=dict(nx=2, nz=2, ny=3, hasJ=True), bounds="arbitrary plane metrics, 2x3x2"),
        dict(name="planes-noJ", fn=anyplane, params=dict(nx=3, nz=1, ny=2, hasJ=False), bounds="arbitrary plane metrics, 3x2x1"),
        dict(name="rectangular", fn=rect, params=dict(nx=5, nz=2, ny=3), bounds="sizes in [0.1,10]"),
    ]
    for ny in (1, 2, 3, 4) + (() if tier == "quick" else (5, 8)):
        for per in (True, False):
            for mode in ("uniform", "free"):
                cs.append(dict(name="dy-%d-%s-%s" % (ny, per, mode), fn=spacing, params=dict(ny=ny, periodic=per, mode=mode), bounds="%d planes, %s spacing" % (ny, mode)))
    if tier != "quick":
        cs.append(dict(name="cells-4x3", fn=single, params=dict(nx=4, nz=3, cells=None), cost=9, bounds="free derivatives in all 12 cells", opts=dict(budget_s=2400, obl_timeout_ms=60000)))
    return cs
