"""C05: get_metric combines the grid with the magnetic field."""
import numpy as np

from .c04 import JPol, KEYS


class Pol(JPol):
    def __init__(self, nx, nz, vals, R, Z):
        super().__init__(nx, nz, vals)
        self.R, self.Z = R, Z


class Field:
    """field whose components are arbitrary per point (looked up by position and y)"""

    def __init__(self, tab, cyl, Bmag):
        self.tab, self.cyl = tab, cyl
        self._bmag = Bmag
        self.attributes = {}

    def _get(self, k, x, z, phi):
        return self.tab[k, phi]

    def Bxfunc(self, x, z, phi):
        return self._get("Bx", x, z, phi)

    def Byfunc(self, x, z, phi):
        return self._get("By", x, z, phi)

    def Bzfunc(self, x, z, phi):
        return self._get("Bz", x, z, phi)

    def Rfunc(self, x, z, phi):
        return x if self.cyl else None

    def Bmag(self, x, z, phi):
        return self._get("B", x, z, phi)

    def pressure(self, x, z, phi):
        return self._get("p", x, z, phi)


def _setup(cx, nx, nz, ny, cyl):
    import zoidberg.grid as G

    vals, tab, Rs = [], {}, []
    for y in range(ny):
        v = {k: np.ones((nx, nz)) for k in KEYS + ["dx", "dz"]}
        v = {k: cx.np.array(a) for k, a in v.items()}
        for k in ("g_xx", "g_zz"):
            v[k] = cx.reals("%s_%d" % (k, y), (nx, nz), 1, 5)
        v["g_xz"] = cx.reals("g_xz_%d" % y, (nx, nz), "-1/2", "1/2")
        vals.append(v)
        Rs.append(cx.reals("R%d" % y, (nx, nz), 1, 5))
        for k, lo, hi in (("B", "1/2", 3), ("By", "1/2", 2), ("p", 0, 5)):
            tab[k, 1.0 * y] = cx.reals("%s%d" % (k, y), (nx, nz), lo, hi)
        if cx.bool("sign%d" % y):
            tab["By", 1.0 * y] = -tab["By", 1.0 * y]
    pols = [Pol(nx, nz, v, R, R) for v, R in zip(vals, Rs)]
    g = G.Grid(pols, np.array([1.0 * y for y in range(ny)]), 1.0 * ny, yperiodic=True)
    return g, Field(tab, cyl, None), vals, tab, Rs


def check(cx, m, BJg, vals, tab, Rs, cyl, nx, nz, ny, lab):
    N = cx.np
    for y in range(ny):
        B, By, p = tab["B", 1.0 * y], tab["By", 1.0 * y], tab["p", 1.0 * y]
        for c in np.ndindex(nx, nz):
            i = (c[0], y, c[1])
            r2 = Rs[y][c] ** 2 if cyl else 1.0
            cx.eq(m["g_yy"][i] * By[c] ** 2, r2 * B[c] ** 2, lab + "g_yy = R^2 (B/By)^2", tol=1e-5)
            cx.eq(m["gyy"][i] * r2 * B[c] ** 2, By[c] ** 2, lab + "gyy = (By/B)^2 / R^2", tol=1e-5)
            cx.eq(m["B"][i], B[c], lab + "B")
            cx.eq(m["Bxy"][i], B[c], lab + "Bxy")
            cx.eq(m["pressure"][i], p[c], lab + "pressure")
            for k in ("g_xx", "g_xz", "g_zz", "gxx", "gxz", "gzz", "dx", "dz"):
                cx.eq(m[k][i], vals[y][k][c], lab + k + " of the grid")
            cx.eq(m["dy"][i], 1.0, lab + "dy")
            cx.check(BJg[i] > 0, lab + "positive flux factor")
            cx.eq(BJg[i] ** 2, B[c] ** 2 * (vals[y]["g_xx"][c] * vals[y]["g_zz"][c] - vals[y]["g_xz"][c] ** 2), lab + "B sqrt(g_xx g_zz - g_xz^2)", tol=1e-4)


def run(cx, nx, nz, ny, cyl, repeat=2):
    import zoidberg.zoidberg as ZB

    g, f, vals, tab, Rs = _setup(cx, nx, nz, ny, cyl)
    before = {k: np.array(v, dtype=object) for k, v in g.metric().items()}
    for n in range(repeat):
        m, BJg = ZB.get_metric(g, f)
        for k in ("g_yy", "gyy", "B", "Bxy", "pressure"):
            cx.check(np.shape(m[k]) == (nx, ny, nz), "shape of " + k)
        check(cx, m, BJg, vals, tab, Rs, cyl, nx, nz, ny, "call %d: " % n)
    after = g.metric()
    for k, v in before.items():
        cx.eq(np.asarray(after[k], dtype=object), v, "the grid's own %s is unchanged" % k)


def configs(tier):
    cs = []
    for cyl in (True, False):
        nm = "cylindrical" if cyl else "cartesian"
        cs.append(dict(name=nm + "-2x2x1", fn=run, params=dict(nx=2, nz=1, ny=2, cyl=cyl), bounds="2x2x1, free |B|, By (both signs), R, p, metric; called twice", opts=dict(budget_s=300, obl_timeout_ms=20000), cost=3))
        cs.append(dict(name=nm + "-1x3x2", fn=run, params=dict(nx=1, nz=2, ny=3, cyl=cyl, repeat=1), bounds="1x3x2", opts=dict(budget_s=300, obl_timeout_ms=20000), cost=3))
        if tier != "quick":
            cs.append(dict(name=nm + "-3x3x3", fn=run, params=dict(nx=3, nz=3, ny=3, cyl=cyl, repeat=3), bounds="3x3x3, called three times", opts=dict(budget_s=2400, obl_timeout_ms=60000), cost=9))
    return cs
