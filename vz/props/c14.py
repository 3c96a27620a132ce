"""C14: cell volumes, parallel lengths and toroidal field of the cells."""
import numpy as np

from . import mcommon as M

POST = ("_cell_ylow", "", "_cell_yhigh")


def line(tr, R, Z, y, ym, yp, n):
    """points of the line from the previous plane to the next one, n points per half cell"""
    out = []
    for i in range(-2 * n, 2 * n + 1):
        t = y + (yp - y) * (i / (2.0 * n)) if i >= 0 else y + (y - ym) * (i / (2.0 * n))
        out.append(tr.at(R, Z, y, t) + (t,))
    return out


def cells(cx, nx, ny, nz, periodic, n, chunks, free=(), kind="arr", slab=False, field=True, metric=False, rtol=None):
    import zoidberg.field as FI
    import zoidberg.zoidberg as ZB
    from zoidberg.poloidal_grid import RectangularPoloidalGrid

    mk = None
    if kind == "rect":
        mk = lambda j: RectangularPoloidalGrid(nx, nz, 2.0 + 0.5 * j, 1.5, Rcentre=4.0 + 0.25 * j, Zcentre=0.5, MXG=1)
    g, pols, ys, L = M.setup(cx, nx, ny, nz, periodic, dict(free), pol=mk)
    fac = {}  # lower triangular factors of the metric of the planes
    for j, p in enumerate(pols):
        if kind == "rect":
            break
        for x, z in np.ndindex(nx, nz):
            a, b, k = 1.0 + x + 0.5 * j, 1.0 + 0.5 * z, 0.25 * x - 0.125 * z - 0.5 * j / ny
            if metric and (x, z) == (nx - 1, j % nz):
                a, b, k = cx.real("a%d" % j, 1, 4), cx.real("b%d" % j, 1, 4), cx.real("k%d" % j, -1, 1)
            p.g["g_xx"][x, z], p.g["g_zz"][x, z], p.g["g_xz"][x, z] = a * a, b * b + k * k, a * k
            fac[j, x, z] = a * b
    tr = M.Tracer(cx, 0.25, 0.125, 0.5 if field else cx.real("a", -1, 1), 0.25, 0.125)
    sg = -1.0 if field and cx.bool("reversed") else 1.0

    def one(x, z, y):
        """arbitrary field strength at each point"""
        return sg * cx.real("B_%.6f_%.6f_%.6f" % (float(x) + 1e-9, float(z) + 1e-9, float(y) + 1e-9), "1/2", 3)

    def by(x, z, y):
        if not field:
            return 2.0 + 0.0 * x
        if np.ndim(x) == 0:
            return one(x, z, y)
        r = cx.np.zeros(np.shape(x))
        for c in np.ndindex(*np.shape(x)):
            r[c] = one(x[c], z[c], y if np.ndim(y) == 0 else y[c])
        return r

    if slab:
        f = FI.Slab(By=2.0, Bz=0.5, Bzprime=0.25)
        by = lambda x, z, y: 2.0 + 0.0 * x
    else:
        f = M.Field(cx, M.NoB(cx), by)
    kw = {} if rtol is None else dict(rtol=rtol)
    m = ZB.make_maps(g, f, nslice=1, quiet=True, field_tracer=tr, refine_parallel_integral=n, n_chunks=chunks, MXG=1, **kw)
    cx.check(all(v == rtol for v in tr.rtols), "requested tolerance")
    for post in POST:
        cx.check(np.shape(m["By" + post]) == (nx, ny, nz), "By of each cell")
        if slab:
            cx.check("Ly" + post not in m and "J" not in m, "slabs keep the metric of the grid")
        else:
            cx.check(np.shape(m["Ly" + post]) == (nx, ny, nz) and np.shape(m["J"]) == (nx, ny, nz), "J, Ly of each cell")
    for j in range(ny):
        ym, yp = M.plane(ny, j - 1, L, periodic, ys)[1], M.plane(ny, j + 1, L, periodic, ys)[1]
        gm = pols[j].metric()
        for c in np.ndindex(nx, nz):
            i = (c[0], j, c[1])
            lab = " of cell %s plane %d" % (c, j)
            pts = line(tr, pols[j].R[c], pols[j].Z[c], ys[j], ym, yp, n)
            mid = pts[n:3 * n + 1]
            B = [by(*p) for p in mid]
            for post, k in zip(POST, (0, n, 2 * n)):
                cx.eq(m["By" + post][i], B[k], "By" + post + lab)
            if slab:
                continue
            for k, post in enumerate(POST):
                seg = pts[n * k:n * k + 2 * n + 1]
                co = [cx.np.array([p[0], p[1]]) for p in seg]
                cx.eq(m["Ly" + post][i], M.length(co, [p[2] for p in seg]), "length along y" + post + lab, tol=1e-5)
            v = 0.0
            for q, (p, b) in enumerate(zip(mid, B)):
                w = 0.5 if q in (0, 2 * n) else 1.0
                v = v + w * p[0] * B[n] / b
            v = v / (2.0 * n)
            J = m["J"][i]
            if kind == "rect":
                cx.eq(J * J, gm["g_xx"] * gm["g_zz"] * v * v, "volume of the flux tube" + lab, tol=1e-5)
                cx.check(J > 0, "positive volume" + lab)
            elif metric:
                cx.eq(J * J, (fac[j, c[0], c[1]] * v) ** 2, "volume of the flux tube" + lab, tol=1e-4)
                cx.check(J > 0, "positive volume" + lab)
            else:
                cx.eq(J, fac[j, c[0], c[1]] * v, "volume of the flux tube" + lab, tol=1e-5)


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=30000)
    F = {0: [(0, 0)], 1: [(1, 1)]}
    for nm, k in (("periodic", dict(nx=2, ny=3, nz=2, periodic=True, n=1, chunks=1)),
                  ("open", dict(nx=2, ny=2, nz=2, periodic=False, n=1, chunks=2, rtol=1e-9)),
                  ("refined-2", dict(nx=3, ny=2, nz=2, periodic=True, n=2, chunks=2)),
                  ("refined-3", dict(nx=2, ny=2, nz=1, periodic=False, n=3, chunks=1)),
                  ("line-rate", dict(nx=2, ny=2, nz=2, periodic=True, n=2, chunks=1, free=F, field=False)),
                  ("metric", dict(nx=2, ny=2, nz=2, periodic=True, n=1, chunks=1, field=False, metric=True)),
                  ("chunks-3", dict(nx=5, ny=1, nz=1, periodic=True, n=1, chunks=3)),
                  ("chunks-4", dict(nx=3, ny=2, nz=1, periodic=True, n=1, chunks=4)),
                  ("chunks-7", dict(nx=8, ny=1, nz=1, periodic=True, n=1, chunks=7)),
                  ("rectangular", dict(nx=4, ny=2, nz=2, periodic=True, n=2, chunks=2, kind="rect")),
                  ("slab", dict(nx=4, ny=2, nz=2, periodic=True, n=2, chunks=2, kind="rect", slab=True))):
        cs.append(dict(name=nm, fn=cells, params=k, bounds="nx,ny,nz=%d,%d,%d, %d points per half cell, %d chunks; free field strength, metric, points" % (k["nx"], k["ny"], k["nz"], k["n"], k["chunks"]), opts=o, cost=4))
    if tier != "quick":
        for n in (4, 6):
            cs.append(dict(name="refined-%d" % n, fn=cells, params=dict(nx=2, ny=2, nz=2, periodic=True, n=n, chunks=2), bounds="2x2x2, %d points per half cell" % n, opts=dict(budget_s=2000, obl_timeout_ms=60000), cost=9))
        for nx in range(1, 7):
            for ch in range(1, 9):
                cs.append(dict(name="chunks-%d-of-%d" % (ch, nx), fn=cells, params=dict(nx=nx, ny=1, nz=2, periodic=True, n=1, chunks=ch), bounds="nx=%d, %d chunks" % (nx, ch), opts=o, cost=2))
    return cs
