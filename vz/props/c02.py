"""C02: rectangular poloidal grid: index <-> position."""
import numpy as np


def _mk(cx, nx, nz, mxg, default=False):
    import zoidberg.poloidal_grid as P

    Lx, Lz = cx.real("Lx", "1/10", 20), cx.real("Lz", "1/10", 20)
    if default:
        return P.RectangularPoloidalGrid(nx, nz, Lx, Lz), Lx, Lz, 0.0, 0.0
    Rc, Zc = cx.real("Rc", -10, 10), cx.real("Zc", -10, 10)
    return P.RectangularPoloidalGrid(nx, nz, Lx, Lz, Rc, Zc, MXG=mxg), Lx, Lz, Rc, Zc


def geometry(cx, nx, nz, mxg, default=False):
    g, Lx, Lz, Rc, Zc = _mk(cx, nx, nz, mxg, default)
    n = nx - 2 * mxg
    cx.check(tuple(g.R.shape) == (nx, nz) and tuple(g.Z.shape) == (nx, nz), "shape of R and Z")
    cx.check(g.nx == nx and g.nz == nz, "nx, nz")
    for i in range(nx):
        for j in range(nz):
            cx.eq(g.R[i, j], Rc - Lx / 2 + (i - mxg + 0.5) * Lx / n, "R[%d,%d]" % (i, j))
            cx.eq(g.Z[i, j], Zc - Lz / 2 + (j + 0.5) * Lz / nz, "Z[%d,%d]" % (i, j))
    # domain edges lie half-way between cells
    R, Z = g.getCoordinate(cx.np.array([mxg - 0.5, nx - mxg - 0.5]), cx.np.array([-0.5, nz - 0.5]))
    cx.eq(R[0], Rc - Lx / 2, "inner edge")
    cx.eq(R[1], Rc + Lx / 2, "outer edge")
    cx.eq(Z[0], Zc - Lz / 2, "lower edge")
    cx.eq(Z[1], Zc + Lz / 2, "upper edge")
    m = g.metric()
    cx.eq(m["dx"], Lx / n, "dx")
    cx.eq(m["dz"], Lz / nz, "dz")
    for k, v in dict(gxx=1, g_xx=1, gzz=1, g_zz=1, gxz=0, g_xz=0).items():
        cx.eq(m[k], v, k)


def roundtrip(cx, nx, nz, mxg, shape):
    g, Lx, Lz, Rc, Zc = _mk(cx, nx, nz, mxg)
    xi, zi = cx.reals("xi", shape, -3, nx + 3), cx.reals("zi", shape, -9, 9 + nz)
    R, Z = g.getCoordinate(xi, zi)
    cx.check(np.shape(R) == tuple(shape) and np.shape(Z) == tuple(shape), "shape of coordinates")
    x2, z2 = g.findIndex(R, Z)
    cx.check(np.shape(x2) == tuple(shape) and np.shape(z2) == tuple(shape), "shape of indices")
    cx.eq(x2, xi, "x index after a round trip")
    cx.eq(z2, zi, "z index after a round trip")
    Rq, Zq = cx.reals("R", shape, -30, 30), cx.reals("Z", shape, -30, 30)
    a, b = g.findIndex(Rq, Zq)
    R2, Z2 = g.getCoordinate(a, b)
    cx.eq(R2, Rq, "R after a round trip")
    cx.eq(Z2, Zq, "Z after a round trip")


def derivs(cx, nx, nz, mxg, shape):
    g, Lx, Lz, Rc, Zc = _mk(cx, nx, nz, mxg)
    xi, zi = cx.reals("xi", shape, -3, nx + 3), cx.reals("zi", shape, -3, 3 + nz)
    R0, Z0 = g.getCoordinate(xi, zi)
    R1, Z1 = g.getCoordinate(xi + 1, zi)
    R2, Z2 = g.getCoordinate(xi, zi + 1)
    a = int(cx.int("dx", 0, 3))
    b = int(cx.int("dz", 0, 3))
    dR, dZ = g.getCoordinate(xi, zi, dx=a, dz=b)
    cx.check(np.shape(dR) == tuple(shape) and np.shape(dZ) == tuple(shape), "shape of derivative")
    if a + b == 0:
        eR, eZ = R0, Z0
    elif (a, b) == (1, 0):
        eR, eZ = R1 - R0, Z1 - Z0
    elif (a, b) == (0, 1):
        eR, eZ = R2 - R0, Z2 - Z0
    else:
        eR, eZ = R0 * 0, Z0 * 0
    cx.eq(dR, eR, "R derivative (%d,%d)" % (a, b))
    cx.eq(dZ, eZ, "Z derivative (%d,%d)" % (a, b))


def configs(tier):
    cs = []
    sizes = [(5, 3, 2), (6, 1, 2), (4, 2, 1), (3, 4, 0)]
    if tier != "quick":
        sizes += [(8, 5, 2), (9, 8, 3), (7, 6, 1), (12, 3, 2)]
    for nx, nz, mxg in sizes:
        nm = "%dx%d-mxg%d" % (nx, nz, mxg)
        b = "nx=%d nz=%d MXG=%d; Lx,Lz in [0.1,20], centre in [-10,10]" % (nx, nz, mxg)
        cs.append(dict(name="geometry-" + nm, fn=geometry, params=dict(nx=nx, nz=nz, mxg=mxg), bounds=b))
        cs.append(dict(name="roundtrip-" + nm, fn=roundtrip, params=dict(nx=nx, nz=nz, mxg=mxg, shape=(2, 1)), bounds=b + "; 2 points anywhere incl. outside"))
        cs.append(dict(name="derivatives-" + nm, fn=derivs, params=dict(nx=nx, nz=nz, mxg=mxg, shape=(2,)), bounds=b + "; derivative orders 0..3"))
    cs.append(dict(name="geometry-defaults", fn=geometry, params=dict(nx=6, nz=3, mxg=2, default=True), bounds="default centre and guard cells"))
    return cs
