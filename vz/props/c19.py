"""C19: coefficients of the finite volume perpendicular Laplacian."""
import numpy as np

TOL = 1e-5


class Plane:
    """a plane whose cells have given corners (and straight edges) and given centres; closed in z"""

    def __init__(self, cx, centre, corner, nx, nz):
        self.cx, self.centre, self.corner, self.nx, self.nz = cx, centre, corner, nx, nz
        a = [[[centre[i, k][d] for k in range(nz)] for i in range(nx)] for d in range(2)]
        self.R, self.Z = cx.np.array(a[0]), cx.np.array(a[1])

    def point(self, x, z):
        fx, fz = x + 0.5, z + 0.5
        ix, iz = int(np.floor(fx + 1e-9)), int(np.floor(fz + 1e-9))
        ax, az = fx - ix, fz - iz
        c = lambda i, k: self.corner[i, k % self.nz]
        if abs(ax - 0.5) < 1e-9 and abs(az - 0.5) < 1e-9:
            return self.centre[ix, iz % self.nz]
        if abs(ax) < 1e-9 and abs(az) < 1e-9:
            return c(ix, iz)
        if abs(ax) < 1e-9:
            p, q, f = c(ix, iz), c(ix, iz + 1), az
        elif abs(az) < 1e-9:
            p, q, f = c(ix, iz), c(ix + 1, iz), ax
        else:
            raise AssertionError("position inside a cell")
        return [(1 - f) * p[d] + f * q[d] for d in range(2)]

    def getCoordinate(self, xind, zind, dx=0, dz=0):
        from fractions import Fraction

        assert dx == 0 and dz == 0
        xa, za = np.asarray(xind), np.asarray(zind)
        out = [np.empty(xa.shape, dtype=object) for _ in range(2)]
        for i in np.ndindex(*xa.shape):
            p = self.point(num(xa[i]), num(za[i]))
            out[0][i], out[1][i] = p[0], p[1]
        return tuple(self.cx.np.array(o.tolist()) for o in out)

    def metric(self):
        raise AssertionError("not needed")


def num(v):
    from ..core import S
    from fractions import Fraction

    if isinstance(v, S):
        return float(v.t)
    return float(v)


def _quiet(cx, F):
    import inspect

    # the self test only prints; it is left out of the symbolic runs
    if cx.sym and inspect.isfunction(getattr(F, "test", None)):
        cx.patch(F, "test", lambda *a, **k: None)


def _judge(cx, out, j, nx, nz, centre, corner, slab, Lz=None, only=None, voltol=TOL, label=""):
    """centre(i,k), corner(i,k) (of the unrolled plane, any k) -> (R, Z)"""
    XX, XZ, ZX, ZZ, V = [out["dagp_fv_" + n] for n in ("XX", "XZ", "ZX", "ZZ", "volume")]
    for a in (XX, XZ, ZX, ZZ, V):
        cx.check(np.shape(a)[0] == nx and np.shape(a)[2] == nz, label + "shape")
    ks = range(nz) if only is None else only

    def force(p, q):
        m = 1.0 if slab else (p[0] + q[0]) * 0.5
        return [m * (q[1] - p[1]), -m * (q[0] - p[0])]

    for i in range(nx - 1):
        for k in ks:
            F = force(corner(i + 1, k), corner(i + 1, k + 1))
            for d in range(2):
                dx = centre(i + 1, k)[d] - centre(i, k)[d]
                dz = 0.5 * (centre(i, k + 1)[d] - centre(i, k - 1)[d] + centre(i + 1, k + 1)[d] - centre(i + 1, k - 1)[d])
                cx.eq(XX[i, j, k] * dx + XZ[i, j, k] * dz, F[d], label + "flux of %s through the radial face %d" % ("RZ"[d], i), tol=TOL)
    for i in range(1, nx - 1):
        for k in ks:
            F = force(corner(i, k + 1), corner(i + 1, k + 1))
            for d in range(2):
                dx = 0.5 * (centre(i + 1, k)[d] - centre(i - 1, k)[d] + centre(i + 1, k + 1)[d] - centre(i - 1, k + 1)[d])
                dz = centre(i, k + 1)[d] - centre(i, k)[d]
                cx.eq(ZX[i, j, k] * dx + ZZ[i, j, k] * dz, -F[d], label + "flux of %s through the poloidal face" % "RZ"[d], tol=TOL)
            c = [corner(i, k), corner(i + 1, k), corner(i + 1, k + 1), corner(i, k + 1)]
            A = 0.0
            for n in range(4):
                a, b = c[n], c[(n + 1) % 4]
                dz = b[1] - a[1]
                A = A + ((a[0] + b[0]) * dz / 2 if slab else (a[0] * a[0] + a[0] * b[0] + b[0] * b[0]) * dz / 6)
            cx.eq(V[i, j, k], A, label + "volume", tol=voltol)
    for k in ks:
        for a, rows, n in ((XX, [nx - 1], "XX"), (XZ, [nx - 1], "XZ"), (ZX, [0, nx - 1], "ZX"), (ZZ, [0, nx - 1], "ZZ"), (V, [0, nx - 1], "volume")):
            for i in rows:
                v = a[i, j, k]
                cx.eq(v, 0.0, label + n + " is zero where there is no cell", tol=TOL)


def shape(nx, nz, which):
    """concrete centres and corners: 'ring' closed around an axis, 'skew' a distorted one"""
    cen, cor = {}, {}
    rnd = np.random.RandomState(5)
    for i in range(nx + 1):
        for k in range(nz):
            for st, x, z in ((cen, i, k), (cor, i - 0.5, k - 0.5)):
                r, t = 1.0 + 0.25 * x, 2 * np.pi * z / nz
                if which == "skew":
                    r, t = r + 0.0625 * np.round(4 * rnd.rand()) / 4, t + 0.25 * x / nx
                st[i, k] = [float(np.round(64 * (5.0 + r * np.cos(t))) / 64), float(np.round(64 * 1.25 * r * np.sin(t)) / 64)]
    return cen, cor


def plane(cx, nx, nz, which, free, slab, npol=1):
    import zoidberg.stencil_dagp_fv as F

    _quiet(cx, F)
    pols, exp = [], []
    for p in range(npol):
        cen, cor = shape(nx, nz, which)
        if p:
            for q in list(cen):
                cen[q] = [cen[q][0] + 0.5 * p, cen[q][1] * (1 + 0.125 * p)]
            for q in list(cor):
                cor[q] = [cor[q][0] + 0.5 * p, cor[q][1] * (1 + 0.125 * p)]
        for n, (st, i, k) in enumerate(free):
            tab = cen if st == "o" else cor
            tab[i, k] = [tab[i, k][0] + cx.real("%d.r%d" % (p, n), "-1/32", "1/32"), tab[i, k][1] + cx.real("%d.z%d" % (p, n), "-1/32", "1/32")]
        pols.append(Plane(cx, cen, cor, nx, nz))
        exp.append((cen, cor))
    out = F.doit(pols, isSlab=slab)
    for j, (cen, cor) in enumerate(exp):
        _judge(cx, out, j, nx, nz, lambda i, k, t=cen: t[i, k % nz], lambda i, k, t=cor: t[i, k % nz], slab, voltol=TOL if slab else 2e-3, label="plane %d: " % j if npol > 1 else "")


def scaled(cx, nx, nz, which, slab):
    """any size and major radius"""
    import zoidberg.stencil_dagp_fv as F

    _quiet(cx, F)
    s, R0 = cx.real("size", "1/4", 4), cx.real("R0", 0, 5)
    cen, cor = shape(nx, nz, which)
    for t in (cen, cor):
        for q in list(t):
            t[q] = [s * t[q][0] + R0, s * t[q][1]]
    out = F.doit([Plane(cx, cen, cor, nx, nz)], isSlab=slab)
    _judge(cx, out, 0, nx, nz, lambda i, k: cen[i, k % nz], lambda i, k: cor[i, k % nz], slab, voltol=TOL if slab else 2e-1)


def rect(cx, nx, nz, mxg, slab, npol=1):
    import zoidberg.poloidal_grid as P
    import zoidberg.stencil_dagp_fv as F

    _quiet(cx, F)
    Lx, Lz = cx.real("Lx", "1/4", 8), cx.real("Lz", "1/4", 8)
    pols, exp = [], []
    for p in range(npol):
        R0, Z0 = cx.real("R%d" % p, 9, 20), cx.real("Z%d" % p, -4, 4)
        pols.append(P.RectangularPoloidalGrid(nx, nz, Lx, Lz, Rcentre=R0, Zcentre=Z0, MXG=mxg))
        exp.append((R0, Z0))
    out = F.doit(pols, isSlab=slab)
    dR, dZ = Lx / (nx - 2 * mxg), Lz / nz
    for j, (R0, Z0) in enumerate(exp):
        at = lambda x, z: [R0 + (x - (nx - 1) / 2) * dR, Z0 + (z - (nz - 1) / 2) * dZ]
        _judge(cx, out, j, nx, nz, lambda i, k: at(i, k), lambda i, k: at(i - 0.5, k - 0.5), slab, voltol=TOL, label="plane %d: " % j if npol > 1 else "")
    cx.eq(pols[0].R[0, 0], exp[0][0] - (nx - 1) / 2 * dR, "grid not modified")


def mixed(cx):
    """planes of different kinds or vertical size are refused"""
    import zoidberg.poloidal_grid as P
    import zoidberg.stencil_dagp_fv as F

    _quiet(cx, F)
    a, b = cx.real("a", 1, 2), cx.real("b", 1, 2)
    cx.assume((a < b - cx.margin(1e-3)) | (a > b + cx.margin(1e-3)))
    ps = [P.RectangularPoloidalGrid(5, 5, 1.0, v, Rcentre=5.0, MXG=1) for v in (a, b)]
    cx.raises(lambda: F.doit(ps), ValueError)


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000, normal_first=True)

    def add(nm, fn, b, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=b, opts=opts, cost=cost))

    for slab in (True, False):
        s = "slab" if slab else "torus"
        add("rectangle-5x5-" + s, rect, "5x5 points, any lengths and centre", nx=5, nz=5, mxg=1, slab=slab)
        add("rectangle-6x8-" + s, rect, "6x8 points, any lengths and centre", nx=6, nz=8, mxg=2, slab=slab, cost=3)
        add("rectangle-4x3-" + s, rect, "4x3 points, any lengths and centre", nx=4, nz=3, mxg=1, slab=slab)
        add("rectangle-5x4-" + s, rect, "5x4 points, any lengths and centre", nx=5, nz=4, mxg=1, slab=slab)
        add("rectangles-" + s, rect, "two planes of 4x5 points", nx=4, nz=5, mxg=0, slab=slab, npol=2, cost=3)
        add("ring-corner-" + s, plane, "closed plane 4x4, one corner anywhere in a box", nx=4, nz=4, which="ring", free=(("c", 2, 0),), slab=slab, cost=3)
        add("ring-centre-" + s, plane, "closed plane 4x4, one centre anywhere in a box", nx=4, nz=4, which="ring", free=(("o", 1, 3),), slab=slab, cost=3)
        add("skew-" + s, plane, "distorted closed plane 5x6, a centre and a corner anywhere in a box", nx=5, nz=6, which="skew", free=(("o", 2, 0), ("c", 1, 4)), slab=slab, cost=4)
        add("planes-" + s, plane, "two different closed planes 4x5, a corner of each anywhere in a box", nx=4, nz=5, which="skew", free=(("c", 2, 1),), slab=slab, npol=2, cost=4)
        add("size-" + s, scaled, "distorted closed plane 4x5 of any size and major radius", nx=4, nz=5, which="skew", slab=slab, cost=4)
    if tier != "quick":
        big = dict(budget_s=1800, obl_timeout_ms=60000, normal_first=True)
        for slab in (True, False):
            s = "slab" if slab else "torus"
            add("free-" + s, plane, "closed plane 5x5, two centres and two corners anywhere in boxes", nx=5, nz=5, which="skew", free=(("o", 1, 0), ("o", 2, 1), ("c", 2, 1), ("c", 3, 4)), slab=slab, cost=8, opts=big)
            add("rectangle-8x12-" + s, rect, "8x12 points", nx=8, nz=12, mxg=2, slab=slab, cost=6, opts=big)
            add("planes3-" + s, plane, "three different closed planes 5x4", nx=5, nz=4, which="skew", free=(("c", 2, 1), ("o", 2, 2)), slab=slab, npol=3, cost=8, opts=big)
    add("mixed", mixed, "two planes of different vertical size", cost=1)
    return cs
