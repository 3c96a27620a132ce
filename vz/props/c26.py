"""C26: field of a VMEC equilibrium."""
import sys
import types

import numpy as np

from .. import stubs

TAU = 2 * np.pi


class File:
    """stand-in for the equilibrium file"""

    data = None

    def __init__(self, name=None, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def read(self, name, *a, **k):
        return self.data.get(name)

    def keys(self):
        return list(self.data)

    list = keys

    def __contains__(self, name):
        return name in self.data

    def __getitem__(self, name):
        if name not in self.data:
            raise KeyError(name)
        v = self.data[name]
        return v.copy() if isinstance(v, np.ndarray) else v


def _open(cx, data):
    File.data = data
    cls = type("DataFile", (File,), {"data": data})
    try:
        import boututils.datafile as d
    except ImportError:
        d = types.ModuleType("boututils.datafile")
        sys.modules["boututils.datafile"] = d
    cx.patch(d, "DataFile", cls)
    import zoidberg.field as F

    if hasattr(F, "DataFile"):
        cx.patch(F, "DataFile", cls)


NAMES = ("rmnc", "zmns", "bsupumnc", "bsupvmnc")
ASYM = ("rmns", "zmnc", "bsupumns", "bsupvmns")


def _data(cx, ns, modes, asym, free, mpol, ntor):
    d = dict(ns=ns, mpol=mpol, ntor=ntor)
    d["xm"] = np.array([float(m) for m, n in modes])
    d["xn"] = np.array([float(n) for m, n in modes])
    for q, nm in enumerate(NAMES + (ASYM if asym else ())):
        a = cx.np.zeros((ns, len(modes)))
        for s in range(ns):
            for k in range(len(modes)):
                base = (5.0 if k == 0 else 0.25 * s / k) if nm == "rmnc" else (0.25 * s / max(k, 1) if nm == "zmns" else 0.125 * (q + s - k))
                a[s, k] = cx.real("%s_%d_%d" % (nm, s, k), -1, 1) + base if nm in free else base
        d[nm] = a
    if asym is not None:
        d["iasym"] = 1 if asym else 0
    return d


def _half(b, s, ns, k):
    """value on the full mesh of something given on the half mesh (index 0 is not used)"""
    if s == 0:
        return 1.5 * b[1, k] - 0.5 * b[2, k]
    if s == ns - 1:
        return 1.5 * b[ns - 1, k] - 0.5 * b[ns - 2, k]
    return 0.5 * (b[s, k] + b[s + 1, k])


def _expect(d, s, t, z, asym):
    """R, Z and field components at one point"""
    ns = d["ns"]
    v = dict.fromkeys("R Z Ru Rv Zu Zv bu bv".split(), 0.0)
    for k in range(len(d["xm"])):
        m, n = d["xm"][k], d["xn"][k]
        c, sn = float(np.cos(m * t + n * z)), float(np.sin(m * t + n * z))
        v["R"] += d["rmnc"][s, k] * c
        v["Ru"] -= d["rmnc"][s, k] * m * sn
        v["Rv"] -= d["rmnc"][s, k] * n * sn
        v["Z"] += d["zmns"][s, k] * sn
        v["Zu"] += d["zmns"][s, k] * m * c
        v["Zv"] += d["zmns"][s, k] * n * c
        v["bu"] += _half(d["bsupumnc"], s, ns, k) * c
        v["bv"] += _half(d["bsupvmnc"], s, ns, k) * c
        if asym:
            v["R"] += d["rmns"][s, k] * sn
            v["Ru"] += d["rmns"][s, k] * m * c
            v["Rv"] += d["rmns"][s, k] * n * c
            v["Z"] += d["zmnc"][s, k] * c
            v["Zu"] -= d["zmnc"][s, k] * m * sn
            v["Zv"] -= d["zmnc"][s, k] * n * sn
            v["bu"] += _half(d["bsupumns"], s, ns, k) * sn
            v["bv"] += _half(d["bsupvmns"], s, ns, k) * sn
    br = v["bu"] * v["Ru"] + v["bv"] * v["Rv"]
    bz = v["bu"] * v["Zu"] + v["bv"] * v["Zv"]
    return v["R"], v["Z"], br, v["R"] * v["bv"], bz


def surfaces(cx, ns, modes, asym, ntheta, nzeta, free, mpol=4, ntor=3):
    """positions and field on the flux surfaces"""
    import zoidberg.field as F

    d = _data(cx, ns, modes, asym, free, mpol, ntor)
    _open(cx, d)
    f = object.__new__(F.VMEC)
    f.read_vmec_file("wout.nc", ntheta, nzeta)
    nt, nz = ntheta or mpol, nzeta or ntor + 1
    cx.check(np.shape(f.r_stz) == (ns, nt, nz) and np.shape(f.br) == (ns, nt, nz), "shape")
    th, ze = np.linspace(0, TAU, nt), np.linspace(0, TAU, nz)
    for i in range(nt):
        cx.eq(f.theta[i], th[i], "theta")
    for i in range(nz):
        cx.eq(f.zeta[i], ze[i], "zeta")
    for s in range(ns):
        for i in range(nt):
            for j in range(nz):
                e = _expect(d, s, th[i], ze[j], asym)
                for nm, w in zip(("r_stz", "z_stz", "br", "bphi", "bz"), e):
                    cx.eq(getattr(f, nm)[s, i, j], w, nm)


def _table(points, values, xi):
    """depends on all entries of a table and on the query point, not on the order of the axes"""
    s = 0.0
    for i in np.ndindex(*np.shape(values)):
        w = 1.0
        for a in range(len(points)):
            w = w * (1.0 + points[a][i[a]] * xi[a] + (a == a) * points[a][i[a]] ** 2)
        s = s + values[i] * w
    return s


def _tables(cx):
    """stand-ins for the interpolation of scipy"""
    import scipy.interpolate as I

    class Interp:
        def __init__(self, points, values, method="linear", bounds_error=True, fill_value=float("nan")):
            assert method == "linear"
            self.p, self.v, self.be, self.fv = [list(np.asarray(p)) for p in points], values, bounds_error, fill_value
            assert np.shape(values) == tuple(len(p) for p in self.p)

        def __call__(self, xi):
            xs = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in xi])
            r = cx.np.zeros(xs[0].shape)
            for i in np.ndindex(*xs[0].shape):
                q = [x[i] for x in xs]
                out = False
                for a in range(len(q)):
                    out = out or bool(q[a] < self.p[a][0] - 1e-9) or bool(q[a] > self.p[a][-1] + 1e-9)
                assert not (out and self.be)
                r[i] = self.fv if out else _table(self.p, self.v, q)
            return r

    def griddata(points, values, xi, method="linear", fill_value=float("nan"), rescale=False):
        assert method == "linear"
        P = points if isinstance(points, tuple) else (points[:, 0], points[:, 1])
        n = np.size(values)
        assert np.size(P[0]) == n and np.size(P[1]) == n
        X = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in xi])
        r = cx.np.zeros(X[0].shape)
        for i in np.ndindex(*X[0].shape):
            s = 0.0 + fill_value
            for k in range(n):
                s = s + values[k] * (1.0 + P[0][k] * X[0][i] + P[1][k] ** 2 * X[1][i])
            r[i] = s
        return r

    stubs.stub(cx, I, "RegularGridInterpolator", Interp)
    stubs.stub(cx, I, "griddata", griddata)


def field(cx, ns, modes, asym, ntheta, nzeta, nr, nz, at):
    """tables on the rectangular grid, and evaluation"""
    import zoidberg.field as F

    free = ("bsupumnc", "bsupvmnc")
    d = _data(cx, ns, modes, asym, free, 3, 1)
    _open(cx, d)
    _tables(cx)
    f = F.VMEC("wout.nc", ntheta=ntheta, nzeta=nzeta, nr=nr, nz=nz)
    th, ze = np.linspace(0, TAU, ntheta), np.linspace(0, TAU, nzeta)
    E = {(s, i, j): _expect(d, s, th[i], ze[j], asym) for s in range(ns) for i in range(ntheta) for j in range(nzeta)}
    num = lambda v: float(getattr(v, "t", v))
    Rs, Zs = [num(e[0]) for e in E.values()], [num(e[1]) for e in E.values()]
    R1, Z1 = np.linspace(min(Rs), max(Rs), nr), np.linspace(min(Zs), max(Zs), nz)
    want = {}
    for c, fill in ((2, 0.0), (3, 1.0), (4, 0.0)):
        t = cx.np.zeros((nr, nz, nzeta))
        for j in range(nzeta):
            for a in range(nr):
                for b in range(nz):
                    s = fill
                    for (q, i, jj), e in E.items():
                        if jj == j:
                            s = s + e[c] * (1.0 + e[0] * float(R1[a]) + e[1] ** 2 * float(Z1[b]))
                    t[a, b, j] = s
        want[c] = t
    for (x, z, phi) in at:
        x, z = R1[0] + x * (R1[-1] - R1[0]), Z1[0] + z * (Z1[-1] - Z1[0])
        w = float(np.mod(phi, TAU))
        out = not (R1[0] <= x <= R1[-1] and Z1[0] <= z <= Z1[-1])
        for c, fn, fill in ((2, f.Bxfunc, 0.0), (3, f.Byfunc, 1.0), (4, f.Bzfunc, 0.0)):
            e = fill if out else _table((R1, Z1, ze), want[c], (x, z, w))
            for arr in (False, True):
                r = fn(np.array([x]), np.array([z]), np.array([phi])) if arr else fn(x, z, phi)
                r = r[0] if arr else (r[()] if isinstance(r, np.ndarray) else r)
                # relative, sums of large terms
                cx.eq(r / 1024.0, e / 1024.0, fn.__name__ + (" outside" if out else ""), tol=1e-5)
        cx.eq(f.Rfunc(x, z, phi), x, "major radius")


def configs(tier):
    cs = []
    o = dict(budget_s=200, normal_first=True, obl_timeout_ms=20000)

    def add(nm, fn, b, cost=2, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=b, opts=o, cost=cost))

    B = NAMES[2:]
    for ns, modes, nt, nz in ((4, ((0, 0), (1, 0), (1, 1)), 4, 3), (3, ((0, 0), (0, 5), (2, -5)), 5, 4), (5, ((0, 0), (1, 1)), None, None)):
        t = "%d surfaces, modes %s, " % (ns, " ".join("%d,%d" % m for m in modes))
        add("shape-%d" % ns, surfaces, t + "all coefficients of R and Z free", ns=ns, modes=modes, asym=None, ntheta=nt, nzeta=nz, free=NAMES[:2])
        add("field-%d" % ns, surfaces, t + "all coefficients of B free", ns=ns, modes=modes, asym=0, ntheta=nt, nzeta=nz, free=B)
        add("asymmetric-%d" % ns, surfaces, t + "all coefficients free, asymmetric", cost=3, ns=ns, modes=modes, asym=1, ntheta=nt, nzeta=nz, free=NAMES + ASYM)
    at = ((0.25, 0.5, 1.0), (0.75, 0.25, 7.5), (0.5, 0.5, -1.0), (1.5, 0.5, 0.5), (0.5, -0.5, 3.0), (0.125, 0.875, 6.25), (0.5, 0.5, 12.0))
    add("tables", field, "3 surfaces, 2 modes, coefficients of B free", ns=3, modes=((0, 0), (1, 1)), asym=None, ntheta=4, nzeta=2, nr=3, nz=2, at=at)
    add("tables-asymmetric", field, "4 surfaces, 2 modes, coefficients of B free", ns=4, modes=((0, 0), (1, 1)), asym=1, ntheta=4, nzeta=3, nr=2, nz=3, at=at, cost=3)
    if tier != "quick":
        add("shape-large", surfaces, "8 surfaces, 5 modes, 9x7 angles, all coefficients free", cost=8, ns=8, modes=((0, 0), (1, 0), (1, 5), (2, -5), (3, 10)), asym=1, ntheta=9, nzeta=7, free=NAMES + ASYM)
    return cs
