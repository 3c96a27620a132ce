"""C27: fields evaluated by external programs and services."""
import sys
import types

import numpy as np

from .. import stubs
from .c26 import _table, _tables

TAU = 2 * np.pi
PHI = [0.0, 0.5, 2.0, -4.0, 7.0]


def cart(p, c=0):
    """Cartesian field at a Cartesian position; configuration c"""
    X, Y, Z = p
    return (X + 2.0 * Y * Z + c, Y * Y - 3.0 * Z + 1.0, 2.0 + X * Z + 0.5 * Y)


def cyl(cx, x, z, phi, c=0):
    co, s = cx.np.cos(phi), cx.np.sin(phi)
    B = cart((x * co, x * s, z), c)
    return B[0] * co + B[1] * s, B[1] * co - B[0] * s, B[2]


class Obj:
    pass


class Service:
    """stand-in for the web services; fails at the given calls"""

    def __init__(self, cx, fail=()):
        self.cx, self.fail, self.calls, self.opened = cx, fail, 0, []
        self.types = Obj()
        for n in ("Points3D", "MagneticConfig", "AxisSettings"):
            setattr(self.types, n, Obj)
        self.service = self

    def __call__(self, url, **k):
        self.opened.append(url)
        return self

    def magneticField(self, *a, **k):
        pos = [v for v in a if hasattr(v, "x1")][0]
        cfg = [v for v in a if hasattr(v, "configIds") or hasattr(v, "coilsIds")]
        self.calls += 1
        if self.calls in self.fail:
            raise OSError("no answer")
        c = cfg[0].configIds if cfg and hasattr(cfg[0], "configIds") else 0
        n = len(pos.x1)
        assert len(pos.x2) == n and len(pos.x3) == n
        r = [cart((pos.x1[i], pos.x2[i], pos.x3[i]), c) for i in range(n)]
        out = Obj()
        out.field = Obj()
        for d, nm in enumerate(("x1", "x2", "x3")):
            setattr(out.field, nm, self.cx.np.array([v[d] for v in r]))
        return out

    def getPlasmaField(self, a, url, pos, b):
        n = len(pos.x1)
        self.plasma = True
        out = Obj()
        r = [plasma(pos.x1[i], pos.x2[i], pos.x3[i]) for i in range(n)]
        for d, nm in enumerate(("x1", "x2", "x3")):
            setattr(out, nm, self.cx.np.array([v[d] for v in r]))
        return out


def plasma(r, phi, z):
    """cylindrical components at a cylindrical position"""
    return 2.0 * r + phi, z - 1.0, phi * 0.5 + r * z


class Store:
    """files, in memory"""

    def __init__(self, cx):
        self.files = files = {}
        real = __import__("os.path").path.isfile
        import os

        cx.patch(os.path, "isfile", lambda f: f in files or (not str(f).startswith("B.w7x") and real(f)))

        class Dataset(dict):
            def __enter__(self):
                return self

            def __exit__(self, *a):
                return False

            def __setitem__(self, k, v):
                o = Obj()
                o.values = v[1]
                dict.__setitem__(self, k, o)

            def to_netcdf(self, f):
                d = Dataset()
                d.update(self)
                files[f] = d

        xr = types.ModuleType("xarray")
        xr.Dataset = Dataset
        xr.open_dataset = lambda f, **k: files[f]
        cx.patch(sys.modules, "xarray", xr)
        import builtins
        import pickle

        op = builtins.open

        def fopen(f, mode="r", *a, **k):
            if not str(f).startswith("B.w7x"):
                return op(f, mode, *a, **k)
            return _F(files, f)

        cx.patch(builtins, "open", fopen)
        dump, load = pickle.dump, pickle.load
        cx.patch(pickle, "dump", lambda o, f, *a: f.put(o) if isinstance(f, _F) else dump(o, f, *a))
        cx.patch(pickle, "load", lambda f, *a: f.get() if isinstance(f, _F) else load(f, *a))


class _F:
    def __init__(self, files, name):
        self.files, self.name = files, name

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def put(self, o):
        self.files[self.name] = o

    def get(self):
        return self.files[self.name]


def _service(cx, fail=()):
    import zoidberg.field as F

    sv = Service(cx, fail)
    osa = types.ModuleType("osa")
    osa.Client = sv
    cx.patch(sys.modules, "osa", osa)
    if hasattr(F, "tracer"):
        cx.patch(F, "tracer", None)
    import time

    cx.patch(time, "sleep", lambda t: None)
    return sv


def ondemand(cx, which, shape):
    """components at any position"""
    import zoidberg.field as F

    if which == "w7x":
        c = cx.choice("configuration", [0, 3, 7])
        sv = _service(cx)
        f = F.W7X_vacuum_on_demand(c)
    else:
        c = 0

        class Back:
            def interpolateXyz(self, p):
                return cx.np.array(cart([cx.np.asarray(v) for v in p]))

        f = F.FusionSCField(Back())
    x, z = cx.np.zeros(shape), cx.np.zeros(shape)
    for i in np.ndindex(*shape):
        x[i], z[i] = cx.real("x%s" % "_".join(map(str, i)), 1, 4), cx.real("z%s" % "_".join(map(str, i)), -2, 2)
    phi = cx.choice("phi", PHI)
    bx, by, bz = f.Bxfunc(x, z, phi), f.Byfunc(x, z, phi), f.Bzfunc(x, z, phi)
    tri = f.Bxyzfunc(x, z, phi)
    mag = f.Bmag(x, z, phi)
    R = f.Rfunc(x, z, phi)
    p = f.pressure(x, z, phi)
    for i in np.ndindex(*shape):
        e = cyl(cx, x[i], z[i], phi, c)
        for v, t, w, n in zip((bx, by, bz), tri, e, ("Bx", "By", "Bz")):
            cx.eq(v[i], w, n)
            cx.eq(t[i], w, n + " of all components")
        C = cart((x[i] * cx.np.cos(phi), x[i] * cx.np.sin(phi), z[i]), c)
        cx.eq(mag[i], cx.np.sqrt(C[0] ** 2 + C[1] ** 2 + C[2] ** 2), "magnitude")
        cx.eq(R[i], x[i], "major radius")
        cx.eq(p[i], 0.0, "pressure")


def direction(cx, which):
    """what the field line tracer gets"""
    import zoidberg.field as F

    if which == "w7x":
        _service(cx)
        f = F.W7X_vacuum_on_demand(2)
        c = 2
    else:
        c = 0

        class Back:
            def interpolateXyz(self, p):
                return cx.np.array(cart([cx.np.asarray(v) for v in p]))

        f = F.FusionSCField(Back())
    pos = cx.np.array([cx.real("x0", 1, 4), cx.real("z0", -2, 2), cx.real("x1", 1, 4), cx.real("z1", -2, 2)])
    phi = cx.choice("phi", [0.5, -4.0])
    es = [cyl(cx, pos[2 * i], pos[2 * i + 1], phi, c) for i in (0, 1)]
    for e in es:
        cx.assume(e[1] > 0.125)
    r = f.field_direction(pos, phi, flatten=True)
    for i, e in enumerate(es):
        cx.eq(r[2 * i] * e[1], pos[2 * i] * e[0], "dx/dphi")
        cx.eq(r[2 * i + 1] * e[1], pos[2 * i] * e[2], "dz/dphi")


def faults(cx):
    """service that fails at times"""
    import zoidberg.field as F

    fail = cx.choice("failing calls", [(), (1,), (1, 2), (2,), (1, 2, 3), (3,)])
    sv = _service(cx, fail)
    f = F.W7X_vacuum_on_demand(1)
    x, z, phi = cx.np.array([cx.real("x", 1, 4)]), cx.np.array([cx.real("z", -2, 2)]), 0.75
    if 1 in fail and 2 in fail:
        cx.check(cx.raises(lambda: f.Bzfunc(x, z, phi), OSError), "error after two failures")
    else:
        cx.eq(f.Bzfunc(x, z, phi)[0], cyl(cx, x[0], z[0], phi, 1)[2], "value after at most one failure")
    cx.check(sv.calls <= 2, "at most one repetition")


def tabulated(cx, which, n, at, kw, conf=0):
    """table on a regular grid"""
    import zoidberg.field as F

    sv = _service(cx)
    st = Store(cx)
    _tables(cx)
    kw = dict(kw)
    lo, hi = cx.real("lower", "3", "4"), cx.real("upper", "5", "6")
    zl, zh = cx.real("zlower", "-2", "-1"), cx.real("zupper", "1", "2")
    ranges = dict(x_range=(lo, hi), z_range=(zl, zh))
    if which == "vacuum":
        # the name of the file depends on numbers: fixed ones
        ranges = dict(x_range=(3.5, 5.5), z_range=(-1.5, 1.25))
        lo, hi, zl, zh = 3.5, 5.5, -1.5, 1.25
    if which == "default":
        ranges = {}
        lo, hi, zl, zh = 4.05, 6.55, -1.35, 1.35
    vmec = kw.pop("vmec", False)
    make = (lambda c: F.W7X_VMEC(nx=n[0], ny=n[1], nz=n[2], **ranges)) if vmec else (lambda c: F.W7X_vacuum(nx=n[0], ny=n[1], nz=n[2], configuration=c, **ranges, **kw))
    f = make(conf)
    calls = sv.calls
    if not vmec:
        again = make(conf)
        cx.check(sv.calls == calls, "a stored field is not requested again")
        other = make(conf + 2)
        cx.check(sv.calls > calls, "another configuration is requested")
    r, ph, z = [[a + (b - a) * (float(i) / (m - 1)) for i in range(m)] for a, b, m in ((lo, hi, n[0]), (0.0, TAU, n[1]), (zl, zh, n[2]))]

    def table(c):
        t = [cx.np.zeros(n) for _ in range(3)]
        for i in np.ndindex(*n):
            e = cyl(cx, r[i[0]], z[i[2]], ph[i[1]], c)
            if kw.get("include_plasma_field"):
                e = [a + b for a, b in zip(e, plasma(r[i[0]], ph[i[1]], z[i[2]]))]
            for d in range(3):
                t[d][i] = e[d]
        return t

    todo = [(f, table(conf))]
    if not vmec:
        todo += [(again, todo[0][1]), (other, table(conf + 2))]
    for g, t in todo:
        for (u, v, p) in at:
            x, y = lo + u * (hi - lo), zl + v * (zh - zl)
            w = float(np.mod(p, TAU))
            out = not (0 <= u <= 1 and 0 <= v <= 1)
            for d, fn, fill in ((0, g.Bxfunc, 0.0), (1, g.Byfunc, 1.0), (2, g.Bzfunc, 0.0)):
                e = fill if out else _table((r, ph, z), t[d], (x, w, y))
                got = fn(x, y, p)
                got = got[()] if isinstance(got, np.ndarray) else got
                cx.eq(got / 1024.0, e / 1024.0, fn.__name__ + (" outside" if out else ""), tol=1e-5)
            cx.eq(g.Rfunc(x, y, p), x, "major radius")


def emc3(cx, nx, nz, nans):
    """magnitude of the field, missing values filled along the radial direction"""
    import zoidberg.field as F

    if cx.sym:
        import scipy.interpolate as I

        class CS(stubs.Spline1):
            def __init__(self, x, y, *a, **k):
                stubs.Spline1.__init__(self, [float(getattr(v, "t", v)) for v in x], y)

        stubs.stub(cx, I, "CubicSpline", CS)
    co = [[cx.real("c%d_%d" % (k, i), -2, 2) for i in range(4)] for k in range(nz)]
    x, z = np.zeros((nx, nz)), np.zeros((nx, nz))
    vals = cx.np.zeros((nx, nz))
    want = {}
    for k in range(nz):
        s = 0.0
        for i in range(nx):
            if i:
                s += 5.0 * (i + 1)
            # steps of 3:4:5
            x[i, k], z[i, k] = 2.0 + 3.0 * s / 5.0 + k, 4.0 * s / 5.0 - k
            t = s / 16.0
            want[i, k] = co[k][0] + co[k][1] * t + co[k][2] * t * t + co[k][3] * t**3
            vals[i, k] = float("nan") if (i, k) in nans else want[i, k]

    class DS(dict):
        asked = []

        class emc3:
            @staticmethod
            def evaluate_at_rpz(r, phi, zz, name, **k):
                DS.asked.append((r, phi, zz, name))
                o = Obj()
                o.values = vals.copy()
                return {name: o}

    class Var:
        def mean(self, dim=None):
            DS.dim = tuple(sorted(dim))
            return "mean"

    ds = DS(bf_bounds=Var())
    f = F.EMC3(ds)
    for nm in ("Bmag", "Byfunc"):
        b = getattr(f, nm)(x, z, 0.5)
        for i in np.ndindex(nx, nz):
            cx.eq(b[i], want[i], nm + (" filled" if i in nans else ""), tol=1e-5)
        r, phi, zz, name = DS.asked[-1]
        cx.check(r is x and zz is z and phi == 0.5, "position")


def configs(tier):
    cs = []
    o = dict(budget_s=200, normal_first=True, obl_timeout_ms=20000)

    def add(nm, fn, b, cost=2, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=b, opts=o, cost=cost))

    for w in ("w7x", "fusionsc"):
        for sh in ((1,), (2, 2)):
            add("%s-%s" % (w, "x".join(map(str, sh))), ondemand, "any positions, array of %s" % (sh,), which=w, shape=sh)
        add(w + "-direction", direction, "two positions", which=w)
    add("service-fails", faults, "any of the first three requests fails")
    at = ((0.25, 0.5, 1.0), (0.75, 0.25, 7.5), (0.5, 0.5, -1.0), (1.5, 0.5, 0.5), (0.5, -0.5, 3.0), (0.125, 0.875, 6.25))
    add("table-vacuum", tabulated, "2x3x3 points", which="vacuum", n=(2, 3, 3), at=at, kw={})
    add("table-vacuum-plasma", tabulated, "3x2x2 points, with plasma field", which="vacuum", n=(3, 2, 2), at=at, kw=dict(include_plasma_field=True), conf=1)
    add("table-default", tabulated, "2x4x3 points, default ranges", which="default", n=(2, 4, 3), at=at, kw={})
    add("table-vmec", tabulated, "2x3x3 points, any ranges", which="ranges", n=(2, 3, 3), at=at, kw=dict(vmec=True))
    add("table-vmec-default", tabulated, "3x3x2 points, default ranges", which="default", n=(3, 3, 2), at=at, kw=dict(vmec=True))
    add("emc3-complete", emc3, "3x2 positions, any values", nx=3, nz=2, nans=())
    add("emc3-outside", emc3, "6x2 positions, the outermost missing", nx=6, nz=2, nans=((5, 0), (5, 1)))
    add("emc3-mixed", emc3, "7x3 positions, some missing", nx=7, nz=3, nans=((0, 0), (3, 2), (6, 2)))
    return cs
