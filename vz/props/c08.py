"""C08: the analytic fields and the EFIT field are consistent with their flux functions."""
from fractions import Fraction

import numpy as np

from .. import core, stubs
from ..dual import D, arr, first, variables


def _ev(f, x, z, phi):
    vs = variables(x, z, phi)
    return first(f(*[arr(v) for v in vs]), 3)


def f_axis(kw):
    return kw.get("xcentre", 1.5), kw.get("zcentre", 0.0)


def surfaces(cx, cls, kw, phis, box, curl, btor=None):
    """in-plane field: divergence free and tangent to the surfaces of A (curl: B = (-dA/dz, dA/dx))"""
    import zoidberg.field as F

    f = getattr(F, cls)(**kw)
    phi = cx.choice("phi", phis) if phis is not None else cx.real("phi", -3, 3)
    x = cx.real("x", box[0], box[1])
    z = cx.real("z", box[2], box[3])
    if not curl:
        cx.assume((x - f_axis(kw)[0]) ** 2 + (z - f_axis(kw)[1]) ** 2 >= 0.005)
    Bx, Bz, A = (_ev(g, x, z, phi) for g in (f.Bxfunc, f.Bzfunc, f.Afunc))
    if curl:
        cx.eq(Bx.v, -A.d[1], "Bx = -dA/dz", tol=1e-5)
        cx.eq(Bz.v, A.d[0], "Bz = dA/dx", tol=1e-5)
    else:
        cx.eq(Bx.v * A.d[0] + Bz.v * A.d[1], 0.0, "B is tangent to surfaces of A", tol=1e-5)
        cx.eq(Bx.d[0] + Bz.d[1], 0.0, "in-plane field is divergence free", tol=1e-5)
    X = cx.np.array([x])
    if btor is not None:
        By = f.Byfunc(X, cx.np.array([z]), phi)
        cx.eq(By[0] * x, btor, "By = Btor/R")
        cx.eq(f.Rfunc(X, cx.np.array([z]), phi)[0], x, "major radius")


def coils(cx, cls, kw, phis, box, btor=None):
    """four coils of alternating current on a helix: field against the sum over the coils"""
    import zoidberg.field as F

    f = getattr(F, cls)(**kw)
    phi = cx.choice("phi", phis)
    x = cx.real("x", box[0], box[1])
    if cx.choice("line", [0, 1]):
        z = 0.25 * float(Fraction(box[2])) + 0.75 * float(Fraction(box[3]))
    else:
        x, z = 0.375 * float(Fraction(box[0])) + 0.625 * float(Fraction(box[1])), cx.real("z", box[2], box[3])
    X, Z = cx.np.array([x]), cx.np.array([z])
    xc, zc, rad = kw.get("xcentre", 0.0), kw.get("zcentre", 0.0), kw.get("radius", 0.8)
    yp, I = kw.get("yperiod", np.pi), kw.get("I_coil", 0.05)
    bx = bz = 0.0
    for i in range(4):
        ang = i * np.pi / 2 + 2 * np.pi * phi / yp
        dx, dz = x - (xc + rad * np.cos(ang)), z - (zc + rad * np.sin(ang))
        r2 = dx * dx + dz * dz
        c = 0.2 * I * (-1) ** i
        bx = bx + c * dz / r2
        bz = bz - c * dx / r2
    cx.eq(f.Bxfunc(X, Z, phi)[0], bx, "Bx of the four coils", tol=1e-5)
    cx.eq(f.Bzfunc(X, Z, phi)[0], bz, "Bz of the four coils", tol=1e-5)


def dommaschk(cx, modes, R0, swap=None):
    """vacuum field: divergence and curl free, normalised to B_0 on the axis"""
    import zoidberg.field as F

    nm, nl = max(m for m, _, _, _ in modes) + 1, max(l for _, l, _, _ in modes) + 1
    A = np.zeros((nm, nl, 4))
    for m, l, k, v in modes:
        A[m, l, k] = v
    B0 = cx.real("B0", "1/2", 4)
    f = F.DommaschkPotentials(A, R_0=R0, B_0=D(B0, (0.0, 0.0, 0.0)))
    x, z, phi = cx.real("x", "1/2", 3), cx.real("z", -1, 1), cx.real("phi", -3, 3)
    Bx, By, Bz = (_ev(g, x, z, phi) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc))
    # order of derivatives: x, z, phi
    cx.eq(x * Bx.d[0] + Bx.v + By.d[2] + x * Bz.d[1], 0.0, "divergence", tol=1e-4)
    cx.eq(Bx.d[1], Bz.d[0], "curl: dBx/dz = dBz/dx", tol=1e-4)
    cx.eq(By.v + x * By.d[0], Bx.d[2], "curl: d(R By)/dR = dBx/dphi", tol=1e-4)
    cx.eq(Bz.d[2], x * By.d[1], "curl: dBz/dphi = R dBy/dz", tol=1e-4)
    By0 = f.Byfunc(np.array([R0]), np.array([0.0]), 0.0)
    cx.eq(first(By0, 1).v, B0, "toroidal field on the axis is B_0", tol=1e-5)
    cx.eq(f.Rfunc(cx.np.array([x]), None, 0.0)[0], x, "major radius")


def axisymmetric(cx, R0):
    """without modes: purely toroidal, falls like 1/R"""
    import zoidberg.field as F

    B0 = cx.real("B0", "1/2", 4)
    f = F.DommaschkPotentials(np.zeros((2, 2, 4)), R_0=R0, B_0=D(B0, (0.0, 0.0, 0.0)))
    x, z, phi = cx.real("x", "1/2", 3), cx.real("z", -1, 1), cx.real("phi", -3, 3)
    Bx, By, Bz = (_ev(g, x, z, phi) for g in (f.Bxfunc, f.Byfunc, f.Bzfunc))
    cx.eq(By.v * x, B0 * R0, "R By = R0 B0", tol=1e-5)
    cx.eq(Bx.v, 0.0, "Bx")
    cx.eq(Bz.v, 0.0, "Bz")


# ---------------------------------------------------------------- EFIT
def _read(cx, data):
    import freeqdsk.geqdsk as GQ

    cx.patch(GQ, "read", lambda f, *a, **k: dict(data))
    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RectBivariateSpline", stubs.RectSpline)

        class IUS(stubs.Spline1):
            def __init__(self, x, y, w=None, bbox=None, k=3, ext=0, **kw):
                super().__init__(x, y, k)
                self.ext = ext

            def __call__(self, t, nu=0, ext=None):
                e = self.ext if ext is None else ext
                t = np.asarray(t, dtype=object)
                r = np.empty(t.shape, dtype=object)
                for i in np.ndindex(*t.shape):
                    v = core.lift(t[i])
                    if e in (3, "const"):
                        v = core.lift(self.x[0]) if bool(v < self.x[0]) else (core.lift(self.x[-1]) if bool(v > self.x[-1]) else v)
                    r[i] = super().__call__(v, nu)
                return core.mkarray(r) if r.shape else r[()]

        stubs.stub(cx, "scipy.interpolate", "InterpolatedUnivariateSpline", IUS)
    import zoidberg.field as F

    return F.GEQDSK("/dev/null")


def _data(cx, nr, nz, **kw):
    r = np.linspace(1.0, 3.0, nr)
    z = np.linspace(-1.5, 0.5, nz)
    psi = (r[:, None] - 2) ** 2 + (z[None, :] + 0.5) ** 2 * 1.2
    d = dict(rleft=1.0, rdim=2.0, zmid=-0.5, zdim=2.0, psi=psi.T, simagx=0.0, sibdry=1.5,
             fpol=np.linspace(3, 4, nr), pres=np.linspace(5, 1, nr),
             rbdry=np.array([1.4, 2.6, 2.6, 1.4]), zbdry=np.array([-1.2, -1.2, 0.3, 0.3]),
             rlim=np.array([1.1, 2.9, 2.9, 1.1]), zlim=np.array([-1.4, -1.4, 0.4, 0.4]))
    d.update(kw)
    return {k: (cx.np.array(v) if isinstance(v, np.ndarray) else v) for k, v in d.items()}, r, z


PTS = [(1.5, -0.75), (2.25, 0.125), (2.9, -1.45)]


def efit_poloidal(cx, nr, nz):
    """any flux: poloidal field from the gradient of psi"""
    psi = cx.reals("psi", (nr, nz), -2, 2)
    d, r, z = _data(cx, nr, nz, psi=psi.T)
    f = _read(cx, d)
    spl = stubs.RectSpline(r, z, psi) if cx.sym else _real_spline(r, z, psi)
    for k, (x, y) in enumerate(PTS):
        X, Z = cx.np.array([x]), cx.np.array([y])
        gx, gz, v = (spl(X, Z, dx=a, dy=b, grid=False)[0] for a, b in ((1, 0), (0, 1), (0, 0)))
        cx.eq(f.Bxfunc(X, Z, 0.0)[0] * x, -gz, "R Bx = -dpsi/dz (%d)" % k, tol=1e-4)
        cx.eq(f.Bzfunc(X, Z, 0.0)[0] * x, gx, "R Bz = dpsi/dR (%d)" % k, tol=1e-4)
        cx.eq(f.attributes["psi"](X, Z, 0.0)[0], v, "psi written to file (%d)" % k, tol=1e-4)
        cx.eq(f.Rfunc(X, Z, 0.0)[0], x, "major radius")


def _real_spline(r, z, psi):
    from scipy.interpolate import RectBivariateSpline

    return RectBivariateSpline(r, z, psi)


def efit_toroidal(cx, nr, nz, pts):
    """any fpol and pressure profile: functions of normalised psi, constant outside the plasma"""
    fpol, pres = cx.reals("f", (nr,), 1, 5), cx.reals("p", (nr,), 0, 5)
    d, r, z = _data(cx, nr, nz, fpol=fpol, pres=pres)
    f = _read(cx, d)
    psi = np.asarray(_data0(nr, nz)[0])
    rb = (1.4, 2.6)
    zb = (-1.2, 0.3)
    pn = psi / 1.5
    R2, Z2 = np.meshgrid(r, z, indexing="ij")
    pn = np.where((R2 < rb[0]) | (R2 > rb[1]) | (Z2 < zb[0]) | (Z2 > zb[1]), 1.0, pn)
    ps = _real_spline(r, z, pn)
    prof = np.linspace(0, 1, nr)
    for k, (x, y) in enumerate(pts):
        s = min(max(float(ps(x, y, grid=False)), 0.0), 1.0)
        w = [_card(prof, j, s) for j in range(nr)]
        ef = sum(wi * v for wi, v in zip(w, fpol))
        ep = sum(wi * v for wi, v in zip(w, pres))
        X, Z = cx.np.array([x]), cx.np.array([y])
        cx.eq(f.Byfunc(X, Z, 0.0)[0] * x, ef, "R By = f(psi) (%d)" % k, tol=1e-4)
        cx.eq(f.pressure(X, Z, 0.0)[0], ep, "pressure(psi) (%d)" % k, tol=1e-4)
    X, Z = cx.np.array([[p[0]] for p in pts]), cx.np.array([[p[1]] for p in pts])
    cx.check(np.shape(f.Byfunc(X, Z, 0.0)) == (len(pts), 1), "shape of By")
    cx.check(np.shape(f.pressure(X, Z, 0.0)) == (len(pts), 1), "shape of pressure")


def _data0(nr, nz):
    r = np.linspace(1.0, 3.0, nr)
    z = np.linspace(-1.5, 0.5, nz)
    return (r[:, None] - 2) ** 2 + (z[None, :] + 0.5) ** 2 * 1.2, r, z


def _card(x, j, s):
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    e = np.zeros(len(x))
    e[j] = 1
    return float(IUS(x, e, ext=3)(s))


def efit_shared(cx, nr, nz):
    """reading one file does not change other fields; limiter polygon is the boundary"""
    import zoidberg.field as F

    d, r, z = _data(cx, nr, nz)
    psi2 = np.asarray(_data0(nr, nz)[0]) * 2 + 1
    f1 = _read(cx, d)
    d2, _, _ = _data(cx, nr, nz, psi=psi2.T, rlim=np.array([]), zlim=np.array([]))
    a = f1.attributes["psi"](cx.np.array([2.0]), cx.np.array([-0.5]), 0.0)[0]
    f2 = _read(cx, d2)
    b = f1.attributes["psi"](cx.np.array([2.0]), cx.np.array([-0.5]), 0.0)[0]
    cx.eq(b, a, "attributes of the first field are unchanged", tol=1e-6)
    s = F.Slab()
    cx.check("psi" not in s.attributes, "other fields do not get a psi attribute")
    x, zz = cx.real("x", 0, 4), cx.real("z", -3, 2)
    inside = (x >= 1.1) & (x <= 2.9) & (zz >= -1.4) & (zz <= 0.4)
    m = cx.margin(1e-4)
    for v, e in ((x, 1.1), (x, 2.9), (zz, -1.4), (zz, 0.4)):
        cx.assume((v <= e - m) | (v >= e + m))
    out = f1.boundary.outside(cx.np.array([x]), 0.0, cx.np.array([zz]))
    o = np.ravel(out)[0]
    cx.eq(o, (not inside) if isinstance(inside, (bool, np.bool_)) else ~inside, "boundary is the limiter")
    o2 = np.ravel(f2.boundary.outside(cx.np.array([x]), 0.0, cx.np.array([zz])))[0]
    cx.check(not bool(o2), "without a limiter nothing is outside")


def configs(tier):
    cs = []
    O = dict(budget_s=300, obl_timeout_ms=60000, normal_first=True)
    half = ("-1/2", "1/2", "-1/2", "1/2")
    ss = [dict(), dict(xcentre=0.25, zcentre=-0.5, radius=1.5, yperiod=2.0, I_coil=0.125)]
    for k, kw in enumerate(ss):
        box = half if not k else ("-1/4", "3/4", -1, 0)
        yp = kw.get("yperiod", np.pi)
        ph = [0.0, yp / 12, yp / 4, 0.75 * yp] if k else [0.0, yp / 8]
        cs.append(dict(name="straight-%d" % k, fn=surfaces, params=dict(cls="StraightStellarator", kw=kw, phis=ph[1:2], box=box, curl=True), bounds="box inside the coils, phi=%.3f" % ph[1], opts=O, cost=5))
        for n, p in enumerate(ph):
            cs.append(dict(name="straight-coils-%d-%d" % (k, n), fn=coils, params=dict(cls="StraightStellarator", kw=kw, phis=[p], box=box), bounds="two lines across the box inside the coils, phi=%.3f" % p, opts=O, cost=6))
    ell = [dict(xcentre=5.5, zcentre=0.0, radius=1.5, yperiod=2 * np.pi / 5, I_coil=0.4, Btor=2.5)]
    for k, kw in enumerate(ell):
        yp = kw["yperiod"]
        cs.append(dict(name="ellipse-%d" % k, fn=surfaces, params=dict(cls="RotatingEllipse", kw=kw, phis=[yp / 12], box=(5, 6, "-1/2", "1/2"), curl=True, btor=2.5), bounds="box inside the coils", opts=O, cost=5))
        for n, p in enumerate((0.0, yp / 12, yp / 4)):
            cs.append(dict(name="ellipse-coils-%d-%d" % (k, n), fn=coils, params=dict(cls="RotatingEllipse", kw=kw, phis=[p], box=(5, 6, "-1/2", "1/2")), bounds="box inside the coils, phi=%.3f" % p, opts=O, cost=6))
    for k, kw in enumerate([dict(shear=0.7, Btor=2.5), dict(xcentre=2.0, zcentre=0.5, shear=-0.3, Btor=1.5)]):
        xc, zc = kw.get("xcentre", 1.5), kw.get("zcentre", 0.0)
        for b, box in enumerate([(xc + 0.1, xc + 1, zc - 1, zc + 1), (xc - 1, xc - 0.1, zc - 1, zc + 1)]):
            cs.append(dict(name="screwpinch-%d-%d" % (k, b), fn=surfaces, params=dict(cls="Screwpinch", kw=kw, phis=[0.0, 1.0], box=box, curl=False, btor=kw["Btor"]), bounds="beside the axis", opts=O))
    ms = [[(2, 1, 0, 1.0)], [(2, 2, 1, 1.0)], [(1, 2, 3, 1.0)], [(3, 3, 2, 1.0)], [(1, 1, 0, 0.5), (2, 2, 3, 0.25)]]
    if tier != "quick":
        ms += [[(m, l, k, 1.0)] for m in (1, 2, 4, 5) for l in (1, 2, 3, 4) for k in (0, 1, 2, 3)]
    for m in ms:
        for R0 in (1.0, 2.0):
            cs.append(dict(name="dommaschk-%s-R%g" % ("+".join("%d.%d.%d" % q[:3] for q in m), R0), fn=dommaschk, params=dict(modes=m, R0=R0), bounds="modes %s, R in [0.5,3], |Z|<=1, any phi, B0 in [0.5,4]" % (m,), opts=O, cost=3))
    cs.append(dict(name="dommaschk-axisymmetric", fn=axisymmetric, params=dict(R0=2.0), bounds="no modes"))
    cs.append(dict(name="efit-poloidal", fn=efit_poloidal, params=dict(nr=5, nz=4), bounds="free 5x4 psi, 3 points"))
    cs.append(dict(name="efit-toroidal", fn=efit_toroidal, params=dict(nr=5, nz=6, pts=PTS), bounds="free 5-point f and p profiles, 3 points"))
    cs.append(dict(name="efit-shared", fn=efit_shared, params=dict(nr=5, nz=4), bounds="point in [0,4]x[-3,2]"))
    return cs
