"""C07: field strength and field line direction follow from the components."""
import numpy as np


def _poly(cx, tag, const=False):
    c = [cx.real("%s%d" % (tag, i), -2, 2) for i in range(4)]
    if const:
        return lambda x, z, phi: c[0] + 0.0 * x
    return lambda x, z, phi: c[0] + c[1] * x + c[2] * z + c[3] * phi


def mkfield(cx, combined, cyl):
    import zoidberg.field as F

    fx, fz = _poly(cx, "bx"), _poly(cx, "bz")
    by = [cx.real("by%d" % i, "-1/2", "1/2") for i in range(3)]
    sgn = 1 if cx.bool("positive") else -1

    def fy(x, z, phi):
        return sgn * (4.0 + by[0] * x + by[1] * z + by[2] * phi)

    class Fld(F.MagneticField):
        def __init__(self):
            pass

        def Bxfunc(self, x, z, phi):
            return fx(x, z, phi)

        def Byfunc(self, x, z, phi):
            return fy(x, z, phi)

        def Bzfunc(self, x, z, phi):
            return fz(x, z, phi)

    if combined:
        def Bxyzfunc(self, x, z, phi):
            return fx(x, z, phi), fy(x, z, phi), fz(x, z, phi)

        Fld.Bxyzfunc = Bxyzfunc
    if cyl:
        def Rfunc(self, x, z, phi):
            return 5.0 + x + 0.25 * z

        Fld.Rfunc = Rfunc
    return Fld(), fx, fy, fz


def direction(cx, combined, cyl, form, n=2):
    f, fx, fy, fz = mkfield(cx, combined, cyl)
    xs, zs = cx.reals("x", n, -2, 2), cx.reals("z", n, -2, 2)
    phi = cx.real("phi", -2, 2)
    if form == "flat":
        pos = cx.np.array([v for i in range(n) for v in (xs[i], zs[i])])
        d = f.field_direction(pos, phi, flatten=True)
        cx.check(np.shape(d) == (2 * n,), "flat result has two values per point")
        got = [(d[2 * i], d[2 * i + 1]) for i in range(n)]
    else:
        d = f.field_direction((xs, zs), phi) if form == "tuple" else f.field_direction(cx.np.array([xs, zs]), phi)
        cx.check(len(d) == 2, "two components")
        got = [(d[0][i], d[1][i]) for i in range(n)]
    for i in range(n):
        x, z = xs[i], zs[i]
        R = 5.0 + x + 0.25 * z if cyl else 1.0
        By = fy(x, z, phi)
        cx.eq(got[i][0] * By, R * fx(x, z, phi), "dx/dy of point %d" % i, tol=1e-5)
        cx.eq(got[i][1] * By, R * fz(x, z, phi), "dz/dy of point %d" % i, tol=1e-5)


class Table:
    """components that are free at every point, given back only for the right position and angle"""

    def __init__(self, cx, n):
        self.x, self.z = np.arange(n) + 2.0, np.arange(n) * 0.5 - 1.0
        self.phi = 0.75
        self.B = [cx.reals(k, n, -3, 3) for k in ("b0", "b1", "b2")]

    def at(self, x, z, phi):
        ok = np.shape(x) == self.x.shape and all(float(a) == b for a, b in zip(x, self.x)) and all(float(a) == b for a, b in zip(z, self.z)) and float(phi) == self.phi
        return self.B if ok else [7.0 + 0.0 * b for b in self.B]


def magnitude(cx, n=2):
    import zoidberg.field as F

    t = Table(cx, n)

    class Fld(F.MagneticField):
        def __init__(self):
            pass

        def Bxfunc(self, x, z, phi):
            return t.at(x, z, phi)[0]

        def Byfunc(self, x, z, phi):
            return t.at(x, z, phi)[1]

        def Bzfunc(self, x, z, phi):
            return t.at(x, z, phi)[2]

    if cx.bool("cyl"):
        Fld.Rfunc = lambda self, x, z, phi: x
    B = Fld().Bmag(cx.np.array(t.x), cx.np.array(t.z), t.phi)
    for i in range(n):
        a = [b[i] for b in t.B]
        cx.check(B[i] >= 0, "field strength is not negative")
        cx.eq(B[i] * B[i], a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "square of the field strength", tol=1e-5)


def small(cx, combined, flat, n):
    """a vanishing toroidal field is reported, wherever it occurs among the points"""
    import zoidberg.field as F

    By = cx.reals("by", n, "-1/100000000", "1/100000000") * 3.0
    tiny = False
    for b in By:
        a = cx.np.abs(b)
        cx.assume((a < 0.9e-8) | (a > 1.1e-8))
        tiny = (a < 1e-8) | tiny

    class Fld(F.MagneticField):
        def __init__(self):
            pass

        def Bxfunc(self, x, z, phi):
            return x * 0.0 + 1

        Bzfunc = Bxfunc

        def Byfunc(self, x, z, phi):
            return By

    if combined:
        Fld.Bxyzfunc = lambda self, x, z, phi: (x * 0.0 + 1, By, x * 0.0 + 1)
    f = Fld()
    xs = cx.np.array([1.0 * i for i in range(n)])
    pos = cx.np.array([1.0 * i for i in range(2 * n)])
    r = cx.raises(lambda: f.field_direction(pos, 0.0, flatten=True) if flat else f.field_direction((xs, xs), 0.0), ValueError)
    cx.eq(r, tiny, "error exactly if the toroidal field vanishes somewhere")


def slab(cx, curved, default):
    import zoidberg.field as F

    By, Bz, xc, Bzp, R = (cx.real(k, lo, hi) for k, lo, hi in (("By", 1, 3), ("Bz", -2, 2), ("xc", -2, 2), ("Bzp", -2, 2), ("R", 1, 5)))
    if default:
        By, Bz, xc, Bzp, R = 1.0, 0.1, 0.0, 1.0, 1.0
        f = F.CurvedSlab() if curved else F.Slab()
    else:
        f = F.CurvedSlab(By=By, Bz=Bz, xcentre=xc, Bzprime=Bzp, Rmaj=R) if curved else F.Slab(By=By, Bz=Bz, xcentre=xc, Bzprime=Bzp)
    x, z = cx.reals("x", (2, 2), -3, 3), cx.reals("z", (2, 2), -3, 3)
    phi = cx.real("phi", -3, 3)
    bz = Bz + (x - xc) * Bzp
    cx.eq(f.Bxfunc(x, z, phi), 0.0 * x, "no radial field")
    cx.eq(f.Byfunc(x, z, phi), 0.0 * x + By, "uniform By")
    cx.eq(f.Bzfunc(x, z, phi), bz, "sheared Bz")
    r = f.Rfunc(x, z, phi)
    if curved:
        cx.eq(r, 0.0 * x + R, "major radius")
    else:
        cx.check(r is None, "Cartesian")
    cx.eq(f.pressure(x, z, phi) + 0.0 * x, 0.0 * x, "no pressure")
    d = f.field_direction((x[0], z[0]), phi)
    cx.eq(d[1] * By, bz[0] * (R if curved else 1.0), "direction", tol=1e-5)


class _Cart:
    def __init__(self, cx):
        self.c = [[cx.real("%s%d" % (k, i), -2, 2) for i in range(3)] for k in "abc"]
        self.N = cx.np

    def at(self, X, Y, Z):
        return [p[0] + p[1] * X + p[2] * Y - 0.5 * p[1] * Z for p in self.c]

    def interpolateXyz(self, p):
        return self.N.array(self.at(*p))


def cartesian(cx, which):
    """fields given in Cartesian components are rotated into the cylindrical ones"""
    import zoidberg.field as F

    src = _Cart(cx)
    x, z = cx.reals("x", 2, 1, 5), cx.reals("z", 2, -3, 3)
    phi = cx.real("phi", -4, 4)
    c, s = cx.np.cos(phi), cx.np.sin(phi)
    if which == "fusionsc":
        f = F.FusionSCField(src)
        B = src.at(x * c, x * s, z)
    else:
        f = F.W7X_vacuum_on_demand(3)
        tab = lambda a, b, p: cx.np.array(src.at(a, b, p))
        seen = []

        def calc(r, zz, ph, conf):
            seen.append(conf)
            return tab(r, zz, ph)

        cx.patch(F.W7X_vacuum, "_calc_B", staticmethod(calc))
        B = src.at(x, z, phi)
    want = (B[0] * c + B[1] * s, B[1] * c - B[0] * s, B[2])
    comb = f.Bxyzfunc(x, z, phi)
    for i, (k, n) in enumerate((("Bxfunc", "radial"), ("Byfunc", "toroidal"), ("Bzfunc", "vertical"))):
        cx.eq(getattr(f, k)(x, z, phi), want[i], n + " component", tol=1e-5)
        cx.eq(comb[i], want[i], n + " component of the combined call", tol=1e-5)
    cx.eq(f.Rfunc(x, z, phi), x, "major radius")
    cx.eq(f.pressure(x, z, phi) + 0.0 * x, 0.0 * x, "pressure")
    if which != "fusionsc":
        cx.check(seen and all(v == 3 for v in seen), "requested configuration is used")


def cartesian_strength(cx, which, n=2):
    import zoidberg.field as F

    t = Table(cx, n)
    if which == "fusionsc":
        class Src:
            def interpolateXyz(self, p):
                return cx.np.array(t.B)

        f = F.FusionSCField(Src())
    else:
        f = F.W7X_vacuum_on_demand(3)
        cx.patch(F.W7X_vacuum, "_calc_B", staticmethod(lambda r, z, ph, conf: cx.np.array(t.B)))
    M = f.Bmag(cx.np.array(t.x), cx.np.array(t.z), t.phi)
    for i in range(n):
        cx.check(M[i] >= 0, "field strength is not negative")
        cx.eq(M[i] * M[i], t.B[0][i] ** 2 + t.B[1][i] ** 2 + t.B[2][i] ** 2, "field strength", tol=1e-5)


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    for combined in (False, True):
        for cyl in (False, True):
            for form in ("flat", "tuple", "array"):
                n = {"flat": 2, "tuple": 2, "array": 2}[form]
                cs.append(dict(name="direction-%s-%s-%s" % ("combined" if combined else "components", "cylindrical" if cyl else "cartesian", form), fn=direction,
                               params=dict(combined=combined, cyl=cyl, form=form, n=n), bounds="%d points, components linear in position and angle with free coefficients" % n, opts=o, cost=3))
    cs.append(dict(name="magnitude", fn=magnitude, bounds="two points", opts=o, cost=2))
    for combined in (False, True):
        cs.append(dict(name="small-%s" % combined, fn=small, params=dict(combined=combined, flat=True, n=3), bounds="three points, By around the limit", opts=o, cost=2))
    cs.append(dict(name="small-tuple", fn=small, params=dict(combined=False, flat=False, n=2), bounds="two points", opts=o, cost=2))
    for curved in (False, True):
        for default in (False, True):
            cs.append(dict(name="%s-%s" % ("curved" if curved else "slab", "defaults" if default else "free"), fn=slab, params=dict(curved=curved, default=default), bounds="2x2 points, free parameters", opts=o, cost=2))
    for w in ("fusionsc", "w7x-on-demand"):
        cs.append(dict(name=w, fn=cartesian, params=dict(which=w), bounds="two points, linear Cartesian components", opts=o, cost=3))
        cs.append(dict(name=w + "-strength", fn=cartesian_strength, params=dict(which=w), bounds="two points, free components", opts=o, cost=3))
    if tier != "quick":
        for cyl in (False, True):
            cs.append(dict(name="direction-%s-6" % cyl, fn=direction, params=dict(combined=False, cyl=cyl, form="flat", n=6), bounds="6 points", opts=o, cost=3))
    return cs
