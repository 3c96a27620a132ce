"""C24: index derivatives and lengths of field lines."""
import numpy as np

from .. import stubs


def _arr(cx, shape, axis, deg, tag):
    """along axis: polynomials in the index with free coefficients, different on every line"""
    n = shape[axis]
    rest = [s for i, s in enumerate(shape) if i != axis]
    f, d = cx.np.zeros(shape), cx.np.zeros(shape)
    for r in np.ndindex(*rest):
        c = [cx.real("%s%s_%d" % (tag, "_".join(map(str, r)), q), -2, 2) for q in range(deg + 1)]
        for i in range(n):
            idx = r[:axis] + (i,) + r[axis:]
            t = i - 1.0
            f[idx] = sum(c[q] * t**q for q in range(deg + 1))
            d[idx] = sum((c[q] * q * t ** (q - 1) for q in range(1, deg + 1)), 0.0)
    return f, d


def _norm(axis, nd, how):
    return axis - nd if how else axis


def poly(cx, which, shape, axis, deg, edges, neg):
    """exact for polynomials: of degree deg in the interior, edges at the ends"""
    import zoidberg.diff as D

    f, d = _arr(cx, shape, axis, deg, "c")
    k = cx.np.array(f)
    r = getattr(D, which)(f, axis - len(shape) if neg else axis)
    cx.check(np.shape(r) == tuple(shape), "shape")
    n, w = shape[axis], 1 if which == "c2" else 2
    for i in np.ndindex(*shape):
        if deg > edges and not w <= i[axis] < n - w:
            continue
        cx.eq(r[i], d[i], "derivative of a polynomial at %s" % (i,), tol=1e-5)
    cx.eq(f, k, "input is not modified")


def stencil(cx, which, shape, axis, periodic, neg):
    """any data: the centred difference, wrapped around if periodic"""
    import zoidberg.diff as D

    f = cx.reals("f", shape, -3, 3)
    k = cx.np.array(f)
    r = getattr(D, which)(f, axis - len(shape) if neg else axis, periodic=periodic)
    cx.check(np.shape(r) == tuple(shape), "shape")
    n, w = shape[axis], 1 if which == "c2" else 2

    def at(i, o):
        j = list(i)
        j[axis] = (j[axis] + o) % n
        return k[tuple(j)]

    for i in np.ndindex(*shape):
        if not periodic and not w <= i[axis] < n - w:
            # one-sided: only values of the same line may enter, checked by its effect on constants and lines in poly()
            continue
        if which == "c2":
            want = 0.5 * (at(i, 1) - at(i, -1))
        else:
            want = (8.0 * (at(i, 1) - at(i, -1)) - (at(i, 2) - at(i, -2))) / 12.0
        cx.eq(r[i], want, "difference at %s" % (i,), tol=1e-5)
    cx.eq(f, k, "input is not modified")


SHAPES = {
    # R(y), Z(y) of lines of unit size; cubic polynomials, which the spline follows exactly
    "vertical": ((0.0,), (0.0, 1.0, 0.25)),
    "circle": ((1.0,), (0.0,)),
    "helix": ((1.0,), (0.0, 0.75)),
    "descending": ((1.5,), (0.0, -2.0)),
    "spiral": ((0.5, 0.25), (0.0, 0.5, -0.125)),
    "cubic": ((1.0, -0.25, 0.0, 0.0625), (0.5, 0.0, 0.25, -0.125)),
}


def _ev(c, y):
    return sum(v * y**q for q, v in enumerate(c))


def arc(kind, a, b):
    from scipy.integrate import quad

    R, Z = SHAPES[kind]
    dv = lambda c: [q * v for q, v in enumerate(c)][1:] or [0.0]
    return quad(lambda y: np.sqrt(_ev(dv(R), y) ** 2 + _ev(R, y) ** 2 + _ev(dv(Z), y) ** 2), a, b, limit=200)[0]


def line(cx, ny, shape, refine=None, uneven=True, kinds=None):
    """lengths of lines of any size and of several shapes"""
    import zoidberg.diff as D

    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "CubicSpline", Cubic)
    ys = [-0.25 + 0.375 * i * (1 + (0.125 * i if uneven else 0.0)) for i in range(ny)]
    co = cx.np.zeros((ny,) + shape + (2,))
    want = {}
    for n, i in enumerate(np.ndindex(*shape)):
        k = cx.choice("line%d" % n, kinds or sorted(SHAPES))
        s = cx.real("size%d" % n, 1, 5)
        for q, y in enumerate(ys):
            co[(q,) + i + (0,)], co[(q,) + i + (1,)] = s * _ev(SHAPES[k][0], y), s * _ev(SHAPES[k][1], y)
        want[i] = s * arc(k, ys[0], ys[-1])
    kc, Y = cx.np.array(co), cx.np.array(ys)
    kw = {} if refine is None else dict(refine=refine)
    r = D.field_line_length(co, Y, **kw)
    cx.check(np.shape(r) == tuple(shape), "one length per line")
    for i in np.ndindex(*shape):
        # the polygon is shorter than the line by a relative 1/24 (dphi)^2
        tol = 2e-4 if refine is None else 3.0 / refine**2
        cx.eq(r[i], want[i], "length of line %s" % (i,), tol=tol)
        cx.check(r[i] <= want[i] + 1e-5, "polygon is not longer than the line")
    cx.eq(co, kc, "points are not modified")


class Cubic:
    """CubicSpline (not-a-knot) with symbolic data along the first axis, evaluated at concrete points"""

    def __init__(self, x, y, axis=0, bc_type="not-a-knot", extrapolate=None):
        assert bc_type == "not-a-knot" and axis == 0
        self.x = [float(v) for v in np.asarray(x, dtype=object)]
        self.y = np.asarray(y, dtype=object)
        self.rev = len(self.x) > 1 and self.x[1] < self.x[0]
        if any((b - a) <= 0 for a, b in zip(self.x[:-1], self.x[1:])):
            raise ValueError("`x` must be strictly increasing sequence.")

    def __call__(self, t, nu=0):
        from ..core import lift, mkarray

        t = np.asarray(t, dtype=object)
        rest = self.y.shape[1:]
        r = np.empty(t.shape + rest, dtype=object)
        for i in np.ndindex(*t.shape):
            b = stubs.ev_basis(self.x, t[i], nu, min(3, len(self.x) - 1))
            for c in np.ndindex(*rest):
                s = lift(0)
                for p, v in zip(b, self.y):
                    if not (p.const and p.t == 0):
                        s = s + p * lift(v[c] if rest else v)
                r[i + c] = s
        return mkarray(r) if r.shape else r[()]


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    for which, deg, edges, n0 in (("c2", 2, 1, 3), ("c2", 1, 1, 3), ("c4", 4, 4, 5)):
        for axis, shape in ((0, (n0,)), (0, (n0 + 1, 2)), (1, (2, n0 + 2)), (1, (2, n0 + 1, 2)), (2, (1, 2, n0 + 3))):
            neg = axis == len(shape) - 1 and len(shape) > 1
            cs.append(dict(name="%s-degree-%d-%s-axis%d" % (which, deg, "x".join(map(str, shape)), axis), fn=poly, params=dict(which=which, shape=shape, axis=axis, deg=deg, edges=edges, neg=neg),
                           bounds="polynomials of degree %d, array %s" % (deg, shape), opts=o, cost=1))
    for which in ("c2", "c4"):
        for per in (False, True):
            for axis, shape in ((0, (6,)), (0, (7, 2)), (1, (2, 5)), (1, (2, 6, 2)), (2, (2, 1, 5))) + (((0, (4, 2)), (1, (2, 3))) if per else ()):
                cs.append(dict(name="%s-%s-%s-axis%d" % (which, "periodic" if per else "interior", "x".join(map(str, shape)), axis), fn=stencil,
                               params=dict(which=which, shape=shape, axis=axis, periodic=per, neg=axis == len(shape) - 1), bounds="free data, array %s" % (shape,), opts=o, cost=1))
    for ny, sh, rf, un in ((4, (1,), None, True), (5, (2,), 10, False), (3, (1, 1), 20, True), (2, (1,), 10, True), (7, (1,), 10, True)):
        cs.append(dict(name="length-%d-%s-%s" % (ny, "x".join(map(str, sh)), rf), fn=line, params=dict(ny=ny, shape=sh, refine=rf, uneven=un, kinds=["circle", "helix", "descending"] if ny == 2 else None if ny > 4 or ny == 4 else ["vertical", "circle", "helix", "spiral"]),
                       bounds="%s lines of free size and 6 shapes, %d points" % (sh, ny), opts=o, cost=4))
    if tier != "quick":
        cs.append(dict(name="length-2d", fn=line, params=dict(ny=5, shape=(2, 2), refine=20, kinds=["circle", "helix", "cubic"]), bounds="2x2 lines", opts=dict(budget_s=1800, obl_timeout_ms=60000, max_paths=5000), cost=6))
        cs.append(dict(name="length-long", fn=line, params=dict(ny=9, shape=(2,)), bounds="two lines, 9 points, refinement 100", opts=dict(budget_s=1800, obl_timeout_ms=60000, max_paths=5000), cost=6))
        for which in ("c2", "c4"):
            for n in range(5, 12):
                cs.append(dict(name="%s-length-%d" % (which, n), fn=stencil, params=dict(which=which, shape=(2, n, 2), axis=1, periodic=n % 2 == 0, neg=False), bounds="2x%dx2" % n, opts=o, cost=2))
    return cs
