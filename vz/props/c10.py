"""C10: the reversible tracer takes trapezoidal steps and retraces its path."""
import numpy as np


class Affine:
    """direction affine in position and y"""

    def __init__(self, cx, M):
        self.M = M
        self.cx = cx

    def f(self, x, z, y):
        return [m[0] + m[1] * x + m[2] * z + m[3] * y for m in self.M]

    def field_direction(self, pos, y, flatten=False):
        x, z = pos
        return self.f(x, z, y)


class Curved:
    """direction quadratic or piecewise linear in x"""

    def __init__(self, cx, kind, k):
        self.cx, self.kind, self.k = cx, kind, k

    def g(self, x):
        if self.kind == "quadratic":
            return self.k * x * x
        return self.k * self.cx.np.maximum(x - 1.0, 0.0 * x)

    def f(self, x, z, y):
        return [self.g(x), 0.5 * x]

    def field_direction(self, pos, y, flatten=False):
        x, z = pos
        return self.f(x, z, y)


def _trap(cx, f, r, y, k, i, label, tol):
    a = (r[(k,) + i + (0,)], r[(k,) + i + (1,)])
    b = (r[(k + 1,) + i + (0,)], r[(k + 1,) + i + (1,)])
    fa, fb = f.f(a[0], a[1], y[k]), f.f(b[0], b[1], y[k + 1])
    for j, nm in enumerate("xz"):
        cx.eq(b[j] - a[j], 0.5 * (fa[j] + fb[j]) * (y[k + 1] - y[k]), "%s: trapezoidal step in %s" % (label, nm), tol=tol)


MS = {"rotation": ((0.1, 0.0, -0.5, 0.0), (-0.2, 0.5, 0.0, 0.0)), "shear": ((0.25, 0.5, 0.25, 0.5), (0.5, -0.25, 0.25, -1.0)), "drift": ((1.0, 0.0, 0.0, 0.0), (0.0, 0.0, 0.0, 2.0))}


def steps(cx, m, shape, ny, forward, call):
    import zoidberg.fieldtracer as FT

    f = Affine(cx, MS[m])
    x, z = cx.reals("x", shape, -2, 2), cx.reals("z", shape, -2, 2)
    kx, kz = cx.np.array(x), cx.np.array(z)
    d = 0.5 if forward else -0.5
    y = [0.25 + d * i * (1 + 0.5 * i) for i in range(ny)]
    if call:
        t = FT.FieldTracerReversible(f, nsteps=7)
        r = t.follow_field_lines(x, z, cx.np.array(y), nsteps=1)
    else:
        t = FT.FieldTracerReversible(f, nsteps=1)
        r = t.follow_field_lines(x, z, cx.np.array(y))
    cx.check(np.shape(r) == (ny,) + tuple(shape) + (2,), "shape of the result")
    cx.eq(x, kx, "starting x are not modified")
    cx.eq(z, kz, "starting z are not modified")
    for i in np.ndindex(*shape):
        cx.eq(r[(0,) + i + (0,)], kx[i], "starts at x")
        cx.eq(r[(0,) + i + (1,)], kz[i], "starts at z")
        for k in range(ny - 1):
            _trap(cx, f, r, y, k, i, "line %s, step %d" % (i, k), 1e-6)


def free_step(cx, forward, which):
    """coefficients free, too"""
    import zoidberg.fieldtracer as FT

    a, c, e = (cx.real("m%d" % i, "-1/2", "1/2") for i in range(3))
    b = cx.choice("b", [-0.5, 0.25])
    f = Affine(cx, [[a, b, c, e], [e, 0.25, -b, a]] if which else [[a, 0.25, b, e], [c, c, 0.125, a]])
    x, z = cx.reals("x", 1, -1, 1), cx.reals("z", 1, -1, 1)
    y = [0.5, 1.0] if forward else [0.5, 0.0]
    r = FT.FieldTracerReversible(f, nsteps=1).follow_field_lines(x, z, cx.np.array(y))
    _trap(cx, f, r, y, 0, (0,), "free field", 1e-5)


def substeps(cx, m, n, shape):
    """n sub-steps between outputs are the n single steps"""
    import zoidberg.fieldtracer as FT

    f = Affine(cx, MS[m])
    x, z = cx.reals("x", shape, -2, 2), cx.reals("z", shape, -2, 2)
    Y = [0.0, 0.75, -0.25]
    fine = [Y[0]]
    for a, b in zip(Y[:-1], Y[1:]):
        fine += [a + (b - a) * i / n for i in range(1, n + 1)]
    t = FT.FieldTracerReversible(f)
    r = t.follow_field_lines(x, z, cx.np.array(Y), nsteps=n)
    q = t.follow_field_lines(x, z, cx.np.array(fine), nsteps=1)
    for k in range(len(Y)):
        cx.eq(r[k], q[k * n], "output %d" % k, tol=1e-5)


def reverse(cx, m, n, shape, ny):
    import zoidberg.fieldtracer as FT

    f = Affine(cx, MS[m])
    x, z = cx.reals("x", shape, -2, 2), cx.reals("z", shape, -2, 2)
    y = cx.np.array([0.5 * i for i in range(ny)])
    t = FT.FieldTracerReversible(f, nsteps=n)
    r = t.follow_field_lines(x, z, y)
    b = t.follow_field_lines(r[-1, ..., 0], r[-1, ..., 1], y[::-1])
    for k in range(ny):
        cx.eq(b[k], r[ny - 1 - k], "back at plane %d" % (ny - 1 - k), tol=1e-5)
    cx.eq(b[-1, ..., 0], x, "back at the start (x)", tol=1e-5)
    cx.eq(b[-1, ..., 1], z, "back at the start (z)", tol=1e-5)


def curved(cx, kind, k, others, rtol=1e-8):
    """Newton needs several iterations; other lines that are converged early do not end it"""
    import zoidberg.fieldtracer as FT

    f = Curved(cx, kind, k)
    n = 1 + len(others)
    x = cx.np.array([cx.real("x", 0, 2)] + list(others))
    z = cx.np.array([0.25] * n)
    pos = cx.choice("pos", range(n))
    if pos:
        x = cx.np.array([x[pos]] + [x[i] for i in range(1, n) if i != pos] + [x[0]]) if pos == n - 1 else cx.np.array([x[(i + pos) % n] for i in range(n)])
    y = [0.0, 0.5]
    r = FT.FieldTracerReversible(f, nsteps=1, rtol=rtol).follow_field_lines(x, z, cx.np.array(y))
    for i in range(n):
        _trap(cx, f, r, y, 0, (i,), "line %d" % i, 1e-5)


def shapes(cx, xs, zs):
    import zoidberg.fieldtracer as FT

    f = Affine(cx, MS["shear"])
    mk = lambda name, s: cx.real(name, -2, 2) if s == () else cx.reals(name, s, -2, 2)
    x, z = mk("x", xs), mk("z", zs)
    y = [0.0, 0.5, 0.75]
    r = FT.FieldTracerReversible(f, nsteps=1).follow_field_lines(x, z, cx.np.array(y))
    s = np.broadcast_shapes(xs, zs) or (1,)
    cx.check(np.shape(r) == (3,) + s + (2,), "shape of the result")
    if np.shape(r) != (3,) + s + (2,):
        return
    xb = np.broadcast_to(np.asarray(x, dtype=object), s)
    zb = np.broadcast_to(np.asarray(z, dtype=object), s)
    for i in np.ndindex(*s):
        cx.eq(r[(0,) + i + (0,)], xb[i], "starts at x")
        cx.eq(r[(0,) + i + (1,)], zb[i], "starts at z")
        for k in range(2):
            _trap(cx, f, r, y, k, i, "line %s step %d" % (i, k), 1e-6)


def integers(cx):
    """whole numbers as starting points are not truncated"""
    import zoidberg.fieldtracer as FT

    f = Affine(cx, MS["shear"])
    x, z = np.array([1, 2]), np.array([0, -1])
    y = [0.0, 0.5]
    r = FT.FieldTracerReversible(f, nsteps=1).follow_field_lines(x, z, np.array(y))
    for i in range(2):
        _trap(cx, f, r, y, 0, (i,), "line %d" % i, 1e-6)


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000, path_s=200)
    for m in MS:
        cs.append(dict(name="steps-" + m, fn=steps, params=dict(m=m, shape=(2,), ny=3, forward=m != "drift", call=m == "shear"), bounds="two free lines, two steps", opts=o, cost=3))
    cs.append(dict(name="steps-2d", fn=steps, params=dict(m="rotation", shape=(2, 2), ny=2, forward=False, call=True), bounds="2x2 free lines", opts=o, cost=3))
    for fw in (True, False):
        cs.append(dict(name="free-%s" % ("forward" if fw else "backward"), fn=free_step, params=dict(forward=fw, which=fw), bounds="one line, coefficients of the affine field free", opts=o, cost=6))
    for m, n in (("rotation", 2), ("shear", 3), ("drift", 2)):
        cs.append(dict(name="substeps-%s-%d" % (m, n), fn=substeps, params=dict(m=m, n=n, shape=(1,)), bounds="%d sub-steps, out and back" % n, opts=o, cost=4))
        cs.append(dict(name="reverse-%s-%d" % (m, n), fn=reverse, params=dict(m=m, n=n, shape=(2,), ny=3), bounds="two free lines, three planes there and back", opts=o, cost=4))
    for xs, zs in (((), (2,)), ((2,), ()), ((), ()), ((1, 2), (1, 2)), ((1,), (2,))):
        cs.append(dict(name="shape-%s-%s" % (len(xs), len(zs)), fn=shapes, params=dict(xs=xs, zs=zs), bounds="x %s, z %s" % (xs, zs), opts=o, cost=2))
    cs.append(dict(name="kink", fn=curved, params=dict(kind="kink", k=1.0, others=[0.0, 0.25]), bounds="one free line among three, x in [0,2]", opts=o, cost=6))
    cs.append(dict(name="integers", fn=integers, bounds="integer starting points", opts=o, cost=1))
    if tier != "quick":
        cs.append(dict(name="reverse-long", fn=reverse, params=dict(m="shear", n=5, shape=(2, 2), ny=4), bounds="four lines, 15 sub-steps there and back", opts=dict(budget_s=2400, obl_timeout_ms=60000, path_s=2000), cost=9))
        cs.append(dict(name="kink-strong", fn=curved, params=dict(kind="kink", k=2.0, others=[0.0, 1.5]), bounds="strong kink", opts=dict(budget_s=1200, obl_timeout_ms=60000), cost=9))
    return cs
