"""C21: periodic lines in the poloidal plane."""
import numpy as np

from .. import stubs

TAU = 2 * np.pi
# anticlockwise, not symmetric
BASE = {4: [(3.0, 0.0), (2.25, 1.0), (1.0, 0.25), (2.0, -1.25)],
        5: [(3.0, 0.0), (2.5, 1.0), (1.5, 0.75), (1.0, -0.25), (2.0, -1.25)],
        6: [(3.0, 0.25), (2.5, 1.0), (1.5, 1.25), (1.0, -0.25), (1.5, -1.0), (2.5, -0.75)],
        8: [(3.0, 0.25), (2.75, 0.75), (2.0, 1.0), (1.5, 1.25), (1.0, 0.0), (1.25, -1.0), (2.0, -1.25), (2.5, -0.75)]}


def area(R, Z):
    n = len(R)
    return sum(R[i] * Z[(i + 1) % n] - R[(i + 1) % n] * Z[i] for i in range(n))


def orient(cx, n, free, order, ccw=True):
    """the points in the given order, reversed if clockwise"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    p = BASE[n][:]
    if cx.bool("clockwise"):
        p = p[::-1]
    R, Z = [v[0] for v in p], [v[1] for v in p]
    for i in free:
        R[i], Z[i] = cx.real("R%d" % i, 0, 4), cx.real("Z%d" % i, -2, 2)
    A = area(R, Z)
    cx.assume((A > cx.margin(0.01)) | (A < -cx.margin(0.01)))
    r, z = cx.np.array(R), cx.np.array(Z)
    kw = {} if ccw else dict(anticlockwise=False)
    l = L.RZline(r, z, spline_order=order, **kw)
    want = list(zip(R, Z))
    if ccw and bool(A < 0):
        want = want[::-1]
    for i in range(n):
        cx.eq(l.R[i], want[i][0], "R of point %d" % i)
        cx.eq(l.Z[i], want[i][1], "Z of point %d" % i)
        cx.eq(l.theta[i], TAU * i / n, "angle of point %d" % i)
    a, b = l.position()
    c, d = l.position(l.theta)
    e, f = l.positionPolygon()
    for i in range(n):
        for v, w, lab in ((a, b, "line at its own angles"), (c, d, "line at the angles of the points"), (e, f, "polygon at its own angles")):
            cx.eq(v[i], want[i][0], lab + " (R)", tol=1e-5)
            cx.eq(w[i], want[i][1], lab + " (Z)", tol=1e-5)
    cx.eq(r, cx.np.array(R), "R is not modified")
    cx.eq(z, cx.np.array(Z), "Z is not modified")


def value(cx, n, order, shape, lo, hi):
    """R, Z and their derivatives at any angle"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    p = BASE[n]
    R, Z = [v[0] for v in p], [v[1] for v in p]
    R[1], Z[2 % n] = cx.real("R1", 2, 3), cx.real("Z2", 0, 1)
    l = L.RZline(cx.np.array(R), cx.np.array(Z), spline_order=order)
    t = cx.real("theta", lo, hi)
    for j in range(-4, 5):
        for q in range(n):
            # away from the points (where the last derivative jumps)
            d = t - (TAU * (j + q / n))
            if TAU * (j + q / n) >= lo - 0.1 and TAU * (j + q / n) <= hi + 0.1:
                cx.assume((d > cx.margin(1e-3)) | (d < -cx.margin(1e-3)))
    th = t if shape == () else cx.np.array([1.0, t])
    pick = (lambda v: v) if shape == () else (lambda v: v[1])
    turns = 0
    for j in range(-3, 4):
        if bool(t >= TAU * j):
            turns = j
    u = t - TAU * turns
    seg = 0
    for q in range(n):
        if bool(u >= TAU * q / n):
            seg = q
    for der in range(order + 1) if order > 1 else (0, 1):
        want = [0.0, 0.0]
        co = stubs.per_basis([TAU * q / n for q in range(n)] + [TAU], order)[seg]
        h = u - co[0] if cx.sym else u - float(co[0])
        for q in range(n):
            v = 0.0
            for e in range(len(co[2][q]) - 1, der - 1, -1):
                f = 1
                for m in range(der):
                    f *= e - m
                v = v * h + (co[2][q][e] * f if cx.sym else float(co[2][q][e]) * f)
            want = [want[0] + v * R[q], want[1] + v * Z[q]]
        cx.eq(pick(l.Rvalue(th, deriv=der)), want[0], "R, derivative %d" % der, tol=1e-4)
        cx.eq(pick(l.Zvalue(th, deriv=der)), want[1], "Z, derivative %d" % der, tol=1e-4)
    a, b = l.position(th)
    cx.eq(pick(a), pick(l.Rvalue(th)), "position (R)")
    cx.eq(pick(b), pick(l.Zvalue(th)), "position (Z)")


def polygon(cx, n, shape, lo, hi):
    import zoidberg.rzline as L

    stubs.rz(cx)
    p = BASE[n]
    R, Z = [v[0] for v in p], [v[1] for v in p]
    R[1], Z[2 % n] = cx.real("R1", 2, 3), cx.real("Z2", 0, 1)
    l = L.RZline(cx.np.array(R), cx.np.array(Z))
    t = cx.real("theta", lo, hi)
    a, b = l.positionPolygon(t if shape == () else cx.np.array([t, 0.5]))
    if shape:
        a, b = a[0], b[0]
    # which edge
    k = int(np.floor(lo / TAU * n)) - 1
    while bool(t >= TAU * (k + 1) / n):
        k += 1
    f = (t - TAU * k / n) * (n / TAU)
    i, j = k % n, (k + 1) % n
    cx.eq(a, R[i] + f * (R[j] - R[i]), "R on the edge", tol=1e-4)
    cx.eq(b, Z[i] + f * (Z[j] - Z[i]), "Z on the edge", tol=1e-4)


def scaled(cx, n, shift=0.0):
    s = cx.real("size", 1, 3)
    p = BASE[n]
    return s, cx.np.array([s * v[0] for v in p]), cx.np.array([s * v[1] for v in p])


def ref(n, order, m=4000, w=None):
    """numerical length (with weights) of the line through BASE[n] up to each point"""
    th = [TAU * q / n for q in range(n)] + [TAU]
    bs = stubs.per_basis(th, order)
    out = [0.0]
    for q in range(n):
        h = np.linspace(0, TAU / n, m)
        d = []
        for a in (0, 1):
            v = 0.0 * h
            for j in range(n):
                cj = [float(x) for x in bs[q][2][j]]
                v = v + BASE[n][j][a] * sum(e * cj[e] * h ** (e - 1) for e in range(1, len(cj)))
            d.append(v)
        f = np.sqrt(d[0] ** 2 + d[1] ** 2)
        if w is not None:
            f = f * np.interp((q + h * n / TAU) / n * len(w), np.arange(len(w) + 1), np.append(w, w[0]))
        out.append(out[-1] + np.sum((f[1:] + f[:-1]) * 0.5) * (h[1] - h[0]))
    return out


def distance(cx, n, order, sample, w=None):
    import zoidberg.rzline as L

    stubs.rz(cx)
    s, R, Z = scaled(cx, n)
    l = L.RZline(R, Z, spline_order=order)
    kw = {} if sample is None else dict(sample=sample)
    if w is not None:
        kw["weights"] = w
    d = l.distance(**kw)
    cx.check(np.shape(d) == (n + 1,), "one more than the points")
    cx.eq(d[0], 0.0, "starts at zero")
    if order == 1:
        e = [0.0]
        for i in range(n):
            a, b = BASE[n][i], BASE[n][(i + 1) % n]
            e.append(e[-1] + np.hypot(a[0] - b[0], a[1] - b[1]) * (1.0 if w is None else w[i * len(w) // n]))
        tol = 1e-5
    else:
        e = ref(n, order, w=w)
        tol = 2e-2 if sample is None else 20.0 / sample**2
    for i in range(1, n + 1):
        cx.check(d[i] > d[i - 1], "increasing")
        cx.eq(d[i], s * e[i], "distance to point %d" % i, tol=tol)


def polygon_distance(cx, n, free):
    """spline order one: sum of the edges, for any points"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    p = BASE[n]
    R, Z = [v[0] for v in p], [v[1] for v in p]
    for i in free:
        R[i] = R[i] + cx.real("r%d" % i, "-1/8", "1/8")
        Z[i] = Z[i] + cx.real("z%d" % i, "-1/8", "1/8")
    d = L.RZline(cx.np.array(R), cx.np.array(Z), spline_order=1).distance()
    for i in range(n):
        j = (i + 1) % n
        e = d[i + 1] - d[i]
        cx.eq(e * e, (R[j] - R[i]) ** 2 + (Z[j] - Z[i]) ** 2, "length of edge %d" % i, tol=1e-4)
        cx.check(e >= 0, "not negative")


def equally(cx, n, m, order=None, w=None):
    import zoidberg.rzline as L

    stubs.rz(cx)
    s, R, Z = scaled(cx, n)
    l = L.RZline(R, Z, spline_order=order)
    kw = {} if w is None else dict(weights=w)
    q = l.equallySpaced(**kw) if m is None else l.equallySpaced(n=m, **kw)
    N = m or n
    cx.check(len(q.R) == N and len(q.Z) == N, "number of points")
    if len(q.R) != N:
        return
    # where the points should be: equal distances, linear between the points of the line
    e = ref(n, order or 3, w=w) if (order or 3) > 1 else [float(v) for v in np.cumsum([0.0] + [np.hypot(*(np.array(BASE[n][i]) - np.array(BASE[n][(i + 1) % n]))) * (1 if w is None else w[i * len(w) // n]) for i in range(n)])]
    bs = stubs.per_basis([TAU * j / n for j in range(n)] + [TAU], order or 3)
    for k in range(N):
        d = e[-1] * k / N
        i = max(j for j in range(n) if e[j] <= d + 1e-12)
        h = (d - e[i]) / (e[i + 1] - e[i]) * TAU / n
        for a, got in ((0, q.R), (1, q.Z)):
            v = sum(BASE[n][j][a] * sum(float(c) * h**p for p, c in enumerate(bs[i][2][j])) for j in range(n))
            cx.eq(got[k], s * v, "point %d (%s)" % (k, "RZ"[a]), tol=3e-2)


def closest(cx, n, niter, sub, off, free=True):
    """a point on (or near) an edge: the angle of the foot"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    p = BASE[n]
    l = L.RZline(cx.np.array([v[0] for v in p]), cx.np.array([v[1] for v in p]))
    e = cx.choice("edge", range(n))
    f = cx.real("along", "1/10", "9/10")
    a, b = np.array(p[e]), np.array(p[(e + 1) % n])
    t = b - a
    nrm = np.array([t[1], -t[0]]) / np.hypot(*t)  # outwards
    R, Z = a[0] + f * t[0] + off * nrm[0], a[1] + f * t[1] + off * nrm[1]
    th = l.closestPoint(R, Z, niter=niter, subdivide=sub) if (niter, sub) != (3, 20) else l.closestPoint(R, Z)
    cx.check(th >= 0, "angle in the first turn")
    cx.check(th < TAU + 1e-9, "angle in the first turn")
    step = TAU / n * (2.0 / sub) ** niter
    d = th - (e + f) * (TAU / n)
    # the foot itself lies between two of the tried angles
    tol = step * 0.5 + 1e-6 if niter == 1 else step + 1e-6
    cx.check(((d < tol) & (d > -tol)) | ((d + TAU < tol) & (d + TAU > -tol)), "angle of the foot")


def shapes(cx, which, n):
    import zoidberg.rzline as L

    stubs.rz(cx)
    th = TAU * np.arange(n) / n
    if which == "circle":
        R0, r = cx.real("R0", -3, 3), cx.real("r", "1/4", 2)
        l = L.circle(R0=R0, r=r, n=n)
        want = (R0 + r * np.cos(th), r * np.sin(th))
    else:
        R0, a, el, ind = cx.real("R0", -3, 3), cx.real("a", "1/2", 2), cx.real("elong", "-1/2", 1), cx.real("indent", "-1/8", "1/8")
        tr = cx.choice("triang", [0.0, 0.25, -0.25])
        l = L.shaped_line(R0=R0, a=a, elong=el, triang=tr, indent=ind, n=n)
        want = (R0 - ind + (a + ind * np.cos(th)) * np.cos(th + tr * np.sin(th)), (1.0 + el) * a * np.sin(th))
    cx.check(len(l.R) == n, "number of points")
    for i in range(n):
        cx.eq(l.R[i], want[0][i], "R of point %d" % i, tol=1e-5)
        cx.eq(l.Z[i], want[1][i], "Z of point %d" % i, tol=1e-5)


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)

    def add(nm, fn, b, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=b, opts=opts, cost=cost))

    for n, free, order in ((4, (0, 2), None), (5, (1, 3), 3), (4, (0, 1), 1), (6, (5,), None)):
        add("points-%d-%s" % (n, order), orient, "%d points, %d of them free" % (n, len(free)), n=n, free=free, order=order)
    add("points-as-given", orient, "4 points, two free, either direction", n=4, free=(0, 2), order=None, ccw=False)
    for n, order, sh, lo, hi in ((4, 3, (), "-7", "13"), (5, 3, (2,), 0, 7), (4, 1, (), "-7", "7"), (6, 5, (), 0, 7)):
        add("value-%d-%d" % (n, order), value, "%d points, order %d, angles in [%s,%s]" % (n, order, lo, hi), n=n, order=order, shape=sh, lo=int(lo), hi=int(hi), cost=3)
    for n, sh, lo, hi in ((4, (), -7, 13), (5, (2,), 0, 7)):
        add("polygon-%d" % n, polygon, "%d points, angles in [%d,%d]" % (n, lo, hi), n=n, shape=sh, lo=lo, hi=hi)
    for n, order, sample in ((5, 3, None), (4, 3, 40), (6, 3, 30), (5, 1, None)):
        add("distance-%d-%d-%s" % (n, order, sample), distance, "%d points of any size" % n, n=n, order=order, sample=sample)
    add("distance-weights", distance, "6 points of any size, weights", n=6, order=3, sample=40, w=[1.0, 2.0, 1.0, 0.5, 1.5, 3.0])
    add("distance-weights-4", distance, "5 points of any size, 4 weights", n=5, order=3, sample=40, w=[1.0, 2.0, 0.5, 4.0])
    add("distance-weights-polygon", distance, "5 points of any size, weights", n=5, order=1, sample=None, w=[1.0, 2.0, 0.5, 1.5, 3.0])
    add("edges", polygon_distance, "4 points, two of them free", n=4, free=(0, 2), cost=3)
    for n, m, order, w in ((6, None, None, None), (6, 4, None, None), (5, 9, None, None), (5, 7, 1, None), (6, 5, None, [1.0, 2.0, 1.0, 0.5, 1.5, 3.0])):
        add("equal-%d-%s-%s-%s" % (n, m, order, "w" if w else "u"), equally, "%d points of any size" % n, n=n, m=m, order=order, w=w, cost=3)
    for n, ni, sub, off in ((4, 1, 8, 0.0), (5, 1, 10, 0.0625), (4, 2, 6, 0.0)):
        add("closest-%d-%d-%d" % (n, ni, sub), closest, "any edge, any point of it", n=n, niter=ni, sub=sub, off=off, cost=5)
    for w, n in (("circle", 5), ("circle", 8), ("shaped", 5), ("shaped", 8)):
        add("%s-%d" % (w, n), shapes, "%d points, free parameters" % n, which=w, n=n)
    if tier != "quick":
        big = dict(budget_s=2400, obl_timeout_ms=60000, max_paths=5000)
        add("closest-default", closest, "default refinement", n=5, niter=3, sub=20, off=0.0, cost=9, opts=big)
        add("closest-8", closest, "8 points", n=8, niter=2, sub=10, off=0.03125, cost=9, opts=big)
        add("points-8", orient, "8 points, three free", n=8, free=(0, 3, 5), order=None, opts=big, cost=6)
        add("value-8", value, "8 points", n=8, order=3, shape=(), lo=-13, hi=19, opts=big, cost=6)
        add("edges-6", polygon_distance, "6 points, three of them free", n=6, free=(0, 2, 3), opts=big, cost=6)
    return cs
