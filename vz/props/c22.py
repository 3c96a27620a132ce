"""C22: finding the closed line through unordered points."""
import itertools

import numpy as np

from .. import core, stubs
from .c21 import BASE, area

# orders in which the points are given
PERM = {4: [(0, 1, 2, 3), (3, 2, 1, 0), (0, 2, 1, 3), (2, 0, 3, 1)],
        5: [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 4, 2, 0, 3)],
        6: [(0, 1, 2, 3, 4, 5), (3, 0, 5, 1, 4, 2), (5, 4, 3, 2, 1, 0)],
        8: [(0, 4, 1, 5, 2, 6, 3, 7), (7, 6, 5, 4, 3, 2, 1, 0), (3, 1, 4, 7, 5, 0, 2, 6)]}


def pseudo(y, x):
    """increases with the angle of (x, y) over one turn, like arctan2"""
    y, x = core.lift(y), core.lift(x)
    if bool(y >= 0):
        return y / (x + y) if bool(x > 0) else 1.0 - x / (y - x)
    return y / (x - y) if bool(x > 0) else -1.0 + x / (-x - y)


def _cyclic(cx, l, pts, label):
    """the line visits pts in this cyclic order"""
    n = len(pts)
    cx.check(len(l.R) == n and len(l.Z) == n, label + ": number of points")
    if len(l.R) != n:
        return
    # where does the first point appear
    k = None
    for i in range(n):
        d = (l.R[i] - pts[0][0]) ** 2 + (l.Z[i] - pts[0][1]) ** 2
        if bool(d < 1e-9):
            k = i
            break
    cx.check(k is not None, label + ": goes through the first point")
    if k is None:
        return
    for i in range(n):
        cx.eq(l.R[(k + i) % n], pts[i][0], label + ": R of point %d" % i, tol=1e-4)
        cx.eq(l.Z[(k + i) % n], pts[i][1], label + ": Z of point %d" % i, tol=1e-4)


def ordered(cx, fn, n, free, kw, scaled=False, box="1/16"):
    import zoidberg.rzline as L

    stubs.rz(cx)
    pts = [list(p) for p in BASE[n]]
    if scaled:
        s = cx.real("size", 1, 3)
        pts = [[s * a, s * b] for a, b in pts]
    for i in free:
        pts[i][0] = pts[i][0] + cx.real("r%d" % i, "-" + box, box)
        pts[i][1] = pts[i][1] + cx.real("z%d" % i, "-" + box, box)
    p = cx.choice("order", PERM[n])
    r, z = cx.np.array([pts[i][0] for i in p]), cx.np.array([pts[i][1] for i in p])
    kr, kz = cx.np.array(r), cx.np.array(z)
    if fn in ("line_from_points_fast", "line_from_points_two_opt") and cx.sym:
        cx.patch(core.UF, "arctan2", core._L2(pseudo) if hasattr(core, "_L2") else pseudo)
    kw = dict(kw)
    if kw.get("spline_order") is None:
        kw.pop("spline_order", None)
    l = getattr(L, fn)(r, z, **kw)
    _cyclic(cx, l, pts, "order around the line")
    cx.eq(r, kr, "R is not modified")
    cx.eq(z, kz, "Z is not modified")


def crossing(cx, n, kw):
    """points of a line that the fast method gets wrong: through each point once, not longer than that"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    s = cx.real("size", 1, 3)
    base = {6: [(0.0, 0.0), (4.0, 0.0), (4.0, 1.0), (1.0, 1.0), (1.0, 3.0), (0.0, 3.0)], 5: [(0.0, 0.0), (4.0, 0.25), (0.75, 0.5), (0.5, 3.0), (0.0, 2.0)]}[n]
    p = cx.choice("order", PERM[n])
    pts = [(s * base[i][0], s * base[i][1]) for i in p]
    r, z = cx.np.array([v[0] for v in pts]), cx.np.array([v[1] for v in pts])
    if cx.sym:
        cx.patch(core.UF, "arctan2", core._L2(pseudo) if hasattr(core, "_L2") else pseudo)
    q = L.line_from_points_fast(r, z)
    l = L.line_from_points_two_opt(r, z, **kw)

    def once(l, lab):
        cx.check(len(l.R) == n, lab + ": number of points")
        order = []
        for i in range(n):
            hit = [j for j in range(n) if bool((l.R[i] - pts[j][0]) ** 2 + (l.Z[i] - pts[j][1]) ** 2 < 1e-9)]
            cx.check(len(hit) == 1, lab + ": one of the points")
            order += hit
        cx.check(sorted(order) == list(range(n)), lab + ": every point once")
        return [base[p[j]] for j in order]

    a, b = once(q, "fast"), once(l, "two-opt")
    d = lambda o: sum(np.hypot(o[i][0] - o[i - 1][0], o[i][1] - o[i - 1][1]) for i in range(n))
    cx.check(d(b) <= d(a) + 1e-9, "not longer than the line of the fast method")
    # no exchange of two edges makes it shorter
    for i, k in itertools.combinations(range(n), 2):
        o = b[:i] + b[i:k + 1][::-1] + b[k + 1:]
        cx.check(d(o) >= d(b) * (1 - 2e-3), "no crossing edges left")


def given(cx, n, free, kw):
    import zoidberg.rzline as L

    stubs.rz(cx)
    pts = [list(p) for p in BASE[n]]
    for i in free:
        pts[i] = [cx.real("r%d" % i, 0, 4), cx.real("z%d" % i, -2, 2)]
    A = area([p[0] for p in pts], [p[1] for p in pts])
    cx.assume((A > cx.margin(0.01)) | (A < -cx.margin(0.01)))
    l = L.line_from_points(cx.np.array([p[0] for p in pts]), cx.np.array([p[1] for p in pts]), is_sorted=True, **kw)
    want = pts if bool(A > 0) else pts[::-1]
    for i in range(n):
        cx.eq(l.R[i], want[i][0], "R of point %d" % i)
        cx.eq(l.Z[i], want[i][1], "Z of point %d" % i)
    if kw.get("spline_order"):
        cx.check(l.spline_order == kw["spline_order"], "requested spline order")


def insert(cx, n, off, tri=(0, 1), span=("-1/64", "1/64"), mid=(0.3125, 0.625), orders=((0, 1, 2), (2, 1, 0))):
    """one by one: the next point goes into the edge it is nearest to"""
    import zoidberg.rzline as L

    stubs.rz(cx)
    corners = {0: [(3.0, 0.0), (1.5, 2.0), (1.0, -1.0)], 1: [(2.0, 0.0), (3.0, 3.0), (0.5, 1.0)]}[cx.choice("triangle", tri)]
    e = cx.choice("edge", range(3))
    f = cx.choice("middle", mid) + cx.real("along", *span)
    a, b = np.array(corners[e]), np.array(corners[(e + 1) % 3])
    t = b - a
    nrm = np.array([t[1], -t[0]]) / np.hypot(*t)
    new = [a[0] + f * t[0] + off * nrm[0], a[1] + f * t[1] + off * nrm[1]]
    o = cx.choice("order", orders)
    r = cx.np.array([corners[i][0] for i in o] + [new[0]])
    z = cx.np.array([corners[i][1] for i in o] + [new[1]])
    l = L.line_from_points_poly(r, z, spline_order=1 if n == 1 else None)
    pts = [corners[(e + 1 + i) % 3] for i in range(3)] + [new]
    _cyclic(cx, l, pts, "inserted into the nearest edge")


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)

    def add(nm, harness, b, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=harness, params=k, bounds=b, opts=opts, cost=cost))

    F, D, T, Q = "line_from_points_fast", "line_from_points", "line_from_points_two_opt", "line_from_points_poly"
    add("fast-5", ordered, "5 points, two anywhere in boxes, 4 orders", fn=F, n=5, free=(0, 3), kw={}, cost=4)
    add("fast-8", ordered, "8 points, one anywhere in a box, 3 orders", fn=F, n=8, free=(2,), kw={}, cost=4)
    add("nearest-4", ordered, "4 points, one anywhere in a box, 4 orders, polygons", fn=D, n=4, free=(1,), kw=dict(spline_order=1), cost=4)
    add("nearest-5", ordered, "5 points, two anywhere in boxes, 4 orders, polygons", fn=D, n=5, free=(0, 3), kw=dict(spline_order=1), cost=5)
    add("nearest-6-cubic", ordered, "6 points of any size, 3 orders", fn=D, n=6, free=(), kw={}, scaled=True, cost=5)
    add("nearest-8-polygon", ordered, "8 points of any size, 3 orders", fn=D, n=8, free=(), kw=dict(spline_order=1), scaled=True, cost=5)
    add("two-opt-6", ordered, "6 points of any size, 3 orders", fn=T, n=6, free=(), kw={}, scaled=True, cost=4)
    add("two-opt-crossing-6", crossing, "6 points of any size, 3 orders", n=6, kw={}, cost=4)
    add("two-opt-crossing-5", crossing, "5 points of any size, 4 orders", n=5, kw=dict(opt=1e-6), cost=4)
    add("sorted-5", given, "5 points, two free", n=5, free=(1, 3), kw={})
    add("sorted-4-order", given, "4 points, two free", n=4, free=(0, 1), kw=dict(spline_order=1))
    for t in (0, 1):
        add("insert-%d" % t, insert, "triangle in either direction, point anywhere in two parts (each 1/32) of any edge", n=0, off=0.25, tri=(t,), cost=6)
        add("insert-%d-polygon" % t, insert, "triangle in either direction, point anywhere in two parts (each 1/32) of any edge", n=1, off=0.125, tri=(t,), cost=6)
    if tier != "quick":
        big = dict(budget_s=2400, obl_timeout_ms=60000, max_paths=5000)
        add("fast-6-free", ordered, "6 points, four anywhere in boxes", fn=F, n=6, free=(0, 2, 3, 5), kw={}, cost=9, opts=big)
        for t in (0, 1):
            for q in (0, 1):
                add("insert-%d-%d-any" % (t, q), insert, "triangle in any order, point along the middle half of any edge", n=q, off=0.125, tri=(t,), span=("-1/4", "1/4"), mid=(0.5,),
                    orders=((0, 1, 2), (2, 1, 0), (1, 0, 2), (1, 2, 0)), cost=9, opts=big)
        add("nearest-6-free", ordered, "6 points, three anywhere in boxes", fn=D, n=6, free=(0, 2, 4), kw=dict(spline_order=1), cost=9, opts=big)
    return cs
