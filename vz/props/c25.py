"""C25: smoothing of edges of a line."""
import numpy as np

from .. import core, stubs
from .c23 import _const

TAU = 2 * np.pi


def _least_squares(cx):
    """the real one, on numbers"""
    if not cx.sym:
        return
    import scipy.optimize as O

    real = O.least_squares
    num = lambda v: core._numeric(v) if core._numeric(v) is not None else _no()

    def ls(fun, x0, *a, args=(), **k):
        args = tuple(num(v) if isinstance(v, (core.S, core.SArr)) else tuple(num(w) if isinstance(w, core.S) else w for w in v) if isinstance(v, tuple) else v for v in args)

        def plain(x, *p):
            return np.array([float(getattr(v, "t", v)) for v in fun(x, *p)])

        g = getattr(fun, "__globals__", {})
        shim = g.get("np")
        try:
            if shim is not None:
                g["np"] = np
            return real(plain, np.asarray(num(x0), dtype=float), *a, args=args, **k)
        finally:
            if shim is not None:
                g["np"] = shim

    stubs.stub(cx, O, "least_squares", ls)


def _no():
    raise core.EngineLimit("least squares with inputs")


def _cos_le(cx, r, z, i, b, cutoff, flagged, n):
    """pseudo angle of the points i, i-b and i-2b"""
    p = [(z[j % n], r[j % n]) for j in (i, i - b, i - 2 * b)]
    u = [p[0][0] - p[1][0], p[0][1] - p[1][1]]
    v = [p[0][0] - p[2][0], p[0][1] - p[2][1]]
    dot = u[0] * v[0] + u[1] * v[1]
    m = cx.np.sqrt(u[0] * u[0] + u[1] * u[1]) * cx.np.sqrt(v[0] * v[0] + v[1] * v[1])
    if flagged:
        cx.le(dot, cutoff * m, "a point found is at a sharp angle", tol=1e-6)
    else:
        cx.le(cutoff * m, dot, "points at a sharp angle are found", tol=1e-6)


def find(cx, n, b, cutoff, free, shape, box):
    import zoidberg.smooth as M

    pts = [list(p) for p in SHAPE[shape](n)]
    n = len(pts)
    for i in free:
        pts[i][0] = pts[i][0] + cx.real("r%d" % i, "-" + box, box)
        pts[i][1] = pts[i][1] + cx.real("z%d" % i, "-" + box, box)
    r, z = [cx.np.array([p[d] for p in pts]) for d in (0, 1)]
    out = [int(v) % n for v in M.find_outliers(r, z, cutoff, b)]
    cx.check(len(set(out)) == len(out), "each point once")
    for i in range(n):
        _cos_le(cx, r, z, i, b, cutoff, (i - b) % n in out, n)


def neighbours(cx, n, bounds, sets):
    import zoidberg.smooth as M

    out = list(cx.choice("outliers", sets))
    keep = list(out)
    runs = M.generate_points_tosmooth(bounds, out, n)
    cx.check(out == keep, "list of points is not modified")
    want = sorted({x for o in out for x in range(o - bounds, o + bounds + 1) if x < n})
    got = [x for r in runs for x in r]
    cx.check(got == want, "all points next to the given ones, in order")
    for r in runs:
        cx.check(len(r) > 0 and all(b == a + 1 for a, b in zip(r, r[1:])), "points of a range follow each other")
    for a, b in zip(runs, runs[1:]):
        cx.check(b[0] > a[-1] + 1, "ranges are separated")


def _curve(cx, d, old, new, s, m, n, free):
    """points of one range: from the first to the last on a cubic with the direction of the neighbouring edges"""
    o = lambda i: [old[q][i % n] for q in (0, 1)]
    v = [[new[q][(s + j) % n] for j in range(m)] for q in (0, 1)]
    for q in (0, 1):
        cx.eq(v[q][0], o(s)[q], "starts at the first point", tol=1e-6)
        cx.eq(v[q][-1], o(s + m - 1)[q], "ends at the last point", tol=1e-3)
        for j in range(m - 4):
            cx.eq(v[q][j] - 4 * v[q][j + 1] + 6 * v[q][j + 2] - 4 * v[q][j + 3] + v[q][j + 4], 0.0, "smooth curve")
    if m < 4:
        return
    w = (-11.0, 18.0, -9.0, 2.0)
    for e, sg in ((0, 1), (m - 1, -1)):
        t = [sum(c * v[q][e + sg * j] for j, c in enumerate(w)) / 6.0 * (m - 1) for q in (0, 1)]
        i = s + e
        dd = [o(i)[q] - o(i - sg)[q] for q in (0, 1)]
        cx.eq(t[0] * dd[1] - t[1] * dd[0], 0.0, "direction at the %s point" % ("first" if sg == 1 else "last"), tol=1e-3)
        if not free:
            cx.le(0.0, t[0] * dd[0] + t[1] * dd[1], "does not turn back at the %s point" % ("first" if sg == 1 else "last"))


def replaced(cx, n, runs, shape):
    """whatever the other points are, only those of the ranges are replaced"""
    import zoidberg.smooth as M

    _least_squares(cx)
    pts = [list(p) for p in SHAPE[shape](n)]
    n = len(pts)
    off = [cx.real("R0", -8, 8), cx.real("Z0", -8, 8)]
    fixed = {x % n for r in runs for x in (r[0] - 1, r[0], r[-1], r[-1] + 1)}
    for i in range(n):
        for q in (0, 1):
            pts[i][q] = off[q] + pts[i][q] + (cx.real("%s%d" % ("rz"[q], i), -1, 1) if i not in fixed else 0.0)
    r, z = [cx.np.array([p[d] for p in pts]) for d in (0, 1)]
    kr, kz = r.copy(), z.copy()
    a, b, fail, deb = M.gen_newr(r, z, [list(v) for v in runs], 1, False)
    cx.check(len(a) == n and len(b) == n, "number of points")
    inside = {x % n for v in runs for x in v}
    for i in range(n):
        cx.eq(r[i], kr[i], "input is not modified")
        cx.eq(z[i], kz[i], "input is not modified")
        if i not in inside:
            cx.eq(a[i], kr[i], "other points are kept")
            cx.eq(b[i], kz[i], "other points are kept")
    cx.check(not fail, "symmetric corner can be smoothed")
    for v in runs:
        _curve(cx, off, (kr, kz), (a, b), v[0], len(v), n, False)


def whole(cx, n, bounds, cutoff, shape, corners, kw):
    """smooth, anywhere in the plane"""
    import zoidberg.smooth as M

    _least_squares(cx)
    off = [cx.real("R0", -8, 8), cx.real("Z0", -8, 8)]
    pts = SHAPE[shape](n)
    n = len(pts)
    r, z = [cx.np.array([off[d] + float(p[d]) for p in pts]) for d in (0, 1)]
    kr, kz = r.copy(), z.copy()
    res = M.smooth(r, z, cutoff=cutoff, bounds=bounds, **kw)
    for i in range(n):
        cx.eq(r[i], kr[i], "input is not modified")
        cx.eq(z[i], kz[i], "input is not modified")
    if corners is None:
        cx.check(res is None, "no result if it cannot be smoothed")
        return
    cx.check(res is not None and len(res) == 2, "result")
    a, b = res
    cx.check(len(a) == n and len(b) == n, "number of points")
    runs = [(c - w, 2 * w + 1) for c, w in corners]
    inside = {(s + j) % n for s, m in runs for j in range(m)}
    for i in range(n):
        if i not in inside:
            cx.eq(a[i], kr[i], "points away from edges are kept")
            cx.eq(b[i], kz[i], "points away from edges are kept")
    for s, m in runs:
        _curve(cx, off, (kr, kz), (a, b), s, m, n, False)
        c = (s + m // 2) % n
        cx.check(abs(_const(a[c] - kr[c])) + abs(_const(b[c] - kz[c])) > 1e-3, "the edge is moved")


def unchanged(cx, n, bounds, cutoff, shape, box, free):
    """line without edges"""
    import zoidberg.smooth as M

    pts = [list(p) for p in SHAPE[shape](n)]
    n = len(pts)
    n = len(pts)
    for i in free:
        for q in (0, 1):
            pts[i][q] = pts[i][q] + cx.real("%s%d" % ("rz"[q], i), "-" + box, box)
    r, z = [cx.np.array([p[d] for p in pts]) for d in (0, 1)]
    a, b = M.smooth(r, z, cutoff=cutoff, bounds=bounds)
    cx.check(len(a) == n and len(b) == n, "number of points")
    for i in range(n):
        cx.eq(a[i], pts[i][0], "line without edges is kept")
        cx.eq(b[i], pts[i][1], "line without edges is kept")


def failing(cx, n, bounds, at):
    """the fit does not converge: the points are kept and the range is extended until giving up"""
    import zoidberg.smooth as M
    import scipy.optimize as O

    ok = cx.choice("attempt that converges", at)
    real = O.least_squares
    calls = []
    if cx.sym:
        _least_squares(cx)
    inner = [m for m in stubs.mods() if m.__name__ == "zoidberg.smooth"][0].least_squares if hasattr(M, "least_squares") else real

    def ls(*a, **k):
        x = inner(*a, **k)
        calls.append(1)
        if ok is None or len(calls) <= ok * 4:
            x.optimality = 1.0
        return x

    stubs.stub(cx, M if hasattr(M, "least_squares") else O, "least_squares", ls)
    off = [cx.real("R0", -8, 8), cx.real("Z0", -8, 8)]
    pts = SHAPE["square"](n)
    N = len(pts)
    r, z = [cx.np.array([off[d] + float(p[d]) for p in pts]) for d in (0, 1)]
    try:
        res = M.smooth(r, z, cutoff=0.75, bounds=bounds)
    except ValueError:
        res = None
    if ok is None:
        cx.check(res is None, "no result if it cannot be smoothed")
        return
    cx.check(res is not None, "smoothed with a larger range")
    if res is None:
        return
    w = bounds + ok
    for k in range(4):
        _curve(cx, off, (r, z), res, k * n - w, 2 * w + 1, N, False)
    for i in range(N):
        if min((i - k * n) % N for k in range(4)) > w and min((k * n - i) % N for k in range(4)) > w:
            cx.eq(res[0][i], r[i], "points away from edges are kept")
            cx.eq(res[1][i], z[i], "points away from edges are kept")


def square(n):
    t = np.arange(4 * n) / n
    return list(zip(np.interp(t, [0, 1, 2, 3, 4], [0, 1, 1, 0, 0]), np.interp(t, [0, 1, 2, 3, 4], [0, 0, 1, 1, 0])))


def triangle(n):
    t = np.arange(3 * n) / n
    return list(zip(np.interp(t, [0, 1, 2, 3], [0, 1, 0.5, 0]), np.interp(t, [0, 1, 2, 3], [0, 0, 1, 0])))


def ring(n):
    t = TAU * np.arange(n) / n
    return list(zip(2 + np.cos(t), np.sin(t)))


def first(f, by):
    """start at another point"""
    return lambda n: f(n)[by:] + f(n)[:by]


SHAPE = dict(square=square, triangle=triangle, ring=ring, square3=first(square, 3), square5=first(square, 5), squarem=first(square, 23), squarem2=first(square, 22))


def configs(tier):
    cs = []
    o = dict(budget_s=200, normal_first=True, obl_timeout_ms=20000)
    s = dict(budget_s=200, affine=True, path_s=180)

    def add(nm, fn, bb, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=fn, params=k, bounds=bb, opts=opts, cost=cost))

    add("find-corner", find, "8 points of a square, 1 free", n=2, b=1, cutoff=0.75, free=(2,), shape="square", box="1/4")
    add("find-corner-2", find, "12 points of a square, 1 free", n=3, b=2, cutoff=0.75, free=(4,), shape="square", box="1/4", cost=3)
    add("find-ring", find, "6 points of a ring, 1 free", n=6, b=1, cutoff=0.5, free=(0,), shape="ring", box="1/2", cost=3)
    sets = [(), (5,), (0,), (-1, 2), (11, 3), (3, 4, 9), (9, 3, 4), (-2, 5, 6), (8, 8, 2), (10,)]
    for b in (1, 2, 3):
        add("neighbours-%d" % b, neighbours, "12 points, %d sets of outliers" % len(sets), n=12, bounds=b, sets=sets)
    add("replace-middle", replaced, "24 points, one range, all others free", n=6, runs=((4, 5, 6, 7, 8),), shape="square", opts=s)
    add("replace-wrap", replaced, "24 points, range across the first point, all others free", n=6, runs=((-2, -1, 0, 1, 2), (10, 11, 12, 13, 14)), shape="square", opts=s)
    add("replace-end", replaced, "24 points, range up to the last point", n=6, runs=((19, 20, 21, 22, 23),), shape="square3", opts=s)
    add("replace-start", replaced, "24 points, range from the first point", n=6, runs=((0, 1, 2, 3, 4),), shape="squarem2", opts=s)
    add("replace-negative", replaced, "24 points, range up to before the first point", n=6, runs=((-5, -4, -3, -2, -1),), shape="square3", opts=s)
    for n, b in ((8, 2), (10, 3), (6, 1)):
        add("smooth-square-%d" % n, whole, "square of %d points anywhere" % (4 * n), n=n, bounds=b, cutoff=0.75, shape="square", corners=[(k * n, b) for k in range(4)], kw={}, opts=s, cost=3)
    add("smooth-square-find", whole, "square of 40 points anywhere, other distance to find edges", n=10, bounds=3, cutoff=0.75, shape="square", corners=[(k * 10, 3) for k in range(4)], kw=dict(bounds_find=1), opts=s, cost=3)
    add("smooth-ring", unchanged, "12 points close to a ring, one free", n=12, bounds=1, cutoff=0.5, shape="ring", box="1/16", free=(4,), cost=3)
    add("smooth-fails", failing, "square of 56 points anywhere, fit converges at the first, second or third attempt or never", n=14, bounds=1, at=[0, 1, 2, None], opts=s, cost=3)
    return cs
