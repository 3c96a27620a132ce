"""C06: a boundary object reports exactly the points outside its region."""
import numpy as np


def _b():
    import zoidberg.boundary as b

    return b


def box(cx, shape):
    xmin, xmax = cx.real("xmin"), cx.real("xmax")
    zmin, zmax = cx.real("zmin"), cx.real("zmax")
    cx.assume(xmin <= xmax)
    cx.assume(zmin <= zmax)
    x, z = cx.reals("x", shape, -12, 12), cx.reals("z", shape, -12, 12)
    y = cx.real("y")
    r = _b().RectangularBoundaryXZ(xmin, xmax, zmin, zmax).outside(x, y, z)
    cx.check(np.shape(r) == tuple(shape), "result has the shape of the points")
    n = _b().NoBoundary().outside(x, y, z)
    cx.check(np.shape(n) == tuple(shape), "no-boundary result has the shape of the points")
    for i in np.ndindex(*shape):
        want = (x[i] < xmin) | (x[i] > xmax) | (z[i] < zmin) | (z[i] > zmax)
        cx.eq(r[i], want, "box outside%s" % (i,))
        cx.check(not bool(n[i]), "no boundary: never outside")
    # a point of the closed box is never outside
    fx, fz = cx.real("fx", 0, 1), cx.real("fz", 0, 1)
    px = cx.np.array([xmin, xmax])
    pz = cx.np.array([zmin, zmax])
    r = _b().RectangularBoundaryXZ(xmin, xmax, zmin, zmax).outside(px, y, pz)
    cx.check(~(r[0] | r[1]), "corners belong to the box")


def seg_far(cx, x, z, a, b, m):
    """the point keeps distance >= m from the segment (sufficient conditions: off the line, or beyond an end)"""
    ex, ez = b[0] - a[0], b[1] - a[1]
    cr = ex * (z - a[1]) - ez * (x - a[0])
    t = ex * (x - a[0]) + ez * (z - a[1])
    L2 = ex * ex + ez * ez
    return (cr >= m) | (cr <= -m) | (t <= -m) | (t >= L2 + m)


def crossings_right(x, z, P):
    """independent oracle: parity of half-open crossings with the ray in +x (edges as reals)"""
    ins = False
    n = len(P)
    for i in range(n):
        (x0, z0), (x1, z1) = P[i], P[(i + 1) % n]
        if z0 == z1:
            continue
        span = (z0 <= z) & (z < z1) if z0 < z1 else (z1 <= z) & (z < z0)
        # x of the edge at height z, strictly right of the point
        xe = x0 + (z - z0) * ((x1 - x0) / (z1 - z0))
        c = span & (xe > x)
        ins = c ^ ins
    return ins


POLYS = {
    "triangle": [(0, 0), (4, 1), (1, 3)],
    "diamond": [(0, -2), (2, 0), (0, 2), (-2, 0)],
    "square": [(-1, -1), (3, -1), (3, 2), (-1, 2)],
    "lshape": [(0, 0), (4, 0), (4, 2), (2, 2), (2, 5), (0, 5)],
    "ushape": [(0, 0), (6, 0), (6, 4), (4, 4), (4, 1), (2, 1), (2, 4), (0, 4)],
    "star": [(0, 3), (1, 1), (3, 0), (1, -1), (0, -3), (-1, -1), (-3, 0), (-1, 1)],
    "pentagon": [(5, 0), (7, 2), (6, 5), (3, 4), (3, 1)],
    "zigzag": [(0, 0), (2, 1), (4, 0), (6, 1), (6, 4), (4, 3), (2, 4), (0, 3)],
}


def poly(cx, name, shape):
    from fractions import Fraction

    P = POLYS[name]
    if cx.bool("reverse"):
        P = P[::-1]
    k = cx.choice("start", range(len(P)))
    P = P[k:] + P[:k]
    P = [(Fraction(a), Fraction(b)) if cx.sym else (float(a), float(b)) for a, b in P]
    xs = np.array([float(p[0]) for p in P])
    zs = np.array([float(p[1]) for p in P])
    x = cx.reals("x", shape, -10, 10)
    z = cx.reals("z", shape, -10, 10)
    m = cx.margin(0.001)
    for i in np.ndindex(*shape):
        for j in range(len(P)):
            cx.assume(seg_far(cx, x[i], z[i], P[j], P[(j + 1) % len(P)], m))
    r = _b().PolygonBoundaryXZ(xs, zs).outside(x, cx.real("y"), z)
    cx.check(np.shape(r) == tuple(shape), "result has the shape of the points")
    for i in np.ndindex(*shape):
        ins = crossings_right(x[i], z[i], P)
        cx.eq(r[i], b_not(ins), "polygon %s outside%s" % (name, i))


def b_not(a):
    return (not a) if isinstance(a, (bool, np.bool_)) else ~a


def symtri(cx, fixed):
    """triangle, one free vertex (or all), oracle = barycentric signs"""
    P = []
    for i in range(3):
        if i < len(fixed):
            P.append(fixed[i])
        else:
            P.append((cx.real("x%d" % i, -4, 4), cx.real("z%d" % i, -4, 4)))
    m = cx.margin(0.01)
    for i in range(3):
        a, b = P[i][0], P[(i + 1) % 3][0]
        # the edge is either exactly vertical or clearly not
        cx.assume((a - b >= m) | (b - a >= m) | (a == b))
    x, z = cx.reals("x", (1,), -8, 8), cx.reals("z", (1,), -8, 8)
    # the point may be aligned with a vertex, but is not on the boundary
    d = []
    for i in range(3):
        (x0, z0), (x1, z1) = P[i], P[(i + 1) % 3]
        d.append((x1 - x0) * (z[0] - z0) - (z1 - z0) * (x[0] - x0))
    area = (P[1][0] - P[0][0]) * (P[2][1] - P[0][1]) - (P[1][1] - P[0][1]) * (P[2][0] - P[0][0])
    cx.assume((area >= m) | (area <= -m))
    for k in d:
        cx.assume((k >= m) | (k <= -m))
    ins = ((d[0] > 0) & (d[1] > 0) & (d[2] > 0)) | ((d[0] < 0) & (d[1] < 0) & (d[2] < 0))
    r = _b().PolygonBoundaryXZ(cx.np.array([p[0] for p in P]), cx.np.array([p[1] for p in P])).outside(x, 0.0, z)
    cx.eq(r[0], b_not(ins), "triangle with a symbolic vertex")


def configs(tier):
    cs = [dict(name="box", fn=box, params=dict(shape=(2, 1) if tier == "quick" else (2, 2)),
               bounds="box limits in [-10,10], points in [-12,12]")]
    names = list(POLYS)
    for n in names:
        cs.append(dict(name="polygon-" + n, fn=poly, params=dict(name=n, shape=(1,)),
                       bounds="fixed %d-gon, every start vertex, both orientations; points in [-10,10]^2 at least 1e-3 from the boundary" % len(POLYS[n])))
    cs.append(dict(name="polygon-array", fn=poly, params=dict(name="diamond", shape=(2, 1)), bounds="array of 2 points"))
    for k, f in enumerate([[(-1, 2), (-1, -2)], [(2, 0), (-2, 0)]]):
        cs.append(dict(name="free-vertex-triangle-%d" % k, fn=symtri, params=dict(fixed=f), cost=5,
                       bounds="third vertex in [-4,4]^2, point in [-8,8]^2", opts=dict(budget_s=120)))
    if tier != "quick":
        cs.append(dict(name="free-vertex-triangle-skew", fn=symtri, params=dict(fixed=[(0, 0), (3, 1)]), cost=9,
                       bounds="third vertex in [-4,4]^2, point in [-8,8]^2",
                       opts=dict(budget_s=1800, obl_timeout_ms=300000)))
    return cs
