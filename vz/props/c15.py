"""C15: numbering of cells and legs."""
import numpy as np

from .wcommon import hits, mkmaps


def cells(nx, ny, nz, mxg):
    return [(x, y, z) for x in range(mxg, nx - mxg) for y in range(ny) for z in range(nz)]


def numbering(cx, nx, ny, nz, mxg, ns, which, single=False):
    import zoidberg.weights as W

    cl = cells(nx, ny, nz, mxg)
    xf, xb, zf, zb = {}, {}, {}, {}
    n = 0
    for c in cl:
        for d, store in (("f", xf), ("b", xb)):
            if which == "all" or (c, d) in which:
                store[c] = [cx.real("x%s%d_%d" % (d, n, s), -1, nx) for s in range(ns)]
            else:
                store[c] = [c[0]] * ns
        zf[c] = [0.0] * ns
        zb[c] = [0.0] * ns
        n += 1
    if ns == 1:
        ws = None if single else [1.0]
    else:
        w = [cx.real("w%d" % s, "1/20", 1) for s in range(ns - 1)]
        last = 1 - sum(w)
        cx.assume(last >= cx.margin(0.05))
        ws = w + [last]
    maps = mkmaps(cx, nx, ny, nz, mxg, xf, zf, xb, zb, ws, single=single)
    op = W.calculate_parallel_map_operators(maps)
    tot = int(op["total_cells"])
    # --- cell numbers
    cn = np.asarray(op["cell_number"])
    cx.check(cn.shape == (nx, ny, nz), "cell_number shape")
    used = {}
    for x in range(nx):
        for y in range(ny):
            for z in range(nz):
                k = int(cn[x, y, z])
                cx.check(0 <= k < nx * ny * nz and k not in used, "cell number %d is unique and in range" % k)
                used[k] = (x, y, z)
                cx.check((k < len(cl)) == (mxg <= x < nx - mxg), "evolving cells come first (%d,%d,%d)" % (x, y, z))
    for d, store in (("forward", xf), ("backward", xb)):
        bn = np.asarray(op[d + "_cell_number"])
        li, lb = np.asarray(op[d + "_leg_interior_number"]), np.asarray(op[d + "_leg_boundary_number"])
        lw = op[d + "_leg_weights"]
        nl = int(op["n_%s_legs" % d])
        legs = {}
        cx.check(len(lw) == nl, "one weight per %s leg" % d)
        for x in range(nx):
            for y in range(ny):
                for z in range(nz):
                    c = (x, y, z)
                    k = int(bn[c])
                    a, b = int(li[c]), int(lb[c])
                    if c not in store:
                        cx.check(k == -1 and a == -1 and b == -1, "%s: no legs from radial boundary cells" % d)
                        continue
                    h = [hits(v, nx, mxg) for v in store[c]]
                    anyh, allh = h[0], h[0]
                    for q in h[1:]:
                        anyh, allh = anyh | q, allh & q
                    cx.eq(k >= 0, anyh, "%s boundary cell exists iff a sample leaves the domain %s" % (d, c))
                    cx.eq(b >= 0, anyh, "%s boundary leg exists iff a sample leaves the domain %s" % (d, c))
                    cx.eq(a >= 0, neg(allh), "%s interior leg exists iff a sample stays inside %s" % (d, c))
                    if k >= 0:
                        cx.check(nx * ny * nz <= k < tot and k not in used, "%s boundary number %d unique, after the cells" % (d, k))
                        used[k] = (d, c)
                    wsum = 0.0
                    for v in (a, b):
                        if v >= 0:
                            cx.check(v < nl and v not in legs, "%s leg number %d unique and in range" % (d, v))
                            legs[v] = c
                            if v < nl:
                                wsum = wsum + lw[v]
                    cx.eq(wsum, 1.0, "%s leg weights of cell %s add up to 1" % (d, c))
                    if a >= 0 and a < nl:
                        exp = 0.0
                        for q, wt in zip(h, ws or [1.0]):
                            exp = exp + cx.np.where(q, 0.0, wt)
                        cx.eq(lw[a], exp, "%s interior leg weight = weight of the samples that stay %s" % (d, c))
        cx.check(sorted(legs) == list(range(nl)), "%s leg numbers are contiguous" % d)
    cx.check(sorted(used) == list(range(tot)), "cell numbers are contiguous")


def neg(a):
    return (not a) if isinstance(a, (bool, np.bool_)) else ~a


def classify(cx, ns):
    """classification of one cell, any nx/mxg"""
    import zoidberg.weights as W

    nx = int(cx.int("nx", 3, 9))
    mxg = int(cx.int("mxg", 1, 2))
    cx.assume(nx > 2 * mxg)
    xs = [cx.real("x%d" % s, -2, 12) for s in range(ns)]
    w = [cx.real("w%d" % s, 0, 1) for s in range(ns)]
    r = W.classify_leg_contributions(cx.np.array(xs), cx.np.array(w), nx, mxg)
    bf, inf = 0.0, 0.0
    for i, x in enumerate(xs):
        h = hits(x, nx, mxg)
        cx.eq(r["hits_boundary"][i], h, "sample %d hits" % i)
        bf = bf + cx.np.where(h, w[i], 0.0)
        inf = inf + cx.np.where(h, 0.0, w[i])
    cx.eq(r["boundary_fraction"], bf, "boundary fraction")
    cx.eq(r["interior_fraction"], inf, "interior fraction")


def configs(tier):
    B = "mapped x of every listed cell anywhere in [-1,nx]"
    cs = [
        dict(name="nx5-mxg2-ny2-nz1", fn=numbering, params=dict(nx=5, ny=2, nz=1, mxg=2, ns=1, which="all"), bounds=B),
        dict(name="nx4-mxg1-ny1-nz1", fn=numbering, params=dict(nx=4, ny=1, nz=1, mxg=1, ns=1, which="all"), bounds=B),
        dict(name="nx5-mxg2-nz2", fn=numbering, params=dict(nx=5, ny=1, nz=2, mxg=2, ns=1, which="all"), bounds=B),
        dict(name="two-samples", fn=numbering, params=dict(nx=3, ny=1, nz=1, mxg=1, ns=2, which="all"), bounds=B + ", symbolic quadrature weights"),
        dict(name="four-samples-forward", fn=numbering, params=dict(nx=5, ny=1, nz=1, mxg=2, ns=4, which=[((2, 0, 0), "f")]), bounds="4 samples of one cell, symbolic weights", cost=3),
        dict(name="four-samples-backward", fn=numbering, params=dict(nx=5, ny=1, nz=1, mxg=2, ns=4, which=[((2, 0, 0), "b")]), bounds="4 samples of one cell, symbolic weights", cost=3),
        dict(name="nx6-3d", fn=numbering, params=dict(nx=6, ny=2, nz=2, mxg=2, ns=1, which=[((2, 1, 1), "f"), ((3, 0, 1), "b"), ((2, 1, 1), "b")]), bounds="6x2x2, 3 symbolic maps"),
        dict(name="unsampled-maps", fn=numbering, params=dict(nx=4, ny=1, nz=1, mxg=1, ns=1, which="all", single=True), bounds=B + ", maps without sub-samples"),
        dict(name="classify-3", fn=classify, params=dict(ns=3), bounds="nx 3..9, mxg 1..2, 3 samples", cost=2, opts=dict(budget_s=200, max_paths=5000)),
    ]
    if tier != "quick":
        cs += [
            dict(name="nx3-ny3-nz2", fn=numbering, params=dict(nx=3, ny=3, nz=1, mxg=1, ns=1, which="all"), bounds=B, cost=9, opts=dict(budget_s=1500, max_paths=20000)),
            dict(name="nx5-ny2-nz2", fn=numbering, params=dict(nx=5, ny=2, nz=2, mxg=2, ns=1, which=[((2, y, z), d) for y in (0, 1) for z in (0, 1) for d in "fb"][:7]), bounds=B, cost=9, opts=dict(budget_s=2400, max_paths=20000)),
            dict(name="three-samples-two-cells", fn=numbering, params=dict(nx=4, ny=1, nz=1, mxg=1, ns=3, which=[((1, 0, 0), "f"), ((2, 0, 0), "b")]), bounds="3 samples, 2 cells", cost=9, opts=dict(budget_s=1500, max_paths=20000)),
        ]
    return cs
