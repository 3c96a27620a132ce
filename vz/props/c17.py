"""C17: modify_maps keeps boundary marks and operators consistent."""
import numpy as np

from .wcommon import hits

SUB = ["forward_xt_primes", "forward_zt_primes", "backward_xt_primes", "backward_zt_primes", "subcell_weights"]


def run(cx, nx, mxg, ns, partial, d, default_arg=False):
    import zoidberg.weights as W

    N = cx.np
    src = (mxg, 0, 0)
    shape = (nx, 1, 1)
    maps = {"R": N.zeros(shape), "Z": N.zeros(shape), "MXG": mxg, "MYG": 1}
    for k in ("forward", "backward"):
        xt, zt = N.zeros(shape), N.zeros(shape)
        xts, zts = N.zeros(shape + (ns,)), N.zeros(shape + (ns,))
        for i in range(nx):
            xt[i, 0, 0] = float(i)
            for s in range(ns):
                xts[i, 0, 0, s] = float(i)
        maps[k + "_xt_prime"], maps[k + "_zt_prime"] = xt, zt
        maps[k + "_xt_primes"], maps[k + "_zt_primes"] = xts, zts
    maps["subcell_weights"] = N.array([1.0 / ns] * ns)
    c = cx.real("centre", -1, nx)
    xs = [cx.real("s%d" % i, -1, nx) for i in range(ns)]
    maps[d + "_xt_prime"][src] = c
    for i, x in enumerate(xs):
        maps[d + "_xt_primes"][src + (i,)] = x
    extra = N.zeros(shape)
    maps["By"] = extra
    if default_arg:
        out = W.modify_maps(maps)
    else:
        out = W.modify_maps(maps, partial_boundaries=partial)
    cx.check(out is maps or set(out) >= {"R", "MXG"}, "returns the maps")
    for k in SUB:
        cx.check(k not in out, "sub-sample array %s is dropped" % k)
    cx.check(out["By"] is extra, "unrelated maps are kept")
    h = [hits(x, nx, mxg) for x in xs]
    ch = hits(c, nx, mxg)
    anyh = allh = h[0]
    for q in h[1:]:
        anyh, allh = anyh | q, allh & q
    res = out[d + "_xt_prime"][src]
    marked = hits(res, nx, mxg)
    li = int(np.asarray(out[d + "_leg_interior_number"])[src])
    lb = int(np.asarray(out[d + "_leg_boundary_number"])[src])
    bc = int(np.asarray(out[d + "_cell_number"])[src])
    lw = out[d + "_leg_weights"]
    if partial:
        cx.eq(marked, anyh | ch, "cell is marked as boundary iff part of it (or its centre) leaves")
        cx.eq(lb >= 0, anyh, "boundary leg iff part of the cell leaves")
        cx.eq(li >= 0, neg(allh), "interior leg iff part of the cell stays")
        if not bool(anyh):
            cx.eq(res, c, "map of a cell that stays inside is unchanged")
        if lb >= 0:
            cx.check(marked, "a cell with a boundary leg is marked")
    else:
        goes = allh | (anyh & ch)
        cx.eq(lb >= 0, goes, "whole cell leaves iff all samples do, or some do and the centre does")
        cx.eq(li >= 0, neg(goes), "whole cell stays otherwise")
        cx.check((lb >= 0) != (li >= 0), "exactly one leg per cell")
        for w in (lb, li):
            if w >= 0:
                cx.eq(lw[w], 1.0, "a single leg has weight 1")
        cx.eq(res, c, "centre map is unchanged")
    cx.eq(bc >= 0, lb >= 0, "boundary cell iff boundary leg")
    for i in range(nx):
        if i != mxg:
            cx.eq(out[d + "_xt_prime"][i, 0, 0], -1.0 if (partial and (i < mxg or i > nx - mxg - 1)) else float(i), "other cells keep their map (%d)" % i)
    o = "backward" if d == "forward" else "forward"
    cx.eq(out[o + "_xt_prime"][src], float(mxg), "other direction keeps its map")
    # interior leg uses only samples that stay: row sums to one, inside the domain
    r, cc, w = (np.asarray(out[d + "_rows"]), np.asarray(out[d + "_columns"]), out[d + "_weights"])
    for leg in (li, lb):
        if leg >= 0:
            t = 0.0
            for k in range(int(r[leg]), int(r[leg + 1])):
                t = t + w[k]
            cx.eq(t, 1.0, "operator row adds up to 1")


def operators(cx, nx, mxg, nz, ns, partial, d):
    """stored operators are those of the samples after whole cells were decided"""
    import zoidberg.weights as W

    N = cx.np
    src = (mxg, 0, 1)
    shape = (nx, 1, nz)
    maps = {"R": N.zeros(shape), "Z": N.zeros(shape), "MXG": mxg, "MYG": 1}
    for n, k in enumerate(("forward", "backward")):
        xt, zt = N.zeros(shape), N.zeros(shape)
        xts, zts = N.zeros(shape + (ns,)), N.zeros(shape + (ns,))
        for i in np.ndindex(*shape):
            xt[i], zt[i] = float(i[0]), i[2] + 0.25 + 0.125 * n
            for s in range(ns):
                xts[i + (s,)] = float(i[0])
                zts[i + (s,)] = i[2] + 0.5 + 0.25 * s - 0.125 * n
        maps[k + "_xt_prime"], maps[k + "_zt_prime"] = xt, zt
        maps[k + "_xt_primes"], maps[k + "_zt_primes"] = xts, zts
    w = N.array([1.0 / ns] * ns)
    if ns == 2:
        w0 = cx.real("w0", "1/4", "3/4")
        w = N.array([w0, 1 - w0])
    maps["subcell_weights"] = w
    c = cx.real("centre", mxg - 0.5, nx)
    xs = [cx.real("s%d" % i, mxg - 0.5, nx) for i in range(ns)]
    maps[d + "_xt_prime"][src] = c
    for i, x in enumerate(xs):
        maps[d + "_xt_primes"][src + (i,)] = x
    ref = {k: (N.array(v) if isinstance(v, np.ndarray) else v) for k, v in maps.items()}
    h = [bool(hits(x, nx, mxg)) for x in xs]
    if not partial and any(h) and not all(h):
        ch = bool(hits(c, nx, mxg))
        for i in range(ns):
            if ch or h[i]:
                ref[d + "_xt_primes"][src + (i,)] = c
                ref[d + "_zt_primes"][src + (i,)] = maps[d + "_zt_prime"][src]
    want = W.calculate_parallel_map_operators(ref)
    out = W.modify_maps(maps, partial_boundaries=partial)
    for k in want:
        cx.check(k in out, "operator %s is stored" % k)
        a, b = np.asarray(want[k]), np.asarray(out[k])
        cx.check(a.shape == b.shape, "size of %s" % k)
        if a.shape == b.shape:
            cx.eq(out[k], want[k], "operator %s" % k)


def neg(a):
    return (not a) if isinstance(a, (bool, np.bool_)) else ~a


def configs(tier):
    cs = []
    for d in ("forward", "backward"):
        for partial in (True, False):
            cs.append(dict(name="%s-%s-2" % (d, "partial" if partial else "whole"), fn=run, cost=3,
                           params=dict(nx=5, mxg=2, ns=2, partial=partial, d=d), bounds="one evolving cell, centre and two samples anywhere in [-1,nx]",
                           opts=dict(budget_s=300)))
            cs.append(dict(name="%s-%s-nx5-mxg1" % (d, "partial" if partial else "whole"), fn=run, cost=3,
                           params=dict(nx=5, mxg=1, ns=1, partial=partial, d=d), bounds="three evolving cells, one sample", opts=dict(budget_s=300)))
    cs.append(dict(name="default", fn=run, params=dict(nx=5, mxg=2, ns=2, partial=True, d="forward", default_arg=True), cost=3, bounds="default arguments", opts=dict(budget_s=300)))
    for d in ("forward", "backward"):
        for partial in (True, False):
            cs.append(dict(name="operators-%s-%s" % (d, "partial" if partial else "whole"), fn=operators, cost=5, params=dict(nx=5, mxg=1, nz=3, ns=2, partial=partial, d=d),
                           bounds="5x1x3, one cell with free centre, two free samples and weights; x in [mxg-1/2,nx]", opts=dict(budget_s=300)))
    if tier != "quick":
        for partial in (True, False):
            cs.append(dict(name="forward-%s-4" % partial, fn=run, cost=9, params=dict(nx=5, mxg=2, ns=4, partial=partial, d="forward"),
                           bounds="four samples", opts=dict(budget_s=2400, max_paths=20000)))
    return cs
