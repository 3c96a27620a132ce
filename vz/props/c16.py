"""C16: the parallel interpolation operators."""
import numpy as np

from .wcommon import hits, mkmaps


def wellformed(cx, op, d, total):
    r, c, w = np.asarray(op[d + "_rows"]), np.asarray(op[d + "_columns"]), op[d + "_weights"]
    nl = int(op["n_%s_legs" % d])
    cx.check(len(r) == nl + 1 and int(r[0]) == 0 and int(r[-1]) == len(c) == len(w), d + ": row pointer ends")
    out = []
    for i in range(nl):
        a, b = int(r[i]), int(r[i + 1])
        cx.check(a < b, d + ": row %d not empty, pointers increase" % i)
        row = [(int(c[k]), w[k]) for k in range(a, b)]
        cx.check(all(0 <= k < total for k, _ in row), d + ": columns of row %d in range" % i)
        cx.check(len({k for k, _ in row}) == len(row), d + ": columns of row %d distinct" % i)
        out.append(row)
    return out


def stencil(cx, nx, ny, nz, mxg, d, src, ns=1, zspan=1, xlo=None, xhi=None, poly=True, weights=None):
    """one cell with symbolic end point(s) inside the domain; all other maps are the identity"""
    import zoidberg.weights as W

    x0, y0, z0 = src
    xf, xb, zf, zb = {}, {}, {}, {}
    lo = mxg if xlo is None else xlo
    hi = nx - mxg - 1 if xhi is None else xhi
    xs = [cx.real("x%d" % s, lo, hi) for s in range(ns)]
    zs = [cx.real("z%d" % s, -zspan * nz, (1 + zspan) * nz) for s in range(ns)]
    for s in range(ns - 1):
        # cover each unordered set of samples once
        cx.assume(zs[s] <= zs[s + 1])
    for c in [(x, y, z) for x in range(mxg, nx - mxg) for y in range(ny) for z in range(nz)]:
        xf[c] = [float(c[0])] * ns
        xb[c] = [float(c[0])] * ns
        zf[c] = [float(c[2])] * ns
        zb[c] = [float(c[2])] * ns
    (xf if d == "forward" else xb)[src] = xs
    (zf if d == "forward" else zb)[src] = zs
    if ns > 1:
        ws = [1.0 / ns] * ns if weights is None else weights
    else:
        ws = [1.0]
    maps = mkmaps(cx, nx, ny, nz, mxg, xf, zf, xb, zb, ws)
    op = W.calculate_parallel_map_operators(maps)
    total = int(op["total_cells"])
    cn = np.asarray(op["cell_number"])
    where = {int(cn[i]): i for i in np.ndindex(*cn.shape)}
    other = "backward" if d == "forward" else "forward"
    wellformed(cx, op, other, total)
    rows = wellformed(cx, op, d, total)
    leg = int(np.asarray(op[d + "_leg_interior_number"])[src])
    yt = (y0 + (1 if d == "forward" else -1)) % ny
    row = rows[leg]
    tot = 0.0
    cols = {}
    for k, w in row:
        tot = tot + w
        cx.check(k in where, "interior leg only uses grid cells")
        if k not in where:
            return
        x, y, z = where[k]
        cx.check(y == yt, "destination is the neighbouring plane")
        cx.check(mxg <= x < nx - mxg, "no weight on radial boundary cells")
        cols[(x, z)] = w
    cx.eq(tot, 1.0, "weights of the interior leg add up to 1", tol=1e-6)
    # unrolled moments (z offsets relative to the end point, nearest image)
    if ns == 1 and poly:
        x, z = xs[0], zs[0]
        zb_ = cx.np.floor(z)
        inside = (x >= mxg + 1) & (x <= nx - mxg - 2)
        mz = mz2 = mx = mx2 = 0.0
        far = 0.0
        for (i, k), w in cols.items():
            # nearest periodic image of k to the end point
            off = k - int(zb_) % nz
            if off > nz // 2:
                off -= nz
            if off < -((nz - 1) // 2):
                off += nz
            mz = mz + w * off
            mz2 = mz2 + w * off * off
            mx = mx + w * i
            mx2 = mx2 + w * i * i
            xb_ = cx.np.floor(x)
            near = (i >= xb_ - 1) & (i <= xb_ + 2) if True else True
            cx.check(near, "x stencil is local")
            cx.check(-1 <= off <= 2, "z stencil is local")
        u = z - zb_
        cx.eq(mz, u, "linear functions of z are reproduced", tol=1e-6)
        cx.eq(mz2, u * u, "quadratic functions of z are reproduced", tol=1e-6)
        if bool(inside):
            cx.eq(mx, x, "linear functions of x are reproduced", tol=1e-6)
            cx.eq(mx2, x * x, "quadratic functions of x are reproduced", tol=1e-6)
        else:
            # near the edge: still a convex-hull-like average that is exact on the edge cell itself
            cx.check((mx >= mxg - 1) & (mx <= nx - mxg), "centroid stays in the domain")
    if ns > 1:
        mzt = 0.0
        for (i, k), w in cols.items():
            pass


def periodic(cx, nx, nz, mxg):
    """mapping to z and z + nz is the same operator"""
    import zoidberg.weights as W

    x = cx.real("x", mxg, nx - mxg - 1)
    z = cx.real("z", -nz, nz)
    ops = []
    for zz in (z, z + nz):
        xf = {(mxg, 0, 0): [x]}
        zf = {(mxg, 0, 0): [zz]}
        maps = mkmaps(cx, nx, 1, nz, mxg, xf, zf, {}, {}, [1.0])
        ops.append(W.calculate_parallel_map_operators(maps))
    a, b = ops
    for k in ("forward_rows", "forward_columns", "backward_rows", "backward_columns"):
        cx.check(list(np.asarray(a[k])) == list(np.asarray(b[k])), "same structure: " + k)
    if len(a["forward_weights"]) == len(b["forward_weights"]):
        cx.eq(a["forward_weights"], b["forward_weights"], "same weights one period further")


def boundary(cx, nx, nz, mxg, d, ns):
    """boundary legs point at their own boundary cell with weight 1; interior rows ignore the lost samples"""
    import zoidberg.weights as W

    src = (mxg, 0, 0)
    xs = [cx.real("x%d" % s, -1, nx) for s in range(ns)]
    zs = [1.25 + 0.5 * s for s in range(ns)]
    xf, zf = {src: xs}, {src: zs}
    ident = {src: [float(mxg)] * ns}
    identz = {src: [0.0] * ns}
    ws = [1.0 / ns] * ns
    if d == "forward":
        maps = mkmaps(cx, nx, 2, nz, mxg, xf, zf, ident, identz, ws)
    else:
        maps = mkmaps(cx, nx, 2, nz, mxg, ident, identz, xf, zf, ws)
    op = W.calculate_parallel_map_operators(maps)
    total = int(op["total_cells"])
    rows = wellformed(cx, op, d, total)
    wellformed(cx, op, "backward" if d == "forward" else "forward", total)
    bl = int(np.asarray(op[d + "_leg_boundary_number"])[src])
    il = int(np.asarray(op[d + "_leg_interior_number"])[src])
    bc = int(np.asarray(op[d + "_cell_number"])[src])
    if bl >= 0:
        cx.check(len(rows[bl]) == 1 and rows[bl][0][0] == bc, "boundary leg reads its boundary cell only")
        cx.eq(rows[bl][0][1], 1.0, "boundary leg weight is 1")
    if il >= 0:
        t = 0.0
        cn = np.asarray(op["cell_number"])
        where = {int(cn[i]): i for i in np.ndindex(*cn.shape)}
        mz = 0.0
        cnt, zsum = 0.0, 0.0
        for k, w in rows[il]:
            t = t + w
            cx.check(k in where and where[k][1] == 1 % 2 and mxg <= where[k][0] < nx - mxg, "interior leg stays in the plane")
            mz = mz + w * where[k][2]
        for x, z in zip(xs, zs):
            h = hits(x, nx, mxg)
            cnt = cnt + cx.np.where(h, 0.0, 1.0)
            zsum = zsum + cx.np.where(h, 0.0, z)
        cx.eq(t, 1.0, "interior leg is normalised by the samples that stay")
        cx.eq(mz * cnt, zsum, "interior leg averages the samples that stay")


def catmull(cx):
    import zoidberg.weights as W

    u = cx.real("u", 0, 1)
    w = W.catmull_rom_weights(u)
    cx.check(len(w) == 4, "four weights")
    for p in range(3):
        s = 0.0
        for o, wi in zip((-1, 0, 1, 2), w):
            s = s + wi * (o**p)
        cx.eq(s, u**p, "reproduces degree %d" % p)


def configs(tier):
    cs = [dict(name="weights-1d", fn=catmull, bounds="u in [0,1]")]
    for d in ("forward", "backward"):
        cs.append(dict(name="stencil-8x2x5-" + d, fn=stencil, params=dict(nx=8, ny=2, nz=5, mxg=2, d=d, src=(3, 1, 2)), cost=4,
                       bounds="8x2x5, one map anywhere inside, z over 3 periods", opts=dict(budget_s=300)))
        cs.append(dict(name="stencil-7x3x4-" + d, fn=stencil, params=dict(nx=7, ny=3, nz=4, mxg=1, d=d, src=(1, 0, 3), zspan=0), cost=4,
                       bounds="7x3x4 mxg=1, one map anywhere inside", opts=dict(budget_s=300)))
        cs.append(dict(name="stencil-narrow-" + d, fn=stencil, params=dict(nx=6, ny=1, nz=3, mxg=2, d=d, src=(2, 0, 0), zspan=1, poly=False),
                       bounds="6x1x3: stencil wraps onto itself", opts=dict(budget_s=300)))
        cs.append(dict(name="boundary-%s-2" % d, fn=boundary, params=dict(nx=7, nz=6, mxg=2, d=d, ns=2), cost=3,
                       bounds="two samples, each anywhere in x", opts=dict(budget_s=300)))
    cs.append(dict(name="periodic-z", fn=periodic, params=dict(nx=6, nz=5, mxg=2), cost=4, bounds="z in [-nz,nz]", opts=dict(budget_s=300)))
    cs.append(dict(name="two-samples", fn=stencil, params=dict(nx=6, ny=2, nz=4, mxg=2, d="forward", src=(2, 0, 1), ns=2, zspan=0, xlo=2, xhi=3), cost=5,
                   bounds="two samples inside", opts=dict(budget_s=300)))
    if tier != "quick":
        cs.append(dict(name="boundary-forward-3", fn=boundary, params=dict(nx=7, nz=6, mxg=2, d="forward", ns=3), cost=9, bounds="three samples", opts=dict(budget_s=2400, max_paths=20000)))
        cs.append(dict(name="stencil-10x2x7", fn=stencil, params=dict(nx=10, ny=2, nz=7, mxg=2, d="forward", src=(3, 1, 2), zspan=2), cost=9, bounds="10x2x7, z over 5 periods", opts=dict(budget_s=2400, max_paths=20000)))
        cs.append(dict(name="two-samples-wide", fn=stencil, params=dict(nx=8, ny=2, nz=4, mxg=2, d="backward", src=(2, 0, 1), ns=2, zspan=0), cost=9, bounds="two samples inside 8x2x4", opts=dict(budget_s=2400, max_paths=20000)))
    return cs
