"""C13: the maps give, for each cell, where its field line ends on the neighbouring planes."""
import numpy as np

from . import mcommon as M


def name(f, o):
    return ("forward_" if o > 0 else "backward_") + f + ("_%d" % abs(o) if abs(o) > 1 else "")


def maps(cx, nx, ny, nz, periodic, nslice, free, bnd=None, spd=1, rtol=None, tracer=None, rect=False):
    import zoidberg.zoidberg as ZB

    if rect:
        from zoidberg.poloidal_grid import RectangularPoloidalGrid

        mk = lambda j: RectangularPoloidalGrid(nx, nz, 2.0 + 0.5 * j, 1.5, Rcentre=4.0 + 0.25 * j, Zcentre=0.5, MXG=1)
    else:
        mk = None
    g, pols, ys, L = M.setup(cx, nx, ny, nz, periodic, free, pol=mk)
    p, q = (0.5, 0.25) if tracer == "fixed" else (cx.real("p", "-1/2", "1/2"), cx.real("q", "-1/2", "1/2"))
    tr = M.Tracer(cx, p, q, cx.real("a", -1, 1), 0.25, 0.125)
    if bnd == "free":
        b = M.Boundary(cx.real("lim", 2, 5), 0.125)
    elif bnd == "fixed":
        b = M.Boundary(2.75, 0.125)
    else:
        b = M.NoB(cx)
    f = M.Field(cx, b)
    kR = [cx.np.array(P.R) for P in pols]
    kw = {} if rtol is None else dict(rtol=rtol)
    m = ZB.make_maps(g, f, nslice=nslice, quiet=True, field_tracer=tr, samples_per_dim=spd, refine_parallel_integral=1, n_chunks=1, MXG=1, **kw)
    cx.check(all(v == rtol for v in tr.rtols), "requested tolerance")
    cx.check(m["MXG"] == 1 and m["MYG"] == nslice, "guard cells")
    ns = spd * spd
    W = np.asarray(m["subcell_weights"], dtype=object)
    cx.check(W.shape == (ns,), "one weight per sample")
    x1, w1 = np.polynomial.legendre.leggauss(spd)
    offs = [(a * 0.5, c * 0.5, u * v * 0.25) for a, u in zip(x1, w1) for c, v in zip(x1, w1)]
    cx.eq(sum(W[s] for s in range(ns)), 1.0, "weights add up to one")
    want_keys = {"R", "Z"}
    for j in range(ny):
        cx.eq(m["R"][:, j, :], kR[j], "R of plane %d" % j)
        cx.eq(m["Z"][:, j, :], pols[j].Z, "Z of plane %d" % j)
        # half way to the neighbours
        for post, h in (("_cell_yhigh", 0.5), ("_cell_ylow", -0.5)):
            yn = M.plane(ny, j + (1 if h > 0 else -1), L, periodic, ys)[1]
            yh = 0.5 * (ys[j] + yn)
            for c in np.ndindex(nx, nz):
                e = tr.at(kR[j][c], pols[j].Z[c], ys[j], yh)
                cx.eq(m["R" + post][c[0], j, c[1]], e[0], "R%s of cell %s plane %d" % (post, c, j), tol=1e-5)
                cx.eq(m["Z" + post][c[0], j, c[1]], e[1], "Z%s of cell %s plane %d" % (post, c, j), tol=1e-5)
        for o in [k for n in range(1, nslice + 1) for k in (n, -n)]:
            t, yt = M.plane(ny, j + o, L, periodic, ys)
            for c in np.ndindex(nx, nz):
                i = (c[0], j, c[1])
                lab = " of cell %s plane %d to %+d" % (c, j, o)
                e = tr.at(kR[j][c], pols[j].Z[c], ys[j], yt)
                cx.eq(m[name("R", o)][i], e[0], "R" + lab, tol=1e-5)
                cx.eq(m[name("Z", o)][i], e[1], "Z" + lab, tol=1e-5)
                xt, zt = m[name("xt_prime", o)][i], m[name("zt_prime", o)][i]
                xs, zs = m[name("xt_primes", o)][i], m[name("zt_primes", o)][i]
                cx.check(np.shape(xs) == (ns,) and np.shape(zs) == (ns,), "one map per sample")
                if t is None:
                    for v in [xt, zt] + list(xs) + list(zs):
                        cx.eq(v, -1.0, "no plane: marked" + lab)
                    continue
                want = end(cx, pols[t], b, e, yt, rect)
                cx.eq(xt, want[0], "x index" + lab, tol=1e-5)
                cx.eq(zt, want[1], "z index" + lab, tol=1e-5)
                if ns == 1:
                    cx.eq(xs[0], want[0], "x index of the sample" + lab, tol=1e-5)
                    cx.eq(zs[0], want[1], "z index of the sample" + lab, tol=1e-5)
                    continue
                samp = []
                for ox, oz, w in offs:
                    st = start(pols[j], kR[j], c, ox, oz, nx, nz, rect)
                    en = tr.at(st[0], st[1], ys[j], yt)
                    samp.append((w, end(cx, pols[t], b, en, yt, rect)))
                # moments of the samples, independent of their order
                for nm, fn in (("x", lambda x, z: x), ("z", lambda x, z: z), ("x^2", lambda x, z: x * x), ("z^2", lambda x, z: z * z), ("x z", lambda x, z: x * z)):
                    got = sum(W[s] * fn(xs[s], zs[s]) for s in range(ns))
                    exp = sum(w * fn(*v) for w, v in samp)
                    cx.eq(got, exp, "mean of %s over the samples" % nm + lab, tol=1e-4)
    for P, r in zip(pols, kR):
        cx.eq(P.R, r, "grid is not modified")


def end(cx, pol, b, e, y, rect):
    if rect:
        v = ((e[0] - pol.R[0, 0]) / (pol.R[1, 0] - pol.R[0, 0]), (e[1] - pol.Z[0, 0]) / (pol.Z[0, 1] - pol.Z[0, 0]))
    else:
        v = pol.index(*e)
    if isinstance(b, M.Boundary):
        d = e[0] - b.lim - b.slope * y - 0.25 * e[1]
        cx.assume((d > cx.margin(1e-4)) | (d < -cx.margin(1e-4)))
    if isinstance(b, M.Boundary) and bool(b.outside(e[0], y, e[1])):
        return -1.0, -1.0
    return v


def start(pol, R, c, ox, oz, nx, nz, rect):
    if rect:
        return (R[0, 0] + (c[0] + ox) * (R[1, 0] - R[0, 0]), pol.Z[0, 0] + (c[1] + oz) * (pol.Z[0, 1] - pol.Z[0, 0]))
    out = []
    for A in (R, pol.Z):
        x = c[0] + ox
        i = min(max(int(np.floor(x)), 0), nx - 2)
        fx = x - i
        z = c[1] + oz
        k = int(np.floor(z))
        fz = z - k
        g = lambda i, k: A[i, k % nz]
        out.append((1 - fx) * ((1 - fz) * g(i, k) + fz * g(i, k + 1)) + fx * ((1 - fz) * g(i + 1, k) + fz * g(i + 1, k + 1)))
    return out


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    F = {0: [(0, 0), (1, 1)], 1: [(1, 0)]}
    for nm, k in (("periodic", dict(nx=2, ny=3, nz=2, periodic=True, nslice=1, free=F)),
                  ("open", dict(nx=2, ny=2, nz=2, periodic=False, nslice=1, free=F, rtol=1e-7)),
                  ("two-slices", dict(nx=2, ny=3, nz=2, periodic=True, nslice=2, free={0: [(0, 1)]})),
                  ("two-slices-open", dict(nx=2, ny=3, nz=2, periodic=False, nslice=2, free={0: [(0, 1)]})),
                  ("three-slices", dict(nx=1, ny=2, nz=2, periodic=True, nslice=3, free={0: [(0, 0)]})),
                  ("one-plane", dict(nx=2, ny=1, nz=2, periodic=True, nslice=1, free={0: [(1, 0)]})),
                  ("rectangular", dict(nx=4, ny=2, nz=2, periodic=True, nslice=1, free={}, rect=True)),
                  ("boundary", dict(nx=2, ny=2, nz=1, periodic=True, nslice=1, free={}, bnd="free", tracer="fixed")),
                  ("boundary-open", dict(nx=2, ny=2, nz=1, periodic=False, nslice=1, free={}, bnd="free", tracer="fixed")),
                  ("boundary-slices", dict(nx=1, ny=3, nz=1, periodic=True, nslice=2, free={}, bnd="free", tracer="fixed")),
                  ("samples-2", dict(nx=3, ny=2, nz=2, periodic=True, nslice=1, free={0: [(1, 0)]}, spd=2, tracer="fixed")),
                  ("samples-2-slices", dict(nx=2, ny=2, nz=2, periodic=True, nslice=2, free={1: [(0, 1)]}, spd=2, tracer="fixed")),
                  ("samples-2-open", dict(nx=2, ny=2, nz=2, periodic=False, nslice=1, free={0: [(1, 1)]}, spd=2, tracer="fixed")),
                  ("samples-3", dict(nx=2, ny=2, nz=3, periodic=True, nslice=1, free={0: [(1, 2)]}, spd=3, tracer="fixed")),
                  ("samples-rectangular", dict(nx=3, ny=2, nz=2, periodic=True, nslice=1, free={}, spd=2, tracer="fixed", rect=True)),
                  ("samples-boundary", dict(nx=2, ny=2, nz=1, periodic=True, nslice=1, free={}, spd=2, bnd="fixed", tracer="fixed"))):
        cs.append(dict(name=nm, fn=maps, params=k, bounds="nx,ny,nz=%d,%d,%d, %d slices, %d samples; free line directions and points" % (k["nx"], k["ny"], k["nz"], k["nslice"], k.get("spd", 1) ** 2), opts=o, cost=4))
    if tier != "quick":
        cs.append(dict(name="large", fn=maps, params=dict(nx=3, ny=4, nz=3, periodic=True, nslice=3, free={0: [(0, 0), (2, 2)], 2: [(1, 1)]}), bounds="3x4x3, three slices", opts=dict(budget_s=2400, obl_timeout_ms=60000), cost=9))
        cs.append(dict(name="boundary-large", fn=maps, params=dict(nx=2, ny=3, nz=2, periodic=False, nslice=2, free={}, bnd="free", tracer="fixed"), bounds="2x3x2", opts=dict(budget_s=2400, obl_timeout_ms=60000, max_paths=20000), cost=9))
        cs.append(dict(name="samples-4", fn=maps, params=dict(nx=3, ny=2, nz=3, periodic=True, nslice=2, free={0: [(1, 0)]}, spd=4, tracer="fixed"), bounds="16 samples", opts=dict(budget_s=2400, obl_timeout_ms=60000), cost=9))
    return cs
