"""Shared builders for the parallel-operator properties (C15-C17)."""
import numpy as np


def mkmaps(cx, nx, ny, nz, mxg, xf, zf, xb, zb, weights=None, single=False):
    """map dictionary as produced by make_maps; xf.. are dicts (x,y,z)->list of values for evolving cells"""
    N = cx.np
    ns = 1
    for d in (xf, xb):
        for v in d.values():
            ns = max(ns, len(v))

    def build(d, fill):
        a = N.zeros((nx, ny, nz, ns))
        for x in range(nx):
            for y in range(ny):
                for z in range(nz):
                    vals = d.get((x, y, z))
                    for s in range(ns):
                        a[x, y, z, s] = vals[s] if vals is not None else (x if fill == "x" else z)
        return a

    maps = {"R": N.zeros((nx, ny, nz)), "MXG": mxg,
            "forward_xt_primes": build(xf, "x"), "forward_zt_primes": build(zf, "z"),
            "backward_xt_primes": build(xb, "x"), "backward_zt_primes": build(zb, "z")}
    if weights is not None:
        maps["subcell_weights"] = N.array(weights)
    if single:
        for d in ("forward", "backward"):
            for c in "xz":
                maps["%s_%st_prime" % (d, c)] = maps.pop("%s_%st_primes" % (d, c))[..., 0]
    return maps


def rows(op, d):
    """CSR -> list of [(col, w)]; the arrays must be well formed"""
    r, c, w = op[d + "_rows"], op[d + "_columns"], op[d + "_weights"]
    return r, c, w


def hits(x, nx, mxg):
    return (x < mxg) | (x > nx - mxg - 1)
