"""C01: looking up a poloidal plane by y index."""
import numpy as np


class Pol:
    nx, nz = 3, 2

    def __init__(self, i):
        self.i = i


def _grid(cx, ny, periodic):
    import zoidberg.grid as G

    Ly = cx.real("Ly", 1, 100)
    ys = []
    for j in range(ny):
        y = cx.real("y%d" % j, 0, 100)
        cx.assume(y <= Ly)
        if periodic:
            cx.assume(y <= Ly - cx.margin(0.01))
        if ys:
            cx.assume(y >= ys[-1] + cx.margin(0.01))
        ys.append(y)
    pols = [Pol(j) for j in range(ny)]
    return G.Grid(pols, cx.np.array(ys), Ly, yperiodic=periodic), pols, ys, Ly


def expect(i, ys, Ly, periodic):
    ny = len(ys)
    if 0 <= i < ny:
        return i, ys[i]
    if periodic:
        return i % ny, ys[i % ny] + (i // ny) * Ly
    return None, (0.0 if i < 0 else Ly)


def _is(cx, got, pols, want, label):
    g, y = got
    k, wy = want
    cx.check(g is (None if k is None else pols[k]), label + ": plane")
    cx.eq(y, wy, label + ": y coordinate")


def integer(cx, ny, periodic, periods):
    g, pols, ys, Ly = _grid(cx, ny, periodic)
    cx.check(g.numberOfPoloidalGrids() == ny, "number of planes")
    i = int(cx.int("i", -periods * ny - 1, periods * ny + 1))
    _is(cx, g.getPoloidalGrid(i), pols, expect(i, ys, Ly, periodic), "index %d of %d" % (i, ny))
    _is(cx, g.getPoloidalGrid(np.float64(i)), pols, expect(i, ys, Ly, periodic), "float index %d of %d" % (i, ny))
    _is(cx, g.getPoloidalGrid(np.int64(i)), pols, expect(i, ys, Ly, periodic), "numpy index %d of %d" % (i, ny))
    # documented ordering
    y0, y1 = g.getPoloidalGrid(i - 1)[1], g.getPoloidalGrid(i)[1]
    cx.le(y0, y1, "y does not decrease with the index (%d)" % i)
    if periodic:
        cx.eq(g.getPoloidalGrid(i + ny)[1], g.getPoloidalGrid(i)[1] + Ly, "one period further is Ly further")
        cx.check(g.getPoloidalGrid(i + ny)[0] is g.getPoloidalGrid(i)[0], "one period further is the same plane")


def fractional(cx, ny, periodic, periods):
    g, pols, ys, Ly = _grid(cx, ny, periodic)
    n = int(cx.int("n", -periods * ny - 1, periods * ny))
    f = cx.real("f", 0, 1)
    cx.assume(f >= cx.margin(0.001))
    cx.assume(f <= 1 - cx.margin(0.001))
    p, y = g.getPoloidalGrid(n + f)
    a, b = expect(n, ys, Ly, periodic)[1], expect(n + 1, ys, Ly, periodic)[1]
    cx.check(p is None, "no plane between planes")
    cx.eq(y, a + f * (b - a), "y between planes %d and %d" % (n, n + 1), tol=1e-5)
    h = g.getPoloidalGrid(n + 0.5)
    cx.check(h[0] is None, "no plane half-way")
    cx.eq(h[1], (a + b) / 2, "half-way")


def rect(cx, ny, periodic):
    """rectangular_grid places the planes as documented"""
    import zoidberg.grid as G

    Ly = cx.real("Ly", 1, 100)
    g = G.rectangular_grid(5, ny, 2, Lx=1.0, Ly=Ly, Lz=1.0, yperiodic=periodic)
    cx.check(tuple(g.shape) == (5, ny, 2), "shape")
    for j in range(ny):
        p, y = g.getPoloidalGrid(j)
        cx.eq(y, (j if periodic else j + 0.5) * Ly / ny, "plane %d" % j)
        cx.check(p is not None, "plane exists")
    if periodic:
        for j in range(-ny, 2 * ny):
            cx.eq(g.getPoloidalGrid(j)[1], j * Ly / ny, "periodic continuation %d" % j)
    else:
        cx.eq(g.getPoloidalGrid(-1)[1], 0.0, "lower end")
        cx.eq(g.getPoloidalGrid(ny)[1], Ly, "upper end")
    cx.eq(g.getPoloidalGrid(0)[0].R.shape, (5, 2), "plane shape") if False else None


def configs(tier):
    cs = []
    nys = (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5, 7)
    P = 2 if tier == "quick" else 4
    for ny in nys:
        for per in (True, False):
            nm = "ny%d-%s" % (ny, "periodic" if per else "bounded")
            b = "ny=%d planes at arbitrary increasing y, index within +-%d periods" % (ny, P)
            cs.append(dict(name="integer-" + nm, fn=integer, params=dict(ny=ny, periodic=per, periods=P), bounds=b))
            cs.append(dict(name="fractional-" + nm, fn=fractional, params=dict(ny=ny, periodic=per, periods=P), bounds=b))
            cs.append(dict(name="rectangular-" + nm, fn=rect, params=dict(ny=ny, periodic=per), bounds="ny=%d, Ly in [1,100]" % ny))
    return cs
