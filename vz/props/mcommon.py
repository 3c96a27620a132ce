"""grids, fields and tracers for make_maps (C13, C14)"""
import numpy as np

from .. import stubs


class Pol:
    """poloidal plane with free points and an affine inverse"""

    def __init__(self, cx, j, nx, nz, free=()):
        self.cx, self.j, self.nx, self.nz = cx, j, nx, nz
        R = np.array([[2.0 + x + 0.25 * j for z in range(nz)] for x in range(nx)])
        Z = np.array([[0.5 * z - 0.125 * j + 0.0625 * x for z in range(nz)] for x in range(nx)])
        self.R, self.Z = cx.np.array(R), cx.np.array(Z)
        for c in free:
            self.R[c] = cx.real("R%d_%d_%d" % ((j,) + c), 1, 4)
            self.Z[c] = cx.real("Z%d_%d_%d" % ((j,) + c), -1, 1)
        self.g = {"g_xx": cx.np.array(np.full((nx, nz), 1.0)), "g_zz": cx.np.array(np.full((nx, nz), 1.0)), "g_xz": cx.np.array(np.zeros((nx, nz)))}

    def index(self, R, Z):
        return (R - 2.0) * (1.0 + 0.5 * self.j) + 0.125 * self.j, (Z + 0.25) * 2.0 - 0.5 * self.j

    def findIndex(self, R, Z):
        return self.index(R, Z)

    def getCoordinate(self, xi, zi, dx=0, dz=0):
        raise NotImplementedError

    def metric(self):
        return self.g


class Tracer:
    """every line moves along (p, q), at a rate depending on where it starts"""

    def __init__(self, cx, p, q, a, b, c=0.0):
        self.cx, self.p, self.q, self.a, self.b, self.c = cx, p, q, a, b, c
        self.rtols, self.calls = [], 0

    def at(self, x, z, y0, y1):
        s = (self.a + self.b * (self.q * x - self.p * z)) * (y1 - y0) + self.c * (y1 * y1 - y0 * y0) * 0.5
        return x + self.p * s, z + self.q * s

    def follow_field_lines(self, x, z, y, rtol=None, **kw):
        self.rtols.append(rtol)
        self.calls += 1
        x, z = self.cx.np.asarray(x), self.cx.np.asarray(z)
        y = list(y)
        r = self.cx.np.zeros((len(y),) + np.shape(x) + (2,))
        for k, yy in enumerate(y):
            u, v = self.at(x, z, y[0], yy)
            r[k, ..., 0], r[k, ..., 1] = u, v
        return r


class Boundary:
    def __init__(self, lim, slope):
        self.lim, self.slope = lim, slope

    def outside(self, x, y, z):
        return x > self.lim + self.slope * y + 0.25 * z


class NoB:
    def __init__(self, cx):
        self.cx = cx

    def outside(self, x, y, z):
        return np.zeros(np.shape(x), dtype=bool)


class Field:
    attributes = {}

    def __init__(self, cx, boundary, by=None):
        self.boundary = boundary
        self.by = by or (lambda x, z, y: 0.0 * x + 2.0)

    def Byfunc(self, x, z, phi):
        return self.by(x, z, phi)


YC = {1: [0.0], 2: [0.0, 0.75], 3: [0.0, 0.5, 1.5], 4: [0.25, 0.5, 1.25, 1.75]}


def plane(ny, j, L, periodic, ys):
    """(plane number or None, y) at integer index"""
    if periodic:
        return j % ny, ys[j % ny] + (j // ny) * L
    if j < 0:
        return None, 0.0
    if j >= ny:
        return None, L
    return j, ys[j]


def setup(cx, nx, ny, nz, periodic, free, pol=None, L=2.5):
    import zoidberg.grid as G

    ys = YC[ny]
    pols = [pol(j) if pol else Pol(cx, j, nx, nz, free.get(j, ())) for j in range(ny)]
    g = G.Grid(pols, np.array(ys), L, yperiodic=periodic)
    if cx.sym:
        stubs.stub(cx, "scipy.interpolate", "RegularGridInterpolator", stubs.GridInterp)
    stubs.stub(cx, "zoidberg.diff", "field_line_length", length)
    return g, pols, ys, L


def length(coords, y, *a, **k):
    """stand-in for the length of a line: depends on every point of the line in order"""
    n = len(y)
    r = 0.0
    for i in range(n):
        r = r + (i + 1.0) * (coords[i][..., 0] + 2.0 * coords[i][..., 1]) + y[i] * (n - i)
    return r
