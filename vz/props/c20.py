"""C20: interrupted generation of the finite volume coefficients is resumed."""
import os
import shutil
import tempfile

import numpy as np

from .. import stubs

KEYS = ("XX", "XZ", "ZX", "ZZ", "volume")


class Stop(BaseException):
    pass


class Clock:
    """counts the operations on the file and stops the program before the n-th"""

    def __init__(self, n):
        self.n, self.k, self.on = n, 0, True

    def tick(self):
        if not self.on:
            return
        if self.n is not None and self.k == self.n:
            self.on = False
            raise Stop()
        self.k += 1


class Var:
    """variable of the stand-in file, with the fill values of NetCDF"""

    def __init__(self, cx, t, shape):
        self.cx, self.shape = cx, shape
        self.data = np.empty(shape, dtype=object)
        self.data[...] = -2147483647 if np.dtype(t).kind == "i" else 9.969209968386869e36

    def _at(self, i):
        return () if self.shape == () else i

    def __setitem__(self, i, v):
        if isinstance(v, np.ndarray):
            v = np.asarray(v, dtype=object)
            want = np.shape(self.data[self._at(i)])
            if v.size == int(np.prod(want)):
                # NetCDF does not care about dimensions of length one
                v = v.reshape(want)
        self.data[self._at(i)] = v

    def __getitem__(self, i):
        return self.data[self._at(i)]


class Handle:
    def __init__(self, cx, store, sizes):
        self.cx, self.variables, self.sizes = cx, store, sizes

    def createVariable(self, k, t, dims=(), *a, **kw):
        self.variables[k] = Var(self.cx, t, tuple(self.sizes[d] for d in dims))
        return self.variables[k]

    def sync(self):
        pass


class VarProxy:
    def __init__(self, v, clock):
        self.__dict__.update(v=v, clock=clock)

    def __getattr__(self, n):
        return getattr(self.v, n)

    def __getitem__(self, i):
        return self.v[i]

    def __setitem__(self, i, x):
        self.clock.tick()
        self.v[i] = x


class Vars:
    def __init__(self, d, clock):
        self.d, self.clock = d, clock

    def __getitem__(self, k):
        return VarProxy(self.d[k], self.clock)

    def get(self, k, other=None):
        return self[k] if k in self.d else other

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(self.d)

    def keys(self):
        return self.d.keys()


class HandleProxy:
    """file handle that may stop before every change"""

    def __init__(self, h, clock):
        self.h, self.clock = h, clock

    @property
    def variables(self):
        return Vars(self.h.variables, self.clock)

    def createVariable(self, *a, **k):
        self.clock.tick()
        return VarProxy(self.h.createVariable(*a, **k), self.clock)

    def __getattr__(self, n):
        return getattr(self.h, n)


class Impl:
    handle = None


class File:
    store = None

    def __init__(self, filename=None, write=False, create=False, **k):
        self.create = create

    def __enter__(self):
        if self.create:
            File.store["vars"] = {}
        self.impl = Impl()
        self.impl.handle = Handle(File.cx, File.store["vars"], File.store["sizes"])
        return self

    def __exit__(self, *a):
        return None

    def list(self):
        return list(File.store["vars"])

    def __getitem__(self, k):
        return File.store["vars"][k].data

    def write(self, k, v, *a, **kw):
        File.store["vars"].setdefault(k, Var(File.cx, "f8", np.shape(v)))[...] = v

    def write_file_attribute(self, k, v):
        pass

    def list_file_attributes(self):
        return []

    def read_file_attribute(self, k):
        raise KeyError(k)


class Pol:
    def __init__(self, cx, n, nx, nz):
        self.id, self.nx, self.nz = n, nx, nz
        self.R, self.Z = cx.np.ones((nx, nz)) * (n + 1.0), cx.np.ones((nx, nz))


def resume(cx, nx, ny, nz, stops, nops, slab, foreign=False):
    import boututils.datafile as bd
    import zoidberg.field as FD
    import zoidberg.grid as G
    import zoidberg.stencil_dagp_fv as S
    import zoidberg.zoidberg as ZB

    d = tempfile.mkdtemp(prefix="vz20")
    fn = os.path.join(d, "g.nc")
    try:
        if cx.sym:
            File.store, File.cx = dict(vars={}, sizes=dict(x=nx, y=ny, z=nz)), cx
            cx.patch(bd, "DataFile", File)
        calls = []
        clock = [None]

        def val(k, p, i, j):
            return cx.real("%s_%d_%d_%d" % (k, p, i, j), -3, 3)

        def doit(pols, plot=False, isSlab=False):
            pols = list(pols)
            for p in pols:
                calls.append(p.id)
            if clock[0] is not None:
                clock[0].tick()
            cx.check(bool(isSlab) == slab, "geometry")
            out = {}
            for k in KEYS:
                a = cx.np.zeros((nx, len(pols), nz))
                for j, p in enumerate(pols):
                    for i in range(nx):
                        for q in range(nz):
                            a[i, j, q] = val(k, p.id, i, q)
                out["dagp_fv_" + k] = a
            return out

        stubs.stub(cx, S, "doit", doit)
        grid = G.Grid([Pol(cx, n, nx, nz) for n in range(ny)], np.arange(ny) * 1.0, Ly=ny * 1.0)
        field = FD.Slab() if slab else FD.CurvedSlab()
        ncrash, at = 0, []
        for n in range(stops + 1):
            k = cx.choice("stop%d" % n, list(range(nops)) + [None]) if n < stops else None
            mw = ZB.MapWriter(fn, create=n == 0, quiet=True)
            try:
                with mw:
                    mw.add_grid_field(grid, field)
                    if n == 0 and foreign:
                        # something else in the file
                        mw.write_dict(dict(other=cx.np.ones((nx, ny, nz)) * 7.0))
                    clock[0] = Clock(k)
                    mw.f.impl.handle = HandleProxy(mw.f.impl.handle, clock[0])
                    before = len(calls)
                    try:
                        mw.add_dagp()
                    finally:
                        clock[0].on = False
                    done = True
            except Stop:
                done = False
                ncrash += 1
        cx.check(done, "the last attempt completes")
        for p in range(ny):
            cx.check(p in calls, "every plane is computed")
            cx.check(calls.count(p) <= 1 + ncrash, "planes are repeated at most once for every interruption")
        cx.check(len(calls) <= ny + ncrash, "completed planes are not computed again")
        with bd.DataFile(fn) if not cx.sym else File(fn) as f:
            for k in KEYS:
                cx.check("dagp_fv_" + k in f.list(), "dagp_fv_%s is in the file" % k)
                if "dagp_fv_" + k not in f.list():
                    continue
                a = f["dagp_fv_" + k]
                cx.check(tuple(np.shape(a)) == (nx, ny, nz), "shape of dagp_fv_" + k)
                for p in range(ny):
                    for i in range(nx):
                        for q in range(nz):
                            cx.eq(a[i, p, q], val(k, p, i, q), "dagp_fv_%s of plane %d" % (k, p))
            if foreign:
                cx.eq(f["other"][0, 0, 0], 7.0, "other contents of the file are kept")
            cx.eq(f["R"][0, ny - 1, 0], float(ny), "positions in the file")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def configs(tier):
    cs = []
    o = dict(budget_s=300, max_paths=4000, max_witness=20)

    def add(nm, b, cost=2, opts=o, **k):
        cs.append(dict(name=nm, fn=resume, params=k, bounds=b, opts=opts, cost=cost))

    # operations: create and initialise the progress, 5 variables, and per plane computation, 5 writes, progress
    add("once-3", "3 planes, stopped before any operation", nx=1, ny=3, nz=2, stops=1, nops=2 + 5 + 7 * 3, slab=False)
    add("once-slab", "2 planes, stopped before any operation", nx=2, ny=2, nz=1, stops=1, nops=2 + 5 + 7 * 2, slab=True)
    add("once-foreign", "2 planes, other contents", nx=1, ny=2, nz=1, stops=1, nops=2 + 5 + 7 * 2, slab=False, foreign=True)
    add("twice-2", "2 planes, stopped twice, before any operations", nx=1, ny=2, nz=1, stops=2, nops=2 + 5 + 7 * 2, slab=False, cost=4)
    add("never", "4 planes", nx=2, ny=4, nz=2, stops=0, nops=0, slab=False)
    if tier != "quick":
        big = dict(budget_s=2400, max_paths=40000, max_witness=60)
        add("twice-3", "3 planes, stopped twice, before any operations", nx=1, ny=3, nz=1, stops=2, nops=28, slab=False, cost=8, opts=big)
        add("thrice-2", "2 planes, stopped three times, before any operations", nx=1, ny=2, nz=1, stops=3, nops=21, slab=True, cost=9, opts=big)
    return cs
