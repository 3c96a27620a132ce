"""C18: what a grid file contains."""
import os
import shutil
import tempfile

import numpy as np

from .. import stubs

OLD = {"g_yy": "g_22", "gyy": "g22", "gxx": "g11", "gxz": "g13", "gzz": "g33", "g_xx": "g_11", "g_xz": "g_13", "g_zz": "g_33"}
POLK = ("g_xx", "g_xz", "g_zz", "gxx", "gxz", "gzz", "dx", "dz")


class Pol:
    """plane whose metric is a closed form of its positions (not a real metric: every entry is distinguishable)"""

    def __init__(self, R, Z, *a, **k):
        self.R, self.Z = R, Z
        self.nx, self.nz = np.shape(R)

    def val(self, k, i):
        R, Z = self.R[i], self.Z[i]
        return {"g_xx": 4.0 + R, "g_zz": 5.0 + R + 2.0 * Z, "g_xz": 0.125 * R - 0.25 * Z, "gxx": 0.5 + 0.25 * R, "gzz": 1.5 + Z, "gxz": 0.125 * Z, "dx": 1.0 + 0.25 * R, "dz": 2.0 + 0.5 * Z}[k]

    def metric(self):
        r = {}
        for k in POLK:
            a = Pol.N.zeros((self.nx, self.nz))
            for i in np.ndindex(self.nx, self.nz):
                a[i] = self.val(k, i)
            r[k] = a
        return r


class File:
    """records what is written"""

    store = None

    def __init__(self, filename=None, write=False, create=False, **k):
        self.filename, self.create = filename, create

    def __enter__(self):
        if self.create:
            File.store.clear()
            File.store.update(vars={}, attrs={}, name=self.filename)
        return self

    def __exit__(self, *a):
        return None

    def list(self):
        return list(File.store["vars"])

    def __getitem__(self, k):
        return File.store["vars"][k]

    def write(self, k, v, *a, **kw):
        File.store["vars"][k] = np.array(v, dtype=object, copy=True) if isinstance(v, np.ndarray) else v

    def write_file_attribute(self, k, v):
        File.store["attrs"][k] = v

    def list_file_attributes(self):
        return list(File.store["attrs"])

    def read_file_attribute(self, k):
        return File.store["attrs"][k]


class Fld:
    def __init__(self, cx, cyl, L, names):
        self.cx, self.cyl, self.L = cx, cyl, L
        self.attributes = {n: (lambda x, z, phi, n=n: self.tab(n, x, z, phi)) for n in names}

    def one(self, k, x, z, phi):
        phi = float(phi) - (np.floor((float(phi) + 1e-9) / self.L) * self.L if self.L else 0.0)
        return self.cx.real("%s_%.5f_%.5f_%.5f" % (k, float(x) + 1e-8, float(z) + 1e-8, phi + 1e-8), "1/2", 3)

    def tab(self, k, x, z, phi):
        r = self.cx.np.zeros(np.shape(x))
        for i in np.ndindex(*np.shape(x)):
            r[i] = self.one(k, x[i], z[i], phi)
        return r

    def Bmag(self, x, z, phi):
        return self.tab("B", x, z, phi)

    def Byfunc(self, x, z, phi):
        return self.tab("By", x, z, phi)

    def pressure(self, x, z, phi):
        return self.tab("p", x, z, phi)

    def Rfunc(self, x, z, phi):
        return x if self.cyl else None


def sname(k, o):
    return ("forward_" if o > 0 else "backward_") + k + ("_%d" % abs(o) if abs(o) > 1 else "")


def content(cx, nx, ny, nz, nslice, periodic, cyl, has_ly, new, m2d, how="writer", names=("psi",), again=False):
    import zoidberg.grid as G
    import zoidberg.zoidberg as ZB

    d = tempfile.mkdtemp(prefix="vz18")
    Pol.N = cx.np
    try:
        stubs.stub(cx, "zoidberg.poloidal_grid", "StructuredPoloidalGrid", Pol)
        File.store = {}
        if cx.sym:
            stubs.stub(cx, "boututils.datafile", "DataFile", File)
        L = 0.5 * ny if ny > 1 else 2.0
        ys = [0.25 + 0.5 * j for j in range(ny)] if ny > 1 else [1.0]
        pos = lambda j, o, a: cx.np.array(np.array([[2.0 + x + 0.25 * j + 0.0625 * o if a == "R" else 0.5 * z - 0.125 * j + 0.25 * o + 0.03125 * x for z in range(nz)] for x in range(nx)]))
        pols = [Pol(pos(j, 0, "R"), pos(j, 0, "Z")) for j in range(ny)]
        g = G.Grid(pols, np.array(ys), L, yperiodic=periodic)
        f = Fld(cx, cyl, L if periodic else None, names)
        shape = (nx, ny, nz)
        maps = {"MXG": 1, "MYG": nslice, "subcell_weights": cx.np.array([1.0])}
        maps["R"], maps["Z"] = cx.np.zeros(shape), cx.np.zeros(shape)
        offs = [o for k in range(1, nslice + 1) for o in (k, -k)]
        for o in offs:
            for a in "RZ":
                m = maps[sname(a, o)] = cx.np.zeros(shape)
                for j in range(ny):
                    m[:, j, :] = pos(j, o, a)
            maps[sname("xt_prime", o)] = cx.reals("xt%d" % o, shape, -1, 5)
        for j in range(ny):
            maps["R"][:, j, :], maps["Z"][:, j, :] = pols[j].R, pols[j].Z
        posts = ("", "_cell_ylow", "_cell_yhigh")
        if has_ly:
            for p in posts:
                maps["Ly" + p] = cx.reals("Ly" + p, shape, "1/4", 3)
            maps["J"] = cx.reals("J", shape, 1, 3)
        given = {k: cx.np.array(v) if isinstance(v, np.ndarray) else v for k, v in maps.items()}
        fn = os.path.join(d, "out.nc")
        for rep in range(2 if again else 1):
            if how == "writer":
                with ZB.MapWriter(fn, new_names=new, metric2d=m2d, quiet=True) as w:
                    if cx.bool("separate%d" % rep):
                        w.add_grid(g)
                        w.add_field(f)
                    else:
                        w.add_grid_field(g, f)
                    w.add_maps(dict(maps))
            else:
                ZB.write_maps(g, f, dict(maps), gridfile=fn, new_names=new, metric2d=m2d, quiet=True)
            got, attrs = read(cx, fn)
            check(cx, got, attrs, fn, locals())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read(cx, fn):
    if cx.sym:
        cx.check(File.store.get("name") == fn, "requested file name")
        return dict(File.store["vars"]), dict(File.store["attrs"])
    from netCDF4 import Dataset

    with Dataset(fn) as ds:
        return {k: np.array(v[...]) if v.dimensions else v[...].item() for k, v in ds.variables.items()}, {k: ds.getncattr(k) for k in ds.ncattrs()}


def check(cx, got, attrs, fn, e):
    nx, ny, nz, f, pols, new, m2d, L = (e[k] for k in ("nx", "ny", "nz", "f", "pols", "new", "m2d", "L"))
    nm = (lambda k: k) if new else (lambda k: next((v + k[len(o):] for o, v in OLD.items() if k == o or k in (o + "_cell_ylow", o + "_cell_yhigh")), k))
    for k, v in e["given"].items():
        cx.check(k in got, k + " is written")
        cx.eq(got[k], v, k + " as given")
    for k, v in (("nx", nx), ("ny", ny), ("nz", nz), ("ixseps1", nx + 1), ("ixseps2", nx + 1)):
        cx.check(int(got[k]) == v, k)
    cx.check(attrs.get("id") and attrs["id"] == attrs.get("grid_id"), "identifier")
    cx.check("title" in attrs and "software_name" in attrs and "software_version" in attrs, "attributes")
    dy = L / ny

    def entry(k, i):
        v = got[nm(k)]
        if m2d:
            return v if np.ndim(v) == 0 else v[i[0], i[1]]
        return v[i]

    for k in POLK + ("dy", "g_yy", "gyy", "B", "Bxy", "pressure", "g_yy_cell_ylow", "g_yy_cell_yhigh"):
        cx.check(nm(k) in got, nm(k) + " is written")
        cx.check(np.shape(got[nm(k)]) == ((nx, ny, nz) if not m2d else () if k == "dz" else (nx, ny)), "shape of " + k)
    for i in np.ndindex(nx, ny, nz):
        if m2d and i[2]:
            continue
        lab = " of cell %s" % (i,)
        c, j = (i[0], i[2]), i[1]
        R, Z = pols[j].R[c], pols[j].Z[c]
        at = lambda k: f.one(k, R, Z, e["ys"][j])
        for k in POLK:
            if m2d and k == "dz":
                cx.eq(got["dz"], pols[0].val("dz", (0, 0)), "dz")
                continue
            cx.eq(entry(k, i), pols[j].val(k, c), k + lab)
        cx.eq(entry("dy", i), dy, "dy" + lab)
        for k, q in (("B", "B"), ("Bxy", "B"), ("pressure", "p")):
            cx.eq(entry(k, i), at(q), k + lab)
        for p in e["posts"]:
            gy = entry("g_yy" + p, i)
            if e["has_ly"]:
                cx.eq(gy * dy * dy, e["given"]["Ly" + p][i] ** 2, "parallel length" + p + lab, tol=1e-5)
            else:
                cx.eq(gy * at("By") ** 2, (R * R if e["cyl"] else 1.0) * at("B") ** 2, "g_yy from the field" + p + lab, tol=1e-5)
        cx.eq(entry("g_yy", i) * entry("gyy", i), 1.0, "gyy is the inverse of g_yy" + lab, tol=1e-5)
        cx.eq(got["R"][i], R, "R" + lab)
        cx.eq(got["Z"][i], Z, "Z" + lab)
        cx.eq(got["Rxy"][i], R, "Rxy" + lab)
    for n in e["names"]:
        for i in np.ndindex(nx, ny, nz):
            c = (i[0], i[2])
            cx.eq(got[n][i], f.one(n, pols[i[1]].R[c], pols[i[1]].Z[c], e["ys"][i[1]]), n + " of cell %s" % (i,))
    for o in e["offs"]:
        for k in POLK + ("dy", "g_yy", "gyy", "B", "Bxy", "pressure"):
            cx.check(sname(nm(k), o) in got and np.shape(got[sname(nm(k), o)]) == (nx, ny, nz), sname(nm(k), o) + " is written")
        S = lambda k, i: got[sname(nm(k), o)][i]
        for i in np.ndindex(nx, ny, nz):
            c, j = (i[0], i[2]), i[1]
            lab = " of cell %s, slice %+d" % (i, o)
            q = Pol(e["pos"](j, o, "R"), e["pos"](j, o, "Z"))
            for k in POLK:
                cx.eq(S(k, i), q.val(k, c), k + lab)
            cx.eq(S("dy", i), dy, "dy" + lab)
            if not e["periodic"] and not 0 <= j + o < ny:
                continue
            R, Z = q.R[c], q.Z[c]
            y = e["ys"][(j + o) % ny]
            at = lambda k: f.one(k, R, Z, y)
            for k, v in (("B", "B"), ("Bxy", "B"), ("pressure", "p")):
                cx.eq(S(k, i), at(v), k + lab)
            r2 = R * R if e["cyl"] else 1.0
            cx.eq(S("g_yy", i) * at("By") ** 2, r2 * at("B") ** 2, "g_yy" + lab, tol=1e-5)
            cx.eq(S("gyy", i) * S("g_yy", i), 1.0, "gyy" + lab, tol=1e-5)


def bad(cx, what):
    """values that are not finite are refused, whatever the array and wherever they are"""
    import zoidberg.zoidberg as ZB

    d = tempfile.mkdtemp(prefix="vz18")
    try:
        File.store = {}
        stubs.stub(cx, "boututils.datafile", "DataFile", File)
        a, b = cx.reals("a", (2, 2, 2), -3, 3), cx.reals("b", (2, 2, 2), -3, 3)
        i = np.unravel_index(cx.choice("where", range(8)), (2, 2, 2))
        which = cx.choice("array", ["a", "b", "none"])
        v = float(what)
        c = np.zeros((2, 2, 2))
        c[i] = v
        dd = {"a": c if which == "a" else a, "b": c if which == "b" else b}
        with ZB.MapWriter(os.path.join(d, "x.nc"), quiet=True) as w:
            r = cx.raises(lambda: w.write_dict(dd), AssertionError, ValueError)
            cx.check(r == (which != "none"), "an error exactly if a value is not finite")
            cx.check(which not in File.store["vars"], "the array is not written")
        cx.check(cx.raises(lambda: w.write_dict({"a": a}), Exception), "a closed file is refused")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def slice_names(cx, fields):
    """different quantities, slices and half-way points never share a name"""
    import zoidberg.zoidberg as ZB

    offs = [-4, -3, -2, -1, -0.5, 0.5, 1, 2, 3, 4]
    a, b = cx.choice("f1", fields), cx.choice("f2", fields)
    s, t = cx.choice("o1", offs), cx.choice("o2", offs)
    n, m = ZB.parallel_slice_field_name(a, s), ZB.parallel_slice_field_name(b, t)
    cx.check((n == m) == (a == b and s == t), "names differ exactly if quantity or offset do")
    cx.check(n not in fields, "not the name of the quantity itself")
    if abs(s) >= 1:
        cx.check(n == sname(a, s), "name of a slice")
    else:
        cx.check(n == a + ("_cell_yhigh" if s > 0 else "_cell_ylow"), "name of a half-way quantity")


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    B = dict(nx=2, ny=2, nz=2, nslice=1, periodic=True, cyl=True, has_ly=True, new=False, m2d=False)
    for nm, k in (("lengths", {}), ("no-lengths", dict(has_ly=False)), ("cartesian", dict(has_ly=False, cyl=False)), ("new-names", dict(new=True)),
                  ("new-names-no-lengths", dict(new=True, has_ly=False, names=("psi", "phi_0"))), ("2d", dict(m2d=True)), ("2d-no-lengths", dict(m2d=True, has_ly=False, nx=3)),
                  ("three-planes", dict(ny=3, nx=1)), ("one-plane", dict(ny=1)), ("slices", dict(nslice=2, ny=3, nx=1, nz=2)), ("slices-3", dict(nslice=3, ny=4, nx=1, nz=1, has_ly=False)),
                  ("open", dict(periodic=False, ny=3, nx=1)), ("open-slices", dict(periodic=False, ny=4, nx=1, nz=1, nslice=2, has_ly=False)), ("no-attributes", dict(names=())),
                  ("write-maps", dict(how="function")), ("write-maps-2d", dict(how="function", m2d=True, has_ly=False)), ("twice", dict(again=True, has_ly=False, nx=1))):
        p = dict(B, **k)
        cs.append(dict(name=nm, fn=content, params=p, bounds="%dx%dx%d, %d slices; free field, pressure, attributes, lengths, maps" % (p["nx"], p["ny"], p["nz"], p["nslice"]), opts=o, cost=3))
    for w in ("nan", "inf", "-inf"):
        cs.append(dict(name="refuse-" + w, fn=bad, params=dict(what=w), bounds="2x2x2, any place", opts=o, cost=1))
    cs.append(dict(name="names", fn=slice_names, params=dict(fields=["R", "g_22", "dx"] if tier == "quick" else ["R", "Z", "g_22", "g_33", "dx", "xt_prime", "xt_primes"]), bounds="offsets up to 4", opts=dict(budget_s=600, max_paths=20000), cost=4))
    if tier != "quick":
        for per in (True, False):
            cs.append(dict(name="large-%s" % per, fn=content, params=dict(B, nx=4, ny=5, nz=3, nslice=3, periodic=per), bounds="4x5x3, three slices", opts=dict(budget_s=1800, obl_timeout_ms=60000), cost=9))
    return cs
