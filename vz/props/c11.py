"""C11: a caching tracer is transparent, also after interruptions."""
import io
import os
import shutil
import tempfile

import numpy as np

from .. import core, stubs


class Crash(BaseException):
    pass


class Disk:
    """scratch directory; the writing of text files and the renaming of files are interruptible"""

    def __init__(self, cx, crash=None):
        self.cx = cx
        self.dir = tempfile.mkdtemp(prefix="vz-c11-")
        self.snap = None
        self.steps, self.crash = 0, crash
        self.table = []
        real_save, real_load = np.savetxt, np.loadtxt

        def save(fname, X, *a, **k):
            if cx.sym:
                A = np.asarray(X, dtype=object)
                A = A.reshape(-1, 1) if A.ndim == 1 else A
                if A.ndim != 2:
                    raise ValueError("Expected 1D or 2D array")
                lines = []
                for row in A:
                    out = []
                    for v in row:
                        self.table.append(core.lift(v))
                        out.append("%d.5" % (len(self.table) - 1))
                    lines.append(" ".join(out) + "\n")
            else:
                b = io.StringIO()
                real_save(b, X, *a, **k)
                lines = b.getvalue().splitlines(True)
            own = not hasattr(fname, "write")
            f = open(fname, "w") if own else fname
            self.step()
            for ln in lines:
                for part in (ln[: len(ln) // 2], ln[len(ln) // 2:]):
                    try:
                        f.write(part)
                    except TypeError:
                        f.write(part.encode())
                    f.flush()
                    self.step()
            if own:
                f.close()

        def load(fname, *a, **k):
            r = real_load(fname, *a, **k)
            if not cx.sym:
                return r
            o = np.empty(r.shape, dtype=object)
            for i in np.ndindex(*r.shape):
                if abs(r[i] % 1 - 0.5) > 1e-9 or not (0 <= int(r[i]) < len(self.table)):
                    o[i] = core.lift(float(r[i]) + 12345.0)  # part of a number
                else:
                    o[i] = self.table[int(r[i])]
            return core.mkarray(o)

        cx.patch(cx.np, "savetxt", save)
        cx.patch(cx.np, "loadtxt", load)
        for n in ("replace", "rename", "link", "remove", "unlink"):
            self.wrap(n)

    def wrap(self, n):
        real = getattr(os, n)

        def f(*a, **k):
            self.step()
            r = real(*a, **k)
            self.step()
            return r

        self.cx.patch(os, n, f)

    def step(self):
        if self.snap is not None:
            return
        self.steps += 1
        if self.crash is not None and self.steps == self.crash:
            self.snap = self.dir + ".snap"
            shutil.copytree(self.dir, self.snap)
            raise Crash()

    def recover(self):
        """what happened while the interrupted call unwound did not reach the disk"""
        self.cx.unpatch_after = True
        if self.snap is not None:
            shutil.rmtree(self.dir)
            shutil.copytree(self.snap, self.dir)
            shutil.rmtree(self.snap)
            self.snap = None
        self.crash = None

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
        if self.snap:
            shutil.rmtree(self.snap, ignore_errors=True)


class Tracer:
    def __init__(self, cx):
        self.cx = cx
        self.calls = 0

    def at(self, x, z, y, rtol=None):
        e = 0.0 if rtol is None else rtol * 1e5
        return x * 0.7 + y * 1.1 + e + 0.123456789012345, z * 0.3 - y * 0.6 - e + 0.987654321098765

    def follow_field_lines(self, x, z, y, rtol=None):
        self.calls += 1
        r = self.cx.np.zeros((len(y),) + np.shape(x) + (2,))
        for k in range(len(y)):
            a, b = self.at(x, z, y[k], rtol)
            r[k, ..., 0] = a
            r[k, ..., 1] = b
        return r


def expect(cx, tr, r, x, z, y, rtol, label):
    shape = (len(y),) + np.shape(x) + (2,)
    cx.check(np.shape(r) == shape, label + ": shape %s" % (np.shape(r),))
    if np.shape(r) != shape:
        return
    for k in range(len(y)):
        a, b = tr.at(x, z, y[k], rtol)
        cx.eq(r[k, ..., 0], a, label + ": x", tol=1e-10)
        cx.eq(r[k, ..., 1], b, label + ": z", tol=1e-10)


def _begin(cx, crash=None):
    if cx.sym:
        cx.tokens = []
    d = Disk(cx, crash)
    return d


def _request(cx, i, shapes, rtols, ny, free):
    s = shapes[0] if len(shapes) == 1 else cx.choice("shape%d" % i, shapes)
    n = ny[0] if len(ny) == 1 else cx.choice("ny%d" % i, ny)
    k = int(np.prod(s))
    x = cx.np.array(np.array([1.25, 2.5, 1.25, 0.5][:k]).reshape(s))
    z = cx.np.array(np.array([2.5, 1.25, 0.5, 3.0][:k]).reshape(s))
    y = cx.np.array([0.5, 1.25, 2.5, 3.0][:n])
    for nm in free:
        v = {"x": x, "z": z, "y": y}[nm]
        v[(0,) * v.ndim] = cx.real("%s%d" % (nm, i), 0, 4)
    rt = rtols[0] if len(rtols) == 1 else cx.choice("rtol%d" % i, rtols)
    return x, z, y, rt


def history(cx, shapes, rtols, ny, n=2, near=False, free="xzy"):
    """n requests, then the first one again; each gets its own answer"""
    import zoidberg.fieldtracer as FT

    d = _begin(cx)
    try:
        tr = Tracer(cx)
        name = os.path.join(d.dir, "cache_%s")
        c = FT.CachingFieldTracer(tr, cachename=name)
        reqs = []
        for i in range(n):
            if i == 0 or not near:
                reqs.append(_request(cx, i, shapes, rtols, ny, free))
            else:
                # differs from the previous one in a single place
                x, z, y, rt = reqs[-1]
                x, z, y = (cx.np.array(v) for v in (x, z, y))
                w = cx.choice("which%d" % i, ["x", "z", "y", "swap"])
                if w == "swap":
                    x, z = z, x
                else:
                    v = {"x": x, "z": z, "y": y}[w]
                    j = cx.choice("where%d" % i, range(v.size))
                    v[np.unravel_index(j, v.shape)] = cx.real("new%d" % i, 0, 4)
                reqs.append((x, z, y, rt))
        for i, (x, z, y, rt) in enumerate(reqs + reqs[:1]):
            if i == n and cx.bool("fresh"):
                c = FT.CachingFieldTracer(tr, cachename=name)
            kx, kz, ky = (cx.np.array(v) for v in (x, z, y))
            kw = {} if rt is None else dict(rtol=rt)
            before = tr.calls
            r = c.follow_field_lines(x, z, y, **kw)
            expect(cx, tr, r, kx, kz, ky, rt, "request %d" % i)
            cx.eq(x, kx, "x is not modified")
            cx.eq(z, kz, "z is not modified")
            cx.eq(y, ky, "y is not modified")
            if i == n:
                cx.check(tr.calls == before, "a repeated request is not traced again")
            r[...] = 99.0  # what the caller does with the result must not matter
    finally:
        d.close()


def crash(cx, shape, ny, maxstep):
    """interrupted at any point, then asked again (also for another trace first)"""
    import zoidberg.fieldtracer as FT

    k = cx.choice("step", range(1, maxstep + 1))
    d = _begin(cx, crash=k)
    try:
        tr = Tracer(cx)
        name = os.path.join(d.dir, "cache_%s")
        x, z, y, _ = _request(cx, 0, [shape], [None], [ny], "x")
        c = FT.CachingFieldTracer(tr, cachename=name)
        kx, kz = cx.np.array(x), cx.np.array(z)
        try:
            r = c.follow_field_lines(x, z, y)
            expect(cx, tr, r, kx, kz, y, None, "not interrupted")
        except Crash:
            pass
        d.recover()
        for n in range(2):
            c = FT.CachingFieldTracer(tr, cachename=name)
            r = c.follow_field_lines(kx, kz, y)
            expect(cx, tr, r, kx, kz, y, None, "after the interruption (%d)" % n)
    finally:
        d.close()


def failing(cx):
    """an error of the tracer is passed on, and not remembered"""
    import zoidberg.fieldtracer as FT

    d = _begin(cx)
    try:
        tr = Tracer(cx)
        x, z, y, _ = _request(cx, 0, [(2,)], [None], [2], "xz")
        nfail = cx.int("nfail", 0, 2)
        nfail = int(nfail)
        left = [nfail]

        class Bad:
            def follow_field_lines(self, *a, **k):
                if left[0]:
                    left[0] -= 1
                    raise RuntimeError("no trace")
                return tr.follow_field_lines(*a, **k)

        c = FT.CachingFieldTracer(Bad(), cachename=os.path.join(d.dir, "cache_%s"))
        for i in range(nfail):
            cx.check(cx.raises(lambda: c.follow_field_lines(x, z, y), RuntimeError), "error is passed on")
        expect(cx, tr, c.follow_field_lines(x, z, y), x, z, y, None, "after %d errors" % nfail)
    finally:
        d.close()


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    big = dict(budget_s=500, obl_timeout_ms=20000, max_paths=6000)
    cs.append(dict(name="two-requests", fn=history, params=dict(shapes=[(1,)], rtols=[None], ny=[2]), bounds="two requests of one line with free x, z, y, first repeated", opts=big, cost=6, max_cases=40))
    cs.append(dict(name="two-lines", fn=history, params=dict(shapes=[(2,)], rtols=[None], ny=[2], free="xz"), bounds="two requests of two lines, one with free x, z", opts=big, cost=6, max_cases=40))
    cs.append(dict(name="shapes", fn=history, params=dict(shapes=[(1,), (2,), (1, 2), (2, 1)], rtols=[None], ny=[2, 3], free="x"), bounds="two requests of 4 shapes and 2 numbers of planes", opts=big, cost=9, max_cases=60))
    cs.append(dict(name="one-change", fn=history, params=dict(shapes=[(2,)], rtols=[None], ny=[2], near=True, free="x"), bounds="second request differs in one value, or x and z exchanged", opts=big, cost=5))
    cs.append(dict(name="tolerances", fn=history, params=dict(shapes=[(1,)], rtols=[None, 1e-6, 1e-5], ny=[2], free="x"), bounds="two requests with different tolerance", opts=big, cost=5))
    cs.append(dict(name="interrupted-1x2", fn=crash, params=dict(shape=(2,), ny=2, maxstep=14), bounds="interruption at each of the first 14 steps of writing", opts=o, cost=4))
    cs.append(dict(name="interrupted-2d", fn=crash, params=dict(shape=(1, 2), ny=3, maxstep=18), bounds="interruption at each of the first 18 steps", opts=o, cost=4))
    cs.append(dict(name="errors", fn=failing, bounds="up to two errors of the tracer", opts=o, cost=2))
    if tier != "quick":
        cs.append(dict(name="three-requests", fn=history, params=dict(shapes=[(2,)], rtols=[None, 1e-6], ny=[2], n=3, near=True), bounds="three requests", opts=dict(budget_s=2400, obl_timeout_ms=60000, max_paths=50000), cost=9, max_cases=200))
        cs.append(dict(name="interrupted-long", fn=crash, params=dict(shape=(2, 3), ny=4, maxstep=60), bounds="60 steps", opts=dict(budget_s=2400), cost=9))
    return cs
