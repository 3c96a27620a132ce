"""C12: tracers and fields that use an external service hand its answers back unchanged, also if requests fail."""
import sys
import types

import numpy as np

from .. import stubs


class NS(types.SimpleNamespace):
    pass


class Service:
    """stand-in for the remote tracing service: lines are linear in the requested angle"""

    def __init__(self, cx, forward, y0):
        self.cx, self.forward, self.y0 = cx, forward, y0
        self.steps, self.configs = [], []
        self.types = NS(Points3D=NS, LineTracing=NS, Task=NS, LinePhiSpan=NS, MagneticConfig=NS)
        self.service = NS(trace=self.trace)

    def trace(self, pos, config, task, *rest, **kw):
        if not hasattr(task, "linesPhi"):
            s = 1 if self.forward else -1
            return NS(lines=[NS(vertices=NS(x1=np.array([6.0, 6.0]), x2=np.array([0.0, 0.001 * s]), x3=np.array([0.0, 0.0])))])
        self.steps.append(task.step)
        self.configs.append(getattr(config, "configIds", getattr(config, "name", None)))
        N = self.cx.np
        out = []
        phi = task.linesPhi.phi
        c, s = np.cos(self.y0), np.sin(self.y0)
        for a, b, z in zip(pos.x1, pos.x2, pos.x3):
            u = a * c + b * s  # major radius, if the point is on the plane y0
            R, Z = self.line(u, z, phi)
            if bool(config.inverseField) != ((phi > 0) != self.forward):
                R = R + 50.0
            t = (a * s - b * c) * 7.0  # distance from the plane
            out.append(NS(vertices=NS(x1=[a, 0.1, R * 0.6 + t], x2=[b, 0.3, R * 0.8 + t], x3=[z, 0.7, Z])))
        return NS(lines=out)

    @staticmethod
    def line(x, z, dphi):
        return x + 0.25 * dphi, z + 0.5 * dphi + 0.125 * x * dphi


class FakePool:
    def __init__(self, fault, log):
        self.fault, self.log = fault, log

    def __call__(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    join = terminate = close

    def apply_async(self, fn, args=(), kwds={}, **k):
        log, fault = self.log, self.fault

        class R:
            def get(self, timeout=None):
                log.append(timeout)
                if fault():
                    raise IOError("request failed")
                return fn(*args, **kwds)

        return R()


def _service(cx, forward, y0):
    import time

    svc = Service(cx, forward, y0)
    osa = types.ModuleType("osa")
    osa.Client = lambda *a, **k: svc
    cx.patch(sys.modules, "osa", osa)
    rq = types.ModuleType("requests")
    rq.get = lambda *a, **k: NS(raise_for_status=lambda: None)
    cx.patch(sys.modules, "requests", rq)
    cx.patch(time, "sleep", lambda *a: None)
    return svc


def web(cx, xs, zs, chunk, ny, y0, ident, down=False, chunk_call=None, stepsize=None, stepsize_call=None):
    import zoidberg.fieldtracer as FT

    fw = cx.bool("forward")
    svc = _service(cx, fw, y0)
    stubs.stub(cx, "multiprocessing", "Pool", FakePool(lambda: False, []))
    cfg = NS(name="mine") if ident == "config" else None
    kw = {} if stepsize is None else dict(stepsize=stepsize)
    t = FT.FieldTracerWeb(config=cfg, configId=None if cfg else 15, chunk=chunk, **kw)
    mk = lambda name, s: cx.real(name, 3, 8) if s == () else cx.reals(name, s, 3, 8)
    x, z = mk("x", xs), mk("z", zs)
    y = [y0 + (i if not down else -i) * 0.375 for i in range(ny)]
    kw = {}
    if chunk_call:
        kw["chunk"] = chunk_call
    if stepsize_call:
        kw["stepsize"] = stepsize_call
    kx = np.array(x, dtype=object, copy=True)
    r = t.follow_field_lines(x, z, cx.np.array(y), **kw)
    s = np.broadcast_shapes(xs, zs) or (1,)
    cx.check(np.shape(r) == (ny,) + s + (2,), "shape of the result")
    if np.shape(r) != (ny,) + s + (2,):
        return
    xb = np.broadcast_to(np.asarray(x, dtype=object), s)
    zb = np.broadcast_to(np.asarray(z, dtype=object), s)
    for i in np.ndindex(*s):
        for k in range(ny):
            R, Z = svc.line(xb[i], zb[i], y[k] - y0)
            cx.eq(r[(k,) + i + (0,)], R, "R of line %s at plane %d" % (i, k), tol=1e-5)
            cx.eq(r[(k,) + i + (1,)], Z, "Z of line %s at plane %d" % (i, k), tol=1e-5)
    cx.check(all(v == (stepsize_call or stepsize or 0.01) for v in svc.steps), "requested step size")
    cx.check(all(v == ("mine" if cfg else 15) for v in svc.configs), "requested configuration")
    cx.eq(np.asarray(x, dtype=object), kx, "starting points are not modified")


def faults(cx, n, chunk, retry, attempts, where):
    """some of the requests fail"""
    import zoidberg.fieldtracer as FT

    svc = _service(cx, True, 0.0)
    count = [0, 0]
    flags = [cx.bool("fail%d" % i) for i in range(attempts)]

    def fault():
        i = count[0]
        count[0] += 1
        f = i < attempts and bool(flags[i])
        count[1] += int(f)
        return f

    log = []
    stubs.stub(cx, "multiprocessing", "Pool", FakePool(fault, log))
    kw = {"retry": retry} if where == "call" else {}
    t = FT.FieldTracerWeb(configId=15, chunk=chunk, retry=retry if where == "init" else None, run_timeout=17)
    x, z = cx.reals("x", n, 3, 8), cx.reals("z", n, 3, 8)
    y = [0.0, 0.5]
    try:
        r = t.follow_field_lines(x, z, cx.np.array(y), **kw)
    except IOError:
        cx.check(count[1] >= retry, "an error is raised only after the retries are used up")
        return
    cx.check(count[1] <= retry, "an error is raised if requests keep failing")
    cx.check(np.shape(r) == (2, n, 2), "shape of the result")
    for i in range(n):
        R, Z = svc.line(x[i], z[i], 0.5)
        cx.eq(r[1, i, 0], R, "R of line %d" % i, tol=1e-5)
        cx.eq(r[1, i, 1], Z, "Z of line %d" % i, tol=1e-5)
        cx.eq(r[0, i, 0], x[i], "start")
    cx.check(all(v == 17 for v in log), "requested time limit")


def w7x(cx, shape, kinds):
    """field values of the service, with failing requests"""
    import zoidberg.field as F

    svc = _service(cx, True, 0.0)
    if hasattr(F, "tracer"):
        cx.patch(F, "tracer", None)
    flags = [cx.choice("outcome%d" % i, kinds) for i in range(3)]
    n = [0]
    confs = []

    class Interrupt(KeyboardInterrupt):
        pass

    def fld(p):
        return [2.0 * p[0] + p[2], 3.0 * p[1] - p[0], p[2] + 1.0]

    def mf(pos, config, **k):
        i = n[0]
        n[0] += 1
        if i < 3 and flags[i] == "error":
            raise IOError("failed")
        if i < 3 and flags[i] == "interrupt":
            raise Interrupt()
        confs.append(config.configIds)
        q = [fld(p) for p in zip(pos.x1, pos.x2, pos.x3)]
        return NS(field=NS(x1=[v[0] for v in q], x2=[v[1] for v in q], x3=[v[2] for v in q]))

    svc.service.magneticField = mf
    f = F.W7X_vacuum_on_demand(7)
    x, z = cx.reals("x", shape, 4, 7), cx.reals("z", shape, -1, 1)
    phi = 0.5
    c, s = np.cos(phi), np.sin(phi)
    try:
        B = f.Bxyzfunc(x, z, phi)
    except IOError:
        cx.check(n[0] >= 2 and all(v == "error" for v in flags[: n[0]]), "an error is passed on only after another try")
        return
    except Interrupt:
        cx.check(n[0] >= 1 and flags[n[0] - 1] == "interrupt" and "interrupt" not in flags[: n[0] - 1], "an interruption ends the request")
        return
    cx.check("interrupt" not in flags[: n[0]], "an interruption is not ignored")
    for i in np.ndindex(*shape):
        b = fld((x[i] * c, x[i] * s, z[i]))
        for j, (w, nm) in enumerate(((b[0] * c + b[1] * s, "radial"), (b[1] * c - b[0] * s, "toroidal"), (b[2], "vertical"))):
            cx.eq(B[j][i], w, "%s field of point %s" % (nm, i), tol=1e-5)
    cx.check(all(v == 7 for v in confs), "requested configuration")


def fusionsc(cx, shape, ny, down, rtol, kw):
    import zoidberg.fieldtracer as FT

    fake = types.ModuleType("fusionsc")
    seen = {}
    y0 = 0.5
    c, s = np.cos(y0), np.sin(y0)

    def poincare(points, field, phis, turns, direction=None, **k):
        seen.update(k, field=field, turns=turns, direction=direction)
        X, Y, Z = points
        N = cx.np
        out = N.zeros((3, len(phis)) + tuple(shape) + (1,))
        for k_, ph in enumerate(phis):
            for i in np.ndindex(*shape):
                u = X[i] * c + Y[i] * s
                t = X[i] * s - Y[i] * c
                R, Zn = Service.line(u, Z[i], ph - y0)
                out[(0, k_) + i + (0,)], out[(1, k_) + i + (0,)], out[(2, k_) + i + (0,)] = R * 0.6 + t, R * 0.8 + t, Zn
        return out

    fake.flt = NS(poincareInPhiPlanes=poincare)
    cx.patch(sys.modules, "fusionsc", fake)
    tr = FT.FusionSCTracer("thefield", **kw)
    x, z = cx.reals("x", shape, 3, 8), cx.reals("z", shape, -2, 2)
    y = [y0 + (i if not down else -i) * 0.375 for i in range(ny)]
    for again in (False, True):
        rt = rtol if not again else None
        r = tr.follow_field_lines(x, z, cx.np.array(y), **({} if rt is None else dict(rtol=rt)))
        cx.check(np.shape(r) == (ny,) + tuple(shape) + (2,), "shape of the result")
        for i in np.ndindex(*shape):
            for k in range(ny):
                R, Z = Service.line(x[i], z[i], y[k] - y0)
                cx.eq(r[(k,) + i + (0,)], R, "R at plane %d" % k, tol=1e-5)
                cx.eq(r[(k,) + i + (1,)], Z, "Z at plane %d" % k, tol=1e-5)
        cx.check(seen["direction"] == ("cw" if down else "ccw"), "direction")
        cx.check(seen["field"] == "thefield" and seen["turns"] == 1, "field")
        want = rt if rt is not None else kw.get("targetError")
        cx.check(seen.get("targetError") == want, "tolerance of the call is used, else the one of the tracer")
        seen.clear()


def configs(tier):
    cs = []
    o = dict(budget_s=300, obl_timeout_ms=20000)
    for nm, k in (("serial", dict(xs=(3,), zs=(3,), chunk=2, ny=3, y0=0.0, ident="config")), ("serial-2d", dict(xs=(2, 2), zs=(2, 2), chunk=3, ny=2, y0=0.5, ident="config", stepsize=0.02)),
                  ("pool", dict(xs=(5,), zs=(5,), chunk=2, ny=2, y0=0.0, ident="id", stepsize_call=0.1)), ("pool-2d", dict(xs=(2, 2), zs=(2, 2), chunk=9, ny=3, y0=0.5, ident="id", chunk_call=1, down=True)),
                  ("pool-exact", dict(xs=(4,), zs=(4,), chunk=2, ny=2, y0=0.25, ident="id", down=True, stepsize=0.02, stepsize_call=0.1)),
                  ("one-chunk", dict(xs=(2,), zs=(2,), chunk=2, ny=2, y0=1.0, ident="id")),
                  ("scalar-x", dict(xs=(), zs=(3,), chunk=2, ny=2, y0=0.0, ident="id")), ("scalar-z", dict(xs=(3,), zs=(), chunk=5, ny=2, y0=0.0, ident="config"))):
        cs.append(dict(name="web-" + nm, fn=web, params=k, bounds=str(k), opts=o, cost=3))
    for n, ch, rt, at, wh in ((4, 2, 1, 4, "call"), (5, 2, 2, 5, "init"), (3, 2, 0, 2, "call"), (3, 1, 3, 6, "call")):
        cs.append(dict(name="faults-%d-%d" % (n, rt), fn=faults, params=dict(n=n, chunk=ch, retry=rt, attempts=at, where=wh), bounds="%d lines in chunks of %d, %d retries, any of the first %d requests fails" % (n, ch, rt, at), opts=o, cost=4))
    cs.append(dict(name="w7x-faults", fn=w7x, params=dict(shape=(2,), kinds=["ok", "error", "interrupt"]), bounds="two points; each of three requests works, fails or is interrupted", opts=o, cost=2))
    cs.append(dict(name="w7x-2d", fn=w7x, params=dict(shape=(2, 2), kinds=["ok", "error"]), bounds="2x2 points", opts=o, cost=2))
    for nm, sh, ny, dn, rt, kw in (("1d", (2,), 3, False, None, {}), ("2d", (2, 2), 2, True, 1e-3, {}), ("tolerance", (1,), 2, False, 1e-3, dict(targetError=1e-5))):
        cs.append(dict(name="fusionsc-" + nm, fn=fusionsc, params=dict(shape=sh, ny=ny, down=dn, rtol=rt, kw=kw), bounds="%s lines" % (sh,), opts=o, cost=2))
    if tier != "quick":
        cs.append(dict(name="faults-long", fn=faults, params=dict(n=6, chunk=1, retry=3, attempts=9, where="init"), bounds="6 chunks, 9 attempts", opts=dict(budget_s=1200, max_paths=10000), cost=9))
    return cs
