"""C28: lines of a limited number of harmonics."""
import numpy as np

from .. import core, stubs

TAU = 2 * np.pi


def _fit(cx):
    """linear least squares, exact"""
    if not cx.sym:
        return
    import scipy.optimize as O

    def ls(fun, x0, *a, args=(), **k):
        n = len(x0)
        at = lambda v: list(fun(cx.np.array(v), *args))
        f0 = at([0.0] * n)
        J = np.zeros((len(f0), n))
        for j in range(n):
            fj = at([1.0 if i == j else 0.0 for i in range(n)])
            for i in range(len(f0)):
                d = core.lift(fj[i] - f0[i])
                if not d.const:
                    raise core.EngineLimit("not linear")
                J[i, j] = float(d.t)
        P = np.linalg.solve(J.T @ J, J.T)
        x = cx.np.zeros(n)
        for j in range(n):
            x[j] = -sum((float(P[j, i]) * f0[i] for i in range(len(f0))), core.lift(0.0))
        res = at(list(x))
        o = type("Result", (), {})()
        o.x = x
        o.cost = 0.0
        o.fun = res
        o.optimality = 0.0
        return o

    stubs.stub(cx, O, "least_squares", ls)


def line(cx, n, num, modes, m, free):
    import zoidberg.rzline as L
    import zoidberg.spectralline as SL

    stubs.rz(cx)
    _fit(cx)
    co = {}
    for d, base in ((0, (3.0, 1.0, 0.0)), (1, (0.0, 0.0, 1.0))):
        # only one coordinate is free: the enclosed area is then linear
        f = (lambda n, a, b: cx.real("RZ"[d] + n, a, b)) if d == free else (lambda n, a, b: 0.0625)
        co[d] = [base[0] + f("0", -1, 1)]
        for k in range(1, modes + 1):
            co[d] += [(base[1] if k == 1 else 0.0) + f("c%d" % k, "-1/8", "1/8"), (base[2] if k == 1 else 0.0) + f("s%d" % k, "-1/8", "1/8")]

    def at(d, t):
        s = co[d][0]
        for k in range(1, modes + 1):
            s = s + float(np.cos(k * t)) * co[d][2 * k - 1] + float(np.sin(k * t)) * co[d][2 * k]
        return s

    th = TAU * np.arange(n) / n
    if cx.sym:
        # positions only: the length of the line is not linear in the points
        cx.patch(L.RZline, "distance", lambda self, *a, **k: np.linspace(0, 7.0, len(self.R) + 1))
    l = L.RZline(cx.np.array([at(0, t) for t in th]), cx.np.array([at(1, t) for t in th]))
    f = SL.SpectralLine(l, num)
    # the first point of the line is at -pi
    for t in (0.0, 0.3, 2.5, -3.0, 6.0, 9.0):
        cx.eq(f.Rvalue(t), at(0, t + np.pi), "R", tol=1e-4)
        cx.eq(f.Zvalue(t), at(1, t + np.pi), "Z", tol=1e-4)
    arr = np.array([0.5, 1.0, 4.0])
    v, w = f.Rvalue(arr), f.Zvalue(arr)
    again = f.Rvalue(arr)
    for i, t in enumerate(arr):
        cx.eq(v[i], at(0, t + np.pi), "R of an array", tol=1e-4)
        cx.eq(w[i], at(1, t + np.pi), "Z of an array", tol=1e-4)
        cx.eq(again[i], v[i], "repeated")
    e = f.equallySpaced(m) if m else f.equallySpaced()
    N = m or n
    cx.check(len(e.R) == N and len(e.Z) == N, "number of points")
    for i in range(min(N, len(e.R))):
        t = TAU * i / N + np.pi
        cx.eq(e.R[i], at(0, t), "R of equally spaced points", tol=1e-4)
        cx.eq(e.Z[i], at(1, t), "Z of equally spaced points", tol=1e-4)


def configs(tier):
    s = dict(budget_s=100, affine=True)
    cs = []
    for n, num, modes, m in ((8, 1, 1, 0), (8, 3, 2, 6), (9, 2, 2, 12), (12, 5, 3, 0)):
      for d in (0, 1):
        cs.append(dict(name="line-%d-%d-%s" % (n, num, "RZ"[d]), fn=line, params=dict(n=n, num=num, modes=modes, m=m, free=d), opts=s, cost=2,
                       bounds="%d points, %d modes, %d of them free" % (n, num, modes)))
    return cs
