"""Forward-mode differentiation over floats or symbolic reals, through NumPy object arrays."""
import math

import numpy as np

from . import core
from .core import S


def _f(name, v):
    if isinstance(v, S):
        return getattr(core, "s_" + name)(v)
    return getattr(math, {"arctan": "atan"}.get(name, name))(v)


class D:
    def __init__(self, v, d):
        self.v, self.d = v, tuple(d)

    def _o(self, o):
        if isinstance(o, np.ndarray) and o.ndim == 0:
            o = o[()]
        if isinstance(o, D):
            return o
        if isinstance(o, (np.floating, np.integer)):
            o = o.item()
        return D(o, (0.0,) * len(self.d))

    def __add__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = self._o(o)
        return D(self.v + o.v, [a + b for a, b in zip(self.d, o.d)])

    __radd__ = __add__

    def __neg__(self):
        return D(-self.v, [-a for a in self.d])

    def __pos__(self):
        return self

    def __sub__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = self._o(o)
        return D(self.v - o.v, [a - b for a, b in zip(self.d, o.d)])

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = self._o(o)
        return D(self.v * o.v, [a * o.v + self.v * b for a, b in zip(self.d, o.d)])

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        o = self._o(o)
        q = self.v / o.v
        return D(q, [(a - q * b) / o.v for a, b in zip(self.d, o.d)])

    def __rtruediv__(self, o):
        return self._o(o) / self

    def __pow__(self, n):
        if isinstance(n, D):
            n = n.v
        n = float(n)
        if n == int(n):
            n = int(n)
            if n == 0:
                return D(self.v * 0 + 1.0, [0.0 * a for a in self.d])
            if n == 1:
                return self
            if n < 0:
                return 1.0 / (self ** (-n))
            p = self.v ** (n - 1)
            return D(p * self.v, [n * p * a for a in self.d])
        if n == 0.5:
            return self.sqrt()
        if n == -0.5:
            return 1.0 / self.sqrt()
        if n == 1.5:
            return self * self.sqrt()
        p = self.v ** (n - 1)
        return D(p * self.v, [n * p * a for a in self.d])

    def sqrt(self):
        s = _f("sqrt", self.v)
        return D(s, [a / (2 * s) for a in self.d])

    def log(self):
        return D(_f("log", self.v), [a / self.v for a in self.d])

    def exp(self):
        e = _f("exp", self.v)
        return D(e, [a * e for a in self.d])

    def sin(self):
        s, c = _f("sin", self.v), _f("cos", self.v)
        return D(s, [a * c for a in self.d])

    def cos(self):
        s, c = _f("sin", self.v), _f("cos", self.v)
        return D(c, [-a * s for a in self.d])

    def arctan2(self, o):
        o = self._o(o)
        y, x = self, o
        if isinstance(y.v, S) or isinstance(x.v, S):
            v = core.s_arctan2(core.lift(y.v), core.lift(x.v))
        else:
            v = math.atan2(y.v, x.v)
        r2 = x.v * x.v + y.v * y.v
        return D(v, [(x.v * a - y.v * b) / r2 for a, b in zip(y.d, x.d)])

    def conjugate(self):
        return self

    def __repr__(self):
        return "D(%r,%r)" % (self.v, self.d)


def variables(*vals):
    """one D per value, differentiated with respect to each of them; as 1-element object arrays"""
    n = len(vals)
    return [D(v, [1.0 if i == j else 0.0 for j in range(n)]) for i, v in enumerate(vals)]


def arr(d):
    a = np.empty(1, dtype=object)
    a[0] = d
    return a


def first(r, n):
    """element of the result of a function of arr()s"""
    if isinstance(r, np.ndarray):
        r = r.ravel()[0]
    return r if isinstance(r, D) else D(r, (0.0,) * n)
