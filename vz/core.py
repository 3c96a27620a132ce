"""Symbolic values for executing the real NumPy code of /repo.

S    : one real number.  Either an exact rational, a z3 Real term, or a float special (nan/inf).
SB   : one symbolic truth value; `bool(SB)` asks the path explorer for a decision.
SArr : np.ndarray subclass.  dtype=object arrays hold S / SB / bool; int and bool arrays stay native.

Floats are read as reals (rounding is outside the model, see DESIGN.md).
"""
import math
import numbers
from fractions import Fraction

import numpy as np
import z3


class EngineLimit(BaseException):
    """The engine cannot follow this operation: the path is reported as undecided, never as pass/fail."""


class PathAbort(BaseException):
    """Current path is infeasible or cut off."""


class _State:
    ctx = None
    affine = False  # keep sums of multiples of inputs in normal form


STATE = _State()


def ctx():
    c = STATE.ctx
    if c is None:
        raise EngineLimit("symbolic operation outside a path")
    return c


# ---------------------------------------------------------------- constants
_SNAP_CACHE = {}


def snap(x):
    """float -> Fraction; a float that is the nearest double of a simple rational becomes that rational."""
    x = float(x)
    f = _SNAP_CACHE.get(x)
    if f is not None:
        return f
    f = Fraction(x)
    if f.denominator > 1 and abs(x) < 1e9:
        g = f.limit_denominator(100000)
        if g == 0 or abs(float(g - f)) > 4e-16 * abs(x):
            g = None
            if x != 0:
                h = (1 / f).limit_denominator(100000)
                if h != 0 and abs(float(1 / h - f)) <= 4e-16 * abs(x):
                    g = 1 / h
        if g is not None:
            f = g
    if len(_SNAP_CACHE) < 200000:
        _SNAP_CACHE[x] = f
    return f


_BIG = 1 << 400


def _trim(f):
    if f.denominator > _BIG:
        return Fraction(round(f * (1 << 300)), 1 << 300)
    return f


_RV = {}


def rv(f):
    r = _RV.get(f)
    if r is None:
        r = z3.RealVal(f)
        if len(_RV) < 100000:
            _RV[f] = r
    return r


def _special(x):
    return isinstance(x, float)


class S:
    __slots__ = ("t", "isint", "absof")
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)
    __array_priority__ = 1000

    def __init__(self, t, isint=False, absof=None):
        self.t = t
        self.isint = isint
        self.absof = absof

    # -- plumbing
    @property
    def const(self):
        return isinstance(self.t, Fraction)

    @property
    def special(self):
        return isinstance(self.t, float)

    @property
    def z(self):
        if isinstance(self.t, Fraction):
            return rv(self.t)
        if isinstance(self.t, float):
            raise EngineLimit("special value in a term")
        return self.t

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_afunc(func, args, kwargs)

    def __hash__(self):
        if isinstance(self.t, z3.ExprRef):
            return hash(self.t)
        return hash(self.t)

    def __repr__(self):
        if isinstance(self.t, z3.ExprRef):
            s = str(self.t)
            return "<S %s>" % (s if len(s) < 60 else s[:57] + "...")
        return "S(%s)" % (float(self.t),)

    def __str__(self):
        c = ctx()
        if c is not None and getattr(c, "tokens", None) is not None:
            return c.token(self, False)
        return self.__repr__()

    def __format__(self, spec):
        if isinstance(self.t, (Fraction, float)):
            return format(float(self.t), spec)
        c = ctx()
        if c is not None and getattr(c, "tokens", None) is not None:
            return c.token(self, bool(spec) and spec[-1:] in "eEfFgG")
        return "<S>"

    # -- ndarray-like scalars
    def reshape(self, *a, **k):
        return arr0(self).reshape(*a, **k)

    def astype(self, *a, **k):
        return arr0(self).astype(*a, **k)[()]

    def copy(self):
        return self

    def item(self):
        return self

    def flatten(self):
        return arr0(self).flatten()

    ravel = flatten

    def sum(self, *a, **k):
        return self

    mean = max = min = sum

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def conjugate(self):
        return self

    # -- conversion
    def __float__(self):
        if isinstance(self.t, (Fraction, float)):
            return float(self.t)
        raise EngineLimit("float() of a symbolic value")

    def __complex__(self):
        return complex(float(self))

    def __int__(self):
        return trunc_int(self)

    __trunc__ = __int__

    def __index__(self):
        if self.const:
            if self.t.denominator != 1:
                raise TypeError("only integers can be used as an index")
            return int(self.t)
        if self.special:
            raise TypeError("only integers can be used as an index")
        if not self.isint:
            raise TypeError("only integer values can be used as an index")
        return ctx().concretize_floor(self)

    def __floor__(self):
        return floor_int(self)

    def __ceil__(self):
        return -floor_int(-self)

    def __round__(self, n=None):
        if n is None:
            return int(s_rint(self))
        p = Fraction(10) ** n
        return s_rint(self * p) / p

    def __bool__(self):
        r = self != 0
        return bool(r)

    # -- arithmetic
    def _bin(self, o, f, uf):
        if isinstance(o, np.ndarray):
            return do_ufunc(uf, "__call__", (self, o), {})
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def _rbin(self, o, f, uf):
        if isinstance(o, np.ndarray):
            return do_ufunc(uf, "__call__", (o, self), {})
        o = lift_or_none(o)
        if o is None:
            return NotImplemented
        return f(o, self)

    def __add__(self, o):
        return self._bin(o, s_add, np.add)

    def __radd__(self, o):
        return self._rbin(o, s_add, np.add)

    def __sub__(self, o):
        return self._bin(o, s_sub, np.subtract)

    def __rsub__(self, o):
        return self._rbin(o, s_sub, np.subtract)

    def __mul__(self, o):
        return self._bin(o, s_mul, np.multiply)

    def __rmul__(self, o):
        return self._rbin(o, s_mul, np.multiply)

    def __truediv__(self, o):
        return self._bin(o, s_div, np.true_divide)

    def __rtruediv__(self, o):
        return self._rbin(o, s_div, np.true_divide)

    def __floordiv__(self, o):
        return self._bin(o, s_floordiv, np.floor_divide)

    def __rfloordiv__(self, o):
        return self._rbin(o, s_floordiv, np.floor_divide)

    def __mod__(self, o):
        return self._bin(o, s_mod, np.remainder)

    def __rmod__(self, o):
        return self._rbin(o, s_mod, np.remainder)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, o):
        return self._bin(o, s_pow, np.power)

    def __rpow__(self, o):
        return self._rbin(o, s_pow, np.power)

    def __neg__(self):
        return s_neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return s_abs(self)

    # -- comparison
    def __lt__(self, o):
        return self._bin(o, s_lt, np.less)

    def __le__(self, o):
        return self._bin(o, s_le, np.less_equal)

    def __gt__(self, o):
        return self._bin(o, s_gt, np.greater)

    def __ge__(self, o):
        return self._bin(o, s_ge, np.greater_equal)

    def __eq__(self, o):
        r = self._bin(o, s_eq, np.equal)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._bin(o, s_ne, np.not_equal)
        return True if r is NotImplemented else r


class SB:
    """Symbolic boolean."""

    __slots__ = ("t",)
    shape = ()
    ndim = 0
    size = 1
    dtype = np.dtype(object)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_afunc(func, args, kwargs)

    def __bool__(self):
        return ctx().branch(self.t)

    def __int__(self):
        return int(bool(self))

    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __hash__(self):
        return hash(self.t)

    def __repr__(self):
        return "<SB>"

    def any(self, *a, **k):
        return self

    all = any

    def astype(self, dt, *a, **k):
        return arr0(self).astype(dt)[()]

    def _b(self, o, f, uf):
        if isinstance(o, np.ndarray):
            return do_ufunc(uf, "__call__", (self, o), {})
        return f(self, o)

    def __and__(self, o):
        return self._b(o, b_and, np.logical_and)

    __rand__ = __and__

    def __or__(self, o):
        return self._b(o, b_or, np.logical_or)

    __ror__ = __or__

    def __xor__(self, o):
        return self._b(o, b_xor, np.logical_xor)

    __rxor__ = __xor__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return b_not(b_xor(self, o))
        return b2s(self) == o

    def __ne__(self, o):
        if isinstance(o, (SB, bool, np.bool_)):
            return b_xor(self, o)
        return b2s(self) != o

    def __add__(self, o):
        return b2s(self) + o

    __radd__ = __add__

    def __mul__(self, o):
        return b2s(self) * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return b2s(self) - o

    def __rsub__(self, o):
        return o - b2s(self)

    def __neg__(self):
        return -b2s(self)

    def __lt__(self, o):
        return b2s(self) < o

    def __gt__(self, o):
        return b2s(self) > o

    def __le__(self, o):
        return b2s(self) <= o

    def __ge__(self, o):
        return b2s(self) >= o


ONE = S(Fraction(1), True)
ZERO = S(Fraction(0), True)
NAN = S(math.nan)


def sb(t):
    """z3 BoolRef -> bool or SB"""
    if isinstance(t, bool):
        return t
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SB(t)


def bt(b):
    """bool/SB -> z3 BoolRef"""
    if isinstance(b, SB):
        return b.t
    if isinstance(b, S):
        b = b != 0
        return bt(b)
    return z3.BoolVal(bool(b))


def isb(x):
    return isinstance(x, (SB, bool, np.bool_))


def b_not(a):
    if isinstance(a, SB):
        t = a.t
        if z3.is_not(t):
            return SB(t.arg(0))
        return SB(z3.Not(t))
    if isinstance(a, S):
        return a == 0
    return not a


def _btruth(a):
    if isinstance(a, S):
        return a != 0
    if isinstance(a, SB):
        return a
    return bool(a)


def b_and(a, b):
    a, b = _btruth(a), _btruth(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return SB(z3.And(a.t, b.t))


def b_or(a, b):
    a, b = _btruth(a), _btruth(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return SB(z3.Or(a.t, b.t))


def b_xor(a, b):
    a, b = _btruth(a), _btruth(b)
    if isinstance(a, bool) and isinstance(b, bool):
        return a != b
    if isinstance(a, bool):
        return b_not(b) if a else b
    if isinstance(b, bool):
        return b_not(a) if b else a
    return SB(z3.Xor(a.t, b.t))


def b2s(b):
    if isinstance(b, SB):
        return S(z3.If(b.t, rv(Fraction(1)), rv(Fraction(0))), True)
    return ONE if b else ZERO


def lift_or_none(x):
    if isinstance(x, S):
        return x
    if isinstance(x, SB):
        return b2s(x)
    if isinstance(x, (bool, np.bool_)):
        return ONE if x else ZERO
    if isinstance(x, (int, np.integer)):
        return S(Fraction(int(x)), True)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (math.inf, -math.inf):
            return S(x)
        return S(snap(x))
    if isinstance(x, Fraction):
        return S(x)
    if isinstance(x, z3.ArithRef):
        return S(z3.ToReal(x), True) if x.is_int() else S(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift_or_none(x[()])
    return None


def lift(x):
    r = lift_or_none(x)
    if r is None:
        raise EngineLimit("cannot lift %r" % (type(x),))
    return r


def _spec2(a, b, op):
    """both as floats where symbolic finite values are stand-ins: only used when one is special"""
    raise NotImplementedError


class A(S):
    """constant plus multiples of inputs, always in normal form (harnesses with affine=True)"""

    __slots__ = ("k", "c", "_t")

    def __init__(self, k, c):
        self.k, self.c, self._t = k, c, None
        self.isint, self.absof = False, None

    @property
    def t(self):
        if self._t is None:
            t = rv(self.c) if self.c else None
            for v, f in self.k.values():
                m = v if f == 1 else rv(f) * v
                t = m if t is None else t + m
            self._t = t
        return self._t

    @property
    def z(self):
        return self.t

    const = property(lambda self: False)
    special = property(lambda self: False)


_TINY = Fraction(1, 10**11)


def affine(k, c):
    q = {}
    for n, (v, f) in k.items():
        r = round(f)
        if abs(f - r) < _TINY:  # rounding of constants, such as weights which should add up to 1
            f = Fraction(r)
        if f:
            q[n] = (v, _trim(f))
    c = _trim(c)
    return A(q, c) if q else S(c)


def affine_input(v):
    return A({v.decl().name(): (v, Fraction(1))}, Fraction(0))


def _parts(a):
    if type(a) is A:
        return a.k, a.c
    if isinstance(a.t, Fraction):
        return {}, a.t
    return None


def _aff2(a, b, fb):
    """a + fb * b"""
    p, q = _parts(a), _parts(b)
    if p is None or q is None:
        return None
    k = dict(p[0])
    for n, (v, f) in q[0].items():
        k[n] = (v, k[n][1] + fb * f if n in k else fb * f)
    return affine(k, p[1] + fb * q[1])


def _scale(a, f):
    return affine({n: (v, g * f) for n, (v, g) in a.k.items()}, a.c * f)


def s_add(a, b):
    if STATE.affine and (type(a) is A or type(b) is A):
        r = _aff2(a, b, 1)
        if r is not None:
            return r
    x, y = a.t, b.t
    if isinstance(x, Fraction):
        if isinstance(y, Fraction):
            return S(_trim(x + y), a.isint and b.isint)
        if x == 0:
            return b
    elif isinstance(y, Fraction) and y == 0:
        return a
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, float) and isinstance(y, float):
            return S(x + y)
        return S(x if isinstance(x, float) else y)
    return S(a.z + b.z, a.isint and b.isint)


def s_neg(a):
    if type(a) is A:
        return _scale(a, -1)
    x = a.t
    if isinstance(x, (Fraction, float)):
        return S(-x, a.isint)
    return S(-x, a.isint)


def s_sub(a, b):
    if STATE.affine and (type(a) is A or type(b) is A):
        r = _aff2(a, b, -1)
        if r is not None:
            return r
    x, y = a.t, b.t
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return S(_trim(x - y), a.isint and b.isint)
    if isinstance(y, Fraction) and y == 0:
        return a
    if isinstance(x, float) or isinstance(y, float):
        return s_add(a, s_neg(b))
    if isinstance(x, Fraction) and x == 0:
        return s_neg(b)
    if x is y or (not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y)):
        return ZERO
    return S(a.z - b.z, a.isint and b.isint)


def _sign_fork(a):
    """-1,0,1 for a finite value (forks)"""
    if a.const:
        return (a.t > 0) - (a.t < 0)
    if bool(a > 0):
        return 1
    if bool(a < 0):
        return -1
    return 0


def s_mul(a, b):
    if type(a) is A and type(b) is not A and isinstance(b.t, Fraction):
        return _scale(a, b.t)
    if type(b) is A and type(a) is not A and isinstance(a.t, Fraction):
        return _scale(b, a.t)
    x, y = a.t, b.t
    if isinstance(x, float) or isinstance(y, float):
        if isinstance(x, float) and isinstance(y, float):
            return S(x * y)
        sp, fin = (x, b) if isinstance(x, float) else (y, a)
        if sp != sp:
            return NAN
        s = _sign_fork(fin)
        return NAN if s == 0 else S(sp * s)
    ii = a.isint and b.isint
    if isinstance(x, Fraction):
        if isinstance(y, Fraction):
            return S(_trim(x * y), ii)
        if x == 0:
            return ZERO if ii else S(Fraction(0))
        if x == 1:
            return S(y, ii)
        if x == -1:
            return S(-y, ii)
    elif isinstance(y, Fraction):
        if y == 0:
            return ZERO if ii else S(Fraction(0))
        if y == 1:
            return S(x, ii)
        if y == -1:
            return S(-x, ii)
    return S(a.z * b.z, ii)


def s_div(a, b):
    if type(a) is A and type(b) is not A and isinstance(b.t, Fraction) and b.t != 0:
        return _scale(a, 1 / b.t)
    x, y = a.t, b.t
    if isinstance(y, float):
        if y != y or isinstance(x, float):
            return NAN
        return S(Fraction(0))
    if isinstance(x, float):
        if x != x:
            return NAN
        s = _sign_fork(b)
        return S(x if s >= 0 else -x)
    if isinstance(y, Fraction):
        if y == 0:
            s = _sign_fork(a)
            return NAN if s == 0 else S(math.inf * s)
        if isinstance(x, Fraction):
            return S(_trim(x / y))
        if y == 1:
            return S(x)
        return S(x * rv(1 / y))
    # symbolic divisor
    if not ctx().known_nonzero(y):
        s = _sign_fork(a)
        return NAN if s == 0 else S(math.inf * s)
    if isinstance(x, Fraction) and x == 0:
        return S(Fraction(0))
    return S(a.z / y)


def s_floor(a):
    if a.isint or a.special:
        return a
    if a.const:
        return S(Fraction(math.floor(a.t)), True)
    if ctx().floor_fork:
        return S(Fraction(ctx().concretize_floor(a)), True)
    return S(z3.ToReal(z3.ToInt(a.t)), True)


def floor_int(a):
    if a.const:
        return math.floor(a.t)
    if a.special:
        raise OverflowError("cannot convert float infinity/nan to integer")
    return ctx().concretize_floor(a)


def trunc_int(a):
    if a.const:
        return math.trunc(a.t)
    if a.special:
        raise (ValueError("cannot convert float NaN to integer") if a.t != a.t
               else OverflowError("cannot convert float infinity to integer"))
    if a.isint:
        return ctx().concretize_floor(a)
    if bool(a >= 0):
        return ctx().concretize_floor(a)
    return -ctx().concretize_floor(-a)


def s_trunc(a):
    if a.isint or a.special:
        return a
    if a.const:
        return S(Fraction(math.trunc(a.t)), True)
    if ctx().floor_fork:
        return S(Fraction(trunc_int(a)), True)
    if bool(a >= 0):
        return s_floor(a)
    return -s_floor(-a)


def s_ceil(a):
    return s_neg(s_floor(s_neg(a)))


def s_rint(a):
    if a.isint or a.special:
        return a
    if a.const:
        return S(Fraction(round(a.t)), True)
    # half-to-even ties
    f = s_floor(a)
    d = a - f
    half = Fraction(1, 2)
    if bool(d < half):
        return f
    if bool(d > half):
        return f + 1
    return f if bool(s_mod(f, lift(2)) == 0) else f + 1


def s_floordiv(a, b):
    if b.const and b.t == 0:
        return NAN
    return s_floor(s_div(a, b))


def s_mod(a, b):
    if a.special or b.special or (b.const and b.t == 0):
        return NAN
    if a.const and b.const:
        return S(a.t - b.t * math.floor(a.t / b.t), a.isint and b.isint)
    q = s_floor(s_div(a, b))
    r = s_sub(a, s_mul(b, q))
    return S(r.t, a.isint and b.isint)


def s_fmod(a, b):
    if a.special or b.special or (b.const and b.t == 0):
        return NAN
    return s_sub(a, s_mul(b, s_trunc(s_div(a, b))))


def s_sqrt(a):
    x = a.t
    if isinstance(x, float):
        return a if (x != x or x > 0) else NAN
    if isinstance(x, Fraction):
        if x < 0:
            return NAN
        n, d = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if n * n == x.numerator and d * d == x.denominator:
            return S(Fraction(n, d))
        return S(snap(math.sqrt(x)))
    return ctx().sqrt(a)


def s_pow(a, b):
    if not b.const:
        raise EngineLimit("symbolic exponent")
    e = b.t
    if e.denominator == 1:
        n = int(e)
        if n == 0:
            return ONE
        if n < 0:
            return s_div(ONE, s_pow(a, S(Fraction(-n))))
        if a.const:
            return S(_trim(a.t**n), a.isint)
        if n > 40:
            raise EngineLimit("large power")
        r = None
        base = a
        while n:
            if n & 1:
                r = base if r is None else s_mul(r, base)
            n >>= 1
            if n:
                base = s_mul(base, base)
        return r
    if e.denominator == 2:
        r = s_sqrt(a)
        return s_pow(r, S(Fraction(e.numerator)))
    if a.const and a.t >= 0:
        return lift(float(a.t) ** float(e))
    raise EngineLimit("fractional power")


def s_abs(a):
    x = a.t
    if isinstance(x, (Fraction, float)):
        return S(abs(x), a.isint)
    return S(z3.If(x >= 0, x, -x), a.isint, absof=x)


def s_sign(a):
    if a.const:
        return S(Fraction((a.t > 0) - (a.t < 0)), True)
    if a.special:
        return a if a.t != a.t else S(Fraction(1 if a.t > 0 else -1))
    return S(z3.If(a.t > 0, rv(Fraction(1)), z3.If(a.t < 0, rv(Fraction(-1)), rv(Fraction(0)))), True)


def _cmp_special(a, b, op):
    fa = a.t if a.special else 0.0
    fb = b.t if b.special else 0.0
    if fa != fa or fb != fb:
        return op == "ne"
    return {"lt": fa < fb, "le": fa <= fb, "eq": fa == fb, "ne": fa != fb}[op]


def s_lt(a, b):
    x, y = a.t, b.t
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x < y
    if isinstance(x, float) or isinstance(y, float):
        return _cmp_special(a, b, "lt")
    if a.absof is not None:
        return SB(z3.And(a.absof < b.z, -a.absof < b.z))
    if b.absof is not None:
        return SB(z3.Or(b.absof > a.z, -b.absof > a.z))
    return SB(a.z < b.z)


def s_le(a, b):
    x, y = a.t, b.t
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x <= y
    if isinstance(x, float) or isinstance(y, float):
        return _cmp_special(a, b, "le")
    if a.absof is not None:
        return SB(z3.And(a.absof <= b.z, -a.absof <= b.z))
    if b.absof is not None:
        return SB(z3.Or(b.absof >= a.z, -b.absof >= a.z))
    return SB(a.z <= b.z)


def s_gt(a, b):
    return s_lt(b, a)


def s_ge(a, b):
    return s_le(b, a)


def s_eq(a, b):
    x, y = a.t, b.t
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return x == y
    if isinstance(x, float) or isinstance(y, float):
        return _cmp_special(a, b, "eq")
    if x is y:
        return True
    if not isinstance(x, Fraction) and not isinstance(y, Fraction) and x.eq(y):
        return True
    return SB(a.z == b.z)


def s_ne(a, b):
    return b_not(s_eq(a, b))


def ite(c, a, b):
    """element-wise select; c bool/SB"""
    if isinstance(c, S):
        c = c != 0
    if not isinstance(c, SB):
        return a if c else b
    if a is b:
        return a
    if isb(a) and isb(b):
        return sb(z3.simplify(z3.If(c.t, bt(a), bt(b))))
    a, b = lift(a), lift(b)
    if a.special or b.special:
        if a.special and b.special and (a.t == b.t or (a.t != a.t and b.t != b.t)):
            return a
        return a if bool(c) else b
    if a.const and b.const and a.t == b.t:
        return a
    return S(z3.If(c.t, a.z, b.z), a.isint and b.isint)


def s_max(a, b):
    if a.special or b.special:
        if (a.special and a.t != a.t) or (b.special and b.t != b.t):
            return NAN
        return a if bool(s_ge(a, b)) else b
    return ite(s_ge(a, b), a, b)


def s_min(a, b):
    if a.special or b.special:
        if (a.special and a.t != a.t) or (b.special and b.t != b.t):
            return NAN
        return a if bool(s_le(a, b)) else b
    return ite(s_le(a, b), a, b)


def s_fmax(a, b):
    if a.special and a.t != a.t:
        return b
    if b.special and b.t != b.t:
        return a
    return s_max(a, b)


def s_fmin(a, b):
    if a.special and a.t != a.t:
        return b
    if b.special and b.t != b.t:
        return a
    return s_min(a, b)


def _uf1(name, fl):
    def f(a):
        if a.special:
            with np.errstate(all="ignore"):
                return lift(float(getattr(np, name)(a.t)))
        if a.const:
            try:
                return lift(fl(float(a.t)))
            except ValueError:
                return NAN
        return ctx().uf(name, a)

    f.__name__ = "s_" + name
    return f


s_sin = _uf1("sin", math.sin)
s_cos = _uf1("cos", math.cos)
s_exp = _uf1("exp", math.exp)
s_log = _uf1("log", math.log)
s_arcsin = _uf1("arcsin", math.asin)
s_arccos = _uf1("arccos", math.acos)
s_arctan = _uf1("arctan", math.atan)
s_tanh = _uf1("tanh", math.tanh)
s_sinh = _uf1("sinh", math.sinh)
s_cosh = _uf1("cosh", math.cosh)


def s_tan(a):
    return s_div(s_sin(a), s_cos(a))


def s_arctan2(a, b):
    if a.const and b.const:
        return lift(math.atan2(float(a.t), float(b.t)))
    return ctx().uf("arctan2", a, b)


def s_hypot(a, b):
    return s_sqrt(a * a + b * b)


def s_square(a):
    return s_mul(a, a)


def s_isnan(a):
    return a.special and a.t != a.t


def s_isinf(a):
    return a.special and a.t == a.t


def s_isfinite(a):
    return not a.special


def s_copysign(a, b):
    return ite(b >= 0, s_abs(a), -s_abs(a))


def s_heaviside(a, b):
    return ite(a > 0, ONE, ite(a < 0, ZERO, b))


# ---------------------------------------------------------------- ufunc tables
def _L1(f):
    return lambda a: f(lift(a))


def _L2(f):
    return lambda a, b: f(lift(a), lift(b))


def _eq_any(a, b):
    if isb(a) and isb(b):
        return b_not(b_xor(a, b))
    la, lb = lift_or_none(a), lift_or_none(b)
    if la is None or lb is None:
        return bool(a == b)
    return s_eq(la, lb)


def _bw(fb, fi):
    def f(a, b):
        if isb(a) and isb(b):
            return fb(a, b)
        return fi(int(a), int(b))

    return f


def _matmul(*a):
    raise EngineLimit("matmul")


def _inv(a):
    return b_not(a) if isb(a) else ~int(a)


UF = {
    "add": _L2(s_add), "subtract": _L2(s_sub), "multiply": _L2(s_mul),
    "divide": _L2(s_div), "true_divide": _L2(s_div), "floor_divide": _L2(s_floordiv),
    "remainder": _L2(s_mod), "fmod": _L2(s_fmod), "power": _L2(s_pow), "float_power": _L2(s_pow),
    "negative": _L1(s_neg), "positive": _L1(lambda a: a),
    "absolute": _L1(s_abs), "fabs": _L1(s_abs), "sign": _L1(s_sign), "square": _L1(s_square),
    "sqrt": _L1(s_sqrt), "reciprocal": _L1(lambda a: s_div(ONE, a)),
    "sin": _L1(s_sin), "cos": _L1(s_cos), "tan": _L1(s_tan), "exp": _L1(s_exp), "log": _L1(s_log),
    "arcsin": _L1(s_arcsin), "arccos": _L1(s_arccos), "arctan": _L1(s_arctan), "arctan2": _L2(s_arctan2),
    "tanh": _L1(s_tanh), "sinh": _L1(s_sinh), "cosh": _L1(s_cosh),
    "hypot": _L2(s_hypot), "floor": _L1(s_floor), "ceil": _L1(s_ceil), "trunc": _L1(s_trunc),
    "rint": _L1(s_rint), "maximum": _L2(s_max), "minimum": _L2(s_min), "fmax": _L2(s_fmax), "fmin": _L2(s_fmin),
    "isnan": _L1(s_isnan), "isinf": _L1(s_isinf), "isfinite": _L1(s_isfinite),
    "less": _L2(s_lt), "less_equal": _L2(s_le), "greater": _L2(s_gt), "greater_equal": _L2(s_ge),
    "equal": _eq_any, "not_equal": lambda a, b: b_not(_eq_any(a, b)),
    "logical_and": b_and, "logical_or": b_or, "logical_xor": b_xor, "logical_not": b_not,
    "bitwise_and": _bw(b_and, lambda a, b: a & b), "bitwise_or": _bw(b_or, lambda a, b: a | b),
    "bitwise_xor": _bw(b_xor, lambda a, b: a ^ b), "invert": _inv, "bitwise_not": _inv,
    "conjugate": _L1(lambda a: a), "copysign": _L2(s_copysign), "heaviside": _L2(s_heaviside),
    "deg2rad": _L1(lambda a: a * (math.pi / 180)), "rad2deg": _L1(lambda a: a * (180 / math.pi)),
    "radians": _L1(lambda a: a * (math.pi / 180)), "degrees": _L1(lambda a: a * (180 / math.pi)),
    "signbit": _L1(lambda a: s_lt(a, ZERO)),
}
BOOLUF = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
          "logical_xor", "logical_not", "isnan", "isinf", "isfinite", "signbit"}
IDENT = {"add": ZERO, "multiply": ONE, "logical_and": True, "logical_or": False, "logical_xor": False,
         "bitwise_or": False, "bitwise_and": True}


class SArr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return do_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return do_afunc(func, args, kwargs)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        r = np.asarray(arr)
        if r.ndim == 0:
            return r[()]
        return r.view(SArr)

    def __getitem__(self, key):
        r = np.ndarray.__getitem__(self, fixkey(key))
        return r

    def __setitem__(self, key, val):
        setitem(self, key, val)

    def __float__(self):
        return float(self[()] if self.ndim == 0 else self.reshape(())[()])

    def __int__(self):
        return int(self[()] if self.ndim == 0 else self.reshape(())[()])

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        return np.ndarray.__bool__(self)

    def __index__(self):
        if self.ndim == 0:
            return self[()].__index__()
        return np.ndarray.__index__(self)

    def astype(self, dtype, *a, **k):
        return convert(self, dtype, copy=True)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return do_ufunc(np.logical_or, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def all(self, axis=None, out=None, keepdims=False, **k):
        return do_ufunc(np.logical_and, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return do_ufunc(np.add, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return do_ufunc(np.multiply, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k):
        return do_ufunc(np.maximum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def min(self, axis=None, out=None, keepdims=False, **k):
        return do_ufunc(np.minimum, "reduce", (self,), dict(axis=axis, keepdims=keepdims))

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        s = self.sum(axis=axis, keepdims=keepdims)
        if axis is None:
            n = self.size
        else:
            ax = axis if isinstance(axis, tuple) else (axis,)
            n = 1
            for i in ax:
                n *= self.shape[i]
        return s / n

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.reshape(-1) if axis is None else self
        r = do_ufunc(np.add, "accumulate", (a,), dict(axis=axis or 0))
        if out is not None:
            out[...] = r
            return out
        return r

    def nonzero(self):
        return np.asarray(realmask(self)).nonzero() if self.dtype == object else np.asarray(self).nonzero()

    def round(self, decimals=0, out=None):
        return AF["around"](self, decimals)

    def clip(self, min=None, max=None, out=None, **k):
        return AF["clip"](self, min, max)

    def dot(self, o, out=None):
        return AF["dot"](self, o)

    def __matmul__(self, o):
        return AF["dot"](self, o)

    def __rmatmul__(self, o):
        return AF["dot"](o, self)

    def tolist(self):
        return np.asarray(self).tolist()

    def copy(self, order="C"):
        return np.ndarray.copy(self, order)

    def __contains__(self, x):
        return bool((self == x).any())

    def __reduce__(self):
        raise EngineLimit("pickle of symbolic array")


def arr0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a.view(SArr)


def is_sym_obj(x):
    return isinstance(x, (S, SB)) or (isinstance(x, np.ndarray) and x.dtype == object)


_FLOATS = (float, np.float64, np.float32, np.floating, "float", "float64", "d", "f", "f8")


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is float or getattr(dt, "_vz_float", False):
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


def is_bool_dtype(dt):
    if dt is None:
        return False
    try:
        return np.dtype(dt).kind == "b"
    except TypeError:
        return False


def is_int_dtype(dt):
    if dt is None:
        return False
    if getattr(dt, "_vz_int", False):
        return True
    try:
        return np.dtype(dt).kind in "iu"
    except TypeError:
        return False


_lift_vec = np.frompyfunc(lift, 1, 1)


def _obj(a):
    """frompyfunc result (array or scalar) -> SArr or scalar"""
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return a[()]
        return a.view(SArr)
    return a


def liftarr(a):
    """any array -> object SArr of S (bools kept)"""
    a = np.asarray(a)
    if a.dtype == object:
        return a.view(SArr)
    if a.dtype.kind == "b":
        return a.astype(object).view(SArr)
    if a.dtype.kind == "c":
        raise EngineLimit("complex array")
    r = np.empty(a.shape, dtype=object)
    if a.ndim == 0:
        r[()] = lift(a[()])
    else:
        flat = r.reshape(-1)
        src = a.reshape(-1)
        for i in range(src.size):
            flat[i] = lift(src[i])
    return r.view(SArr)


def wrap(r):
    """result of a native numpy call -> symbolic-friendly value"""
    if isinstance(r, np.ndarray):
        if r.dtype.kind == "f":
            return liftarr(r) if r.ndim else liftarr(r)
        if r.dtype.kind in "Oiub" and type(r) is np.ndarray:
            return r.view(SArr)
        return r
    if type(r) is tuple:
        return tuple(wrap(x) for x in r)
    if type(r) is list:
        return [wrap(x) for x in r]
    return r


def tidy_bool(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        flat = a.reshape(-1)
        for x in np.asarray(flat):
            if not isinstance(x, (bool, np.bool_)):
                return a
        return np.asarray(a).astype(bool).view(SArr)
    return a


def realmask(a):
    """object array of SB/bool -> native bool array (forks)"""
    a = np.asarray(a)
    out = np.empty(a.shape, dtype=bool)
    f, g = out.reshape(-1), a.reshape(-1)
    for i in range(g.size):
        f[i] = bool(g[i])
    return out


def convert(a, dtype, copy=False):
    base = np.asarray(a) if isinstance(a, np.ndarray) else a
    if isinstance(a, np.ndarray) and a.dtype != object:
        if is_float_dtype(dtype):
            return liftarr(base)
        dt = int if getattr(dtype, "_vz_int", False) else dtype
        return wrap(base.astype(dt))
    if is_float_dtype(dtype):
        return _obj(_lift_vec(np.array(base, dtype=object)))
    if is_int_dtype(dtype):
        out = np.empty(base.shape, dtype=int)
        f, g = out.reshape(-1), base.reshape(-1)
        for i in range(g.size):
            f[i] = int(g[i])
        return out.view(SArr)
    if is_bool_dtype(dtype):
        return tidy_bool(_obj(np.frompyfunc(_btruth, 1, 1)(base)))
    if dtype is object or np.dtype(dtype) == object:
        return base.copy().view(SArr)
    if np.dtype(dtype).kind == "c":
        raise EngineLimit("complex")
    raise EngineLimit("astype %r" % (dtype,))


def fixkey1(k):
    if isinstance(k, S):
        return k.__index__()
    if isinstance(k, SB):
        return bool(k)
    if isinstance(k, slice):
        if isinstance(k.start, S) or isinstance(k.stop, S) or isinstance(k.step, S):
            return slice(*[(x.__index__() if isinstance(x, S) else x) for x in (k.start, k.stop, k.step)])
        return k
    if isinstance(k, np.ndarray):
        if k.dtype == object:
            b = np.asarray(k)
            if b.ndim == 0:
                return fixkey1(b[()])
            els = b.reshape(-1)
            if els.size == 0:
                return b.astype(int)
            if all(isb(e) for e in els):
                return realmask(b)
            out = np.empty(b.shape, dtype=int)
            f = out.reshape(-1)
            for i, e in enumerate(els):
                f[i] = e.__index__()
            return out
        return np.asarray(k)
    if isinstance(k, list):
        if any(isinstance(e, (S, SB)) for e in k):
            return [fixkey1(e) for e in k]
        return k
    return k


def fixkey(key):
    if isinstance(key, tuple):
        return tuple(fixkey1(k) for k in key)
    return fixkey1(key)


def _is_symmask(k):
    if isinstance(k, np.ndarray) and k.dtype == object and k.ndim:
        els = np.asarray(k).reshape(-1)
        if all(isb(e) for e in els) and any(isinstance(e, SB) for e in els):
            return True
    return False


def setitem(a, key, val):
    if isinstance(val, (list, tuple)):
        val = mkarray(val)
    if a.dtype != object:
        # native int / bool storage
        if isinstance(val, (S, SB)) or (isinstance(val, np.ndarray) and val.dtype == object):
            if a.dtype.kind in "iu":
                val = convert(np.asarray(val) if isinstance(val, np.ndarray) else np.asarray(arr0(val)), int)
                val = np.asarray(val)
            elif a.dtype.kind == "b":
                val = realmask(val if isinstance(val, np.ndarray) else arr0(val))
            else:
                raise EngineLimit("store into %s" % a.dtype)
        np.ndarray.__setitem__(a, fixkey(key), np.asarray(val) if isinstance(val, np.ndarray) else val)
        return
    if isinstance(key, SB):
        key = arr0(key)
    if isinstance(key, list):
        if any(isinstance(e, SB) for e in key):
            key = mkarray(key)
    if _is_symmask(key) and (not isinstance(val, np.ndarray) or val.ndim == 0 or val.size == 1):
        if isinstance(val, np.ndarray):
            val = val.reshape(-1)[0]
        m = np.asarray(key)
        base = np.asarray(a)
        if m.shape != base.shape[: m.ndim]:
            raise IndexError("boolean index did not match")
        if not isb(val):
            val = lift(val)
        for idx in np.ndindex(m.shape):
            c = m[idx]
            if isinstance(c, SB):
                if m.ndim == base.ndim:
                    base[idx] = ite(c, val, base[idx])
                else:
                    sub = base[idx]
                    for j in np.ndindex(sub.shape):
                        sub[j] = ite(c, val, sub[j])
            elif c:
                base[idx] = val
        return
    if isinstance(val, np.ndarray):
        if val.dtype != object:
            val = liftarr(val)
        val = np.asarray(val)
        np.ndarray.__setitem__(a, fixkey(key), val)
        return
    if not isinstance(val, (S, SB)):
        l = val if isb(val) else lift_or_none(val)
        val = val if l is None else l
    # scalar objects need wrapping so numpy does not try to iterate
    np.ndarray.__setitem__(a, fixkey(key), val)


def mkarray(obj, dtype=None, copy=True, ndmin=0):
    """np.array on possibly symbolic nested data"""
    if isinstance(obj, SArr):
        r = obj.copy() if copy else obj
        if dtype is not None:
            r = convert(r, dtype)
    elif isinstance(obj, np.ndarray):
        if dtype is None:
            r = wrap(obj.copy() if copy else obj)
        else:
            r = convert(obj, dtype)
    elif isinstance(obj, (S, SB)):
        r = arr0(obj)
        if dtype is not None:
            r = convert(r, dtype)
            if not isinstance(r, np.ndarray):
                r = arr0(r)
    else:
        if _has_sym(obj):
            r = np.array(_plain(obj), dtype=object)
            ok = all(isb(x) or lift_or_none(x) is not None for x in r.reshape(-1))
            if not ok:
                raise EngineLimit("ragged or mixed symbolic array")
            if not all(isb(x) for x in r.reshape(-1)):
                r = _lift_vec(r) if r.ndim else arr0(lift(r[()]))
                if not isinstance(r, np.ndarray):
                    r = arr0(r)
            r = r.view(SArr)
            if dtype is not None:
                r = convert(r, dtype)
        else:
            dt = dtype
            if getattr(dt, "_vz_float", False):
                dt = float
            if getattr(dt, "_vz_int", False):
                dt = int
            n = np.array(obj, dtype=dt) if dt is not None else np.array(obj)
            if n.dtype.kind == "b":
                r = n.astype(object).view(SArr) if n.ndim else n
            else:
                r = wrap(n)
                if not isinstance(r, np.ndarray):
                    r = arr0(r)
    if ndmin and isinstance(r, np.ndarray):
        while r.ndim < ndmin:
            r = r[None]
    return r


def _has_sym(o):
    if isinstance(o, (S, SB)):
        return True
    if isinstance(o, np.ndarray):
        return o.dtype == object
    if isinstance(o, (list, tuple)):
        return any(_has_sym(x) for x in o)
    if isinstance(o, (map, zip)) or hasattr(o, "__next__"):
        return False
    return False


def _plain(o):
    if isinstance(o, np.ndarray):
        return np.asarray(o)
    if isinstance(o, (list, tuple)):
        return [_plain(x) for x in o]
    return o


# ---------------------------------------------------------------- ufunc dispatch
def _base(x):
    if isinstance(x, np.ndarray):
        return np.asarray(x)
    return x


def _asobj(x):
    """-> plain object ndarray (0-d for scalars, so that numpy never re-dispatches on S)"""
    if isinstance(x, np.ndarray):
        return np.asarray(x) if x.dtype == object else np.asarray(liftarr(x))
    if isinstance(x, (list, tuple)):
        return np.asarray(liftarr(mkarray(x)))
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def _store(out, res):
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, np.ndarray):
        raise TypeError("return arrays must be of ArrayType")
    if out.dtype == object:
        out[...] = res
        return out
    if out.dtype.kind in "iu":
        r = res if isinstance(res, np.ndarray) else arr0(res)
        if r.dtype == object and not all(getattr(lift(e), "isint", False) for e in np.asarray(r).reshape(-1)):
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        if r.dtype.kind == "f":
            raise TypeError("Cannot cast ufunc output from dtype('float64') to dtype('int64')")
        out[...] = res
        return out
    if out.dtype.kind == "b":
        out[...] = res
        return out
    if out.dtype.kind == "f":
        raise EngineLimit("in-place store of symbolic values into a native float array")
    raise EngineLimit("store into " + str(out.dtype))


def do_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    name = ufunc.__name__
    sym = any(is_sym_obj(x) or (isinstance(x, (list, tuple)) and _has_sym(x)) for x in inputs)
    if method == "at":
        a, idx = inputs[0], inputs[1]
        if len(inputs) == 3:
            v = np.broadcast_to(_asobj(inputs[2]), np.shape(np.asarray(a)[fixkey(idx)]))
            f = UF[name]
            idx = np.asarray(fixkey(idx))
            for n, i in np.ndenumerate(idx):
                a[i] = f(a[i], v[n])
            return None
        raise EngineLimit("ufunc.at")
    if not sym:
        kw.pop("dtype", None) if getattr(kw.get("dtype"), "_vz_float", False) else None
        with np.errstate(all="ignore"):
            r = getattr(ufunc, method)(*[_base(x) for x in inputs], **kw)
        r = wrap(r)
        if out is not None:
            return _store(out, r)
        return r
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    where = kw.pop("where", True)
    if name == "matmul":
        r = AF["dot"](*inputs)
        return _store(out, r) if out is not None else r
    f = UF.get(name)
    if name == "divmod":
        return do_ufunc(np.floor_divide, "__call__", inputs, {}), do_ufunc(np.remainder, "__call__", inputs, {})
    if name == "modf":
        ip = do_ufunc(np.trunc, "__call__", inputs, {})
        return inputs[0] - ip, ip
    if f is None:
        raise EngineLimit("ufunc " + name)
    if method == "__call__":
        if kw:
            raise EngineLimit("ufunc kwargs %s" % list(kw))
        objs = [_asobj(x) for x in inputs]
        r = _obj(np.frompyfunc(f, len(objs), 1)(*objs))
        if name in BOOLUF:
            r = tidy_bool(r)
        if where is not True:
            if out is None:
                raise EngineLimit("where= without out")
            o = out[0] if isinstance(out, tuple) else out
            r = AF["where"](where, r, o)
        if out is not None:
            return _store(out, r)
        return r
    if method == "reduce":
        a = _asobj(inputs[0])
        if not isinstance(a, np.ndarray):
            a = np.asarray(arr0(a))
        axis = kw.pop("axis", 0)
        keep = kw.pop("keepdims", False)
        if keep is np._NoValue:
            keep = False
        initial = kw.pop("initial", np._NoValue)
        if where is not True and where is not np._NoValue:
            raise EngineLimit("reduce where=")
        if axis is None:
            axes = tuple(range(a.ndim))
        elif isinstance(axis, tuple):
            axes = tuple(x % a.ndim for x in axis)
        else:
            axes = (int(axis) % max(a.ndim, 1),) if a.ndim else ()
        rest = [i for i in range(a.ndim) if i not in axes]
        b = a.transpose(rest + list(axes)).reshape([a.shape[i] for i in rest] + [int(np.prod([a.shape[i] for i in axes]))])
        res = np.empty(b.shape[:-1], dtype=object)
        for idx in np.ndindex(res.shape):
            els = list(b[idx])
            if initial is not np._NoValue and initial is not None:
                els = [initial] + els
            if not els:
                if name not in IDENT:
                    raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
                v = IDENT[name]
            else:
                if name in ("logical_and", "logical_or") and len(els) > 2:
                    v = _nary(name, els)
                else:
                    v = els[0]
                    if name in ("logical_and", "logical_or", "logical_xor"):
                        v = _btruth(v)
                    if name == "add" and isb(v):
                        v = b2s(v)
                    for e in els[1:]:
                        v = f(v, e)
            res[idx] = v
        if keep:
            res = res.reshape([1 if i in axes else a.shape[i] for i in range(a.ndim)])
        if res.ndim == 0:
            r = res[()]
        else:
            r = res.view(SArr)
            if name in BOOLUF:
                r = tidy_bool(r)
        if out is not None and out != (None,):
            return _store(out, r)
        return r
    if method == "accumulate":
        a = _asobj(inputs[0])
        axis = kw.pop("axis", 0)
        a = np.moveaxis(a, axis, 0)
        res = np.empty(a.shape, dtype=object)
        for i in range(a.shape[0]):
            if i == 0:
                res[0] = a[0]
            else:
                res[i] = np.frompyfunc(f, 2, 1)(res[i - 1], a[i])
        r = np.moveaxis(res, 0, axis).view(SArr)
        if out is not None:
            return _store(out, r)
        return r
    if method == "outer":
        a, b = (_asobj(x) if isinstance(x, np.ndarray) else np.asarray(liftarr(mkarray(x))) for x in inputs)
        a = a.reshape(a.shape + (1,) * b.ndim)
        r = _obj(np.frompyfunc(f, 2, 1)(a, b))
        return tidy_bool(r) if name in BOOLUF else r
    raise EngineLimit("ufunc method " + method)


def _nary(name, els):
    stop = name == "logical_or"
    ts = []
    for e in els:
        e = _btruth(e)
        if isinstance(e, SB):
            ts.append(e.t)
        elif e == stop:
            return stop
    if not ts:
        return not stop
    if len(ts) == 1:
        return SB(ts[0])
    return SB(z3.Or(*ts) if stop else z3.And(*ts))


# ---------------------------------------------------------------- __array_function__ dispatch
AF = {}


def do_afunc(func, args, kwargs):
    name = getattr(func, "__name__", "?")
    mod = getattr(func, "__module__", "") or ""
    key = "linalg." + name if "linalg" in mod and "linalg." + name in AF else name
    if key in AF:
        return AF[key](*args, **kwargs)
    if "linalg" in mod or "fft" in mod:
        num = [_numeric(a) for a in args]
        if all(n is not None for n in num):
            return func(*num, **kwargs)
        raise EngineLimit("numpy function %s.%s" % (mod, name))
    impl = getattr(func, "_implementation", None)
    if impl is None:
        raise EngineLimit("numpy function " + name)
    kwargs = dict(kwargs)
    if is_float_dtype(kwargs.get("dtype")):
        kwargs["dtype"] = object
    args = tuple(_s0(a) for a in args)
    r = impl(*args, **kwargs)
    return wrap(r)


def _numeric(a):
    """plain numbers instead of symbolic constants, None if there are inputs"""
    if isinstance(a, SArr):
        els = a.ravel().tolist()
        if any(isinstance(e, S) and not e.const or isinstance(e, SB) for e in els):
            return None
        return np.array([float(e.t) if isinstance(e, S) else e for e in els]).reshape(a.shape)
    if isinstance(a, S):
        return float(a.t) if a.const else None
    return a


def _s0(a):
    if isinstance(a, (S, SB)):
        return arr0(a)
    if type(a) is list and any(isinstance(e, (S, SB)) for e in a):
        return [_s0(e) for e in a]
    if type(a) is tuple and any(isinstance(e, (S, SB)) for e in a):
        return tuple(_s0(e) for e in a)
    return a
