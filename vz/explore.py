"""Path explorer: runs a harness over the real code with symbolic inputs, depth first, by re-execution.

Every decision (truth of a symbolic comparison, integer value of a symbolic index) is taken by asking z3 which
outcomes are possible under the path condition.  The obligations of each path are discharged by z3; a satisfiable
negation is turned into concrete inputs.
"""
import math
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

import numpy as np
import z3

from . import core, laurent
from .core import (S, SB, SArr, EngineLimit, PathAbort, STATE, arr0, b_and, b_not, bt, isb, lift, liftarr, mkarray,
                   rv, sb, s_abs, s_le, s_lt)

REPO = os.environ.get("VZ_REPO", "/repo")


def frac_of(v):
    if isinstance(v, z3.RatNumRef):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if isinstance(v, z3.IntNumRef):
        return Fraction(v.as_long())
    if isinstance(v, z3.AlgebraicNumRef):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError("no value: %s" % v)


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.obligations = 0
        self.obligations_trivial = 0
        self.cvc5 = 0
        self.normal_form = 0


class HarnessError(Exception):
    """the harness cannot drive this version of the code"""


class Base:
    """interface shared by symbolic and concrete contexts"""

    sym = False
    tol = 1e-6

    def patch(self, obj, name, val):
        """replace an attribute for the duration of this run (stubs for the environment)"""
        d = self.__dict__.setdefault("_patched", [])
        if isinstance(obj, dict):
            d.append((obj, name, obj.get(name)))
            obj[name] = val
        else:
            if not hasattr(obj, name):
                raise HarnessError("%s has no %s" % (obj, name))
            own = name in vars(obj) if hasattr(obj, "__dict__") else True
            d.append((obj, name, getattr(obj, name) if own else HarnessError))
            setattr(obj, name, val)

    def unpatch(self):
        for obj, name, old in reversed(self.__dict__.get("_patched", [])):
            if isinstance(obj, dict):
                obj[name] = old
            elif old is HarnessError:
                delattr(obj, name)
            else:
                setattr(obj, name, old)
        self.__dict__["_patched"] = []

    def margin(self, m):
        """safety distance in an assumption; halved on concrete replay so that rounding cannot violate it"""
        from fractions import Fraction as F

        return F(m).limit_denominator(10**9) if self.sym else m * 0.5

    def choice(self, name, options):
        options = list(options)
        i = self.int(name, 0, len(options) - 1)
        return options[int(i)]

    def reals(self, name, shape, lo=-10, hi=10):
        if isinstance(shape, int):
            shape = (shape,)
        r = np.empty(shape, dtype=object if self.sym else float)
        for idx in np.ndindex(*shape):
            r[idx] = self.real(name + "".join("_%d" % i for i in idx), lo, hi)
        return r.view(SArr) if self.sym else r

    def all_(self, conds):
        r = True
        for c in conds:
            r = b_and(r, c)
        return r

    def eq(self, a, b, label, tol=None, scale=1.0):
        """|a-b| <= tol element-wise (shapes must agree)"""
        tol = self.tol if tol is None else tol
        sa, sh = np.shape(a), np.shape(b)
        if sa != sh:
            try:
                ok = np.broadcast_shapes(sa, sh) == sa
            except ValueError:
                ok = False
            if not ok:
                self.check(False, label + ": shape %s vs %s" % (sa, sh))
                return
        if sa == ():
            self._eq1(a, b, label, tol)
            return
        A = np.asarray(a, dtype=object)
        B = np.broadcast_to(np.asarray(b, dtype=object), sa)
        for idx in np.ndindex(*sa):
            self._eq1(A[idx], B[idx], label + "[%s]" % ",".join(map(str, idx)), tol)

    def le(self, a, b, label, tol=None):
        tol = self.tol if tol is None else tol
        self.check(a <= b + tol * (0.5 if not self.sym else 1), label)


class SymCtx(Base):
    sym = True

    def __init__(self, ex, prefix):
        self.ex = ex
        self.stats = ex.stats
        self.prefix = prefix
        self.pos = 0
        self.trace = []
        self.solver = z3.Solver()
        self.solver.set("timeout", ex.branch_timeout_ms)
        self.pc = []
        self.model = None
        self.inputs = {}
        self.kinds = {}
        self.obl = []
        self.bounds = {}
        self.floor_fork = True
        self.sqrts = {}
        self.ufs = {}
        self.known = {}
        self.nz = {}
        self._sqn, self._sqk = None, {}
        self._nf_solver = None
        self.fresh = 0
        self.notes = []
        self.soft = []
        self.np = ex.NP

    # ---- inputs
    def real(self, name, lo=-10, hi=10):
        if name in self.inputs:
            v = self.inputs[name]
            return core.affine_input(v) if core.STATE.affine else S(v)
        v = z3.Real(name)
        self.inputs[name] = v
        self.kinds[name] = "r"
        if lo is not None and hi is not None:
            self.bounds[name] = (Fraction(lo), Fraction(hi))
        if lo is not None:
            self.add(v >= rv(Fraction(lo)))
        if hi is not None:
            self.add(v <= rv(Fraction(hi)))
        return core.affine_input(v) if core.STATE.affine else S(v)

    def int(self, name, lo=0, hi=10):
        if name in self.inputs:
            return S(z3.ToReal(self.inputs[name]), True)
        v = z3.Int(name)
        self.inputs[name] = v
        self.kinds[name] = "i"
        self.bounds[name] = (Fraction(lo), Fraction(hi))
        self.add(v >= lo)
        self.add(v <= hi)
        return S(z3.ToReal(v), True)

    def bool(self, name):
        if name in self.inputs:
            return SB(self.inputs[name])
        v = z3.Bool(name)
        self.inputs[name] = v
        self.kinds[name] = "b"
        return SB(v)

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int(name, 0, len(options) - 1).__index__()]

    # ---- path condition
    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        m = self.model
        if m is not None:
            try:
                if not z3.is_true(m.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def _check(self, *extra, timeout=None):
        self.stats.queries += 1
        if timeout is not None:
            self.solver.set("timeout", timeout)
        t0 = time.time()
        r = self.solver.check(*extra)
        self.stats.solver_s += time.time() - t0
        if timeout is not None:
            self.solver.set("timeout", self.ex.branch_timeout_ms)
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        c = core._btruth(c)
        if c is False:
            raise PathAbort("assume")
        if c is True:
            return
        t = z3.simplify(c.t)
        if z3.is_false(t):
            raise PathAbort("assume")
        self.add(t)
        if self.pos >= len(self.prefix):
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort("assume")
                if r == z3.sat:
                    self.model = self.solver.model()

    def prefer(self, c):
        """soft constraint used only when choosing witnesses/counterexamples"""
        c = core._btruth(c)
        if isinstance(c, SB):
            self.soft.append(c.t)

    def branch(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][0]
        self.ex.tick()
        self.stats.decisions += 1
        if self.pos < len(self.prefix):
            v = self.prefix[self.pos][1]
            forced = self.prefix[self.pos][2]
            self.pos += 1
            self.trace.append(("b", v, forced))
            if not forced:
                self.add(c if v else z3.Not(c))
            self.known[k] = (v, c)
            return v
        self.pos += 1
        v = None
        if self.model is not None:
            e = self.model.eval(c, model_completion=True)
            v = True if z3.is_true(e) else (False if z3.is_false(e) else None)
        if v is None:
            r = self._check(c)
            if r == z3.unsat:
                v = False
                forced = True
                self.trace.append(("b", v, forced))
                self.known[k] = (v, c)
                return v
            v = True
            if r == z3.sat:
                self.model = self.solver.model()
        nc = z3.Not(c)
        r = self._check(nc if v else c)
        if r == z3.unsat:
            self.trace.append(("b", v, True))
            self.known[k] = (v, c)
            return v
        # both possible (or unknown): schedule the other
        self.ex.schedule(self.trace + [("b", not v, False)])
        self.trace.append(("b", v, False))
        m = self.model
        self.add(c if v else nc)
        self.known[k] = (v, c)
        return v

    def token(self, a, lossy):
        """text of a number (harnesses that set tokens = []): equal text exactly for equal numbers; text that was
        rounded may also be equal for numbers that are very close"""
        if a.const:
            r = str(float(a.t))
            if not any(x[1] == r for x in self.tokens):
                self.tokens.append((a, r))
            return r
        for b, r in self.tokens:
            d = a - b
            if d.const:
                if d.t == 0:
                    return r
                continue
            if self.branch((a.z == b.z) if not lossy else z3.And(d.z < z3.Q(1, 10**9), d.z > -z3.Q(1, 10**9))):
                return r
        r = "v%d" % len(self.tokens)
        self.tokens.append((a, r))
        return r

    def known_nonzero(self, t):
        """True if t != 0 on this path (forks when both are possible)"""
        k = t.get_id()
        if k in self.nz:
            return self.nz[k][0]
        r = (self.ex.normal_first and self._nonzero(t)) or not self.branch(t == 0)
        self.nz[k] = (r, t)
        return r

    def concretize_floor(self, a):
        """integer n with n <= a < n+1"""
        t = z3.simplify(a.z)
        if z3.is_rational_value(t):
            return math.floor(frac_of(t))
        key = ("fl", t.get_id())
        if key in self.known:
            return self.known[key][0]
        while True:
            self.ex.tick()
            self.stats.decisions += 1
            if self.pos < len(self.prefix):
                _, n, eq, forced = self.prefix[self.pos]
                self.pos += 1
                self.trace.append(("c", n, eq, forced))
                c = z3.And(t >= n, t < n + 1) if not a.isint else t == n
                if not forced:
                    self.add(c if eq else z3.Not(c))
                if eq:
                    self.known[key] = (n, t)
                    return n
                continue
            self.pos += 1
            if self.model is None:
                r = self._check()
                if r == z3.unsat:
                    raise PathAbort("infeasible")
                if r != z3.sat:
                    raise EngineLimit("no model for an integer value")
                self.model = self.solver.model()
            n = math.floor(frac_of(self.model.eval(t, model_completion=True)))
            c = z3.And(t >= n, t < n + 1) if not a.isint else t == n
            r = self._check(z3.Not(c))
            forced = r == z3.unsat
            if not forced:
                self.ex.schedule(self.trace + [("c", n, False, False)])
            self.trace.append(("c", n, True, forced))
            if not forced:
                self.add(c)
            self.known[key] = (n, t)
            return n

    def sqrt(self, a):
        t = z3.simplify(a.t, som=True)
        if z3.is_rational_value(t):
            return core.s_sqrt(S(frac_of(t)))
        k = t.get_id()
        if k in self.sqrts:
            return self.sqrts[k][0]
        m = self._root(t)
        if m is not None:
            return m
        try:
            if self._sqn is None:
                self._sqn = laurent.Norm(self.bounds, [])
            key = tuple(sorted(self._sqn.poly(t).items()))
        except laurent.TooBig:
            key = None
        if key is not None and key in self._sqk:
            self.sqrts[k] = (self._sqk[key], t)
            return self._sqk[key]
        pos = self._positive(t)
        if not pos and not self.branch(t >= 0):
            return core.NAN
        self.fresh += 1
        v = z3.Real("sqrt!%d" % self.fresh)
        self.add(v > 0 if pos else v >= 0)
        self.add(v * v == t)
        if pos:
            self.nz[v.get_id()] = (True, v)
        r = S(v)
        if key is not None:
            self._sqk[key] = r
        self.sqrts[k] = (r, t)
        return r

    def _positive(self, t):
        """t > 0 follows from the ranges of the inputs"""
        b = self._range(t)
        return b is not None and b[0] > 0

    def _nonzero(self, t):
        b = self._range(t)
        return b is not None and (b[0] > 0 or b[1] < 0)

    def _range(self, t):
        try:
            N = laurent.Norm(self.bounds, list(self.sqrts.values()))
            return N.pbound(N.poly(t))
        except (ValueError, KeyError, ZeroDivisionError, AttributeError, laurent.TooBig, z3.Z3Exception, OverflowError, RecursionError):
            return None

    def _root(self, t):
        """exact root of c * v^2 * ... with inputs v of known sign"""
        try:
            N = laurent.Norm(self.bounds, [])
            p = N.poly(t)
        except laurent.TooBig:
            return None
        if len(p) != 1:
            return None
        (mono, c), = p.items()
        if c <= 0 or not mono or any(x % 2 for _, x in mono):
            return None
        r = core.s_sqrt(S(c))
        for k, x in mono:
            kind, val = N.atoms[k][:2]
            if kind != "v":
                return None
            try:
                lo, hi = N.abound(k)
            except ValueError:
                return None
            if x // 2 % 2 and lo < 0 < hi:
                return None
            f = core.s_pow(S(val), S(Fraction(abs(x) // 2)))
            if x // 2 % 2 and hi <= 0:
                f = -f
            r = r * f if x > 0 else r / f
        return r

    def uf(self, name, *args):
        ts = [z3.simplify(a.z, som=True) for a in args]
        k = (name,) + tuple(t.get_id() for t in ts)
        if k in self.ufs:
            return self.ufs[k][0]
        if name in ("sin", "cos") and z3.is_app(ts[0]) and ts[0].decl().name() == "uf_arctan2":
            y, x = (S(c) for c in ts[0].children())
            r = (y if name == "sin" else x) / core.s_sqrt(x * x + y * y)
            self.ufs[k] = (r, ts)
            return r
        f = z3.Function("uf_" + name, *([z3.RealSort()] * (len(ts) + 1)))
        r = S(f(*ts))
        self.ufs[k] = (r, ts)
        if name in ("sin", "cos"):
            s = z3.Function("uf_sin", z3.RealSort(), z3.RealSort())(ts[0])
            c = z3.Function("uf_cos", z3.RealSort(), z3.RealSort())(ts[0])
            self.add(s * s + c * c == 1)
        if name in ("exp", "cosh"):
            self.add(r.t > 0)
        return r

    # ---- obligations
    def check(self, c, label, gap=None):
        if isinstance(c, np.ndarray):
            c = c.all()
        c = core._btruth(c)
        self.stats.obligations += 1
        if c is True:
            self.stats.obligations_trivial += 1
            return
        self.obl.append((label, bt(c), gap))

    def _eq1(self, a, b, label, tol):
        if isb(a) and isb(b):
            self.check(b_not(core.b_xor(a, b)), label)
            return
        try:
            x, y = lift(a), lift(b)
        except EngineLimit:
            self.check(bool(a == b), label)
            return
        if x.special or y.special:
            self.check(x.special and y.special and (x.t == y.t or (x.t != x.t and y.t != y.t)), label)
            return
        d = x - y
        if d.const:
            self.check(abs(d.t) <= Fraction(tol), label)
            return
        T = rv(Fraction(tol))
        t = d.z
        self.stats.obligations += 1
        G = rv(Fraction(max(tol * 1000, 1e-3)))
        self.obl.append((label, z3.And(t <= T, -t <= T), z3.Or(t > G, -t > G)))

    def raises(self, fn, *exc):
        try:
            fn()
        except exc:
            return True
        return False

    def note(self, s):
        self.notes.append(s)

    # ---- end of path
    def model_values(self, m):
        out = {}
        for n, v in self.inputs.items():
            e = m.eval(v, model_completion=True)
            k = self.kinds[n]
            if k == "b":
                out[n] = bool(z3.is_true(e))
            elif k == "i":
                out[n] = int(frac_of(e))
            else:
                f = frac_of(e)
                out[n] = "%d/%d" % (f.numerator, f.denominator)
        return out

    def by_normal_form(self, t):
        """t is a conjunction of p <= c: True if every p - c is bounded by 0 in monomial normal form"""
        from .laurent import Norm

        if self.__dict__.get("_nf_n") != len(self.sqrts):
            sq = list(self.sqrts.values())
            self._nf = [Norm(self.bounds, sq)] + ([Norm(self.bounds, sq, True)] if sq else [])
            self._nf_n = len(self.sqrts)
        return any(self._nf_holds(nf, t) for nf in self._nf)

    def _nf_solve(self, nf):
        """the solver decides that the sum of the remaining monomials, each within its range, has one sign"""
        p = nf.last
        lo, hi = nf.pbound(p)
        s = self._nf_solver
        if s is None:
            s = self._nf_solver = z3.SolverFor("QF_LRA")
        t0 = time.time()
        s.push()
        tot = []
        for n, (c, a, b) in enumerate(nf.mbounds(p)):
            v = z3.Real("m%d" % n)
            s.add(v >= rv(a), v <= rv(b))
            tot.append(rv(c) * v)
        tot = z3.Sum(tot) if tot else z3.RealVal(0)
        s.add(tot <= 0 if lo > 0 else tot > 0)
        r = s.check()
        s.pop()
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t0
        return r == z3.unsat

    def _nf_holds(self, nf, t):
        from .laurent import TooBig

        try:
            for c in t.children() if z3.is_and(t) else [t]:
                neg = z3.is_not(c)
                if neg:
                    c = c.arg(0)
                k = c.decl().kind()
                a, b = c.children()
                d = nf.add(nf.poly(a), nf.poly(b), -1)
                if k == z3.Z3_OP_GE:
                    d = {m: -v for m, v in d.items()}
                elif k != z3.Z3_OP_LE:
                    return False
                # a - b <= 0 (negated: > 0)
                if nf.sign(d) != (1 if neg else -1) or not self._nf_solve(nf):
                    return False
            return True
        except (ValueError, KeyError, ZeroDivisionError, AttributeError, TooBig, z3.Z3Exception, OverflowError, RecursionError):
            return False

    def solve(self, extra, timeout, first=False):
        """fresh solver for an obligation: default portfolio, then nonlinear tactic, then cvc5"""
        self.stats.queries += 1
        t0 = time.time()
        try:
            s = z3.Solver()
            s.set("timeout", timeout)
            s.add(*self.pc)
            s.add(*extra)
            r = s.check()
            if r != z3.unknown:
                return r, (s.model() if r == z3.sat else None)
            if first:
                return r, None
            for tac in ("qfnra-nlsat", "qfnra"):
                try:
                    s2 = z3.Then("simplify", "solve-eqs", "elim-term-ite", tac).solver() if tac == "qfnra-nlsat" else z3.Tactic(tac).solver()
                    s2.set("timeout", timeout)
                    s2.add(*self.pc)
                    s2.add(*extra)
                    r = s2.check()
                    if r == z3.unsat:
                        return r, None
                    if r == z3.sat:
                        return r, s2.model()
                except z3.Z3Exception:
                    pass
            r = self._cvc5(s, timeout)
            if r is not None:
                return r, None
            self.stats.unknown += 1
            return z3.unknown, None
        finally:
            self.stats.solver_s += time.time() - t0

    def _cvc5(self, s, timeout):
        self.stats.cvc5 += 1
        try:
            txt = s.to_smt2()
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + txt)
            try:
                p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True,
                                   timeout=timeout / 1000 + 5)
                o = p.stdout.strip().splitlines()
                if o and o[0] == "unsat":
                    return z3.unsat
            finally:
                os.unlink(f.name)
        except Exception:
            pass
        return None

    def witness(self):
        """a model of the path condition (soft preferences first)"""
        s = z3.Solver()
        s.set("timeout", self.ex.branch_timeout_ms)
        s.add(*self.pc)
        self.stats.queries += 1
        t0 = time.time()
        try:
            if self.soft:
                if s.check(*self.soft) == z3.sat:
                    return s.model()
                for k in range(len(self.soft) - 1, 0, -1):
                    if k % 3 == 0 and s.check(*self.soft[:k]) == z3.sat:
                        return s.model()
            r = s.check()
            return s.model() if r == z3.sat else None
        finally:
            self.stats.solver_s += time.time() - t0

    def finish(self):
        """discharge obligations -> list of (label, values|None)"""
        res = []
        todo = []
        for label, t, gap in self.obl:
            t = z3.simplify(t)
            if z3.is_true(t):
                self.stats.obligations_trivial += 1
                continue
            if self.ex.normal_first:
                self.ex.tick()
                if self.by_normal_form(t):
                    self.stats.normal_form += 1
                    continue
            todo.append((label, t, gap))
        if not todo:
            return res
        T = self.ex.obl_timeout_ms
        CH = self.ex.obl_batch
        pending = [todo[i : i + CH] for i in range(0, len(todo), CH)]
        while pending:
            grp = pending.pop()
            self.ex.tick()
            if len(grp) == 1:
                # cheap attempt, then polynomial normal form, then the full portfolio
                r, m = self.solve([z3.Not(grp[0][1])], min(T, 1500), first=True)
                if r == z3.unknown:
                    if self.by_normal_form(grp[0][1]):
                        self.stats.normal_form += 1
                        continue
                    r, m = self.solve([z3.Not(grp[0][1])], min(T, 5000))
                if r == z3.unknown and T > 5000:
                    r, m = self.solve([z3.Not(grp[0][1])], T)
            else:
                r, m = self.solve([z3.Not(z3.And(*[t for _, t, _ in grp]))], min(T, 5000), first=True)
            if r == z3.unsat:
                continue
            if r == z3.unknown:
                if len(grp) > 1:
                    h = len(grp) // 2
                    pending += [grp[:h], grp[h:]]
                else:
                    res.append((grp[0][0], None))
                continue
            # counterexample: find which labels fail, prefer a wide gap
            bad = [(l, t, g) for l, t, g in grp if not z3.is_true(m.eval(t, model_completion=True))]
            if not bad:
                bad = grp[:1]
            l, t, g = bad[0]
            cand = []
            if g is not None:
                r2, m2 = self.solve([g], T)
                if r2 == z3.sat and m2 is not None:
                    cand.append(m2)
            cand.append(m)
            res.append((l, [self.model_values(x) for x in cand]))
            rest = [x for x in grp if x[0] != l]
            if len(res) < 6 and rest:
                pending.append(rest)
            if len(res) >= 6:
                break
        return res


class ConcCtx(Base):
    """same interface on the unpatched code with floats"""

    sym = False

    def __init__(self, values):
        self.values = values
        self.np = np
        self.fails = []
        self.checks = 0
        self.inputs = {}
        self.notes = []

    def _get(self, name, lo, hi):
        v = self.values.get(name)
        if v is None:
            lo = 0 if lo is None else lo
            hi = lo + 1 if hi is None else hi
            v = (Fraction(lo) + Fraction(hi)) / 2 if not (lo <= 0 <= hi) else 0
        return v

    def real(self, name, lo=-10, hi=10):
        v = self._get(name, lo, hi)
        v = float(Fraction(v))
        self.inputs[name] = v
        return v

    def int(self, name, lo=0, hi=10):
        v = int(Fraction(self._get(name, lo, hi)))
        self.inputs[name] = v
        return v

    def bool(self, name):
        return bool(self.values.get(name, False))

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        if not bool(c):
            raise PathAbort("assume (concrete)")

    def prefer(self, c):
        pass

    def check(self, c, label, gap=None):
        self.checks += 1
        if isinstance(c, np.ndarray):
            c = c.all()
        if not bool(c):
            self.fails.append(label)

    def _eq1(self, a, b, label, tol):
        self.checks += 1
        tol = tol * 0.5
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            if not bool(a == b):
                self.fails.append(label)
            return
        if fa != fa and fb != fb:
            return
        if fa == fb:
            return
        if not abs(fa - fb) <= tol:
            self.fails.append("%s (got %.9g, want %.9g)" % (label, fa, fb))

    def raises(self, fn, *exc):
        try:
            fn()
        except exc:
            return True
        return False

    def note(self, s):
        self.notes.append(s)


class _Alarm(BaseException):
    pass


class Explorer:
    def __init__(self, harness, NP, budget_s=60, path_s=60, max_paths=2000, max_decisions=20000,
                 branch_timeout_ms=4000, obl_timeout_ms=10000, obl_batch=40, max_witness=12, normal_first=False, affine=False):
        core.STATE.affine = affine
        self.normal_first = normal_first
        self.harness = harness
        self.NP = NP
        self.budget_s = budget_s
        self.path_s = path_s
        self.max_paths = max_paths
        self.max_decisions = max_decisions
        self.branch_timeout_ms = branch_timeout_ms
        self.obl_timeout_ms = obl_timeout_ms
        self.obl_batch = obl_batch
        self.max_witness = max_witness
        self.stats = Stats()
        self.work = [[]]
        self.functions = set()

    def schedule(self, prefix):
        self.work.append(prefix)

    def tick(self):
        self.n_dec += 1
        if self.n_dec > self.max_decisions:
            raise EngineLimit("decision limit")
        if time.time() > self.deadline:
            raise EngineLimit("time budget")

    def _profile(self):
        fs = self.functions
        pre = os.path.join(REPO, "zoidberg") + os.sep

        def prof(frame, event, arg):
            if event == "call":
                fn = frame.f_code.co_filename
                if fn.startswith(pre):
                    fs.add(fn[len(pre):-3] + "." + frame.f_code.co_qualname)

        return prof

    def run(self):
        """-> dict(cex=[...], undecided=[...], witnesses=[...])"""
        t0 = time.time()
        self.deadline = t0 + self.budget_s
        cex, undecided, wit = [], [], []
        aborted = 0
        while self.work:
            if time.time() > t0 + self.budget_s or self.stats.paths >= self.max_paths:
                undecided.append(dict(reason="budget: %d path prefixes left" % len(self.work), values=None))
                break
            prefix = self.work.pop()
            self.n_dec = 0
            cx = SymCtx(self, prefix)
            STATE.ctx = cx
            err = None
            if self.stats.paths < 40:
                sys.setprofile(self._profile())
            try:
                self.harness(cx)
            except PathAbort:
                aborted += 1
                continue
            except EngineLimit as e:
                err = ("limit", "%s @ %s" % (e, _where()))
            except RecursionError as e:
                err = ("limit", "recursion")
            except Exception as e:
                err = ("exception", "%s: %s @ %s" % (type(e).__name__, str(e)[:200], _where()))
            finally:
                sys.setprofile(None)
                STATE.ctx = None
                cx.unpatch()
            self.stats.paths += 1
            STATE.ctx = cx
            try:
                if err:
                    m = None
                    vals = []
                    try:
                        self.deadline = max(self.deadline, time.time() + 20)
                        m = cx.witness()
                        if m is not None:
                            vals.append(cx.model_values(m))
                            vals += diversify(cx, 4)
                    except BaseException:
                        pass
                    (undecided).append(dict(reason=err[0] + ": " + err[1], values=vals, kind=err[0]))
                    if len(undecided) > 25:
                        break
                    continue
                try:
                    for label, vals in cx.finish():
                        if vals is None:
                            w = cx.witness()
                            undecided.append(dict(reason="solver unknown: " + label, kind="unknown",
                                                  values=[cx.model_values(w)] + diversify(cx, 4) if w is not None else []))
                        else:
                            cex.append(dict(label=label, values=vals))
                except EngineLimit as e:
                    undecided.append(dict(reason="limit: " + str(e), values=[], kind="limit"))
                if len(wit) < self.max_witness or (self.stats.paths & (self.stats.paths - 1)) == 0:
                    m = cx.model if (cx.model is not None and not cx.soft) else cx.witness()
                    if m is not None:
                        wit.append(cx.model_values(m))
                if len(cex) >= 8:
                    break
            finally:
                STATE.ctx = None
        return dict(cex=cex, undecided=undecided, witnesses=wit, aborted=aborted)


def diversify(cx, n):
    """further models of the path condition, pushed apart input by input"""
    out = []
    reals = [(k, v) for k, v in cx.inputs.items() if cx.kinds[k] == "r"]
    s = z3.Solver()
    s.set("timeout", 2000)
    s.add(*cx.pc)
    import random

    rnd = random.Random(1)
    for i in range(n):
        s.push()
        for k, v in reals:
            s.push()
            c = rnd.randint(-40, 40)
            s.add(v >= rv(Fraction(c, 8)), v <= rv(Fraction(c + 3, 8)))
            if s.check() != z3.sat:
                s.pop()
            if i == 0 and len(reals) > 60:
                break
        if s.check() == z3.sat:
            out.append(cx.model_values(s.model()))
        s.reset()
        s.set("timeout", 2000)
        s.add(*cx.pc)
    return out


def _where():
    tb = sys.exc_info()[2]
    best = None
    for f in traceback.extract_tb(tb):
        if "/zoidberg/" in f.filename:
            best = f
    last = traceback.extract_tb(tb)[-1]
    s = "%s:%d" % (os.path.basename(last.filename), last.lineno)
    if best is not None:
        s = "%s:%d/%s" % (os.path.basename(best.filename), best.lineno, s)
    return s
