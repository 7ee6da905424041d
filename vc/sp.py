"""Assumed contract of scipy.interpolate.interp1d (linear, previous, next) and numpy.interp over symbolic abscissae or ordinates."""
from __future__ import annotations

import numpy as np
from scipy.interpolate import interp1d

from vc import engine as E
from vc import rt, seq as S
from vc.engine import SReal, Unsupported, cur, to_real, z3
from vc.seq import SSeq, is_seq, is_sym, ite, zi


def _sel(s, j):
    """element j (z3 Int) of a sequence without splitting the path"""
    if type(s.n) is int:
        v = to_real(s.at(s.n - 1))
        for i in range(s.n - 2, -1, -1):
            v = to_real(ite(zi(j) == i, s.at(i), v))
        return v
    return to_real(S.merged(lambda: s.at(j)))


class Interp:
    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        if kind not in ("linear", "previous", "next"):
            raise Unsupported(f"interp1d kind {kind}")
        self.kind = kind
        self.ties = False
        self.x, self.y = SSeq.of(x), SSeq.of(y)
        ex = cur()
        nx, ny = self.x.n, self.y.n
        if (type(nx) is int and type(ny) is int and nx != ny) or (not (type(nx) is int and type(ny) is int) and not ex.branch(zi(nx) == zi(ny))):
            raise ValueError("x and y arrays must be equal in length along interpolation axis.")
        self.n = nx if type(nx) is int else ny
        if type(self.n) is int and self.n == 0:
            raise ValueError("x array must have at least one entry")
        if type(self.n) is not int:
            if not ex.branch(zi(self.n) > 0):
                raise ValueError("x array must have at least one entry")
            i, j = S.fresh_index(self.n, "ia"), S.fresh_index(self.n, "ib")
            lt = E.lift_bool(S.truth(self.x.at(i) < self.x.at(j)))
            if ex.prove(z3.Implies(i < j, lt), 5000)[0] != "proved":
                raise Unsupported("interp1d over abscissae not known to be strictly increasing")
        else:
            xs = [self.x.at(i) for i in range(self.n)]
            ys = [self.y.at(i) for i in range(self.n)]
            if any(is_sym(v) for v in xs):
                # sorted (stable) unless the caller promises order; ties split the path
                order = []
                for i in range(self.n):
                    p = len(order)
                    while not assume_sorted and p > 0 and bool(S.truth(xs[i] < xs[order[p - 1]])):
                        p -= 1
                    order.insert(p, i)
            else:
                order = list(range(self.n)) if assume_sorted else list(np.argsort(np.asarray([float(v) for v in xs]), kind="mergesort"))
            self.x, self.y = SSeq.conc([xs[i] for i in order]), SSeq.conc([ys[i] for i in order])
            for a, b in zip(order, order[1:]):
                if bool(S.truth(xs[a] == xs[b])):
                    if kind != "linear" or isinstance(fill_value, str):
                        raise Unsupported("interp1d over repeated abscissae")
                    self.ties = True  # as numpy.interp, to which scipy delegates here: the last of the repeated points counts
        self.below = self.above = None
        self.extrapolate = False
        if isinstance(fill_value, str):
            if fill_value != "extrapolate":
                raise ValueError("fill_value")
            self.extrapolate = True
            self.bounds_error = False
        else:
            if fill_value is None:
                self.bounds_error = True if bounds_error is None else bounds_error
                self.below = self.above = float("nan")
            else:
                self.bounds_error = bool(bounds_error)
                if isinstance(fill_value, tuple) and len(fill_value) == 2:
                    self.below, self.above = fill_value
                else:
                    self.below = self.above = fill_value
        self._y = self.y
        self.loc = z3.Function(ex.fresh("loc"), z3.RealSort(), z3.IntSort())
        self.done = set()

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"interp1d.{n}")

    def _end(self, last):
        return to_real(self.x.at(0) if not last else (self.x.at(self.n - 1) if type(self.n) is int else S.merged(lambda: self.x.at(self.n - 1))))

    def _one(self, t):
        ex = cur()
        t = to_real(t)
        n = zi(self.n)
        x0, x1 = self._end(False), self._end(True)
        lo, hi = t.e < x0.e, t.e > x1.e
        j = self.loc(t.e)
        ins = b = None
        if type(self.n) is int and self.n == 1:
            v = to_real(self.y.at(0))
            if self.kind == "linear" and self.extrapolate:
                raise Unsupported("extrapolating a single point")
        elif self.kind == "linear" and self.ties:
            xa, xb, ya, yb = _sel(self.x, j), _sel(self.x, j + 1), _sel(self.y, j), _sel(self.y, j + 1)
            b = z3.And(j >= 0, j < n, xa.e <= t.e, z3.Or(j == n - 1, t.e < xb.e))
            w = (t - SReal(xa.e)) / SReal(E.z3.If(xb.e == xa.e, z3.RealVal(1), xb.e - xa.e))
            v = to_real(ite(j == n - 1, ya, SReal(ya.e, ya.nan) + (SReal(yb.e, yb.nan) - SReal(ya.e, ya.nan)) * SReal(to_real(w).e)))
        elif self.kind == "linear":
            xa, xb, ya, yb = _sel(self.x, j), _sel(self.x, j + 1), _sel(self.y, j), _sel(self.y, j + 1)
            rng = z3.And(j >= 0, j < n - 1)
            b = z3.And(rng, z3.Or(xa.e <= t.e, j == 0), z3.Or(t.e <= xb.e, j == n - 2))
            if type(self.n) is not int and not self.extrapolate:
                # the interval is often one the contract already talks about: then use that index in the value
                inside = z3.And(z3.Not(lo), z3.Not(hi))
                ex.fact_local(z3.Implies(inside, b))
                for c in ex.state.get("ints", ()):
                    if ex.prove(z3.Implies(inside, j == c), 1500)[0] == "proved":
                        j, b = c, None
                        xa, xb, ya, yb = _sel(self.x, j), _sel(self.x, j + 1), _sel(self.y, j), _sel(self.y, j + 1)
                        break
            w = (t - SReal(xa.e)) / SReal(E.z3.If(xb.e == xa.e, z3.RealVal(1), xb.e - xa.e))
            v = SReal(ya.e, ya.nan) + (SReal(yb.e, yb.nan) - SReal(ya.e, ya.nan)) * SReal(to_real(w).e)
        else:
            xa, xb, v = _sel(self.x, j), _sel(self.x, j + 1 if self.kind == "previous" else j - 1), _sel(self.y, j)
            if self.kind == "previous":
                b = z3.And(j >= 0, j < n, z3.Or(xa.e <= t.e, j == 0), z3.Or(j == n - 1, t.e < xb.e))
            else:
                b = z3.And(j >= 0, j < n, z3.Or(xa.e >= t.e, j == n - 1), z3.Or(j == 0, xb.e < t.e))
        if b is not None:
            ex.fact_local(b if self.extrapolate else z3.Implies(z3.And(z3.Not(lo), z3.Not(hi)), b))
        if self.extrapolate:
            out = v
        else:
            out = ite(lo, self.below, ite(hi, self.above, v))
        out = to_real(out)
        if t.nan is not None:
            out = to_real(ite(t.nan, float("nan"), out))
        return SReal(out.e, out.nan, True)

    def __call__(self, x):
        q = x
        if type(x) is S.SZero:
            return S.SZero(self(x.v))
        if not is_seq(q):
            t = to_real(q)
            if self.bounds_error and bool(S.truth(E.mkbool(z3.Or(t.e < self._end(False).e, t.e > self._end(True).e)))):
                raise ValueError("A value in x_new is outside the interpolation range.")
            return self._one(q)
        q = SSeq.of(q)
        if self.bounds_error:
            x0, x1 = self._end(False), self._end(True)
            if bool(S.seq_any(SSeq(q.n, lambda k: E.mkbool(z3.Or(to_real(q.at(k)).e < x0.e, to_real(q.at(k)).e > x1.e)), "array"))):
                raise ValueError("A value in x_new is outside the interpolation range.")
        return SSeq(q.n, lambda k: self._one(q.at(k)), "array")


class Lazy:
    """an interpolator over concrete points, called with concrete or symbolic arguments"""

    def __init__(self, a, k):
        self.f = interp1d(*a, **k)
        self.a, self.k = a, k

    def __getattr__(self, n):
        return getattr(self.f, n)

    def __call__(self, x):
        if is_sym(x):
            return Interp(*self.a, **self.k)(x)
        return self.f(x)


def m_interp1d(*a, **k):
    if any(is_sym(v) for v in a) or any(is_sym(v) for v in k.values()):
        return Interp(*a, **k)
    return Lazy(a, k)


def m_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp period")
    xp, fp = SSeq.of(xp), SSeq.of(fp)
    return Interp(xp, fp, fill_value=(fp.at(0) if left is None else left, fp.at(fp.n - 1) if right is None else right), bounds_error=False, assume_sorted=True)(x)


rt.EXTRA_MODELS[interp1d] = m_interp1d
rt.EXTRA_MODELS[np.interp] = m_interp
rt.ALWAYS.add(interp1d)
