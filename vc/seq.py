"""Sequences of symbolic length (lists, tuples, 1-D numpy arrays) and the assumed contracts of the numpy and
builtin functions the repository applies to them."""
from __future__ import annotations

import builtins
import itertools
import math
import types

import numpy as np

from vc import engine as E
from vc.engine import (FALSE, TRUE, Infeasible, PathEnd, RaisedCase, SBool, SDate, SInt, SReal, STimedelta, Sym,
                       Unsupported, b_and, b_not, b_or, cur, int_expr, is_num, mkbool, to_real, z3)


def zi(x):
    return x.e if type(x) is SInt else (z3.IntVal(x) if type(x) is int else x)


def conc(n):
    """python int if the (z3) integer is a literal, else None"""
    if type(n) is int:
        return n
    if type(n) is SInt:
        n = n.e
    if isinstance(n, int):
        return int(n)
    v = z3.simplify(n)
    return v.as_long() if z3.is_int_value(v) else None


def mkidx(k):
    return k if type(k) is int else SInt(k)


def is_sym(x, depth=3):
    if isinstance(x, Sym) or type(x) in (SReal, SInt, SBool, SDate, STimedelta, SSeq):
        return True
    if depth <= 0:
        return False
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return any(is_sym(y, depth - 1) for y in x)
    if t is dict:
        return any(is_sym(y, depth - 1) for y in x.values())
    if t is np.ndarray and x.dtype == object:
        return any(is_sym(y, depth - 1) for y in x.ravel())
    return False


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    ta, tb = type(a), type(b)
    boolish = lambda x: type(x) is SBool or type(x) is bool or type(x) is np.bool_
    intish = lambda x: type(x) is SInt or (isinstance(x, int) and type(x) is not SBool) or isinstance(x, np.integer)
    if boolish(a) and boolish(b):
        return mkbool(z3.If(c, E.lift_bool(bool(a) if type(a) is np.bool_ else a), E.lift_bool(bool(b) if type(b) is np.bool_ else b)))
    if intish(a) and intish(b):
        return SInt(z3.If(c, int_expr(a), int_expr(b)))
    ra, rb = to_real(a), to_real(b)
    if type(ra) is SReal and type(rb) is SReal:
        n = None
        if ra.nan is not None or rb.nan is not None:
            n = z3.simplify(z3.If(c, ra.isnan, rb.isnan))
        return SReal(z3.If(c, ra.e, rb.e), n, ra.np64 or rb.np64)
    if ta is SDate and tb is SDate:
        return SDate(z3.If(c, a.e, b.e))
    return a if cur().branch(c) else b


def merged(fn):
    """Value of a side-effect free expression with its internal branches folded into one term where possible."""
    ex = cur()
    rs = ex.merge(fn)
    if not rs:
        raise Infeasible()
    if any(isinstance(v, RaisedCase) for _, v in rs):
        # exceptional cases: split the path
        for c, v in rs[:-1]:
            if ex.branch(c):
                if isinstance(v, RaisedCase):
                    raise v.exc
                return v
        ex.assume(mkbool(rs[-1][0]))
        v = rs[-1][1]
        if isinstance(v, RaisedCase):
            raise v.exc
        return v
    val = rs[-1][1]
    for c, v in reversed(rs[:-1]):
        val = ite(c, v, val)
    return val


_clock = itertools.count(1)


def _tick():
    return next(_clock)


class SSeq(Sym):
    """n: python int or z3 Int; getter: index -> value.  kind: list | tuple | array | gen"""

    __slots__ = ("n", "_v", "kind", "dtype_", "origin", "born", "__weakref__")
    # _v: versions [time, getter, cache].  An element function is evaluated as of the time it was created, so that an
    # in-place update of a sequence it reads, made afterwards, is not seen (and one made before is).

    def __init__(self, n, getter, kind="list", dtype=None, origin=None):
        c = conc(n)
        self.n = c if c is not None else (n.e if type(n) is SInt else n)
        self._v = [[_tick(), getter, {}]]
        self.kind = kind
        self.dtype_ = dtype
        self.origin = origin
        self.born = E.CUR.branch_id if E.CUR is not None else 0

    @property
    def getter(self):
        return self._v[-1][1]

    @getter.setter
    def getter(self, g):
        ex = cur()
        if self.born != ex.branch_id:
            if ex.writes is None:
                raise Unsupported("in-place update inside a merged evaluation")
            ex.writes.setdefault(id(self), (self, len(self._v), []))
        self._v.append([_tick(), g, {}])
        self.origin = None

    @property
    def cache(self):
        return self._v[-1][2]

    @cache.setter
    def cache(self, c):
        self._v[-1][2] = c

    def snapshot(self):
        s = SSeq(self.n, None, self.kind, self.dtype_, self.origin)
        s._v = [self.version(cur())]
        return s

    def version(self, ex):
        vs = self._v
        if len(vs) == 1 or ex.asof is None or vs[0][0] > ex.asof or (ex.writes is not None and id(self) in ex.writes):
            return vs[-1]
        for v in reversed(vs):
            if v[0] <= ex.asof:
                return v

    @property
    def __class__(self):
        return {"list": list, "tuple": tuple, "array": np.ndarray, "gen": type(x for x in ())}[self.kind]

    __hash__ = None

    @staticmethod
    def of(x, kind="array"):
        """View any sequence as SSeq."""
        if type(x) is SSeq:
            return SSeq(x.n, x.at, kind, x.dtype_, x.origin if x.origin is not None and len(x.origin) != 3 else None)
        if isinstance(x, np.ndarray):
            if x.ndim == 0:
                raise Unsupported("0-d array as sequence")
            if x.ndim > 1:
                raise Unsupported("n-d array as symbolic sequence")
            vals = list(x)
        else:
            vals = list(x)
        if kind == "array" and any(isinstance(v, (list, tuple, np.ndarray)) or type(v) is SSeq for v in vals):
            raise Unsupported("nested sequence as 1-d array")
        return SSeq.conc(vals, kind)

    @staticmethod
    def conc(vals, kind="array"):
        vals = list(vals)
        s = SSeq(len(vals), lambda k: _pick(vals, k), kind)
        return s

    def at(self, k):
        if type(k) is int:
            key = k
        else:
            k = z3.simplify(zi(k))
            if z3.is_int_value(k):
                key = k = k.as_long()
            else:
                key = k.sexpr()
        ex = cur()
        if ex.watch is not None and id(self) in ex.watch:
            ex.watch[id(self)].append(k)
        ver = self.version(ex)
        if key in ver[2]:
            return ver[2][key]
        if type(k) is int and type(self.n) is not int and ex.inst_depth == 0 and ex.universals and not ex.state.get("contiguous_filters"):
            kk = z3.IntVal(k)
            if not any((not isinstance(o, int)) and o.eq(kk) for o in ex.index_terms):
                ex.index_terms.append(kk)
                for m_, pred, g_ in list(ex.universals):
                    _instantiate(m_, pred, kk, g_)
        m = ex.decisions
        saved, ex.asof = ex.asof, ver[0]
        try:
            v = ver[1](k)
        finally:
            ex.asof = saved
        if self.kind == "array" and type(v) is SReal and not v.np64:
            v = SReal(v.e, v.nan, True)
        if ex.decisions == m:
            ver[2][key] = v
        return v

    def argsort(self, *a, **k):
        """the order of a sequence of fixed length (at most 16: numpy then sorts by insertion, and so keeps the order of ties)"""
        if self.kind != "array" or a or k.keys() - {"kind"} or type(self.n) is not int or self.n > 16:
            raise Unsupported("argsort of a symbolic sequence")
        xs = [self.at(i) for i in range(self.n)]
        if any(type(x) is SReal and x.nan is not None for x in xs):
            raise Unsupported("argsort of values that may be nan")
        order = []
        for i in range(self.n):
            p = len(order)
            while p > 0 and bool(truth(xs[i] < xs[order[p - 1]])):
                p -= 1
            order.insert(p, i)
        return np.asarray(order)

    # ---------- shape
    def __getattr__(self, n):
        if not n.startswith("__") and hasattr(self.__class__, n):
            raise Unsupported(f"{self.__class__.__name__}.{n} of a symbolic sequence")
        raise AttributeError(n)

    @property
    def length(self):
        return self.n if type(self.n) is int else SInt(self.n)

    def __len__(self):
        if type(self.n) is int:
            return self.n
        raise Unsupported("native len() of a symbolic-length sequence")

    @property
    def size(self):
        return self.length

    @property
    def shape(self):
        return (self.length,)

    @property
    def ndim(self):
        return 1

    @property
    def dtype(self):
        if type(self.n) is int and self.n > 0 and all(type(self.at(i)) is bool for i in range(self.n)):
            return np.dtype(bool)
        return self.dtype_ or np.dtype(float)

    @property
    def T(self):
        return self

    def __bool__(self):
        if self.kind == "array":
            if type(self.n) is int and self.n == 1:
                return bool(self.at(0))
            raise Unsupported("truth value of an array")
        if type(self.n) is int:
            return self.n > 0
        return cur().branch(self.n > 0)

    def __iter__(self):
        if type(self.n) is int:
            return iter([self.at(i) for i in range(self.n)])
        raise Unsupported("native iteration over a symbolic-length sequence")

    def in_range(self, k):
        return b_and(zi(k) >= 0, zi(k) < zi(self.n))

    # ---------- access
    def __getitem__(self, i):
        if isinstance(i, slice):
            return self._slice(i)
        if type(i) is SSeq or (isinstance(i, (list, np.ndarray)) and not isinstance(i, Sym)):
            return self._take(i)
        if isinstance(i, tuple):
            raise Unsupported("multi-dimensional index")
        c = conc(i) if type(i) is SInt else (int(i) if isinstance(i, (int, np.integer)) else None)
        if c is None and type(i) is not SInt:
            raise Unsupported(f"index of type {type(i)}")
        if c is not None:
            if c >= 0:
                if type(self.n) is int:
                    if c >= self.n:
                        raise IndexError("list index out of range")
                elif not cur().branch(self.n > c):
                    raise IndexError("list index out of range")
                return self.at(c)
            if type(self.n) is int:
                if -c > self.n:
                    raise IndexError("list index out of range")
                return self.at(self.n + c)
            if not cur().branch(self.n >= -c):
                raise IndexError("list index out of range")
            return self.at(self.n + c)
        e = i.e
        if not cur().branch(b_and(e >= 0, e < zi(self.n))):
            if cur().branch(b_and(e < 0, e >= -zi(self.n))):
                return self.at(zi(self.n) + e)
            raise IndexError("list index out of range")
        return self.at(e)

    def _bounds(self, sl):
        n = zi(self.n)

        def norm(v, default):
            if v is None:
                return default
            c = conc(v) if type(v) in (int, SInt) or isinstance(v, (int, np.integer)) else None
            if c is not None:
                if c >= 0:
                    return z3.simplify(z3.If(n < c, n, z3.IntVal(c)))
                return z3.simplify(z3.If(n + c < 0, z3.IntVal(0), n + c))
            e = int_expr(v)
            return z3.If(e < 0, z3.If(n + e < 0, z3.IntVal(0), n + e), z3.If(e > n, n, e))

        return norm(sl.start, z3.IntVal(0)), norm(sl.stop, n)

    def _slice(self, sl):
        n = zi(self.n)
        step = 1 if sl.step is None else conc(sl.step)
        if step not in (1, -1):
            raise Unsupported("slice step")
        if step == -1:
            if sl.start is not None or sl.stop is not None:
                raise Unsupported("reversed slice with bounds")
            return SSeq(self.n, lambda k: self.at(n - 1 - zi(k)), self.kind)

        a, b = self._bounds(sl)
        m = z3.simplify(z3.If(b > a, b - a, z3.IntVal(0)))
        return SSeq(m, lambda k: self.at(z3.simplify(a + zi(k))), self.kind)

    def _take(self, idx):
        s = SSeq.of(idx)
        probe = None
        if isinstance(idx, np.ndarray):
            probe = idx.dtype == bool
        elif type(s.n) is int and s.n > 0:
            v = s.at(0)
            probe = type(v) is bool or type(v) is SBool or isinstance(v, np.bool_)
        elif type(s.n) is not int:
            v = s.getter(zi(0))
            probe = type(v) is SBool or type(v) is bool
        if probe:
            return filter_seq(self, lambda k: s.at(k))
        return SSeq(s.n, lambda k: self[s.at(k)], "array")

    def __setitem__(self, i, v):
        old = self.snapshot()
        if type(i) is SSeq or (isinstance(i, (list, np.ndarray)) and not isinstance(i, Sym)):
            s = SSeq.of(i)
            if type(v) is SSeq or isinstance(v, (list, np.ndarray)) and not isinstance(v, Sym):
                vs = SSeq.of(v)
                if s.origin is not None and len(s.origin) > 4 and s.origin[0] == "filter":
                    # a[positions] = v: position k takes the element of v that belongs to it (its rank among the positions)
                    if not cur().branch(zi(vs.n) == zi(s.n)):
                        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
                    rank, sel = s.origin[4], _positions(s)
                    self.getter = lambda k: merged(lambda: vs.at(rank(zi(k))) if cur().branch(sel(k)) else old.at(k))
                    self.cache = {}
                    return
                if type(s.n) is int and type(vs.n) is int and all(_index_like(s.at(j)) for j in range(s.n)):
                    if vs.n != s.n:
                        raise ValueError("shape mismatch: value array could not be broadcast to indexing result")
                    pairs = [(E.int_expr(s.at(j)), vs.at(j)) for j in range(s.n)]

                    def put(k):
                        r = old.at(k)
                        for p_, v_ in pairs:
                            r = ite(zi(k) == p_, v_, r)
                        return r

                    self.getter = put
                    self.cache = {}
                    return
                # a[mask] = b[mask] (same mask): recognised through the origin tag
                if type(v) is SSeq and v.origin is not None and v.origin[0] == "filter":
                    _, src, msk = v.origin[:3]
                    k = fresh_index(self.n, "maskidx")
                    same = cur().prove(b_not(z3.Xor(E.lift_bool(msk(k)), E.lift_bool(s.at(k)))))[0]
                    if same == "proved":
                        self.getter = lambda kk: ite(E.lift_bool(s.at(kk)), src.at(kk), old.at(kk))
                        self.cache = {}
                        return
                raise Unsupported("masked assignment of a sequence")
            pos = _positions(s)
            if pos is not None:  # a[positions] = v
                if is_seq(v):
                    raise Unsupported("assignment of a sequence to selected positions")
                self.getter = lambda k: ite(pos(k), v, old.at(k))
            else:
                self.getter = lambda k: ite(E.lift_bool(truth(s.at(k))), v, old.at(k))
            self.cache = {}
            return
        if isinstance(i, slice):
            if i.start is None and i.stop is None:
                self.getter = (lambda k: v) if not is_seq(v) else SSeq.of(v).at
                self.cache = {}
                return
            if i.step is not None:
                raise Unsupported("slice assignment with a step")
            a, b = self._bounds(i)
            vs = SSeq.of(v, "list") if is_seq(v) else None
            if vs is None:
                if self.kind == "list":
                    raise TypeError("can only assign an iterable")
                new = lambda k: v
            else:
                if not cur().branch(zi(vs.n) == z3.If(b > a, b - a, z3.IntVal(0))):
                    if self.kind == "array":
                        if type(vs.n) is int and vs.n == 1:
                            vs = SSeq(zi(self.n), lambda k, v0=vs.at(0): v0, "list")
                        else:
                            raise ValueError("could not broadcast input array into slice")
                    else:
                        raise Unsupported("slice assignment that changes the length of a list")
                new = lambda k: vs.at(z3.simplify(zi(k) - a))
            inside = lambda k: z3.simplify(z3.And(zi(k) >= a, zi(k) < b))

            def get(k):
                c = inside(k)
                if z3.is_true(c):
                    return new(k)
                if z3.is_false(c):
                    return old.at(k)
                return new(k) if cur().branch(c) else old.at(k)

            self.getter = get
            self.cache = {}
            return
        if type(i) is int or isinstance(i, (int, np.integer)) and type(i) is not SInt:
            i = int(i)
            if i < 0:
                ie = zi(self.n) + i
                if not cur().branch(zi(self.n) >= -i):
                    raise IndexError("assignment index out of range")
            else:
                ie = z3.IntVal(i)
                if not cur().branch(zi(self.n) > i):
                    raise IndexError("assignment index out of range")
        elif type(i) is SInt:
            if not cur().branch(self.in_range(i.e)):
                raise Unsupported("symbolic assignment index possibly out of range/negative")
            ie = i.e
        else:
            raise Unsupported("assignment index")
        self.getter = lambda k: ite(z3.simplify(zi(k) == ie), v, old.at(k))
        ex = cur()
        if ex.writes is not None and id(self) in ex.writes:
            ex.writes[id(self)][2].append((ie, v))

    # ---------- list API
    def append(self, v):
        if self.kind != "list":
            raise AttributeError("append")
        if self.born != cur().branch_id:
            raise Unsupported("append to a symbolic-length list inside a merged evaluation")
        old = self.snapshot()
        n = self.n
        self.getter = lambda k: ite(z3.simplify(zi(k) == zi(n)), v, old.at(k))
        self.n = n + 1 if type(n) is int else z3.simplify(n + 1)
        self.cache = {}

    def extend(self, o):
        if self.born != cur().branch_id:
            raise Unsupported("extending a symbolic-length list inside a merged evaluation")
        r = concat([self.snapshot(), o], "list")
        self.n, self.getter = r.n, r.at

    def copy(self):
        return SSeq(self.n, self.at, self.kind, self.dtype_)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return to_list(self)

    def astype(self, t, *_a, **_k):
        if t in (float, np.float64, "float", "float64"):
            return SSeq(self.n, lambda k: _as_float(self.at(k)), "array")
        if t in (bool, np.bool_, "bool"):
            return SSeq(self.n, lambda k: truth(self.at(k)), "array")
        if t in (int, np.int64, "int"):
            return SSeq(self.n, lambda k: m_int(self.at(k)), "array")
        raise Unsupported(f"astype {t}")

    def index(self, v):
        if type(self.n) is not int:
            # first index with equality
            ex = cur()
            me = self
            eqs = SSeq(self.n, lambda k: merged(lambda: truth(me.at(k) == v)), "array")
            known = None
            w = _witness(self, v)
            if w is not None:
                # it is the first one if no earlier one is equal
                j = fresh_index(self.n, "idx")
                ex.fact_local(z3.And(j <= w, E.lift_bool(truth(eqs.at(j)))))
                if ex.prove(j == w, 1500)[0] == "proved":
                    return SInt(w)
                add_universal(self.n, lambda k: z3.Implies(zi(k) < j, b_not(E.lift_bool(truth(eqs.at(k))))))
                return SInt(j)
            for kk in (z3.IntVal(0), z3.simplify(zi(self.n) - 1)):
                rng = z3.And(kk >= 0, kk < zi(self.n))
                if ex.prove(rng, 1000)[0] == "proved" and ex.prove(E.lift_bool(truth(eqs.at(kk))), 1500)[0] == "proved":
                    if z3.is_int_value(kk):
                        return 0
                    known = kk
                    break
            if known is None:
                found = seq_any(eqs)
                if not found:
                    raise ValueError("not in list")
            j = fresh_index(self.n, "idx")
            ex.fact_local(E.lift_bool(truth(eqs.at(j))))
            add_universal(self.n, lambda k: z3.Implies(zi(k) < j, b_not(E.lift_bool(truth(eqs.at(k))))))
            return SInt(j)
        for i in range(self.n):
            if self.at(i) == v:
                return i
        raise ValueError("not in list")

    def flatten(self, *_a):
        return self

    ravel = flatten

    def reshape(self, *a):
        raise Unsupported("reshape")

    def sum(self, *a, **k):
        return seq_sum(self)

    def any(self, *a, **k):
        return seq_any(self)

    def all(self, *a, **k):
        return seq_all(self)

    def cumsum(self, *a, **k):
        return seq_cumsum(self)

    def max(self, *a, **k):
        return seq_extreme(self, True)

    def min(self, *a, **k):
        return seq_extreme(self, False)

    def mean(self, *a, **k):
        return seq_sum(self) / self.length

    def fill(self, v):
        self.getter = lambda k: v
        self.cache = {}

    def __contains__(self, v):
        if type(self.n) is not int and _witness(self, v) is not None:
            return True
        return bool(seq_any(SSeq(self.n, lambda k: truth(self.at(k) == v), "array")))

    # ---------- elementwise
    def _ew(self, o, f, rev=False):
        if self.kind != "array":
            return NotImplemented
        if rev:
            return elementwise(lambda a, b: f(b, a), self, o)
        return elementwise(f, self, o)

    def __add__(self, o):
        if self.kind in ("list", "tuple"):
            return concat([self, o], self.kind)
        return self._ew(o, lambda a, b: a + b)

    def __radd__(self, o):
        if self.kind in ("list", "tuple"):
            return concat([o, self], self.kind)
        return self._ew(o, lambda a, b: a + b, True)

    def __sub__(self, o):
        return self._ew(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._ew(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if self.kind in ("list", "tuple"):
            if type(o) is SSeq and o.kind == "array":
                return o._ew(self, lambda a, b: a * b, True)
            return repeat_list(self, o)
        return self._ew(o, lambda a, b: a * b)

    def __rmul__(self, o):
        if self.kind in ("list", "tuple"):
            return repeat_list(self, o)
        return self._ew(o, lambda a, b: a * b, True)

    def __truediv__(self, o):
        return self._ew(o, npdiv)

    def __rtruediv__(self, o):
        return self._ew(o, npdiv, True)

    def __pow__(self, o):
        return self._ew(o, lambda a, b: a**b)

    def __neg__(self):
        return elementwise(lambda a: -a, self)

    def __abs__(self):
        return elementwise(abs, self)

    def __invert__(self):
        return elementwise(lambda a: E.not_(a) if type(a) is SBool else (not a if isinstance(a, (bool, np.bool_)) else ~a), self)

    def __and__(self, o):
        return self._ew(o, lambda a, b: _bw(a, b, "and"))

    __rand__ = __and__

    def __or__(self, o):
        return self._ew(o, lambda a, b: _bw(a, b, "or"))

    __ror__ = __or__

    def __lt__(self, o):
        return self._ew(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._ew(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._ew(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._ew(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if self.kind == "array":
            return self._ew(o, lambda a, b: truth(a == b))
        if o is self:
            return True
        if not is_seq(o):
            return False
        o = SSeq.of(o)
        if not cur().branch(zi(self.n) == zi(o.n)):
            return False
        return seq_all(SSeq(self.n, lambda k: truth(self.at(k) == o.at(k)), "array"))

    def __ne__(self, o):
        if self.kind == "array":
            return self._ew(o, lambda a, b: E.not_(truth(a == b)))
        return E.not_(self.__eq__(o))

    def __iadd__(self, o):
        if self.kind == "list":
            self.extend(o)
            return self
        r = self.snapshot() + o
        self.getter = r.at
        return self

    def __imul__(self, o):
        r = self.snapshot() * o
        self.getter, self.n = r.at, r.n
        return self

    def __isub__(self, o):
        r = self.snapshot() - o
        self.getter = r.at
        return self

    def __itruediv__(self, o):
        r = self.snapshot() / o
        self.getter = r.at
        return self

    def __repr__(self):
        return f"<SSeq {self.kind} n={self.n}>"

    def __format__(self, s):
        return "<sym seq>"


def _index_like(v):
    return type(v) is SInt or (isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_)))


def _positions(s):
    """the set of positions an index sequence selects, as a predicate (None: the sequence is a mask)"""
    if s.origin is not None and s.origin[0] == "filter" and len(s.origin) > 3:
        mask = s.origin[2]
        return lambda k: E.lift_bool(truth(mask(k)))
    if s.origin is not None and s.origin[0] == "iota":
        return lambda k: z3.And(zi(k) >= 0, zi(k) < zi(s.n))
    if type(s.n) is int:
        vals = [s.at(j) for j in range(s.n)]
        if not vals:
            return lambda k: FALSE
        if all(_index_like(v) for v in vals):
            return lambda k: z3.Or([zi(k) == E.int_expr(v) for v in vals])
        return None
    if type(s.getter(z3.Int("probe"))) is SInt:
        raise Unsupported("assignment to positions of an unknown sequence")
    return None


def n_arange(n, *a, **k):
    if a or k:
        raise Unsupported("np.arange with several arguments")
    r = m_range(n)
    return SSeq(r.n, r.at, "array", origin=("iota",))


def n_intersect1d(a, b):
    a, b = SSeq.of(a), SSeq.of(b)
    for x, y in ((a, b), (b, a)):
        if type(x.n) is int and x.n == 0:
            return SSeq.conc([])
        if y.origin is not None and y.origin[0] == "iota" and x.origin is not None and x.origin[0] == "filter" and len(x.origin) > 3:
            if cur().prove(zi(y.n) == zi(x.origin[1].n))[0] == "proved":
                return x
        if y.origin is not None and y.origin[0] == "iota" and type(x.n) is int and type(y.n) is int:
            return filter_seq(x, lambda j: mkbool(_positions(y)(E.int_expr(x.at(j)))))
    if type(a.n) is int and type(b.n) is int:  # ascending positions without repetition (asked of both)
        va, vb = [a.at(j) for j in range(a.n)], [b.at(j) for j in range(b.n)]
        if all(type(v) is int or isinstance(v, np.integer) for v in va + vb):
            return SSeq.conc(sorted(set(va) & set(vb)))
        raise Unsupported("intersection of symbolic values")
    fa, fb = a.origin, b.origin
    if fa is None or fb is None or len(fa) < 4 or len(fb) < 4 or cur().prove(zi(fa[1].n) == zi(fb[1].n))[0] != "proved":
        raise Unsupported(f"intersection of unknown sequences {fa and len(fa)} {fb and len(fb)}")
    src, ma, mb = fa[1], fa[2], fb[2]
    return filter_seq(src, lambda k: _bw(truth(ma(k)), truth(mb(k)), "and"), value=lambda k: SInt(zi(k)))


def n_mul_reduce(x, axis=0, **k):
    if axis != 0:
        raise Unsupported("np.multiply.reduce axis")
    rows = x.rows if type(x) is SArr2 else list(x)
    return elementwise(lambda *v: _fold(v, lambda p, q: _bw(p, q, "and") if type(p) in (bool, SBool) and type(q) in (bool, SBool) else p * q), *rows)


def _pick(vals, k):
    if type(k) is int:
        return vals[k]
    if not vals:
        raise Infeasible()
    v = vals[-1]
    for i in range(len(vals) - 2, -1, -1):
        v = ite(z3.simplify(k == i), vals[i], v)
    return v


def _as_float(v):
    if type(v) is SReal:
        return v
    r = to_real(v)
    return v if r is None or type(r) is float else (SReal(r.e, r.nan, True) if isinstance(v, Sym) else float(v))


def _bw(a, b, op):
    if isinstance(a, np.bool_):
        a = bool(a)
    if isinstance(b, np.bool_):
        b = bool(b)
    return (a & b) if op == "and" else (a | b)


def truth(v):
    """truth value without branching"""
    if type(v) is SBool or type(v) is bool:
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if type(v) is SReal:
        return mkbool(b_or(v.e != 0, v.isnan))
    if type(v) is SInt:
        return mkbool(v.e != 0)
    return bool(v)


def to_list(s):
    if type(s) is SSeq:
        if type(s.n) is int:
            return [_strip(s.at(i)) for i in range(s.n)]
        return SSeq(s.n, lambda k: _strip(s.at(k)), "list")
    return list(s)


def _strip(v):
    return SReal(v.e, v.nan) if type(v) is SReal and v.np64 else v


def is_seq(x):
    return type(x) is SSeq or (isinstance(x, (list, tuple, np.ndarray)) and not (isinstance(x, np.ndarray) and x.ndim == 0))


def npdiv(a, b):
    ra, rb = to_real(a), to_real(b)
    if ra is None or rb is None:
        return a / b
    if isinstance(a, Sym) or isinstance(b, Sym):
        return E.rdiv(ra, rb, True)
    return np.float64(a) / np.float64(b)


def broadcast_len(seqs):
    """Common length of numpy operands (size-1 operands broadcast)."""
    n = seqs[0].n
    for s in seqs[1:]:
        if type(n) is int and type(s.n) is int:
            if n == s.n or s.n == 1:
                continue
            if n == 1:
                n = s.n
                continue
            raise ValueError("operands could not be broadcast together")
        if n is s.n or (not isinstance(n, int) and not isinstance(s.n, int) and n.eq(s.n)):
            continue
        if cur().branch(zi(n) == zi(s.n)):
            continue
        if cur().branch(zi(s.n) == 1):
            continue
        if cur().branch(zi(n) == 1):
            n = s.n
            continue
        raise ValueError("operands could not be broadcast together")
    return n


def elementwise(f, *ops):
    ops = [o.v if type(o) is SZero else o for o in ops]
    seqs = [(SSeq.of(o) if is_seq(o) else None) for o in ops]
    ss = [s for s in seqs if s is not None]
    if not ss:
        return f(*ops)
    n = broadcast_len(ss)

    def get(k):
        args = []
        for s, o in zip(seqs, ops):
            if s is None:
                args.append(o)
            elif type(s.n) is int and s.n == 1 and not (type(n) is int and n == 1):
                args.append(s.at(0))
            else:
                args.append(s.at(k))
        return f(*args)

    return SSeq(n, get, "array")


def concat(parts, kind):
    parts = [SSeq.of(p) for p in parts]
    if all(type(p.n) is int for p in parts):
        vals = [p.at(i) for p in parts for i in range(p.n)]
        return vals if kind == "list" else SSeq.conc(vals, kind) if kind == "array" else tuple(vals)
    total = z3.simplify(z3.Sum(*[zi(p.n) for p in parts]))

    def get(k):
        k = zi(k)
        off = z3.IntVal(0)
        cases = []
        for p in parts:
            cases.append((z3.simplify(z3.And(k >= off, k < off + zi(p.n))), p, z3.simplify(k - off)))
            off = z3.simplify(off + zi(p.n))
        for c, p, idx in cases[:-1]:
            if cur().branch(c):
                return p.at(idx)
        return cases[-1][1].at(cases[-1][2])

    def get_(k):
        # fold the case distinction into one term where the parts hold plain values
        cs = []
        off = z3.IntVal(0)
        k = zi(k)
        for p in parts:
            cs.append((z3.simplify(z3.And(k >= off, k < off + zi(p.n))), p, z3.simplify(k - off)))
            off = z3.simplify(off + zi(p.n))
        live = [(c, p, i) for c, p, i in cs if not z3.is_false(c)]
        if len(live) > 1:
            live = [(c, p, i) for c, p, i in live if cur()._check(c) != z3.unsat] or live[-1:]
        if len(live) == 1:
            return live[0][1].at(live[0][2])
        return get(k)

    return SSeq(total, get_, kind)


def repeat_list(s, m):
    s = SSeq.of(s, s.kind if type(s) is SSeq else "list")
    if type(s.n) is int and s.n == 1:
        v = s.at(0)
        if type(m) is SInt:
            mm = z3.If(m.e < 0, z3.IntVal(0), m.e)
            return SSeq(z3.simplify(mm), lambda k: v, "list")
        return [v] * m
    if type(m) is int and type(s.n) is int:
        return [s.at(i) for i in range(s.n)] * m
    raise Unsupported("repetition of a symbolic list")


def _arg(e, at0):
    """position at which an element with the term e would be, going by the argument of its function symbol"""
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a, b = _arg(e.arg(1), at0), _arg(e.arg(2), at0)
        return None if a is None or b is None else z3.If(e.arg(0), a, b)
    if z3.is_const(e) or e.num_args() != 1 or e.decl().kind() != z3.Z3_OP_UNINTERPRETED or not z3.is_int(e.arg(0)):
        return None
    off = _off(at0, e.decl())
    return None if off is None else z3.simplify(e.arg(0) - off)


def _off(e, decl):
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        a = _off(e.arg(1), decl)
        return a if a is not None else _off(e.arg(2), decl)
    if not z3.is_const(e) and e.num_args() == 1 and e.decl().eq(decl):
        return e.arg(0)
    return None


def _term(v):
    """a term that identifies the value (for an object: that of its first field)"""
    if type(v) in (E.SDate, SReal, SInt):
        return v.e
    for x in list(getattr(v, "__dict__", {}).values())[:1]:
        if type(x) in (E.SDate, SReal, SInt):
            return x.e
    return None


def _witness(s, v):
    """an index at which the sequence provably has the value v, or None (not found)"""
    ex = cur()
    ve = _term(v)
    if ve is None or ex.prove(zi(s.n) > 0, 1000)[0] != "proved":
        return None
    first = _term(merged(lambda: s.at(z3.IntVal(0))))
    w = None if first is None else _arg(ve, first)
    if w is None or ex.prove(z3.And(w >= 0, w < zi(s.n)), 1000)[0] != "proved":
        return None
    x = merged(lambda: s.at(w))
    if type(x) is not type(v) or ex.prove(E.lift_bool(truth(x == v)), 1000)[0] != "proved":
        return None
    return w


def fresh_index(n, base="k", guard=None):
    """Arbitrary index of a sequence of length n (registered: universal facts are instantiated at it).
    With a guard: an index only if the guard holds (the caller knows that the guard implies n > 0)."""
    ex = cur()
    if type(n) is int:
        if n == 0:
            raise Infeasible()
    k = z3.Int(ex.fresh("ix_" + base))
    rng = z3.And(k >= 0, k < zi(n))
    if guard is not None:
        ex.fact_local(z3.Implies(guard, rng))
    else:
        if ex.merge_depth and ex.prove(zi(n) > 0, 2000)[0] != "proved":
            raise Unsupported("index of a possibly empty sequence inside a merged evaluation")
        ex.fact_local(rng)
        if ex._check() == z3.unsat:
            raise Infeasible()
    if ex.inst_depth == 0:
        ex.index_terms.append(k)
        for m, pred, g in list(ex.universals):
            _instantiate(m, pred, k, g)
    return k


def _instantiate(m, pred, k, g=TRUE):
    ex = cur()
    ex.inst_depth += 1
    try:
        rs = ex.merge(lambda: mkbool(pred(k)))
    finally:
        ex.inst_depth -= 1
    rng = z3.And(g, zi(k) >= 0, zi(k) < zi(m))
    for c, v in rs:
        if isinstance(v, RaisedCase):
            continue
        ex.fact_local(z3.Implies(z3.And(rng, c), E.lift_bool(truth(v))))


def frozen(f):
    """f evaluated, whenever, with the sequences as they are now"""
    if f is None:
        return None
    t = _tick()

    def g(*a):
        ex = cur()
        saved, ex.asof = ex.asof, t
        try:
            return f(*a)
        finally:
            ex.asof = saved

    return g


def add_universal(n, pred, guard=TRUE):
    ex = cur()
    pred = frozen(pred)
    g = b_and(ex.guard(), guard)
    ex.universals.append((n, pred, g))
    for k in list(ex.index_terms):
        _instantiate(n, pred, k, guard)
    if ex._check() == z3.unsat:
        raise Infeasible()


def filter_seq(src, mask, value=None, kind="array"):
    """Order-preserving selection of the elements whose mask holds."""
    if type(src.n) is int:
        out = []
        for i in range(src.n):
            m = mask(i)
            if m if not type(m) is SBool else bool(m):
                out.append((value or src.at)(i))
        return SSeq.conc(out, kind) if kind == "array" else out
    ex = cur()
    mask, value = frozen(mask), frozen(value)
    nm = ex.fresh("filter")
    m = z3.Int(nm + "_n")
    g = z3.Function(nm + "_g", z3.IntSort(), z3.IntSort())
    h = z3.Function(nm + "_h", z3.IntSort(), z3.IntSort())
    ex.fact(z3.And(m >= 0, m <= zi(src.n)))
    used = []

    def get(j):
        j = zi(j)
        gi = g(j)
        cond = z3.And(j >= 0, j < m)
        ex.fact(z3.Implies(cond, z3.And(gi >= 0, gi < zi(src.n), h(gi) == j)))
        for jj in used:
            ex.fact(z3.Implies(z3.And(cond, jj >= 0, jj < m), z3.And((j < jj) == (gi < g(jj)), (j == jj) == (gi == g(jj)))))
        used.append(j)
        mv = E.lift_bool(truth(mask(gi)))
        ex.fact_local(z3.Implies(cond, mv))
        return (value or src.at)(gi)

    def complete(k):
        mv = E.lift_bool(truth(mask(k)))
        return z3.Implies(mv, z3.And(h(zi(k)) >= 0, h(zi(k)) < m, g(h(zi(k))) == zi(k)))

    add_universal(src.n, complete)
    if not ex.state.get("contiguous_filters") and ex.inst_depth == 0:
        # a selection that is not empty has a first element
        w0 = z3.Int(nm + "_w")
        rng = z3.And(m > 0, w0 == g(0), w0 >= 0, w0 < zi(src.n))
        ex.fact(z3.Implies(m > 0, rng))
        rs = ex.merge(lambda: (ex.assume(mkbool(rng)), truth(mask(w0)))[1])
        for c, v in rs:
            if not isinstance(v, RaisedCase):
                ex.fact_local(z3.Implies(z3.And(rng, c), E.lift_bool(v)))
        ex.index_terms.append(w0)
        for m_, pred, gg in list(ex.universals):
            _instantiate(m_, pred, w0, gg)
    if ex.state.get("contiguous_filters"):
        # lemma (by induction): with first, last the first and last selected positions, either some position between
        # them is not selected (hole), or the selection is exactly the positions first..last in order
        a, b, w = (z3.Int(nm + x) for x in ("_first", "_last", "_hole"))
        mv = lambda k: E.lift_bool(truth(merged(lambda: mask(k))))
        n = zi(src.n)
        ex.fact(z3.And(a >= 0, a <= n, z3.Implies(m == 0, a == n)))
        ex.fact(z3.Implies(m > 0, z3.And(a <= b, b < n, z3.Or(z3.And(a < w, w < b), m == b - a + 1))))
        for k, val in ((a, True), (b, True), (w, False)):
            g_ = m > 0 if val else z3.And(m > 0, a < w, w < b, m != b - a + 1)
            rs = ex.merge(lambda: (ex.assume(mkbool(z3.And(g_, k >= 0, k < n))), truth(mask(k)))[1])
            for c, v in rs:
                if isinstance(v, RaisedCase):
                    raise Unsupported("filter with a partial predicate")
                ex.fact_local(z3.Implies(z3.And(g_, c), E.lift_bool(v) if val else b_not(E.lift_bool(v))))
        if ex.inst_depth == 0:
            for k in (a, b, w, b + 1, z3.IntVal(0)):
                if not any(k.eq(o) if not isinstance(o, int) else False for o in ex.index_terms):
                    ex.index_terms.append(k)
                    for m_, pred, gg in list(ex.universals):
                        _instantiate(m_, pred, k, gg)
        add_universal(src.n, lambda k: z3.Implies(z3.Or(zi(k) < a, z3.And(m > 0, zi(k) > b)), b_not(E.lift_bool(truth(mask(k))))))
        g1 = get

        def get(j):
            ex.fact(z3.Implies(z3.And(zi(j) >= 0, zi(j) < m, m == b - a + 1), g(zi(j)) == a + zi(j)))
            return g1(j)
    origin = ("filter", src, mask)
    probe = z3.Int(nm + "_k")
    try:
        pv = value(probe) if value is not None else None
        if type(pv) is SInt and z3.simplify(pv.e == probe).eq(TRUE):
            origin += ("positions", h)
    except Unsupported:
        pass
    return SSeq(m, get, kind, origin=origin)


# ------------------------------------------------------------------------------- reductions
def seq_all(s):
    s = s if type(s) is SSeq else SSeq.of(s)
    if type(s.n) is int:
        r = TRUE
        for i in range(s.n):
            v = truth(s.at(i))
            r = b_and(r, E.lift_bool(v))
        return mkbool(z3.simplify(r))
    ex = cur()
    # b <=> for all k: s[k];   not b => not s[sk] for a fresh index sk
    b = z3.Bool(ex.fresh("all"))
    ev = lambda k: E.lift_bool(truth(merged(lambda: truth(s.at(k)))))
    ex.fact_local(z3.Implies(zi(s.n) <= 0, b))
    k = fresh_index(s.n, "all", guard=z3.Not(b))
    # under "not b" the witness is an index, so the element is evaluated there
    rs = ex.merge(lambda: (ex.assume(mkbool(z3.Not(b))), truth(s.at(k)))[1])
    for c, v in rs:
        if isinstance(v, RaisedCase):
            raise Unsupported("quantifier over a partial predicate")
        ex.fact_local(z3.Implies(z3.And(z3.Not(b), c), b_not(E.lift_bool(v))))
    if ex.prove(b, 500)[0] == "proved":
        # holds for an arbitrary element: neither the quantifier nor its witness is needed
        ex.index_terms[:] = [x for x in ex.index_terms if x is not k]
        return True
    add_universal(s.n, ev, guard=b)
    return mkbool(b)


def seq_any(s):
    s = s if type(s) is SSeq else SSeq.of(s)
    return E.not_(seq_all(SSeq(s.n, lambda k: E.not_(truth(s.at(k))), "array")))


def seq_sum(s, start=0):
    s = s if type(s) is SSeq else SSeq.of(s)
    if type(s.n) is int:
        r = start
        for i in range(s.n):
            r = r + s.at(i)
        return r
    pass
    return start + sum_term(s.n, lambda k: s.at(k))


def sum_term(n, fn):
    ex = cur()
    i = z3.Int("sum_ix")

    def val():
        ex.cond(z3.And(i >= 0, i < zi(n)))
        return fn(i)

    rs = ex.merge(val)
    if not rs or any(isinstance(v, RaisedCase) for _, v in rs):
        raise Unsupported("sum over a partial element function")
    rng = z3.And(i >= 0, i < zi(n))
    v = to_real(rs[-1][1])
    for c, w in reversed(rs[:-1]):
        v = ite(c, w, v)
        v = to_real(v)
    if v is None or v.nan is not None:
        raise Unsupported("sum of non-real / NaN elements")
    sums = ex.state.setdefault("sums", [])
    for (n2, e2, S2) in sums:
        if ex.prove(z3.And(zi(n2) == zi(n), z3.Implies(rng, e2 == v.e)), 4000)[0] == "proved":
            return SReal(S2, None, True)
    S = z3.Real(ex.fresh("SUM"))
    sums.append((n, v.e, S))
    ex.fact(z3.Implies(zi(n) <= 0, S == 0))
    if ex.prove(z3.Implies(rng, v.e >= 0), 4000)[0] == "proved":
        ex.fact_local(S >= 0)
    if ex.prove(z3.Implies(rng, v.e <= 0), 4000)[0] == "proved":
        ex.fact_local(S <= 0)
    return SReal(S, None, True)


def seq_cumsum(s, nan_as_zero=False):
    s = s if type(s) is SSeq else SSeq.of(s)

    def el(k):
        v = to_real(s.at(k))
        if v.nan is None:
            return v
        if nan_as_zero:
            return SReal(z3.If(v.nan, z3.RealVal(0), v.e), None, True)
        raise Unsupported("cumsum of NaN")

    if type(s.n) is int:
        out = []
        acc = 0
        for i in range(s.n):
            acc = el(i) + acc
            out.append(acc)
        return SSeq.conc(out)
    ex = cur()
    # extensionality: prefix sums of pointwise-equal sequences are the same function
    i = z3.Int("sum_ix")
    rng = z3.And(i >= 0, i < zi(s.n))
    rs = ex.merge(lambda: el(i))
    v = to_real(rs[-1][1])
    for c, w in reversed(rs[:-1]):
        v = to_real(ite(c, w, v))
    F = None
    for (n2, e2, F2) in ex.state.setdefault("cumsums", []):
        if ex.prove(z3.And(zi(n2) == zi(s.n), z3.Implies(rng, e2 == v.e)), 4000)[0] == "proved":
            F = F2
    if F is None:
        F = z3.Function(ex.fresh("CUM"), z3.IntSort(), z3.RealSort())
        ex.state["cumsums"].append((s.n, v.e, F))

    def get(k):
        k = zi(k)
        ek = el(k)
        ex.fact_local(z3.Implies(k == 0, F(k) == ek.e))
        ex.fact_local(z3.Implies(k > 0, F(k) == F(k - 1) + ek.e))
        return SReal(F(k), None, True)

    return SSeq(s.n, get, "array")


def seq_extreme(s, mx):
    s = s if type(s) is SSeq else SSeq.of(s)
    if type(s.n) is int:
        if s.n == 0:
            raise ValueError("empty sequence")
        r = s.at(0)
        for i in range(1, s.n):
            r = m_max2(r, s.at(i)) if mx else m_min2(r, s.at(i))
        return r
    if not cur().branch(s.n > 0):
        raise ValueError("max() arg is an empty sequence")
    j = fresh_index(s.n, "ext")
    r = merged(lambda: s.at(j))
    if mx:
        add_universal(s.n, lambda k: E.lift_bool(truth(s.at(k) <= r)))
    else:
        add_universal(s.n, lambda k: E.lift_bool(truth(s.at(k) >= r)))
    return r


def m_max2(a, b):
    """builtin max(a, b) = b if b > a else a"""
    c = b > a
    if type(c) is SBool:
        return ite(c.e, b, a)
    return b if c else a


def m_min2(a, b):
    c = b < a
    if type(c) is SBool:
        return ite(c.e, b, a)
    return b if c else a


# ------------------------------------------------------------------------------- builtins with symbolic arguments
def m_len(x):
    if type(x) is SSeq:
        return x.length
    if hasattr(type(x), "__len__"):
        f = type(x).__len__
        if isinstance(f, types.FunctionType):  # the code's own __len__
            return f(x)
    return builtins.len(x)


def m_range(*a):
    if len(a) == 1:
        lo, hi = 0, a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) == 3 and conc(a[2]) != 1:
            raise Unsupported("range step")
    lo_, hi_ = int_expr(lo), int_expr(hi)
    n = z3.simplify(z3.If(hi_ > lo_, hi_ - lo_, z3.IntVal(0)))
    return SSeq(n, lambda k: SInt(z3.simplify(lo_ + zi(k))), "list")


def m_zip(*its, strict=False):
    if not any(type(x) is SSeq and type(x.n) is not int for x in its):
        return zip(*its, strict=strict)
    seqs = [SSeq.of(x, "list") for x in its]
    n = seqs[0].n
    for s in seqs[1:]:
        if strict:
            if not cur().branch(z3.simplify(zi(n) == zi(s.n))):
                raise ValueError("zip() arguments have different lengths")
            if type(s.n) is int:
                n = s.n
        else:
            if type(n) is not int and type(s.n) is not int and n.eq(s.n):
                continue
            n = z3.simplify(z3.If(zi(n) <= zi(s.n), zi(n), zi(s.n)))
    return SSeq(n, lambda k: tuple(s.at(k) for s in seqs), "gen")


def m_enumerate(it, start=0):
    if not (type(it) is SSeq and type(it.n) is not int):
        return enumerate(it, start)
    s = SSeq.of(it, "list")
    return SSeq(s.n, lambda k: ((k if type(k) is int and type(start) is int else SInt(zi(k))) + start, s.at(k)), "gen")


def m_sum(it, start=0):
    if type(it) is SSeq:
        return seq_sum(it, start)
    r = start
    for x in it:
        r = r + x
    return r


def m_max(*a, key=None, default=None):
    return _ext(a, key, default, m_max2, True)


def m_min(*a, key=None, default=None):
    return _ext(a, key, default, m_min2, False)


_NODEF = object()


def _ext(a, key, default, f2, mx):
    if key is not None:
        raise Unsupported("max/min key")
    if len(a) == 1:
        it = a[0]
        if type(it) is SSeq and type(it.n) is not int:
            return seq_extreme(it, mx)
        vals = list(it)
        if not vals:
            if default is not None:
                return default
            raise ValueError("max() iterable argument is empty")
    else:
        vals = list(a)
    r = vals[0]
    for v in vals[1:]:
        r = f2(r, v)
    return r


def m_all(it):
    if type(it) is SSeq:
        return seq_all(it)
    for x in it:
        if not x:
            return False
    return True


def m_any(it):
    if type(it) is SSeq:
        return seq_any(it)
    for x in it:
        if x:
            return True
    return False


def m_float(x=0.0):
    if type(x) is SReal:
        return SReal(x.e, x.nan)
    if type(x) in (SInt, SBool):
        return to_real(x)
    if type(x) is SSeq and type(x.n) is int and x.n == 1:
        return m_float(x.at(0))
    return float(x)


def m_int(x=0):
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return x._i()
    if type(x) is SReal:
        if x.nan is not None and cur().branch(x.nan):
            raise ValueError("cannot convert float NaN to integer")
        fl = z3.ToInt(x.e)
        return SInt(z3.If(x.e >= 0, fl, z3.If(z3.ToReal(fl) == x.e, fl, fl + 1)))
    return int(x)


def m_bool(x=False):
    if type(x) is SBool:
        return x
    return truth(x) if isinstance(x, Sym) and type(x) is not SSeq else bool(x)


def m_list(x=()):
    if type(x) is SSeq:
        return to_list(x) if x.kind == "array" else (SSeq(x.n, x.at, "list") if type(x.n) is not int else [x.at(i) for i in range(x.n)])
    return list(x)


def m_tuple(x=()):
    if type(x) is SSeq:
        if type(x.n) is int:
            return tuple(x.at(i) for i in range(x.n))
        return SSeq(x.n, x.at, "tuple")
    return tuple(x)


def m_abs(x):
    return abs(x)


def m_isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    a, b = to_real(a), to_real(b)
    d = abs(a - b)
    rt = to_real(rel_tol)
    r = m_max2(rt * m_max2(abs(a), abs(b)), to_real(abs_tol)) if not (is_num(rel_tol) and float(rel_tol) == 0) else to_real(abs_tol)
    return d <= r


def m_isnan(x):
    r = to_real(x)
    if type(r) is float:
        return False
    return mkbool(r.isnan)


def m_isfinite(x):
    r = to_real(x)
    if type(r) is float:
        return False
    return mkbool(b_not(r.isnan))


def m_isinf(x):
    return type(to_real(x)) is float


def m_sorted(it, key=None, reverse=False):
    if type(it) is SSeq and type(it.n) is not int:
        raise Unsupported("sorted() of a symbolic-length sequence")
    return sorted(list(it), key=key, reverse=reverse)


def m_round(x, nd=None):
    return x.__round__(nd) if isinstance(x, Sym) else round(x, nd)


def m_map(f, *its):
    if len(its) == 1 and type(its[0]) is SSeq:
        from vc import rt

        return rt.comp("gen", its[0], f, None)
    return map(f, *its)


def m_reversed(x):
    return x[::-1]


def m_iter(x):
    return x if type(x) is SSeq and type(x.n) is not int else iter(x)


def m_next(it, *d):
    if type(it) is SSeq:
        if type(it.n) is int:
            if it.n:
                return it.at(0)
        elif cur().branch(it.n > 0):
            return it.at(0)
        if d:
            return d[0]
        raise StopIteration
    return next(it, *d)


# ------------------------------------------------------------------------------- numpy with symbolic arguments
def n_asarray(x, *a, **k):
    dtype = k.get("dtype") or (a[0] if a else None)
    if type(x) is SSeq:
        r = SSeq(x.n, x.at, "array", origin=x.origin if x.origin is not None and len(x.origin) != 3 else None)
    elif type(x) in (SReal, SInt, SBool):
        return SReal(to_real(x).e, to_real(x).nan, True) if type(x) is not SBool else x
    else:
        vals = list(x)
        if vals and all(is_seq(v) for v in vals):
            return SArr2(vals)
        r = SSeq.conc(vals, "array")
    if dtype in (float, np.float64):
        r = r.astype(float)
    elif dtype in (bool, np.bool_):
        r = r.astype(bool)
    return r


class SArr2(Sym):
    """Small concrete-by-anything 2-D array: a python list of row sequences."""

    __slots__ = ("rows",)

    def __init__(self, rows):
        self.rows = [SSeq.of(r) for r in rows]

    @property
    def __class__(self):
        return np.ndarray

    __hash__ = None

    @property
    def shape(self):
        return (len(self.rows), self.rows[0].length if self.rows else 0)

    @property
    def ndim(self):
        return 2

    def __len__(self):
        return len(self.rows)

    def __iter__(self):
        return iter(self.rows)

    def __getitem__(self, i):
        if isinstance(i, int) and not isinstance(i, Sym):
            return self.rows[i]
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], slice) and i[0] == slice(None):
            return SSeq.conc([r[i[1]] for r in self.rows], "array")
        if type(i) is np.ndarray and i.ndim == 1 and i.dtype.kind == "i":
            return SArr2([self.rows[int(j)] for j in i])
        if isinstance(i, tuple) and len(i) == 2 and isinstance(i[0], int):
            return self.rows[i[0]][i[1]]
        raise Unsupported("2-d index")

    @property
    def T(self):
        n = self.rows[0].n
        if type(n) is not int:
            # only to be iterated over: a list of the columns, which no array operation takes for a matrix
            rows = self.rows
            return SSeq(n, lambda j: SSeq.conc([r.at(j) for r in rows], "array"), "list")
        return SArr2([[r.at(j) for r in self.rows] for j in range(n)])

    def tolist(self):
        return [to_list(r) for r in self.rows]

    def sum(self, axis=None, **_k):
        return n_sum(self, axis=axis)

    def all(self, axis=None):
        return n_all(self, axis=axis)

    def any(self, axis=None):
        return n_any(self, axis=axis)

    def _m(self, f):
        return SArr2([f(r) for r in self.rows])

    def __mul__(self, o):
        return self._m(lambda r: r * o)

    __rmul__ = __mul__


def n_sum(x, axis=None, *a, **k):
    if type(x) is SArr2 or (isinstance(x, (list, tuple)) and x and all(is_seq(v) for v in x)):
        x = x if type(x) is SArr2 else SArr2(x)
        if axis == 0:
            return elementwise(lambda *v: _fold(v, lambda p, q: p + q), *x.rows)
        if axis == 1:
            return SSeq.conc([seq_sum(r) for r in x.rows])
        return m_sum([seq_sum(r) for r in x.rows])
    return seq_sum(x)


def _fold(v, f):
    r = v[0]
    for w in v[1:]:
        r = f(r, w)
    return r


def _red(x, axis, f, seqf):
    if type(x) is SArr2 or (isinstance(x, (list, tuple)) and x and all(is_seq(v) for v in x)):
        x = x if type(x) is SArr2 else SArr2(x)
        if axis == 0:
            return elementwise(lambda *v: _fold([truth(w) for w in v], f), *x.rows)
        if axis in (1, -1):
            return SSeq.conc([seqf(r) for r in x.rows])
        return _fold([seqf(r) for r in x.rows], f)
    if type(x) in (SBool, bool):
        return x
    return seqf(x)


def n_all(x, axis=None, *a, **k):
    return _red(x, axis, lambda p, q: _bw(p, q, "and"), seq_all)


def n_any(x, axis=None, *a, **k):
    return _red(x, axis, lambda p, q: _bw(p, q, "or"), seq_any)


def n_where(c, *ab):
    if not ab:
        raise Unsupported("np.where(condition)")
    a, b = ab
    if any(type(o) is SZero for o in (c, a, b)) and not any(type(o) is SSeq or isinstance(o, (list, tuple)) for o in (c, a, b)):
        raise Unsupported("np.where of arrays without dimensions")
    return elementwise(lambda cc, x, y: _ite_truth(cc, x, y), c, a, b)


def _ite_truth(c, x, y):
    t = truth(c)
    if type(t) is bool:
        return x if t else y
    return ite(t.e, x, y)


def n_nan_to_num(x, copy=True, nan=0.0, **k):
    def f(v):
        r = to_real(v)
        if r is None or type(r) is float:
            return v
        if r.nan is None:
            return v
        return ite(r.nan, nan, SReal(r.e, None, True))

    return elementwise(f, x)


def _apply_out(fn):
    def g(*args, out=None, where=True, **k):
        if where is True:
            r = elementwise(fn, *args)
            if out is not None:
                out[:] = r
                return out
            return r
        ss = [SSeq.of(o) if is_seq(o) else o for o in args]
        base = SSeq.of(out) if out is not None and is_seq(out) else None
        if base is None:
            raise Unsupported("ufunc where= without out=")
        w = SSeq.of(where) if is_seq(where) else where
        n = broadcast_len([s for s in [*ss, base, w] if type(s) is SSeq])

        def get(k):
            wv = truth(w.at(k) if type(w) is SSeq else w)

            def val():
                return fn(*[s.at(k) if type(s) is SSeq else s for s in ss])

            if type(wv) is bool:
                return val() if wv else base.at(k)
            if cur().branch(wv.e):
                return val()
            return base.at(k)

        r = SSeq(n, lambda k: merged(lambda: get(k)), "array")
        if type(out) is SSeq:
            b0 = out.snapshot()
            base.getter = b0.at
            out.getter = r.at
            return out
        return r

    return g


def n_zeros_like(x, *a, **k):
    fillv = False if k.get("dtype") in (bool, np.bool_) else 0.0
    if not is_seq(x) and type(x) is not SArr2:
        return fillv
    return SSeq(SSeq.of(x).n, lambda _k: fillv, "array")


def n_ones_like(x, *a, **k):
    fillv = True if k.get("dtype") in (bool, np.bool_) else 1.0
    if not is_seq(x):
        return fillv
    return SSeq(SSeq.of(x).n, lambda _k: fillv, "array")


def n_full_like(x, fill_value, *a, **k):
    v = fill_value
    if not is_seq(x):
        return v
    return SSeq(SSeq.of(x).n, lambda _k: v, "array")


def _shape_n(shape):
    if isinstance(shape, (tuple, list)) and type(shape) is not SSeq:
        if len(shape) == 2:
            raise Unsupported("2-d allocation")
        shape = shape[0]
    return shape.e if type(shape) is SInt else int(shape)


def n_full(shape, fill_value, *a, **k):
    return SSeq(_shape_n(shape), lambda _k: fill_value, "array")


def n_zeros(shape, *a, **k):
    return SSeq(_shape_n(shape), lambda _k: False if k.get("dtype") in (bool, np.bool_) else 0.0, "array")


def n_ones(shape, *a, **k):
    return SSeq(_shape_n(shape), lambda _k: True if k.get("dtype") in (bool, np.bool_) else 1.0, "array")


def n_diff(x, *a, **k):
    if a or k:
        raise Unsupported("np.diff with options")
    s = SSeq.of(x)
    n = s.n - 1 if type(s.n) is int else z3.simplify(z3.If(s.n > 0, s.n - 1, z3.IntVal(0)))
    if type(n) is int and n < 0:
        n = 0
    return SSeq(n, lambda k: s.at(k + 1 if type(k) is int else z3.simplify(k + 1)) - s.at(k), "array")


def n_concatenate(parts, *a, **k):
    r = concat(list(parts), "array")
    return r


def n_append(x, v, *a, **k):
    return concat([x if is_seq(x) else [x], v if is_seq(v) else [v]], "array")


def n_insert(x, i, v, *a, **k):
    if conc(i) != 0:
        raise Unsupported("np.insert not at 0")
    return concat([v if is_seq(v) else [v], x], "array")


def n_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        x, y = to_real(x), to_real(y)
        return abs(x - y) <= to_real(atol) + to_real(rtol) * abs(y)

    return elementwise(f, a, b)


def n_clip(x, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))

    def f(v, *b):
        if lo is not None:
            v = m_max2(v, b[0])
        if hi is not None:
            v = m_min2(v, b[-1])
        return v

    return elementwise(f, x, *[b for b in (lo, hi) if b is not None])


def n_maximum(a, b):
    def f(x, y):
        rx, ry = to_real(x), to_real(y)
        v = m_max2(rx, ry)
        if type(rx) is SReal and type(ry) is SReal and (rx.nan is not None or ry.nan is not None):
            return SReal(z3.If(ry.e > rx.e, ry.e, rx.e), b_or(rx.isnan, ry.isnan), True)
        return v

    return elementwise(f, a, b)


def n_minimum(a, b):
    def f(x, y):
        rx, ry = to_real(x), to_real(y)
        if type(rx) is SReal and type(ry) is SReal and (rx.nan is not None or ry.nan is not None):
            return SReal(z3.If(ry.e < rx.e, ry.e, rx.e), b_or(rx.isnan, ry.isnan), True)
        return m_min2(rx, ry)

    return elementwise(f, a, b)


def n_argmax(x, axis=None):
    if type(x) is SArr2 and axis == 0:
        return elementwise(lambda *v: _argmax([truth(w) for w in v]), *x.rows)
    if type(x) is SArr2 and axis == 1:
        return SSeq.conc([n_argmax(r) for r in x.rows])
    if axis not in (None, 0):
        raise Unsupported("argmax axis")
    s = SSeq.of(x)
    if type(s.n) is int:
        return _argmax([s.at(i) for i in range(s.n)])
    raise Unsupported("argmax of symbolic length")


def _argmax(vals):
    if all(type(v) is SBool or type(v) is bool for v in vals):
        r = z3.IntVal(0)
        for i in range(len(vals) - 1, -1, -1):
            r = z3.If(E.lift_bool(vals[i]), z3.IntVal(i), r)
        return SInt(z3.simplify(r))
    r, best = z3.IntVal(0), vals[0]
    for i, v in enumerate(vals[1:], 1):
        c = v > best
        ce = E.lift_bool(c)
        r = z3.If(ce, z3.IntVal(i), r)
        best = ite(ce, v, best)
    return SInt(z3.simplify(r))


def n_not(x):
    return elementwise(lambda a: E.not_(truth(a)), x)


def n_array_equal(a, b, **k):
    return bool(SSeq.of(a, "list") == SSeq.of(b, "list"))


def n_atleast_1d(x):
    return n_asarray(x) if is_seq(x) else SSeq.conc([x])


def n_flatnonzero(x):
    s = SSeq.of(x)
    return filter_seq(s, s.at, value=lambda k: SInt(zi(k)) if type(k) is not int else k)


class Column(Sym):
    """a two-dimensional array with one column"""

    __slots__ = ("col",)

    def __init__(self, col):
        self.col = col

    __hash__ = None

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 2 and i[0] == slice(None) and i[1] == 0:
            return self.col
        raise Unsupported("indexing an array with one column")

    def __getattr__(self, n):
        raise Unsupported(f"attribute {n} of an array with one column")


def n_argwhere(x):
    return Column(n_flatnonzero(x))


class SZero(Sym):
    """an array without dimensions"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    @property
    def __class__(self):
        return np.ndarray

    __hash__ = None
    shape = ()
    ndim = 0
    size = 1

    def item(self):
        return self.v

    def __getattr__(self, n):
        raise Unsupported(f"attribute {n} of an array without dimensions")


def n_squeeze(x):
    if type(x) is SArr2:
        n = x.rows[0].n
        one = n == 1 if type(n) is int else cur().branch(zi(n) == 1)
        if one:
            vals = [r.at(0) for r in x.rows]
            return SZero(vals[0]) if len(vals) == 1 else SSeq.conc(vals, "array")
        return x.rows[0] if len(x.rows) == 1 else x
    if type(x) is SSeq:
        n = x.n
        if n == 1 if type(n) is int else cur().branch(zi(n) == 1):
            return SZero(x.at(0))
    return x


def n_transpose(x):
    if type(x) is SZero:
        return x
    if type(x) is SSeq:
        return x
    x = x if type(x) is SArr2 else SArr2(list(x))
    return x.T


def n_vstack(x):
    return SArr2(list(x))


NUMPY = {
    np.asarray: n_asarray, np.array: n_asarray, np.atleast_1d: n_atleast_1d,
    np.multiply: _apply_out(lambda a, b: a * b), np.divide: _apply_out(npdiv), np.true_divide: _apply_out(npdiv),
    np.add: _apply_out(lambda a, b: a + b), np.subtract: _apply_out(lambda a, b: a - b),
    np.where: n_where, np.nan_to_num: n_nan_to_num, np.zeros_like: n_zeros_like, np.ones_like: n_ones_like,
    np.full_like: n_full_like, np.full: n_full, np.zeros: n_zeros, np.ones: n_ones, np.empty: n_zeros,
    np.empty_like: n_zeros_like,
    np.isnan: lambda x, **k: elementwise(m_isnan, x), np.isinf: lambda x: elementwise(m_isinf, x),
    np.isfinite: lambda x: elementwise(m_isfinite, x),
    np.sum: n_sum, np.nansum: n_sum, np.cumsum: lambda x, *a, **k: seq_cumsum(x), np.nancumsum: lambda x, *a, **k: seq_cumsum(x, True),
    np.diff: n_diff, np.all: n_all, np.any: n_any, np.invert: n_not, np.logical_not: n_not,
    np.logical_and: lambda a, b: elementwise(lambda x, y: _bw(truth(x), truth(y), "and"), a, b),
    np.logical_or: lambda a, b: elementwise(lambda x, y: _bw(truth(x), truth(y), "or"), a, b),
    np.concatenate: n_concatenate, np.append: n_append, np.insert: n_insert, np.hstack: n_concatenate,
    np.isclose: n_isclose, np.clip: n_clip, np.maximum: n_maximum, np.minimum: n_minimum,
    np.fmax: n_maximum, np.fmin: n_minimum,
    np.max: lambda x, **k: seq_extreme(x, True), np.min: lambda x, **k: seq_extreme(x, False),
    np.abs: lambda x: elementwise(abs, x), np.argmax: n_argmax, np.array_equal: n_array_equal,
    np.float64: lambda x=0.0: m_float(x), np.transpose: n_transpose, np.vstack: n_vstack,
    np.greater: lambda a, b: elementwise(lambda x, y: x > y, a, b),
    np.less: lambda a, b: elementwise(lambda x, y: x < y, a, b),
    np.greater_equal: lambda a, b: elementwise(lambda x, y: x >= y, a, b),
    np.less_equal: lambda a, b: elementwise(lambda x, y: x <= y, a, b),
    np.flatnonzero: n_flatnonzero, np.argwhere: n_argwhere, np.arange: n_arange, np.intersect1d: n_intersect1d, np.multiply.reduce: n_mul_reduce,
    np.negative: lambda x: elementwise(lambda a: -a, x),
    np.squeeze: n_squeeze,
}

class SymSet(list):
    """the different values of a short sequence"""

    def __getattr__(self, n):
        raise Unsupported(f"set.{n} of symbolic values")

    append = extend = insert = sort = property(lambda self: self.__getattr__("list"))


def m_set(x=()):
    if isinstance(x, (set, frozenset, dict)):
        raise Unsupported("set of a collection of symbolic values")
    s = SSeq.of(x) if is_seq(x) or isinstance(x, (list, tuple)) else SSeq.conc(list(x))
    if type(s.n) is not int or s.n > 16:
        raise Unsupported("set of a symbolic sequence")
    r = SymSet()
    for i in range(s.n):
        v = s.at(i)
        if type(v) not in (SReal, SInt, int, float, np.float64):
            raise Unsupported("hash of a symbolic value")
        if not any(bool(truth(v == w)) for w in r):
            list.append(r, v)
    return r


BUILTIN = {
    set: m_set,
    len: m_len, range: m_range, zip: m_zip, enumerate: m_enumerate, sum: m_sum, max: m_max, min: m_min,
    all: m_all, any: m_any, float: m_float, int: m_int, bool: m_bool, list: m_list, tuple: m_tuple, abs: m_abs,
    math.isclose: m_isclose, math.isnan: m_isnan, math.isfinite: m_isfinite, math.isinf: m_isinf, sorted: m_sorted,
    round: m_round, map: m_map, reversed: m_reversed, iter: m_iter, next: m_next,
    str: lambda x="": "<sym>", repr: lambda x: "<sym>",
}
# constructors whose single symbolic argument would otherwise be forced
MODELS = {}
for _d in (NUMPY, BUILTIN):
    for _f, _m in _d.items():
        MODELS[_f] = _m
