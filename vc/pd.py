"""Assumed contract of pandas.Series for a concrete (date) index and symbolic values."""
from __future__ import annotations

import datetime as _dt

import numpy as np
import pandas as pd

from vc import engine as E
from vc import rt, seq as S
from vc.engine import SReal, Unsupported, to_real, z3
from vc.seq import SSeq, is_sym, ite


class PIndex(list):
    def union(self, other):
        return PIndex(sorted(set(self) | set(other)))


MISSING = object()


class Model:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"{type(self).__name__}.{n}")


class LSeries(Model):
    """default index, symbolic length"""

    def __init__(self, s):
        self.s = s

    def ffill(self):
        s, ex = self.s, E.cur()
        last = z3.Function(ex.fresh("ffill"), z3.IntSort(), z3.IntSort())
        done = set()
        nan = lambda k: PSeries._isnan(S.merged(lambda: to_real(s.at(k))))

        def get(k):
            k = S.zi(k)
            h = last(k)
            if k.sexpr() not in done:
                done.add(k.sexpr())
                inr = z3.And(k >= 0, k < S.zi(s.n))
                ex.fact_local(z3.Implies(inr, z3.And(h >= -1, h <= k)))
                ex.fact_local(z3.Implies(z3.And(inr, z3.Not(nan(k))), h == k))
                ex.fact_local(z3.Implies(z3.And(inr, h >= 0), z3.Not(nan(h))))
                S.add_universal(s.n, lambda j: z3.Implies(z3.And(inr, h < S.zi(j), S.zi(j) <= k), nan(j)))
            v = to_real(S.merged(lambda: s.at(h)))
            return to_real(ite(h < 0, float("nan"), v))

        return LSeries(SSeq(s.n, get, "array"))

    def fillna(self, fill):
        s = self.s
        return LSeries(SSeq(s.n, lambda k: S.merged(lambda: fill if E.cur().branch(PSeries._isnan(to_real(s.at(k)))) else s.at(k)), "array"))

    def to_numpy(self):
        return self.s

    @property
    def values(self):
        return self.s

    def tolist(self):
        return S.to_list(self.s)

    to_list = tolist


class PSeries(Model):
    def __init__(self, data=None, index=None, **kw):
        if kw:
            raise Unsupported(f"pd.Series({kw})")
        if isinstance(data, dict):
            index, data = list(data.keys()), list(data.values())
        if type(data) is SSeq:
            if type(data.n) is not int:
                raise Unsupported("pd.Series of symbolic length")
            data = list(data)
        data = list(data)
        self.index = PIndex(range(len(data)) if index is None else list(index))
        if any(is_sym(i) for i in self.index):
            raise Unsupported("pd.Series with a symbolic index")
        if len(self.index) != len(data):
            raise ValueError("Length of values does not match length of index")
        self.data = [float("nan") if d is MISSING else d for d in data]

    def reindex(self, new):
        m = dict(zip(self.index, self.data))
        return PSeries([m.get(d, float("nan")) for d in new], index=list(new))

    @staticmethod
    def _isnan(v):
        if type(v) is SReal:
            return v.isnan
        if isinstance(v, float) and type(v) is float:
            return E.TRUE if v != v else E.FALSE
        if v is None:
            return E.TRUE
        return E.FALSE

    def ffill(self):
        out, last = [], float("nan")
        for v in self.data:
            n = self._isnan(v)
            if z3.is_true(n):
                v = last
            elif not z3.is_false(n):
                v = ite(n, last, v)
            out.append(v)
            last = v
        return PSeries(out, index=self.index)

    def fillna(self, fill):
        return PSeries([fill if z3.is_true(self._isnan(v)) else (v if z3.is_false(self._isnan(v)) else ite(self._isnan(v), fill, v)) for v in self.data], index=self.index)

    def interpolate(self, method="linear", **kw):
        if method != "time" or kw:
            raise Unsupported("interpolate")
        sec = [(d - _dt.datetime(1970, 1, 1)).total_seconds() for d in self.index]
        known = [i for i, v in enumerate(self.data) if not z3.is_true(self._isnan(v))]
        if any(not z3.is_false(self._isnan(self.data[i])) for i in known):
            raise Unsupported("interpolate over possibly missing values")
        out = []
        for i, v in enumerate(self.data):
            if i in known:
                out.append(v)
                continue
            lo = [j for j in known if j < i]
            hi = [j for j in known if j > i]
            if not lo:
                out.append(float("nan"))
            elif not hi:
                out.append(self.data[lo[-1]])
            else:
                a, b = lo[-1], hi[0]
                w = E.const_real(int(sec[i] - sec[a])) / E.const_real(int(sec[b] - sec[a]))
                va, vb = to_real(self.data[a]), to_real(self.data[b])
                out.append(SReal(va.e + w * (vb.e - va.e)))
        return PSeries(out, index=self.index)

    @property
    def values(self):
        return SSeq.conc(self.data, "array")

    def tolist(self):
        return list(self.data)

    to_list = tolist

    def to_numpy(self):
        return self.values

    def __len__(self):
        return len(self.data)


def m_series(*a, **k):
    if len(a) == 1 and not k and type(a[0]) is SSeq and type(a[0].n) is not int:
        return LSeries(a[0])
    return PSeries(*a, **k)


rt.EXTRA_MODELS[pd.Series] = m_series
