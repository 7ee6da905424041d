"""The contract language.  A contract is a function of one argument `s`; it declares its inputs, states its
preconditions (s.assume), executes the real code (s.run) and states postconditions (s.ensure).  The same text is used

  * symbolically: inputs are arbitrary, every path is explored, every s.ensure is an obligation for the solver;
  * concretely:   inputs come from a solver model (replay) or from a seeded generator, nothing is instrumented, and
                  s.ensure is an ordinary check of the real code's behaviour.
"""
from __future__ import annotations

import datetime as _dt
import math
import random

REGISTRY: dict[str, list["Contract"]] = {}


class Contract:
    def __init__(self, prop, fn, name, functions, summary, concrete_only, thorough_only, bounded, weight, cases, budget):
        self.prop, self.fn, self.name, self.functions, self.summary = prop, fn, name, functions, summary
        self.concrete_only = concrete_only
        self.thorough_only = thorough_only
        self.bounded = bounded
        self.weight = weight
        self.cases = cases
        self.budget = budget


def contract(prop, *functions, summary="", concrete_only=False, thorough_only=False, bounded=None, weight=1, cases=None, budget=None):
    def deco(fn):
        c = Contract(prop, fn, fn.__name__, functions, summary or (fn.__doc__ or "").strip(), concrete_only, thorough_only, bounded, weight, cases, budget)
        REGISTRY.setdefault(prop, []).append(c)
        return fn

    return deco


_D = _dt.datetime
CALENDARS = [
    [_D(2020, 1, 1), _D(2021, 1, 1)],
    [_D(2020, 1, 1), _D(2020, 6, 1), _D(2022, 1, 1)],
    [_D(2020, 3, 15), _D(2020, 7, 1), _D(2021, 2, 1), _D(2022, 5, 10)],
    [_D(2019, 12, 31), _D(2020, 1, 1), _D(2020, 1, 2), _D(2021, 1, 1), _D(2024, 1, 1)],
    [_D(2020, 1, 1), _D(2020, 1, 20), _D(2020, 2, 10)],
]


class Skip(BaseException):
    """concrete mode: the drawn input does not satisfy the precondition"""


class Failed(BaseException):
    """concrete mode: the contract does not hold"""

    def __init__(self, name, detail=""):
        self.name = name
        self.detail = detail


class NoTarget(BaseException):
    """the function under contract is not there (renamed or moved): undecided"""


def stub_error(e):
    """the code used a stand-in in a way it does not provide: says nothing about the code"""
    import re
    import sys

    for x in (e, e.__cause__, e.__context__):
        if isinstance(x, AttributeError) and type(getattr(x, "obj", None)).__module__.startswith("contracts"):
            raise NoTarget(f"stand-in does not provide: {x}")
        if isinstance(x, TypeError):
            m = re.match(r"([\w.<>]+)\(\) (got|takes|missing)", str(x))
            if m:
                first = m.group(1).split(".")
                for mn, mod in list(sys.modules.items()):
                    if mn.startswith("contracts.") and (first[0] in mod.__dict__ and getattr(mod.__dict__[first[0]], "__module__", "").startswith("contracts") and len(first) > 1):
                        raise NoTarget(f"stand-in does not provide: {x}")


class Outcome:
    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    def raised(self, *types):
        return self.exc is not None and isinstance(self.exc, types)


def target(path):
    """resolve 'module:Qual.name'"""
    import importlib

    mod, _, q = path.partition(":")
    try:
        o = importlib.import_module(mod)
        for part in q.split(".") if q else []:
            o = getattr(o, part)
        return o
    except (ImportError, AttributeError) as e:
        raise NoTarget(f"{path}: {e}") from None


class Base:
    symbolic = False

    def target(self, path):
        return target(path)

    def assume_distinct(self, xs):
        xs = list(xs)
        for i in range(len(xs)):
            for j in range(i):
                self.assume(xs[i] != xs[j])


# ------------------------------------------------------------------------------------------------ concrete
class Concrete(Base):
    def __init__(self, seed=None, given=None, size=5):
        self.rng = random.Random(seed)
        self.given = given
        self.drawn: dict = {}
        self.pool: list = []
        self.date_pool: list = []
        self.checked: dict = {}
        self.covered: dict = {}
        self.patches = []
        self.size = size
        self.n_names = {}
        self.last_error = None

    # names are made unique in draw order, exactly as in the symbolic run
    def _nm(self, name):
        i = self.n_names.get(name, 0)
        self.n_names[name] = i + 1
        return f"{name}!{i}" if i else name

    def _rand_real(self, lo, hi, integral=False):
        r = self.rng
        for _ in range(30):
            c = r.random()
            if c < 0.25 and self.pool:
                v = r.choice(self.pool) + r.choice([0, 0, 0, 0.5, -0.5, 1, -1])
            elif c < 0.40:
                v = r.choice([0.0, 1.0, -1.0, 2.0, 0.5, 10.0, 100.0])
            elif c < 0.5 and lo is not None:
                v = float(lo)
            elif c < 0.6 and hi is not None:
                v = float(hi)
            elif lo is not None and hi is not None:
                v = lo + (hi - lo) * r.choice([r.random(), r.randrange(0, 9) / 8])
            else:
                v = r.choice([r.randrange(-80, 81) / 8, r.randrange(-1000, 1001), r.uniform(-50, 50), r.uniform(0, 1)])
                if lo is not None and v < lo:
                    v = lo + abs(v)
                if hi is not None and v > hi:
                    v = hi - abs(v)
            v = float(v)
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        return float(lo if lo is not None else (hi if hi is not None else 0.0))

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        name = self._nm(name)
        if self.given is not None and name in self.given:
            v = self.given[name]
        elif self.given is not None:
            v = float(lo if lo is not None else (hi if hi is not None else 0.0)) + (1.0 if lo_open else 0.0)
        else:
            for _ in range(20):
                v = self._rand_real(lo, hi)
                if (lo_open and v <= lo) or (hi_open and v >= hi):
                    continue
                break
        if (lo is not None and (v < lo or lo_open and v <= lo)) or (hi is not None and (v > hi or hi_open and v >= hi)):
            raise Skip()
        self.drawn[name] = v
        if isinstance(v, float) and math.isfinite(v):
            self.pool.append(v)
        return v

    def int(self, name, lo=None, hi=None):
        name = self._nm(name)
        if self.given is not None:
            v = self.given.get(name, lo if lo is not None else 0)
        else:
            a, b = (lo if lo is not None else -5), (hi if hi is not None else (lo or 0) + 8)
            if b < a:
                raise Skip()
            v = self.rng.randint(a, b)
        self.drawn[name] = v
        return v

    def length(self, name, lo=0, hi=None):
        name = self._nm(name)
        if self.given is not None:
            v = self.given.get(name, lo)
        else:
            v = self.rng.randint(lo, min(hi if hi is not None else lo + self.size, lo + self.size))
        self.drawn[name] = v
        return v

    def bool(self, name):
        name = self._nm(name)
        v = self.given.get(name, False) if self.given is not None else self.rng.random() < 0.5
        self.drawn[name] = v
        return v

    def choice(self, name, options):
        name = self._nm(name)
        options = list(options)
        i = self.given.get(name, 0) if self.given is not None else self.rng.randrange(len(options))
        self.drawn[name] = i
        return options[i]

    def date(self, name, lo=None, hi=None):
        name = self._nm(name)
        if self.given is not None and name in self.given:
            v = _dt.datetime(1, 1, 1) + _dt.timedelta(seconds=self.given[name])
        elif self.given is None and self.date_pool and self.rng.random() < 0.4:
            v = self.rng.choice(self.date_pool) + _dt.timedelta(days=self.rng.choice([0, 0, 0, 1, -1]))
        else:
            v = self._rand_date()
        lo = lo or _dt.datetime(1900, 1, 1)
        hi = hi or _dt.datetime(2200, 1, 1)
        if not (lo <= v <= hi):
            raise Skip()
        self.drawn[name] = int((v - _dt.datetime(1, 1, 1)).total_seconds())
        self.date_pool.append(v)
        return v

    def _rand_date(self):
        r = self.rng
        c = r.random()
        if c < 0.5:
            return _dt.datetime(2018 + r.randrange(12), 1, 1)
        if c < 0.8:
            return _dt.datetime(2018 + r.randrange(8), r.randrange(1, 13), 1)
        if c < 0.93:
            return _dt.datetime(2018 + r.randrange(8), r.randrange(1, 13), r.randrange(1, 29))
        return _dt.datetime(2020, r.randrange(1, 13), r.randrange(1, 29), r.randrange(24), r.choice([0, 30]))

    def array(self, name, n, lo=None, hi=None, kind="array", lo_open=False, nan=False):
        name = self._nm(name)
        if self.given is not None and name in self.given:
            vals = [float("nan") if v is None else v for v in self.given[name]]
            vals = (vals + [float(lo or 0.0)] * n)[:n]
        elif self.given is not None:
            vals = [float(lo or 0.0) + (1.0 if lo_open else 0.0)] * n
        else:
            vals = []
            for _ in range(n):
                if nan and self.rng.random() < 0.2:
                    vals.append(float("nan"))
                    continue
                for _ in range(20):
                    v = self._rand_real(lo, hi)
                    if not (lo_open and v <= lo):
                        break
                vals.append(v)
                self.pool.append(v)
        for v in vals:
            if v == v and ((lo is not None and (v < lo or lo_open and v <= lo)) or (hi is not None and v > hi)):
                raise Skip()
        self.drawn[name] = [None if v != v else v for v in vals]
        if kind == "array":
            import numpy as np

            return np.array(vals, dtype=float)
        return list(vals) if kind == "list" else tuple(vals)

    def bools(self, name, n, kind="list"):
        name = self._nm(name)
        if self.given is not None:
            vals = (list(self.given.get(name, [])) + [False] * n)[:n]
        else:
            vals = [self.rng.random() < 0.5 for _ in range(n)]
        self.drawn[name] = vals
        if kind == "array":
            import numpy as np

            return np.array(vals, dtype=bool)
        return list(vals)

    def dates(self, name, n, gap_lo=1):
        """n strictly increasing dates"""
        name = self._nm(name)
        if self.given is not None and name in self.given and len(self.given[name]) >= n:
            vals = [_dt.datetime(1, 1, 1) + _dt.timedelta(seconds=x) for x in self.given[name][:n]]
        else:
            ds = set()
            d = _dt.datetime(2018, 1, 1)
            while len(ds) < n:
                ds.add(self._rand_date() if self.given is None else d)
                d = d.replace(year=d.year + 1)
            vals = sorted(ds)
        for a, b in zip(vals, vals[1:]):
            if b <= a:
                raise Skip()
        self.drawn[name] = [int((v - _dt.datetime(1, 1, 1)).total_seconds()) for v in vals]
        self.date_pool.extend(vals)
        return list(vals)

    def calendar(self, name, n_max=5):
        """a concrete time vector (>= 2 dates at midnight); symbolically one of a fixed list, here any"""
        name = self._nm(name)
        if self.given is not None and name in self.given:
            g = self.given[name]
            vals = CALENDARS[g] if isinstance(g, int) else [_dt.datetime.fromisoformat(x) for x in g]
        else:
            r = self.rng
            n = r.randint(2, n_max + 1)
            ds = set()
            while len(ds) < n:
                ds.add(r.choice([_dt.datetime(r.randint(2019, 2023), 1, 1), _dt.datetime(r.randint(2019, 2022), r.randint(1, 12), 1),
                                 _dt.datetime(2020, r.randint(1, 12), r.randint(1, 28))]))
            vals = sorted(ds)
        self.drawn[name] = [v.isoformat() for v in vals]
        return list(vals)

    def over(self, g):
        import numpy as np

        return lambda x: np.array([g(v) for v in x]) if np.ndim(x) else g(x)

    def func(self, name, nargs=1, lo=None, hi=None, lo_open=False):
        """an arbitrary (deterministic) real function"""
        name = self._nm(name)
        table = None
        if self.given is not None:
            table = self.given.get(name)
        memo: dict = {}
        seedv = self.rng.random()
        self.drawn[name] = {"entries": [], "else": None}
        rec = self.drawn[name]

        def f(*args):
            key = tuple(float(a) for a in args[:nargs])
            if key in memo:
                return memo[key]
            v = None
            if table is not None:
                best = None
                for a, val in table["entries"]:
                    d = max((abs(x - y) / max(1.0, abs(y)) for x, y in zip(a, key)), default=0.0)
                    if best is None or d < best[0]:
                        best = (d, val)
                if best is not None and best[0] < 1e-9:
                    v = best[1]
                elif table["else"] is not None:
                    v = table["else"]
            if v is None:
                r = random.Random(repr((seedv, key)))
                saved, self.rng = self.rng, r
                try:
                    for _ in range(20):
                        v = self._rand_real(lo, hi)
                        if not (lo_open and v <= lo):
                            break
                finally:
                    self.rng = saved
            if lo is not None and v < lo or hi is not None and v > hi:
                raise Skip()
            memo[key] = v
            rec["entries"].append([list(key), v])
            return v

        return f

    # ---- logic
    def assume(self, c):
        if not c:
            raise Skip()

    def assume_all(self, n, f):
        for k in range(n):
            self.assume(f(k))

    def cover(self, name):
        self.covered[name] = self.covered.get(name, 0) + 1

    def run(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except NoTarget:
            raise
        except Exception as e:  # noqa: BLE001
            stub_error(e)
            self.last_error = repr(e)
            return Outcome(exc=e)

    def ensure(self, name, c, detail=None):
        self.checked[name] = self.checked.get(name, 0) + 1
        if not c:
            d = detail
            if d is None:
                d = self.last_error or ""
            raise Failed(name, str(d))

    def indices(self, n):
        return range(n)

    def tol(self, a, b):
        return 1e-9 * max(1.0, abs(a), abs(b))

    def eq(self, a, b):
        if a is None or b is None:
            return a is b
        if isinstance(a, (_dt.datetime, str)) or isinstance(b, (_dt.datetime, str)):
            return a == b
        a, b = float(a), float(b)
        if a != a or b != b:
            return a != a and b != b
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= self.tol(a, b)

    def le(self, a, b):
        return a <= b + self.tol(a, b)

    def ge(self, a, b):
        return self.le(b, a)

    def isnan(self, a):
        return a != a

    def implies(self, a, b):
        return (not a) or b

    def and_(self, *xs):
        return all(xs)

    def or_(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def sum(self, n, f):
        return math.fsum(f(k) for k in range(n))

    def len(self, x):
        return len(x)

    def patch(self, owner, name, repl):
        if isinstance(owner, str):
            owner = target(owner)
        if not hasattr(owner, name):
            raise NoTarget(f"{owner}.{name}")
        had = name in vars(owner) if hasattr(owner, "__dict__") else True
        old = vars(owner).get(name) if had else None
        setattr(owner, name, repl)
        self.patches.append((owner, name, had, old))

    def unpatch(self):
        for owner, name, had, old in reversed(self.patches):
            if had:
                setattr(owner, name, old)
            else:
                delattr(owner, name)
        self.patches = []

    def contiguous_filters(self):
        pass

    def invariants(self, *a, **k):
        pass


# ------------------------------------------------------------------------------------------------ symbolic
class Symbolic(Base):
    symbolic = True

    def __init__(self, ex, bound=None, seq_bound=None):
        self.ex = ex
        self.bound = bound
        self.inputs = []
        self.n_names = {}
        self.patches = []
        ex.model_builder = self.build_model
        ex.small = []

    def _nm(self, name):
        i = self.n_names.get(name, 0)
        self.n_names[name] = i + 1
        return f"{name}!{i}" if i else name

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False):
        from vc.engine import SReal, const_real, z3

        name = self._nm(name)
        v = z3.Real("in_" + name)
        if lo is not None:
            self.ex.fact(v > const_real(lo) if lo_open else v >= const_real(lo))
        if hi is not None:
            self.ex.fact(v < const_real(hi) if hi_open else v <= const_real(hi))
        self.ex.small.append(z3.And(v <= 1000, v >= -1000))
        self.inputs.append((name, "real", v, None))
        return SReal(v)

    def int(self, name, lo=None, hi=None):
        from vc.engine import SInt, z3

        name = self._nm(name)
        from vc.engine import int_expr

        cl = lo if type(lo) is int else None
        ch = hi if type(hi) is int else None
        if cl is not None and ch is not None and self.bound is not None and 0 <= ch - cl <= 8:
            return self.choice(name, list(range(cl, ch + 1)))
        v = z3.Int("in_" + name)
        if lo is not None:
            self.ex.cond(v >= int_expr(lo))
        if hi is not None:
            self.ex.cond(v <= int_expr(hi))
        if self.ex._check() == z3.unsat:
            from vc.engine import Infeasible

            raise Infeasible()
        self.ex.index_terms.append(v)
        from vc.seq import _instantiate

        for m_, pred, g_ in list(self.ex.universals):
            _instantiate(m_, pred, v, g_)
        self.ex.state.setdefault("ints", []).append(v)
        self.inputs.append((name, "int", v, None))
        return SInt(v)

    def length(self, name, lo=0, hi=None):
        from vc.engine import SInt, z3

        name = self._nm(name)
        if self.bound is not None:
            top = max(lo, self.bound)
            if hi is not None:
                top = min(top, hi)
            v = lo + self.ex.choose(top - lo + 1)
            self.inputs.append((name, "const", v, None))
            return v
        v = z3.Int("in_" + name)
        self.ex.fact(v >= lo)
        if hi is not None:
            self.ex.fact(v <= hi)
        self.ex.small.append(v <= 5)
        self.inputs.append((name, "int", v, None))
        return SInt(v)

    def bool(self, name):
        from vc.engine import SBool, z3

        name = self._nm(name)
        v = z3.Bool("in_" + name)
        self.inputs.append((name, "bool", v, None))
        return SBool(v)

    def choice(self, name, options):
        name = self._nm(name)
        options = list(options)
        i = self.ex.choose(len(options))
        self.inputs.append((name, "const", i, None))
        return options[i]

    def date(self, name, lo=None, hi=None):
        from vc.engine import SDate, date_const, z3

        name = self._nm(name)
        v = z3.Int("in_" + name)
        lo = lo or _dt.datetime(1900, 1, 1)
        hi = hi or _dt.datetime(2200, 1, 1)
        self.ex.fact(v >= date_const(lo))
        self.ex.fact(v <= date_const(hi))
        self.inputs.append((name, "int", v, None))
        return SDate(v)

    def array(self, name, n, lo=None, hi=None, kind="array", lo_open=False, nan=False):
        from vc.engine import SReal, const_real, z3
        from vc.seq import SSeq, zi

        name = self._nm(name)
        f = z3.Function("in_" + name, z3.IntSort(), z3.RealSort())
        fn = z3.Function("in_" + name + "_nan", z3.IntSort(), z3.BoolSort()) if nan else None
        ex = self.ex
        seen = set()

        def get(k):
            e = f(zi(k))
            key = e.sexpr()
            if key not in seen:
                seen.add(key)
                if lo is not None:
                    ex.fact(e > const_real(lo) if lo_open else e >= const_real(lo))
                if hi is not None:
                    ex.fact(e <= const_real(hi))
            return SReal(e, fn(zi(k)) if nan else None)

        nn = n if type(n) is int else n.e
        self.inputs.append((name, "array", f, (nn, fn)))
        if type(nn) is int and kind != "array":
            vals = [get(i) for i in range(nn)]
            return vals if kind == "list" else tuple(vals)
        return SSeq(nn, get, kind)

    def bools(self, name, n, kind="list"):
        from vc.engine import SBool, z3
        from vc.seq import SSeq, zi

        name = self._nm(name)
        f = z3.Function("in_" + name, z3.IntSort(), z3.BoolSort())
        nn = n if type(n) is int else n.e
        self.inputs.append((name, "boolarray", f, (nn, None)))
        if type(nn) is int and kind != "array":
            return [SBool(f(z3.IntVal(i))) for i in range(nn)]
        return SSeq(nn, lambda k: SBool(f(zi(k))), kind)

    def dates(self, name, n, gap_lo=1):
        from vc.engine import SDate, date_const, z3
        from vc.seq import SSeq, zi

        name = self._nm(name)
        f = z3.Function("in_" + name, z3.IntSort(), z3.IntSort())
        nn = n if type(n) is int else n.e
        ex = self.ex
        seen = {}
        lo, hi = date_const(_dt.datetime(1900, 1, 1)), date_const(_dt.datetime(2200, 1, 1))

        def get(k):
            ke = z3.simplify(zi(k))
            e = f(ke)
            key = ke.sexpr()
            if key not in seen:
                ex.fact(z3.And(e >= lo, e <= hi))
                for ko in seen.values():
                    # strictly increasing (between adjacent indices by at least gap_lo seconds)
                    ex.fact(z3.And((ko < ke) == (f(ko) < e), (ko == ke) == (f(ko) == e)))
                seen[key] = ke
            return SDate(e)

        self.inputs.append((name, "intarray", f, (nn, None)))
        if type(nn) is int:
            return [get(i) for i in range(nn)]
        return SSeq(nn, get, "list")

    def calendar(self, name, n_max=5):
        self.ex.notes.add("bounded: time vectors drawn from a fixed list of calendars (values symbolic)")
        return list(self.choice(name, CALENDARS))

    def over(self, g):
        """a function applied to each element of an array, or to a number"""
        from vc.seq import SSeq, is_seq

        return lambda x: SSeq(SSeq.of(x).n, lambda k: g(SSeq.of(x).at(k)), "array") if is_seq(x) else g(x)

    def func(self, name, nargs=1, lo=None, hi=None, lo_open=False):
        from vc.engine import SReal, const_real, to_real, z3

        name = self._nm(name)
        f = z3.Function("in_" + name, *([z3.RealSort()] * nargs), z3.RealSort())
        ex = self.ex
        self.inputs.append((name, "func", f, nargs))
        seen = set()

        def g(*args):
            e = f(*[to_real(a).e for a in args[:nargs]])
            k = e.sexpr()
            if k not in seen:
                seen.add(k)
                if lo is not None:
                    ex.fact(e > const_real(lo) if lo_open else e >= const_real(lo))
                if hi is not None:
                    ex.fact(e <= const_real(hi))
            return SReal(e)

        return g

    # ---- logic
    def _t(self, x):
        from vc.seq import truth

        return truth(x)

    def _b(self, x):
        from vc import engine as E
        from vc.seq import truth

        return E.lift_bool(truth(x))

    def assume(self, c):
        self.ex.assume(self._t(c))

    def assume_all(self, n, f):
        """precondition on every element"""
        from vc.engine import SInt
        from vc.seq import add_universal

        if type(n) is int:
            for k in range(n):
                self.assume(f(k))
            return
        add_universal(n.e, lambda k: self._b(f(k if type(k) is int else SInt(k))))

    def cover(self, name):
        self.ex.cover(name)

    def run(self, f, *a, **k):
        from vc import rt

        try:
            return Outcome(rt.call(f, *a, **k))
        except NoTarget:
            raise
        except Exception as e:  # noqa: BLE001
            _check_engine_error(e)
            stub_error(e)
            import os

            if os.environ.get("VC_TRACE"):
                import traceback

                traceback.print_exception(e, limit=-6)
            return Outcome(exc=e)

    def ensure(self, name, c, detail=None):
        self.ex.ensure(name, self._t(c))

    def indices(self, n):
        from vc.engine import SInt
        from vc.seq import fresh_index

        if type(n) is int:
            yield from range(n)
            return
        # an arbitrary index; the empty case is explored too
        if self.ex.choose(2, "indices") == 1:
            return
        yield SInt(fresh_index(n.e, "k"))

    def eq(self, a, b):
        from vc import engine as E
        from vc.engine import SReal, b_and, b_or, mkbool, to_real

        if a is None or b is None:
            return a is b
        if type(a) is E.SDate or type(b) is E.SDate or isinstance(a, (str, _dt.datetime)):
            return a == b
        ra, rb = to_real(a), to_real(b)
        if ra is None or rb is None:
            return a == b
        if type(ra) is float or type(rb) is float:
            return ra == rb if type(ra) is type(rb) else False
        if ra.nan is None and rb.nan is None:
            return ra == rb
        return mkbool(b_or(b_and(ra.isnan, rb.isnan), b_and(E.b_not(ra.isnan), E.b_not(rb.isnan), ra.e == rb.e)))

    def le(self, a, b):
        return a <= b

    def ge(self, a, b):
        return a >= b

    def isnan(self, a):
        from vc.engine import mkbool, to_real

        return mkbool(to_real(a).isnan)

    def implies(self, a, b):
        from vc.engine import b_not, b_or, mkbool

        return mkbool(b_or(b_not(self._b(a)), self._b(b)))

    def and_(self, *xs):
        from vc.engine import b_and, mkbool

        return mkbool(b_and(*[self._b(x) for x in xs]))

    def or_(self, *xs):
        from vc.engine import b_or, mkbool

        return mkbool(b_or(*[self._b(x) for x in xs]))

    def not_(self, x):
        from vc.engine import b_not, mkbool

        return mkbool(b_not(self._b(x)))

    def iff(self, a, b):
        from vc.engine import mkbool, z3

        return mkbool(z3.simplify(self._b(a) == self._b(b)))

    def ite(self, c, a, b):
        from vc.seq import ite

        return ite(self._b(c), a, b)

    def sum(self, n, f):
        from vc.engine import SInt
        from vc.seq import sum_term

        if type(n) is int:
            r = 0.0
            for k in range(n):
                r = f(k) + r
            return r
        return sum_term(n.e, lambda k: f(k if type(k) is int else SInt(k)))

    def len(self, x):
        from vc import rt

        return rt._len(x)

    def patch(self, owner, name, repl):
        if isinstance(owner, str):
            owner = target(owner)
        if not hasattr(owner, name):
            raise NoTarget(f"{owner}.{name}")
        had = name in vars(owner)
        old = vars(owner).get(name)
        setattr(owner, name, repl)
        self.patches.append((owner, name, had, old))

    def unpatch(self):
        Concrete.unpatch(self)

    def contiguous_filters(self):
        """use the lemma on selections of consecutive elements (see vc.seq.filter_seq)"""
        self.ex.state["contiguous_filters"] = True

    def invariants(self, match, templates, havoc=None):
        from vc import rt

        rt.LOOPS.append(rt.LoopSpec(match, templates, havoc))

    # ---- counterexamples
    def build_model(self, m):
        from vc.engine import z3

        def num(e, integer=False):
            v = m.eval(e, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long() if integer else float(v.as_long())
            if z3.is_rational_value(v):
                return float(v.numerator_as_long()) / float(v.denominator_as_long()) if v.denominator_as_long() < 10**300 else float(v.as_fraction())
            if z3.is_algebraic_value(v):
                a = v.approx(30)
                return a.numerator_as_long() / a.denominator_as_long()
            return 0 if integer else 0.0

        out = {}
        try:
            for name, kind, v, aux in self.inputs:
                if kind == "const":
                    out[name] = v
                elif kind == "real":
                    out[name] = num(v)
                elif kind == "int":
                    out[name] = num(v, True)
                elif kind == "bool":
                    out[name] = z3.is_true(m.eval(v, model_completion=True))
                elif kind in ("array", "boolarray", "intarray"):
                    n, fn = aux
                    nv = n if type(n) is int else num(n, True)
                    if nv > 400:
                        return None
                    if kind == "array":
                        out[name] = [None if fn is not None and z3.is_true(m.eval(fn(z3.IntVal(i)), model_completion=True)) else num(v(z3.IntVal(i))) for i in range(nv)]
                    elif kind == "intarray":
                        out[name] = [num(v(z3.IntVal(i)), True) for i in range(nv)]
                        _repair_increasing(out[name])
                    else:
                        out[name] = [z3.is_true(m.eval(v(z3.IntVal(i)), model_completion=True)) for i in range(nv)]
                elif kind == "func":
                    fi = m.get_interp(v)
                    ent = []
                    els = None
                    if fi is not None and isinstance(fi, z3.FuncInterp):
                        for i in range(fi.num_entries()):
                            e = fi.entry(i)
                            ent.append([[num(e.arg_value(j)) for j in range(e.num_args())], num(e.value())])
                        ev = fi.else_value()
                        if ev is not None:
                            try:
                                els = num(ev)
                            except Exception:
                                els = None
                    out[name] = {"entries": ent, "else": els}
        except Exception as e:  # a value that cannot be written down
            return None
        return out


def _repair_increasing(xs):
    """indices the proof never looked at have arbitrary interpretations: make the dates increasing again"""
    for i in range(1, len(xs)):
        if xs[i] <= xs[i - 1]:
            xs[i] = xs[i - 1] + 86400


ENGINE_DIRS = ("/vc/",)


def _check_engine_error(e):
    """An exception raised by the engine itself (not by the code under contract or a modelled library error) must not
    be mistaken for behaviour of the code: report as unsupported."""
    import traceback

    from vc.engine import Unsupported

    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = last.tb_frame.f_code.co_filename if last else ""
    if "/vc/" in fn and not getattr(e, "_modelled", False):
        line = last.tb_lineno
        src = ""
        try:
            import linecache

            src = linecache.getline(fn, line).strip()
        except Exception:
            pass
        if not src.startswith("raise ") and "rt.py" not in fn:
            raise Unsupported(f"engine error {type(e).__name__}: {e} at {fn}:{line}")
        if "rt.py" in fn and isinstance(e, (TypeError, AttributeError)) and any(w in str(e) for w in ("SReal", "SSeq", "SInt", "SBool", "SDate", "sym")):
            raise Unsupported(f"engine error {type(e).__name__}: {e} at {fn}:{line}")
    if isinstance(e, (TypeError, AttributeError)) and any(w in str(e) for w in ("SReal", "SSeq", "SInt", "SBool", "SDate", "STimedelta", "SArr2")):
        raise Unsupported(f"{type(e).__name__}: {e} at {fn}:{last.tb_lineno if last else 0}")
