"""C20 numeric searches: bisection, root finding and damping"""
from contracts.common import T
from vc.harness import contract

NM = "libecalc.common.numeric_methods:"
SS = "libecalc.process.process_solver.search_strategies:"
BO = "libecalc.process.process_solver.boundary:Boundary"


def _candidates(s, lo, hi, good, gaps=False):
    """candidate invariants over whatever numbers a loop carries: inside the interval, ordered, on one side of the threshold"""

    def num(v):
        return type(v).__name__ in ("SReal", "SInt", "float", "int", "Fraction")

    def templates(state):
        out = []
        ns = sorted(n for n, v in state.items() if num(v) or v is None)
        for n in ns:
            v = state[n]
            w = (lambda f: (lambda v: (lambda: True if v is None else f(v))))
            for lab, f in (("in", lambda v: s.and_(lo <= v, v <= hi)), ("good or lowest", lambda v: s.or_(v == lo, good(v))), ("bad or highest", lambda v: s.or_(v == hi, s.not_(good(v)))),
                           ("good", lambda v: good(v)), ("bad", lambda v: s.not_(good(v))), ("good or highest", lambda v: s.or_(v == hi, good(v))), ("bad or lowest", lambda v: s.or_(v == lo, s.not_(good(v))))):
                out.append((f"{n} {lab}", w(f)(v)))
            for m in ns:
                if m != n:
                    u = state[m]
                    out.append((f"{n} <= {m}", (lambda a, b: (lambda: True if a is None or b is None else a <= b))(v, u)))
                    out.append((f"{n} none or {m} = {n}", (lambda a, b: (lambda: True if a is None else False if b is None else a == b))(v, u)))
        for d in ns if gaps else ():  # a relative distance
            for i, n in enumerate(ns):
                for m in ns[i + 1:]:
                    if d not in (n, m):
                        out.append((f"|{n} - {m}| <= {d} * max(|{n}|, |{m}|)", (lambda d, a, b: (lambda: True if a is None or b is None or d is None else s.le(mag(a - b), d * s.ite(mag(a) > mag(b), mag(a), mag(b)))))(state[d], state[n], state[m])))
        return out

    mag = lambda v: s.ite(v > 0, v, -v)
    return templates


@contract("C20", NM + "maximize_x_given_boolean_condition_function")
def largest_valid(s):
    """the largest x for which a condition holds: inside the interval, itself valid (or the lowest x), and within tolerance of the threshold"""
    lo = s.real("lo", lo=None if s.symbolic else -100, hi=None if s.symbolic else 1000)
    hi = lo + s.real("width", lo=0 if s.symbolic else 0.1, hi=None if s.symbolic else 1e5)
    t = s.real("threshold", lo=None if s.symbolic else -200, hi=None if s.symbolic else 1e5)
    good = lambda x: x <= t
    tol = s.real("tolerance", lo=0 if s.symbolic else 1e-6, hi=1 if s.symbolic else 0.01, lo_open=True)
    k = s.length("iterations", lo=1)
    errors = []
    M = T(NM + "maximize_x_given_boolean_condition_function")
    import sys
    s.patch(sys.modules["libecalc.common.numeric_methods"].logger, "error", lambda *a, **kw: errors.append(a))
    s.invariants("maximize_x_given_boolean_condition_function", _candidates(s, lo, hi, good, gaps=True))
    r = s.run(M, lo, hi, good, tol, k) if s.symbolic else s.run(M, lo, hi, good, tol)
    s.ensure("does not fail", r.ok, str(r.exc))
    x = r.value
    s.ensure("inside the interval", s.and_(s.le(lo, x), s.le(x, hi)))
    s.ensure("valid, or the lowest one", s.or_(s.eq(x, lo), good(x)))
    if not errors:
        top = s.ite(t < hi, s.ite(t > lo, t, lo), hi)
        mag = lambda v: s.ite(v > 0, v, -v)
        # the next one tried, d away with d <= tolerance * (|x| + d), was not valid
        s.ensure("no valid one is further away than the tolerance", s.le((top - x) * (1 - tol), tol * mag(x)), f"{x} {top}")
    if not s.symbolic:
        top = min(max(t, lo), hi)
        s.ensure("converges to the threshold", abs(x - top) <= 2 * tol * max(abs(x), abs(top)) + (hi - lo) * 2 ** -49, f"{x} {top}")


@contract("C20", SS + "Bisect._bisect", SS + "Bisect.search", SS + "Bisect.lowest_true", SS + "Bisect.highest_true", SS + "Bisect._first_true", cases=600)
def bisection(s):
    """the lowest or highest x for which a condition holds: inside the interval, itself valid, and next to the threshold; none if there is none"""
    lo = s.real("lo", lo=None if s.symbolic else -100, hi=None if s.symbolic else 1000)
    hi = lo + s.real("width", lo=0 if s.symbolic else 0.1, hi=None if s.symbolic else 1e5)
    t = s.real("threshold", lo=None if s.symbolic else -200, hi=None if s.symbolic else 1e5)
    up = s.choice("valid", ["up to", "from"])
    good = (lambda x: x <= t) if up == "up to" else (lambda x: x >= t)
    k = s.length("iterations", lo=0) if s.symbolic else s.choice("iterations", [0, 1, 20, 60])
    tol = s.real("tolerance", lo=0 if s.symbolic else 1e-6, hi=1 if s.symbolic else 1e-3, lo_open=True)
    b = T(SS + "Bisect")(tolerance=tol, max_iterations=k)
    B = T(BO)(min=lo, max=hi)
    s.invariants("Bisect._bisect", _candidates(s, lo, hi, good))
    how = s.choice("search", ["search", "lowest", "highest"])
    if how == "search":
        # the condition is steered towards its threshold
        BR = T(SS + "BisectResult")

        def probe(x):
            ok = good(x)
            return BR(higher=ok if up == "up to" else s.not_(ok), accepted=ok)

        r = s.run(b.search, B, probe)
        if r.ok:
            s.ensure("inside the interval", s.and_(s.le(lo, r.value), s.le(r.value, hi)))
            s.ensure("valid", good(r.value))
        else:
            s.ensure("only no convergence is an error", r.raised(T(SS + "DidNotConvergeError")), str(r.exc))
        if not s.symbolic and k >= 20:
            top = min(max(t, lo), hi)
            any_good = (t - lo if up == "up to" else hi - t)
            if any_good > (hi - lo) * 1e-4:
                s.ensure("found if there is one", r.ok)
                s.ensure("next to the threshold", abs(r.value - top) <= 2 * tol * max(abs(lo), abs(hi), 1) + (hi - lo) * 2 ** -19, f"{r.value} {top}")
        return
    r = s.run(b.lowest_true if how == "lowest" else b.highest_true, B, good)
    s.ensure("does not fail", r.ok, str(r.exc))
    some = s.or_(good(lo), good(hi))
    s.ensure("none exactly if there is none", s.iff(r.value is None, s.not_(some)))
    if r.value is None:
        return
    x = r.value
    s.ensure("inside the interval", s.and_(s.le(lo, x), s.le(x, hi)))
    s.ensure("valid", good(x))
    near = lo if how == "lowest" else hi
    s.ensure("the near end if it is valid", s.implies(good(near), s.eq(x, near)))
    if not s.symbolic and k >= 20 and not good(near):
        s.ensure("next to the threshold", abs(x - t) <= 2 * tol * max(abs(lo), abs(hi), 1) + (hi - lo) * 2 ** -19, f"{x} {t}")


@contract("C20", SS + "Bisect._bisect", SS + "Bisect.search", SS + "Bisect.lowest_true", SS + "Bisect.highest_true", bounded="1 to 6 bisection steps (values unbounded)", budget=90)
def bisection_steps(s):
    """each step halves the interval: after k steps without convergence the result is within the k-th part of the threshold"""
    lo = s.real("lo", lo=None if s.symbolic else -100, hi=None if s.symbolic else 1000)
    w = s.real("width", lo=0 if s.symbolic else 0.1, hi=None if s.symbolic else 1e5, lo_open=True)
    hi = lo + w
    part = s.real("part", lo=0, hi=1)
    t = lo + part * w
    k = s.choice("steps", [1, 2, 3, 4] if s.symbolic else [1, 2, 3, 6])
    b = T(SS + "Bisect")(tolerance=0.0, max_iterations=k)
    B = T(BO)(min=lo, max=hi)
    up = s.bool("valid up to")
    r = s.run(b.highest_true, B, lambda x: x <= t) if up else s.run(b.lowest_true, B, lambda x: x >= t)
    s.ensure("does not fail", r.ok, str(r.exc))
    x = r.value
    s.ensure("found", x is not None)
    first = part * w == w if up else part == 0
    gap = t - x if up else x - t
    if not s.symbolic:
        s.assume(0.001 < part < 0.999)
        f = part * 2 ** k
        s.assume(abs(f - round(f)) > 1e-6)
    s.ensure("valid", s.ge(gap, 0))
    # no step accepted: the far end, which is further away than the last part
    none = part < 1 / 2 ** k if up else part > 1 - 1 / 2 ** k
    s.ensure("within the k-th part of the interval", s.or_(none, s.le(gap, w / 2 ** k)), f"{x} {t}")


@contract("C20", NM + "adaptive_pressure_update", bounded="1 to 4 successive updates (values unbounded); up to 12 in runs")
def damping(s):
    """a damped pressure lies between the previous and the new one, never closer to the previous one than a tenth of the step, and is the new one until it has oscillated"""
    n = s.choice("updates", [1, 2, 3, 4] if s.symbolic else [3, 6, 12])
    st = T(NM + "DampState")()
    upd = T(NM + "adaptive_pressure_update")
    p = s.real("start", lo=0 if s.symbolic else 1, hi=None if s.symbolic else 200)
    for i in range(n):
        raw = s.real(f"new{i}", lo=0 if s.symbolic else 1, hi=None if s.symbolic else 200)
        r = s.run(upd, p_prev=p, p_raw=raw, state=st)
        s.ensure("does not fail", r.ok, str(r.exc))
        q, st = r.value
        a, b = s.ite(raw > p, raw - p, p - raw), s.ite(q > p, q - p, p - q)
        s.ensure("towards the new pressure", s.and_(s.implies(raw >= p, s.ge(q, p)), s.implies(raw <= p, s.le(q, p))))
        s.ensure("between a tenth of the step and the step", s.and_(s.le(a / 10, b), s.le(b, a)))
        if i < 2:
            s.ensure("not damped before it has oscillated", s.eq(q, raw))
        p = q


@contract("C20", NM + "find_root", NM + "secant_method", SS + "ScipyRootFindingStrategy.find_root", concrete_only=True, cases=800,
          bounded="generated monotone functions of five shapes on generated intervals (the iteration itself is scipy's)")
def roots(s):
    """a root is found to within the tolerance where the function changes sign; without one the result stays in the interval and nothing fails"""
    import math
    lo = s.real("lo", lo=-100, hi=1000)
    hi = lo + s.real("width", lo=0.1, hi=1e4)
    shape = s.choice("shape", ["line", "cube", "exp", "sqrt", "flat"])
    sign = s.choice("sign", [1, -1])
    root = lo + s.real("part", lo=-0.3, hi=1.3) * (hi - lo)
    sc = s.real("scale", lo=0.01, hi=100)
    w = hi - lo
    f = {"line": lambda x: x - root, "cube": lambda x: ((x - root) / w) ** 3 + 0.01 * (x - root) / w, "exp": lambda x: math.exp(3 * (x - root) / w) - 1,
         "sqrt": lambda x: math.copysign(math.sqrt(abs(x - root)), x - root), "flat": lambda x: 1.0}[shape]
    g = lambda x: sign * sc * f(x)
    inside = lo < root < hi and shape != "flat"
    r = s.run(T(NM + "find_root"), lo, hi, g)
    s.ensure("does not fail", r.ok, str(r.exc))
    s.ensure("inside the interval", lo - 1e-9 <= r.value <= hi + 1e-9, f"{r.value}")
    if inside:
        s.ensure("within the tolerance of the root", abs(r.value - root) <= 1e-4 * max(abs(r.value), abs(root)) + 1e-9 * w + 1e-6, f"{r.value} {root}")
    z = s.run(T(SS + "ScipyRootFindingStrategy")().find_root, T(BO)(min=lo, max=hi), g)
    if inside:
        s.ensure("the solver's root is found", z.ok and abs(z.value - root) <= 1e-4 * max(abs(z.value), abs(root)) + 1e-9 * w + 1e-6, f"{z.value} {root}")
    e = s.run(T(NM + "secant_method"), lo, hi, g)
    s.ensure("the secant method does not fail", e.ok, str(e.exc))
    s.ensure("the secant method stays in the interval", lo - 1e-9 <= e.value <= hi + 1e-9, f"{e.value}")
    if shape == "line" and inside:
        s.ensure("the secant method solves lines", abs(e.value - root) <= 1e-4 * max(abs(e.value), abs(root)) + 1e-6, f"{e.value} {root}")


@contract("C20", NM + "secant_method", bounded="one or two iterations (values unbounded)")
def secant_steps(s):
    """a secant step on a line lands on its root, or on the end of the interval nearest to it; equal values do not divide by zero"""
    x0 = s.real("x0", lo=None if s.symbolic else -50, hi=None if s.symbolic else 50)
    w = s.real("w", lo=0 if s.symbolic else 0.1, hi=None if s.symbolic else 50, lo_open=True)
    x1 = x0 + w
    a, root = s.real("slope", lo=None if s.symbolic else -5, hi=None if s.symbolic else 5), s.real("root", lo=None if s.symbolic else -80, hi=None if s.symbolic else 80)
    if s.bool("flat"):
        a = 0.0
    c = s.real("level", lo=1, hi=3)
    r = s.run(T(NM + "secant_method"), x0, x1, (lambda x: a * (x - root)) if not (type(a) is float and a == 0.0) else (lambda x: c), 1e-5, 0)
    s.ensure("does not fail", r.ok, str(r.exc))
    s.ensure("inside the interval", s.and_(s.le(x0, r.value), s.le(r.value, x1)))
    if not (type(a) is float and a == 0.0):
        if s.or_(a > 0.01, a < -0.01):
            s.ensure("on the root, or the nearest end", s.eq(r.value, s.ite(root < x0, x0, s.ite(root > x1, x1, root))))


FC = "libecalc.process.process_solver.float_constraint:FloatConstraint"


@contract("C20", FC + "._is_close", FC + ".__lt__", FC + ".__le__", FC + ".__gt__", FC + ".__ge__", FC + ".__eq__", FC + ".__ne__")
def within_tolerance(s):
    """comparison with a tolerance: exactly one of less, equal and greater"""
    a = s.real("a", lo=None if s.symbolic else -5, hi=None if s.symbolic else 5)
    b = s.real("b", lo=None if s.symbolic else -5, hi=None if s.symbolic else 5)
    tol = s.real("tol", lo=0, hi=1)
    c = object.__new__(T(FC)) if s.symbolic else T(FC)(a, abs_tol=tol)
    c.value, c.abs_tol = a, tol
    if not s.symbolic:
        s.assume(abs(abs(a - b) - tol) > 1e-9)
    r = s.run(lambda: (c == b, c != b, c < b, c <= b, c > b, c >= b))
    s.ensure("does not fail", r.ok, str(r.exc))
    eq, ne, lt, le, gt, ge = r.value
    close = s.and_(a - b <= tol, b - a <= tol)
    s.ensure("equal exactly within the tolerance", s.and_(s.iff(eq, close), s.iff(ne, s.not_(close))))
    s.ensure("less and greater outside it", s.and_(s.iff(lt, s.and_(s.not_(close), a < b)), s.iff(gt, s.and_(s.not_(close), a > b))))
    s.ensure("or equal", s.and_(s.iff(le, s.or_(close, a < b)), s.iff(ge, s.or_(close, a > b))))
