"""C21 operating points in compressor charts"""
from contracts.common import T
from contracts.pumps import _chart_data, _curve, _line, _points, _random_chart
from vc.harness import contract

CH = "libecalc.domain.process.value_objects.chart.chart:Chart"
CC = "libecalc.domain.process.value_objects.chart.compressor.compressor_chart:CompressorChart"
BC = "libecalc.domain.process.value_objects.chart.base:ChartCurve"
CR = "libecalc.domain.process.value_objects.chart.compressor.chart_creator:CompressorChartCreator"
FL = "libecalc.domain.process.value_objects.chart.chart_area_flag:ChartAreaFlag"
TY = "libecalc.domain.process.value_objects.chart.compressor.types:CompressorChartResult"


def _flag(s, speed, lowest, highest, increase, rate, lo, hi):
    """where a point is in a chart, from the rate before recirculation"""
    F = T(FL)
    if speed > highest:
        return F.ABOVE_MAXIMUM_SPEED
    slow = bool(speed < lowest)
    if slow and not increase:
        return F.BELOW_MINIMUM_SPEED
    if rate <= 1e-5:
        return F.NO_FLOW_RATE
    if rate < lo:
        return F.BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE if slow else F.BELOW_MINIMUM_FLOW_RATE
    if rate > hi:
        return F.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE if slow else F.ABOVE_MAXIMUM_FLOW_RATE
    return F.BELOW_MINIMUM_SPEED if slow else F.INTERNAL_POINT


@contract("C21", CC + ".calculate_polytropic_head_and_efficiency_single_point", CC + "._evaluate_point_validity_chart_area_flag_and_adjusted_speed_and_rate", CC + "._calculate_polytropic_head_and_efficiency",
          CC + ".calculate_head_and_efficiency_for_internal_point_between_given_speeds", CC + "._calculate_scaling_factors_for_speed_below_and_above", CC + "._calculate_equivalent_rates_for_speed_below_and_above",
          CC + "._calculate_extrapolated_values_for_external_points", weight=2, budget=120)
def point_on_any_chart(s):
    """on a curve given, the head and efficiency of the curve; between two curves those of the same share of the rates of each, weighted by how far the speed is from each; the rate is raised to the lowest; valid exactly within the speeds and up to the highest rate"""
    if not s.symbolic:  # points_of_a_chart
        return
    C = T(CC)
    v0, d1, d2 = s.real("speed below", lo=0), s.real("above below", lo=0, lo_open=True), s.real("highest above", lo=0)
    lowest, below, above = v0 - s.real("lowest below", lo=0), v0, v0 + d1
    highest = above + d2
    q0, q1 = s.real("lowest rate below", lo=0), s.real("lowest rate above", lo=0)
    Q0, Q1 = q0 + s.real("range below", lo=0, lo_open=True), q1 + s.real("range above", lo=0, lo_open=True)
    hb, eb, ha, ea = (s.func(x, 1) for x in ("head below", "efficiency below", "head above", "efficiency above"))

    class Curve:
        def __init__(self, speed, q, Q, h, e):
            self.speed = self.speed_rpm = speed
            self.minimum_rate, self.maximum_rate, self.head_as_function_of_rate, self.efficiency_as_function_of_rate = q, Q, h, e

    B, A = Curve(below, q0, Q0, hb, eb), Curve(above, q1, Q1, ha, ea)
    speed = s.real("speed", lo=0)
    increase, asv = s.bool("raise the speed"), s.bool("raise the rate")
    rate = s.real("rate", lo=0)
    full = rate + s.real("recirculated", lo=0)
    used = s.ite(speed < lowest, lowest, speed) if increase else speed
    inside = s.and_(used >= lowest, used <= highest)
    s.assume(s.implies(inside, s.and_(used >= below, used <= above)))  # the curves closest to the speed
    wa = (used - below) / (above - below)
    lo, hi = (1 - wa) * q0 + wa * q1, (1 - wa) * Q0 + wa * Q1
    s.patch(C, "minimum_speed", property(lambda self: lowest))
    s.patch(C, "maximum_speed", property(lambda self: highest))
    s.patch(C, "minimum_rate_as_function_of_speed", property(lambda self: lambda v: (1 - (v - below) / (above - below)) * q0 + (v - below) / (above - below) * q1))
    s.patch(C, "maximum_rate_as_function_of_speed", property(lambda self: lambda v: (1 - (v - below) / (above - below)) * Q0 + (v - below) / (above - below) * Q1))
    s.patch(C, "get_curve_by_speed", lambda self, speed: B if speed == below else A if speed == above else None)
    s.patch(C, "closest_curve_below_speed", lambda self, speed: A if speed >= above else B)
    s.patch(C, "closest_curve_above_speed", lambda self, speed: B if speed <= below else A)
    out = {k: s.func(k, 1) for k in ("head under", "efficiency under", "head over", "efficiency over")}
    s.patch(C, "head_as_function_of_speed_for_rates_below_minimum_extrapolation", property(lambda self: out["head under"]))
    s.patch(C, "efficiency_as_function_of_speed_for_rates_below_minimum_extrapolation", property(lambda self: out["efficiency under"]))
    s.patch(C, "head_as_function_of_speed_for_rates_above_maximum_extrapolation", property(lambda self: out["head over"]))
    s.patch(C, "efficiency_as_function_of_speed_for_rates_above_maximum_extrapolation", property(lambda self: out["efficiency over"]))
    chart = C(_chart_data([_curve([1.0, 2.0], [20.0, 10.0], [0.5, 0.5], 1.0), _curve([2.0, 3.0], [30.0, 20.0], [0.5, 0.5], 2.0)]))
    s.assume(s.or_(asv, rate > 1e-5))  # no rate and no recirculation is not asked for
    s.assume(s.and_(Q0 > 1e-5, Q1 > 1e-5, hi > 1e-5))
    s.assume(s.implies(rate <= hi, full <= hi))  # recirculation is up to the highest rate
    r = s.run(chart.calculate_polytropic_head_and_efficiency_single_point, speed, rate, full, increase, asv)
    s.ensure("does not fail", r.ok, str(r.exc))
    r = r.value
    flag = _flag(s, speed, lowest, highest, increase, rate, lo, hi)
    s.ensure("where in the chart", r.chart_area_flag is flag, f"{r.chart_area_flag} {flag}")
    valid = s.and_(inside, rate <= hi, s.or_(asv, full >= lo))
    s.ensure("valid exactly within the speeds and rates", s.iff(r.is_valid, valid))
    q = s.ite(full < lo, lo, full)
    if not inside:
        s.ensure("nothing outside the speeds", s.and_(s.isnan(r.polytropic_head), s.isnan(r.polytropic_efficiency)))
    elif not valid:
        k = "over" if rate > hi else "under"
        s.ensure("at the ends of the curves outside the rates", s.and_(s.eq(r.polytropic_head, out[f"head {k}"](used)), s.eq(r.polytropic_efficiency, out[f"efficiency {k}"](used))))
    elif used == below:
        s.ensure("on the curve below", s.and_(s.eq(r.polytropic_head, hb(q)), s.eq(r.polytropic_efficiency, eb(q))))
    elif used == above:
        s.ensure("on the curve above", s.and_(s.eq(r.polytropic_head, ha(q)), s.eq(r.polytropic_efficiency, ea(q))))
    else:
        share = (q - lo) / (hi - lo)
        x, y = q0 + (Q0 - q0) * share, q1 + (Q1 - q1) * share
        s.ensure("between the curves", s.and_(s.eq(r.polytropic_head, (1 - wa) * hb(x) + wa * ha(y)), s.eq(r.polytropic_efficiency, (1 - wa) * eb(x) + wa * ea(y))))


def _built(s):
    """a chart from generated curves, as (speed, rates, heads, efficiencies)"""
    cs = _random_chart(s)
    return cs, T(CC)(_chart_data([T(BC)(rate_actual_m3_hour=list(Q), polytropic_head_joule_per_kg=list(H), efficiency_fraction=list(E), speed_rpm=v) for v, Q, H, E in cs]))


@contract("C21", CC + ".calculate_polytropic_head_and_efficiency_single_point", CC + "._calculate_polytropic_head_and_efficiency", CH + ".minimum_rate_as_function_of_speed", CH + ".maximum_rate_as_function_of_speed",
          CH + ".get_curve_by_speed", CH + ".closest_curve_below_speed", CH + ".closest_curve_above_speed", BC + ".head_as_function_of_rate", BC + ".efficiency_as_function_of_rate", concrete_only=True, cases=500,
          bounded="generated charts with up to 4 speeds and 5 points each; speeds and rates inside and outside them, on and between the curves")
def points_of_a_chart(s):
    """as point_on_any_chart, on generated charts"""
    cs, chart = _built(s)
    V = [c[0] for c in cs]
    which = s.choice("speed", ["on a curve", "between", "outside"])
    if which == "on a curve" or (which == "between" and len(cs) == 1):
        v = s.rng.choice(V)
    elif which == "between":
        v = s.rng.uniform(V[0], V[-1])
    else:
        v = s.rng.choice([V[0] * 0.9, V[-1] * 1.1])
    increase, asv = s.bool("raise the speed"), s.bool("raise the rate")
    used = V[0] if increase and v < V[0] else v
    inside = V[0] <= used <= V[-1]
    i = max(0, min(sum(1 for x in V if x <= used) - 1, len(V) - 2)) if inside else 0
    b, a = cs[i], cs[min(i + 1, len(V) - 1)]
    wa = 0.0 if a is b else (used - b[0]) / (a[0] - b[0])
    lo, hi = (1 - wa) * b[1][0] + wa * a[1][0], (1 - wa) * b[1][-1] + wa * a[1][-1]
    rate = s.choice("rate", [0.0, lo * s.rng.uniform(0.1, 0.99), s.rng.uniform(lo * 1.001, hi * 0.999), hi * s.rng.uniform(1.01, 2), lo, hi] if V[0] == V[-1] or used in V else [0.0, lo * 0.7, s.rng.uniform(lo * 1.001, hi * 0.999), hi * 1.3])
    full = rate
    if s.bool("recirculates") and rate < hi:
        full = s.rng.uniform(rate, hi * 0.999) if rate < hi * 0.999 else rate
    if not asv and rate <= 1e-5:
        return
    r = s.run(chart.calculate_polytropic_head_and_efficiency_single_point, v, rate, full, increase, asv)
    s.ensure("does not fail", r.ok, str(r.exc))
    r = r.value
    flag = _flag(s, v, V[0], V[-1], increase, rate, lo, hi)
    s.ensure("where in the chart", r.chart_area_flag is flag, f"{r.chart_area_flag} {flag}")
    valid = inside and rate <= hi and (asv or full >= lo)
    s.ensure("valid exactly within the speeds and rates", bool(r.is_valid) == valid)
    near = lambda x, y: abs(x - y) <= 1e-7 * max(1, abs(y))
    if not inside:
        s.ensure("nothing outside the speeds", r.polytropic_head != r.polytropic_head and r.polytropic_efficiency != r.polytropic_efficiency)
        return
    if not valid:
        k = -1 if rate > hi else 0
        want = [(1 - wa) * b[j][k] + wa * a[j][k] for j in (2, 3)]
        s.ensure("at the ends of the curves outside the rates", near(r.polytropic_head, want[0]) and near(r.polytropic_efficiency, want[1]), f"{r.polytropic_head} {want}")
        return
    q = max(full, lo)
    share = (q - lo) / (hi - lo)
    at = lambda c, j: _line(s, c[1], c[j], c[1][0] + (c[1][-1] - c[1][0]) * share)
    want = [(1 - wa) * at(b, j) + wa * at(a, j) for j in (2, 3)]
    s.ensure("weighted between the curves", near(r.polytropic_head, want[0]) and near(r.polytropic_efficiency, want[1]), f"{r.polytropic_head} {r.polytropic_efficiency} {want}")


@contract("C21", CC + ".evaluate_capacity_and_extrapolate_below_minimum", CC + ".get_maximum_rate", TY + ".any_points_below_stone_wall", TY + ".any_points_above_maximum_speed_curve")
def capacity_of_any_chart(s):
    """each point on its own: the rate is raised to the lowest at the head; with choking the head to the lowest at that rate, without it a lower head exceeds the capacity, as do rates above the highest at the head and heads above the highest at the rate"""
    if not s.symbolic:  # capacity_of_a_chart
        return
    n = s.length("n", lo=1)
    C = T(CC)
    choke = s.bool("choking")
    f = {k: s.func(k, 1) for k in ("qmin", "qmin no choke", "qmax", "qmax no choke", "hmin", "hmax")}
    for k, name in {"qmin": "minimum_rate_as_function_of_head", "qmin no choke": "minimum_rate_as_function_of_head_no_choking", "qmax": "maximum_rate_as_function_of_head",
                    "qmax no choke": "maximum_rate_as_function_of_head_no_choking", "hmin": "minimum_head_as_function_of_rate", "hmax": "maximum_head_as_function_of_rate"}.items():
        s.patch(C, name, property(lambda self, k=k: s.over(f[k])))
    chart = C(_chart_data([_curve([1.0, 2.0], [20.0, 10.0], [0.5, 0.5], 1.0)]))
    Q, H = s.array("rates", n), s.array("heads", n)
    k = "" if choke else " no choke"
    hmax, hmin, qmin = f["hmax"], f["hmin"], f["qmin" + k]

    def left(i):  # left of the lowest rate the curve of the highest speed does not tell what is above it
        q = s.ite(Q[i] < qmin(H[i]), qmin(H[i]), Q[i])
        h = s.ite(s.and_(choke, H[i] < hmin(q)), hmin(q), H[i])
        return s.iff(h > hmax(Q[i]), h > hmax(q))

    s.assume_all(n, left)
    m = s.run(chart.get_maximum_rate, H, choke)
    s.ensure("the highest rate does not fail", m.ok, str(m.exc))
    r = s.run(chart.evaluate_capacity_and_extrapolate_below_minimum, Q, H, choke)
    s.ensure("does not fail", r.ok, str(r.exc))
    r = r.value
    for i in s.indices(n):
        s.ensure("the highest rate at a head", s.eq(m.value[i], f["qmax" + k](H[i])))
        lowest = f["qmin" + k](H[i])
        q = s.ite(Q[i] < lowest, lowest, Q[i])
        h = s.ite(s.and_(choke, H[i] < f["hmin"](q)), f["hmin"](q), H[i])
        s.ensure("the rate is raised to the lowest", s.and_(s.eq(r.asv_corrected_rates[i], q), s.iff(r.rate_has_recirc[i], Q[i] < lowest)))
        s.ensure("the head is raised only with choking", s.and_(s.eq(r.choke_corrected_heads[i], h), s.iff(r.pressure_is_choked[i], s.and_(choke, H[i] < f["hmin"](q)))))
        s.ensure("above the highest rate", s.iff(r.rate_exceeds_maximum[i], q > f["qmax" + k](H[i])))
        s.ensure("above the highest head", s.iff(r.head_exceeds_maximum[i], h > f["hmax"](Q[i])))
        s.ensure("exceeds the capacity exactly outside the chart", s.iff(r.exceeds_capacity[i], s.or_(q > f["qmax" + k](H[i]), h > f["hmax"](Q[i]), s.and_(not choke, H[i] < f["hmin"](q)))))


@contract("C21", CC + ".evaluate_capacity_and_extrapolate_below_minimum", CH + ".minimum_rate_as_function_of_head_no_choking", CH + ".maximum_rate_as_function_of_head_no_choking", CH + ".minimum_rate_as_function_of_head",
          CH + ".maximum_rate_as_function_of_head", CH + ".minimum_head_as_function_of_rate", CH + ".maximum_head_as_function_of_rate", concrete_only=True, cases=400,
          bounded="generated charts with up to 4 speeds and 5 points each; points in and around them")
def capacity_of_a_chart(s):
    """as capacity_of_any_chart, on generated charts: inside exactly between the curves of the lowest and highest speed, the line of lowest rates and the stone wall"""
    import numpy as np
    cs, chart = _built(s)
    choke = s.bool("choking")
    (_, q0, h0, _), (_, q1, h1, _) = cs[0], cs[-1]
    if not choke and len(cs) == 1:
        return
    if any(a <= b for H in (h0, h1) for a, b in zip(H, H[1:])) or not h0[0] < h1[0] or not h0[-1] < h1[-1]:
        return
    pts = [(s.rng.uniform(0.5 * q0[0], 1.3 * q1[-1]), s.rng.uniform(0.6 * h0[-1], 1.15 * h1[0])) for _ in range(6)]
    r = s.run(chart.evaluate_capacity_and_extrapolate_below_minimum, np.array([p[0] for p in pts]), np.array([p[1] for p in pts]), choke)
    s.ensure("does not fail", r.ok, str(r.exc))
    r = r.value
    near = lambda x, y: abs(x - y) <= 1e-9 * max(1, abs(y))
    for i, (Q, H) in enumerate(pts):
        if len(cs) == 1:
            lowest = q0[0]
        elif choke or H >= h0[0]:
            lowest = _line(s, [h0[0], h1[0]], [q0[0], q1[0]], H)
        else:
            lowest = _line(s, h0[::-1], q0[::-1], H)
        q = max(Q, lowest)
        floor = _line(s, q0 + [q1[-1]], h0 + [h1[-1]], q) if q1[-1] > q0[-1] else _line(s, q0, h0, q)
        h = max(H, floor) if choke else H
        s.ensure("the rate is raised to the lowest", near(r.asv_corrected_rates[i], q) and bool(r.rate_has_recirc[i]) == (Q < lowest), f"{r.asv_corrected_rates[i]} {q}")
        s.ensure("the head is raised only with choking", near(r.choke_corrected_heads[i], h) and bool(r.pressure_is_choked[i]) == (choke and H < floor), f"{r.choke_corrected_heads[i]} {h}")
        top = _line(s, h1[::-1], q1[::-1], H) if choke or H >= h1[-1] else _line(s, [h0[-1], h1[-1]], [q0[-1], q1[-1]], H)
        roof = _line(s, q1, h1, Q)
        s.ensure("the highest rate at a head", near(float(chart.get_maximum_rate(np.array([H]), choke)[0]), top))
        if min(abs(q - top), abs(h - roof)) < 1e-6 or (not choke and abs(H - floor) < 1e-6):
            continue
        s.ensure("above the highest rate", bool(r.rate_exceeds_maximum[i]) == (q > top), f"{q} {top}")
        s.ensure("above the highest head", bool(r.head_exceeds_maximum[i]) == (h > roof), f"{h} {roof}")
        s.ensure("exceeds the capacity exactly outside the chart", bool(r.exceeds_capacity[i]) == (q > top or h > roof or (not choke and H < floor)))
    s.ensure("some below the stone wall", r.any_points_below_stone_wall == any(a and not b for a, b in zip(r.rate_exceeds_maximum, r.head_exceeds_maximum)))
    s.ensure("some above the highest speed", r.any_points_above_maximum_speed_curve == any(a and b for a, b in zip(r.rate_exceeds_maximum, r.head_exceeds_maximum)))


@contract("C21", CR + ".from_rate_and_head_design_point")
def chart_from_a_design_point(s):
    """the generic chart scaled by the design rate and head, with the efficiency given everywhere"""
    rate, head, e = s.real("rate", lo=0.001, hi=None if s.symbolic else 1e5), s.real("head", lo=0.001, hi=None if s.symbolic else 3e5), s.real("efficiency", lo=0.01, hi=1)
    G = "libecalc.domain.process.value_objects.chart.compressor.generic_chart_data:UNIFIED_GENERIC_CHART_CURVE_"
    g = lambda n: [float(x) for x in T(G + n)]
    r = s.run(T(CR).from_rate_and_head_design_point, design_actual_rate_m3_per_hour=rate, design_head_joule_per_kg=head, polytropic_efficiency=e)
    s.ensure("does not fail", r.ok, str(r.exc))
    curves = r.value.get_adjusted_curves()
    s.ensure("two speeds", len(curves) == 2 and [c.speed for c in curves] == [75, 105])
    for c, which in zip(curves, ("MINIMUM", "MAXIMUM")):
        q, h = g(which + "_SPEED_RATES"), g(which + "_SPEED_HEADS")
        s.ensure("as many points", s.len(c.rate) == len(q) and s.len(c.head) == len(q) and s.len(c.efficiency) == len(q))
        s.ensure("rates scaled", s.and_(*[s.eq(a, rate * b) for a, b in zip(c.rate, q)]))
        s.ensure("heads scaled", s.and_(*[s.eq(a, head * b) for a, b in zip(c.head, h)]))
        s.ensure("the efficiency", s.and_(*[s.eq(a, e) for a in c.efficiency]))


@contract("C21", CR + ".from_rate_and_head_values", CR + ".from_rate_and_head_design_point", concrete_only=True, cases=40,
          bounded="generated sets of up to 6 points of rate and head")
def chart_from_points(s):
    """a chart made from points covers all of them (up to the tolerance of its search), is not larger than it must be in both directions, and does not depend on their order or units"""
    import numpy as np
    m = s.rng.choice([1, 2, 3, 6])
    Q = [s.rng.uniform(500, 10000) for _ in range(m)]
    H = [s.rng.uniform(30000, 200000) for _ in range(m)]
    e = s.rng.choice([0.6, 0.75])
    make = lambda Q, H: T(CR).from_rate_and_head_values(actual_volume_rates_m3_per_hour=list(Q), heads_joule_per_kg=list(H), polytropic_efficiency=e)
    d = s.run(make, Q, H)
    s.ensure("a chart is made", d.ok, str(d.exc))
    chart = T(CC)(d.value)
    r = chart.evaluate_capacity_and_extrapolate_below_minimum(np.array(Q) * 0.998, np.array(H) * 0.998, True)
    s.ensure("all points are within its capacity", not any(r.exceeds_capacity), f"{r.exceeds_capacity}")
    order = list(range(m))
    s.rng.shuffle(order)
    near = lambda x, y: abs(x - y) <= 1e-6 * max(1, abs(y))
    other = make([Q[i] for i in order], [H[i] for i in order])
    s.ensure("in any order", near(other.design_rate, d.value.design_rate) and near(other.design_head, d.value.design_head))
    other = make([q * 3 for q in Q], [h * 0.5 for h in H])
    s.ensure("in any unit", abs(other.design_rate / d.value.design_rate - 3) < 1e-2 and abs(other.design_head / d.value.design_head - 0.5) < 1e-2, f"{other.design_rate / d.value.design_rate} {other.design_head / d.value.design_head}")
    big = chart.maximum_rate, max(chart.maximum_speed_curve.head)
    s.ensure("large enough for the highest rate and head", big[0] >= max(Q) * (1 - 1e-6) and big[1] >= max(H) * (1 - 1e-6), f"{big} {max(Q)} {max(H)}")
