"""C18 pumps and their charts"""
from contracts.common import T, units
from vc.harness import contract

PUMP = "libecalc.domain.process.pump.pump:PumpModel"
PM = "libecalc.domain.process.pump.pump"
CH = "libecalc.domain.process.value_objects.chart.chart:Chart"
CD = "libecalc.domain.process.value_objects.chart.chart:ChartData"
CC = "libecalc.domain.process.value_objects.chart.base:ChartCurve"
UD = "libecalc.presentation.yaml.mappers.charts.user_defined_chart_data:UserDefinedChartData"
PR = "libecalc.domain.process.core.results.pump:PumpModelResult"
FI = "libecalc.presentation.yaml.mappers.facility_input:"


def _curve(rates, heads, effs, speed):
    c = object.__new__(T(CC))
    c.rate_actual_m3_hour, c.polytropic_head_joule_per_kg, c.efficiency_fraction, c.speed_rpm = list(rates), list(heads), list(effs), speed
    return c


def _chart_data(curves):
    class Data(T(CD)):
        def get_original_curves(self):
            return curves

        def get_adjusted_curves(self):
            return curves

        @property
        def origin_of_chart_data(self):
            return T("libecalc.common.chart_type:ChartType").SINGLE_SPEED if len(curves) == 1 else T("libecalc.common.chart_type:ChartType").VARIABLE_SPEED

    return Data()


def _line(s, X, Y, x):
    """linear between the points, constant outside them"""
    v = Y[-1]
    for i in range(len(X) - 2, -1, -1):
        v = s.ite(x < X[i + 1], Y[i] + (Y[i + 1] - Y[i]) * ((x - X[i]) / (X[i + 1] - X[i])), v)
    return s.ite(x < X[0], Y[0], v)


def _points(s, tag, m, first=None, head=None):
    """points of a speed curve: rates increase, heads do not increase"""
    hi = None if s.symbolic else 100
    q = [s.real(f"{tag}q0", lo=0, hi=hi) if first is None else first]
    h = [s.real(f"{tag}h0", lo=0, hi=None if s.symbolic else 5000, lo_open=True) if head is None else head]
    for i in range(1, m):
        q.append(q[-1] + s.real(f"{tag}dq{i}", lo=0 if s.symbolic else 0.1, hi=hi, lo_open=s.symbolic))
        h.append(h[-1] - s.real(f"{tag}dh{i}", lo=0, hi=None if s.symbolic else 300))
    return q, h


def _charts(s):
    """a single-speed chart or a chart from its lowest to its highest speed"""
    variable = s.bool("variable speed")
    m = s.choice("points", [2, 3] if s.symbolic else [2, 3, 5])
    q0, h0 = _points(s, "a", m)
    if not variable:
        return [(q0, h0)]
    q1, h1 = _points(s, "b", m, first=q0[0] + s.real("bq", lo=0, hi=None if s.symbolic else 50), head=h0[0] + s.real("bh", lo=0 if s.symbolic else 1, hi=None if s.symbolic else 4000, lo_open=s.symbolic))
    return [(q0, h0), (q1, h1)]


def _oracle(s, cs, rate, head, margin):
    """rate and head of the pump, and the highest head there, from the definition of a chart"""
    (q0, h0), (q1, h1) = cs[0], cs[-1]
    q = rate / 24
    flow = q0[0] if len(cs) == 1 else _line(s, [h0[0], h1[0]], [q0[0], q1[0]], head)
    q = s.ite(q > flow, q, flow)
    if len(cs) > 1 and q1[-1] > q0[-1]:  # the stone wall
        lowest = _line(s, q0 + [q1[-1]], h0 + [h1[-1]], q)
    else:
        lowest = _line(s, q0, h0, q)
    top = _line(s, q1, h1, q)
    up = s.ite(head > lowest, head, lowest)
    up = s.ite(s.and_(up > top, up <= top + margin), top, up)
    return q, up, top


@contract("C18", PUMP + ".simulate", PUMP + "._calculate_head", PUMP + "._calculate_power", PM + ":_adjust_for_head_margin", CH + ".minimum_rate_as_function_of_head",
          CH + ".minimum_head_as_function_of_rate", CH + ".maximum_head_as_function_of_rate", CH + ".maximum_rate", concrete_only=True, cases=600,
          bounded="generated charts with one or two speed curves of up to 5 points; generated rates, pressures, densities and margins (the parts are proved in pump_on_any_chart and limits_of_a_chart)")
def pump_at_a_point(s):
    """power from the head and the rate after recirculation and choking; a margin moves the head down to the highest one; failure exactly outside the chart"""
    import numpy as np
    cs = _charts(s)
    efficient = s.bool("100 percent efficient")
    curves = [_curve(q, h, [1.0 if efficient else round(s.rng.uniform(0.2, 0.95), 3) for _ in q], 10.0 * (i + 1)) for i, (q, h) in enumerate(cs)]
    chart = T(CH)(_chart_data(curves))
    eff = lambda q, h: chart.efficiency_as_function_of_rate_and_head(rates=np.array([q]), heads=np.array([h]))[0]  # contract: efficiency_in_a_chart
    rate = s.real("rate", lo=-10, hi=None if s.symbolic else 8000)
    ps, dp = s.real("ps", lo=0, hi=None if s.symbolic else 50), s.real("dp", lo=None if s.symbolic else -20, hi=None if s.symbolic else 90)
    rho = s.real("density", lo=0.001 if s.symbolic else 500, hi=None if s.symbolic else 1500)
    margin = s.real("margin", lo=0, hi=None if s.symbolic else 400)
    p = s.run(T(PUMP), _chart_data(curves), margin)
    s.ensure("the chart is accepted", p.ok)
    r = s.run(p.value.simulate, rate, ps, ps + dp, rho)
    s.ensure("does not fail", r.ok, str(r.exc))
    power, reported, status = r.value
    F = T("libecalc.domain.process.core.results.pump:PumpFailureStatus")
    if rate <= 0:
        s.ensure("off without a rate", s.and_(s.eq(power, 0), s.eq(reported, 0), status is F.NO_FAILURE))
        return
    head = ((ps + dp) - ps) * 100000.0 / rho
    s.ensure("the head asked for is reported", s.eq(reported, head))
    q, h, top = _oracle(s, cs, rate, head, margin)
    biggest = cs[-1][0][-1] if len(cs) == 1 else s.ite(cs[0][0][-1] > cs[-1][0][-1], cs[0][0][-1], cs[-1][0][-1])
    if not s.symbolic:  # points on a limit of the chart are on either side of it in floats
        s.assume(abs(h - top) > 1e-6 or h == top)
        s.assume(abs(q - biggest) > 1e-6)
        s.assume(abs(h - (top + margin)) > 1e-6)
    over_head, over_rate = h > top, q > biggest
    if over_head:
        s.ensure("above the highest head", status is (F.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE if over_rate else F.ABOVE_MAXIMUM_HEAD_AT_RATE), str(status))
    else:
        s.ensure("above the highest rate, or valid", status is (F.ABOVE_MAXIMUM_PUMP_RATE if over_rate else F.NO_FAILURE), str(status))
    e = 1.0 if efficient else eff(q, h)
    s.ensure("power is mass rate times head over efficiency", s.eq(power, rho * h * q / 3600 / 1000000 / e), f"{power} {rho * h * q / 3600 / 1000000 / e}")


@contract("C18", PUMP + ".simulate", PUMP + "._calculate_head", PUMP + "._calculate_power", PM + ":_adjust_for_head_margin", weight=2)
def pump_on_any_chart(s):
    """the rate is raised to the lowest at the head, then the head to the lowest at the rate, then a head within the margin is lowered to the highest; outside that it is a failure; power is mass rate times head over efficiency"""
    import importlib
    if s.symbolic and hasattr(importlib.import_module(PM), "EPSILON"):  # 1e-15 is lost in rounding for rates and heads above 10, as in the concrete runs
        s.patch(importlib.import_module(PM), "EPSILON", 0.0)
    if not s.symbolic:  # pump_at_a_point
        return
    flow, lowest, highest, eff = s.func("lowest rate", 1), s.func("lowest head", 1), s.func("highest head", 1), s.func("efficiency", 2, lo=0.01, hi=1)
    biggest = s.real("highest rate", lo=0, hi=None if s.symbolic else 300)
    efficient = s.bool("100 percent efficient")
    C = T(CH)
    one = lambda x: x[0] if hasattr(x, "__len__") else x
    s.patch(C, "minimum_rate_as_function_of_head", property(lambda self: flow))
    s.patch(C, "minimum_head_as_function_of_rate", property(lambda self: lowest))
    s.patch(C, "maximum_head_as_function_of_rate", property(lambda self: highest))
    s.patch(C, "maximum_rate", property(lambda self: biggest))
    s.patch(C, "is_100_percent_efficient", property(lambda self: efficient))
    s.patch(C, "efficiency_as_function_of_rate_and_head", lambda self, rates, heads: [eff(one(rates), one(heads))])
    rate = s.real("rate", lo=-10, hi=None if s.symbolic else 8000)
    ps, pd = s.real("ps", lo=0, hi=None if s.symbolic else 50), s.real("pd", lo=0, hi=None if s.symbolic else 90)
    rho = s.real("density", lo=0.001 if s.symbolic else 500, hi=None if s.symbolic else 1500)
    margin = s.real("margin", lo=0, hi=None if s.symbolic else 1000)
    p = s.run(T(PUMP), _chart_data([_curve([1.0, 2.0], [20.0, 10.0], [0.5, 0.5], 1.0)]), margin)
    s.ensure("the chart is accepted", p.ok)
    r = s.run(p.value.simulate, rate, ps, pd, rho)
    s.ensure("does not fail", r.ok, str(r.exc))
    power, reported, status = r.value
    F = T("libecalc.domain.process.core.results.pump:PumpFailureStatus")
    if rate <= 0:
        s.ensure("off without a rate", s.and_(s.eq(power, 0), s.eq(reported, 0), status is F.NO_FAILURE))
        return
    head = (pd - ps) * 100000.0 / rho
    s.ensure("the head asked for is reported", s.eq(reported, head))
    q = s.ite(rate / 24 > flow(head), rate / 24, flow(head))
    h = s.ite(head > lowest(q), head, lowest(q))
    top = highest(q)
    h = s.ite(s.and_(h > top, h <= top + margin), top, h)
    e = 1.0 if efficient else eff(q, h)
    s.ensure("power is mass rate times head over efficiency", s.eq(power, rho * h * q / 3600 / 1000000 / e))
    over_head, over_rate = bool(h > top), bool(q > biggest)
    s.ensure("the failure says what the chart does not reach", status is (
        F.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE if over_head and over_rate else F.ABOVE_MAXIMUM_HEAD_AT_RATE if over_head else F.ABOVE_MAXIMUM_PUMP_RATE if over_rate else F.NO_FAILURE))


@contract("C18", CH + ".minimum_rate_as_function_of_head", CH + ".minimum_head_as_function_of_rate", CH + ".maximum_head_as_function_of_rate", CH + ".maximum_rate_as_function_of_head", CH + ".maximum_rate", CH + ".minimum_rate",
          CH + ".minimum_speed_curve", CH + ".maximum_speed_curve", bounded="charts with one or two speed curves of 2 or 3 points each (values unbounded), up to 5 points in concrete runs; all rates and heads", weight=2, budget=150)
def limits_of_a_chart(s):
    """the lowest rate follows the ends of the speed curves, the lowest head the lowest speed and the stone wall, the highest head the highest speed; all are constant outside their points"""
    cs = _charts(s)
    chart = T(CH)(_chart_data([_curve(q, h, [0.5] * len(q), 10.0 * (i + 1)) for i, (q, h) in enumerate(cs)]))
    (q0, h0), (q1, h1) = cs[0], cs[-1]
    which = s.choice("limit", ["lowest rate", "lowest head", "highest head", "highest rate", "range of rates"])
    x = s.real("x", lo=0, hi=None if s.symbolic else 6000 if which in ("lowest rate", "highest rate") else 400)
    if which == "lowest rate":
        got = s.run(lambda: float(chart.minimum_rate_as_function_of_head(x)))
        want = q0[0] if len(cs) == 1 else _line(s, [h0[0], h1[0]], [q0[0], q1[0]], x)
    elif which == "lowest head":
        got = s.run(lambda: float(chart.minimum_head_as_function_of_rate(x)))
        want = _line(s, q0 + [q1[-1]], h0 + [h1[-1]], x) if len(cs) > 1 and q1[-1] > q0[-1] else _line(s, q0, h0, x)
    elif which == "highest head":
        got = s.run(lambda: float(chart.maximum_head_as_function_of_rate(x)))
        want = _line(s, q1, h1, x)
    elif which == "highest rate":
        s.assume(s.and_(*[a > b for a, b in zip(h1, h1[1:])]))
        if not s.symbolic:
            s.assume(all(a - b > 1e-3 for a, b in zip(h1, h1[1:])))
        got = s.run(lambda: float(chart.maximum_rate_as_function_of_head(x)))
        want = _line(s, h1[::-1], q1[::-1], x)
    else:
        got = s.run(lambda: chart.maximum_rate - chart.minimum_rate)
        want = s.ite(q0[-1] > q1[-1], q0[-1], q1[-1]) - q0[0]
    s.ensure("does not fail", got.ok, str(got.exc))
    s.ensure("the limit", s.eq(got.value, want), f"{which} {got.value} {want}")


@contract("C18", PUMP + ".evaluate", PUMP + ".set_evaluation_input", PUMP + ".evaluate_rate_ps_pd_density", PR + ".get_energy_result", PR + "._is_valid")
def pump_in_each_period(s):
    """each period is evaluated at its own rate, pressures and density; a period is valid exactly if there is no failure in it"""
    n = s.length("n", lo=1)
    rate, ps, pd, rho = (s.array(v, n, lo=0, hi=None if s.symbolic else 100) for v in ("rate", "ps", "pd", "rho"))
    F = T("libecalc.domain.process.core.results.pump:PumpFailureStatus")
    power, head, fail = s.func("power", 4), s.func("head", 4), s.func("fail", 4)
    C = T(PUMP)

    def simulate(self, rate, suction_pressure, discharge_pressure, fluid_density):
        """stands for simulate (contract: pump_on_any_chart)"""
        a = (rate, suction_pressure, discharge_pressure, fluid_density)
        return power(*a), head(*a), F.ABOVE_MAXIMUM_HEAD_AT_RATE if fail(*a) > 0 else F.NO_FAILURE

    if s.symbolic:
        s.patch(C, "simulate", simulate)
        p = C(_chart_data([_curve([1.0, 2.0], [20.0, 10.0], [0.5, 0.5], 1.0)]), 0.0)
    else:
        rate, rho, pd = [x * 100 for x in rate], [x * 10 + 100 for x in rho], [x + y for x, y in zip(ps, pd)]
        import numpy as np
        rate, ps, pd, rho = map(np.array, (rate, ps, pd, rho))
        mk = lambda: C(_chart_data([_curve([20.0, 120.0], [5000.0, 2000.0], [0.5, 0.7], 1.0), _curve([30.0, 180.0], [9000.0, 3000.0], [0.6, 0.8], 2.0)]), 0.0)
        p, alone = mk(), mk()
        power, head, fail = (lambda *a: alone.simulate(*a)[0]), (lambda *a: alone.simulate(*a)[1]), (lambda *a: 0 if alone.simulate(*a)[2] is F.NO_FAILURE else 1)
    p.set_evaluation_input(stream_day_rate=rate, fluid_density=rho, suction_pressure=ps, discharge_pressure=pd)
    r = s.run(p.evaluate)
    s.ensure("does not fail", r.ok)
    res = r.value.get_energy_result()
    U = units()
    s.ensure("units", res.energy_usage.unit == U.MEGA_WATT and res.power.unit == U.MEGA_WATT)
    s.ensure("one value per period", s.len(res.energy_usage.values) == n and s.len(res.power.values) == n and s.len(res.is_valid) == n)
    for k in s.indices(n):
        a = (rate[k], ps[k], pd[k], rho[k])
        s.ensure("power of the period", s.and_(s.eq(res.power.values[k], power(*a)), s.eq(res.energy_usage.values[k], power(*a))))
        s.ensure("valid exactly without failure", s.iff(res.is_valid[k], fail(*a) <= 0))
        s.ensure("reported as given", s.and_(s.eq(r.value.rate[k], rate[k]), s.eq(r.value.suction_pressure[k], ps[k]), s.eq(r.value.discharge_pressure[k], pd[k]), s.eq(r.value.fluid_density[k], rho[k]), s.eq(r.value.operational_head[k], head(*a))))


@contract("C18", PUMP + ".get_max_standard_rates", PUMP + ".get_max_standard_rate", PUMP + "._calculate_head")
def highest_rate_of_a_pump(s):
    """the highest rate per day at the head of each period, from the highest rate of the chart per hour"""
    n = s.length("n", lo=1)
    ps, pd, rho = s.array("ps", n, lo=0, hi=500), s.array("pd", n, lo=0, hi=500), s.array("rho", n, lo=100, hi=2000)
    one = s.bool("the same density in all periods")
    same = s.real("density", lo=100, hi=2000)
    data = lambda: _chart_data([_curve([100.0, 200.0], [30000.0, 10.0], [0.5, 0.5], 1.0)])
    if s.symbolic:
        g = s.func("highest rate", 1)
        s.patch(T(CH), "maximum_rate_as_function_of_head", property(lambda self: g))
    else:
        g = T(CH)(data()).maximum_rate_as_function_of_head  # contract: limits_of_a_chart
    p = T(PUMP)(data(), 0.0)
    if one:
        s.assume(n >= 1)
    r = s.run(p.get_max_standard_rates, ps, pd, rho)
    s.ensure("does not fail", r.ok)
    s.ensure("one rate per period", s.len(r.value) == n)
    for k in s.indices(n):
        s.ensure("the rate at the head", s.eq(r.value[k], 24 * g((pd[k] - ps[k]) * 100000.0 / rho[k])))
    if one:
        x = s.run(p.get_max_standard_rate, ps[0], pd[0], same)
        s.ensure("a single point", x.ok and s.eq(x.value, 24 * g((pd[0] - ps[0]) * 100000.0 / same)))


def _random_chart(s, most=4):
    """curves of a generated chart, from the lowest speed, as (speed, rates, heads, efficiencies)"""
    out = []
    q, h = s.rng.uniform(20, 200), s.rng.uniform(500, 3000)
    for i in range(s.choice("speeds", list(range(1, most + 1)))):
        m = s.rng.choice([2, 3, 5])
        span, drop = s.rng.uniform(1.2, 3), s.rng.uniform(0.05, 0.5)
        rates = [q * (1 + (span - 1) * j / (m - 1)) for j in range(m)]
        heads = [h * (1 - drop * (j / (m - 1)) ** 2) for j in range(m)]
        out.append((1000.0 * (i + 1), rates, heads, [round(s.rng.uniform(0.3, 0.95), 3) for _ in range(m)]))
        q, h = q * s.rng.uniform(1.02, 1.3), h * s.rng.uniform(1.15, 1.6)
    return out


def _made(s, curves, how, margin=None):
    """the chart data of curves given in some order, units and form"""
    Y = "libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart:"
    head = s.choice("head unit", ["M", "KJ_PER_KG", "JOULE_PER_KG"])
    eff = s.choice("efficiency unit", ["FRACTION", "PERCENTAGE"])
    units_ = T(Y + "YamlUnits")(rate="AM3_PER_HOUR", head=head, efficiency=eff)
    hf, ef = {"M": 1 / 9.81, "KJ_PER_KG": 1e-3, "JOULE_PER_KG": 1.0}[head], {"FRACTION": 1.0, "PERCENTAGE": 100.0}[eff]
    rows = [(sp, q, h * hf, e * ef) for sp, Q, H, E in curves for q, h, e in zip(Q, H, E)]
    s.rng.shuffle(rows)
    if how == "curves":
        order = list(curves)
        s.rng.shuffle(order)
        made = []
        for sp, *_ in order:
            mine = [r for r in rows if r[0] == sp]
            made.append(T(Y + "YamlCurve")(speed=sp, rate=[r[1] for r in mine], head=[r[2] for r in mine], efficiency=[r[3] for r in mine]))
        return s.run(T(UD).from_yaml_curves, made, units_, margin)
    cols = {"SPEED": [r[0] for r in rows], "RATE": [r[1] for r in rows], "HEAD": [r[2] for r in rows], "EFFICIENCY": [r[3] for r in rows]}
    names = list(cols)
    s.rng.shuffle(names)
    if len(curves) == 1 and s.bool("no speed"):
        names.remove("SPEED")
    res = T("libecalc.presentation.yaml.yaml_entities:MemoryResource")(headers=names, data=[cols[x] for x in names])
    return s.run(T(UD).from_resource, res, units_, len(curves) == 1, margin)


@contract("C18", UD + ".from_resource", UD + ".from_yaml_curves", UD + ".get_adjusted_curves", UD + ".get_original_curves", CC + ".__init__", CC + ".adjust_for_control_margin", concrete_only=True, cases=200,
          bounded="generated charts with up to 4 speeds and 5 points each, rows in any order, in each unit, with and without a control margin")
def chart_as_given(s):
    """the curves of a chart are the points given, per speed and by rate, in J/kg and as fractions; a control margin cuts off that part of the rates of each curve"""
    curves = _random_chart(s)
    margin = s.choice("control margin", [None, 0.0, 0.1, 0.35])
    d = _made(s, curves, s.choice("form", ["curves", "file"]), margin)
    s.ensure("the chart is accepted", d.ok, str(d.exc))
    near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))
    given, cut = d.value.get_original_curves(), d.value.get_adjusted_curves()
    s.ensure("one curve per speed", len(given) == len(curves) == len(cut))
    for c, a, (sp, Q, H, E) in zip(given, cut, curves):
        s.ensure("from the lowest speed", len(curves) == 1 or (c.speed == sp and a.speed == sp))
        s.ensure("the points given", near(c.rate, Q) and near(c.head, H) and near(c.efficiency, E), f"{c.rate} {Q}")
        lo = Q[0] + (margin or 0) * (Q[-1] - Q[0])
        keep = [i for i in range(len(Q)) if Q[i] > lo]
        if not margin:
            s.ensure("nothing cut off without a margin", near(a.rate, Q) and near(a.head, H) and near(a.efficiency, E))
            continue
        s.ensure("the rates from the margin on", near(a.rate, [lo] + [Q[i] for i in keep]), f"{a.rate} {lo} {Q}")
        s.ensure("head and efficiency on the curve", near(a.head, [_line(s, Q, H, lo)] + [H[i] for i in keep]) and near(a.efficiency, [_line(s, Q, E, lo)] + [E[i] for i in keep]))


@contract("C18", CH + ".efficiency_as_function_of_rate_and_head", CH + "._get_alpha_from_distances", CC + ".get_distance_and_efficiency_from_closest_point_on_curve", concrete_only=True, cases=150,
          bounded="generated charts with up to 4 speeds; points on, between and outside the curves")
def efficiency_in_a_chart(s):
    """on a curve the efficiency is that of the curve; elsewhere it is between the lowest and the highest of the chart, and does not depend on the units of rate and head; each point on its own"""
    curves = _random_chart(s)
    mk = lambda cs: T(CH)(_chart_data([T(CC)(rate_actual_m3_hour=list(Q), polytropic_head_joule_per_kg=list(H), efficiency_fraction=list(E), speed_rpm=sp) for sp, Q, H, E in cs]))
    chart = mk(curves)
    import numpy as np
    sp, Q, H, E = s.rng.choice(curves)
    q = s.rng.uniform(Q[0], Q[-1])
    on = (q, _line(s, Q, H, q))
    off = (s.rng.uniform(0.3 * curves[0][1][0], 1.3 * curves[-1][1][-1]), s.rng.uniform(0.5 * curves[0][2][-1], 1.3 * curves[-1][2][0]))
    r = s.run(chart.efficiency_as_function_of_rate_and_head, rates=np.array([on[0], off[0]]), heads=np.array([on[1], off[1]]))
    s.ensure("does not fail", r.ok, str(r.exc))
    every = [e for c in curves for e in c[3]]
    crossing = any(c[0] != sp and abs(_line(s, c[1], c[2], q) - on[1]) < 1e-6 for c in curves)
    if not crossing:
        s.ensure("on a curve the efficiency of the curve", abs(r.value[0] - _line(s, Q, E, q)) <= 1e-6, f"{r.value[0]} {_line(s, Q, E, q)}")
    s.ensure("between the lowest and the highest", all(min(every) - 1e-9 <= x <= max(every) + 1e-9 for x in r.value))
    alone = chart.efficiency_as_function_of_rate_and_head(rates=np.array([off[0]]), heads=np.array([off[1]]))
    s.ensure("each point on its own", abs(alone[0] - r.value[1]) <= 1e-9)
    other = mk([(sp, [x * 7 for x in Q], [x / 13 for x in H], E) for sp, Q, H, E in curves])
    scaled = other.efficiency_as_function_of_rate_and_head(rates=np.array([off[0] * 7]), heads=np.array([off[1] / 13]))
    s.ensure("whatever the units", abs(scaled[0] - r.value[1]) <= 1e-6, f"{scaled[0]} {r.value[1]}")


@contract("C18", FI + "_create_pump_model_single_speed_dto_model_data", FI + "_create_pump_chart_variable_speed_dto_model_data", UD + ".from_resource", PUMP + ".evaluate_rate_ps_pd_density", concrete_only=True, cases=200,
          bounded="generated charts in files, margins and operating points")
def pump_from_a_file(s):
    """a pump given by a file of its chart: a margin in metres of liquid column, heads in the unit given"""
    curves = _random_chart(s)
    Y = "libecalc.presentation.yaml.yaml_types.models.yaml_compressor_chart:"
    metres = s.choice("margin", [0.0, 5.0, 20.0])
    head = s.choice("head unit", ["M", "KJ_PER_KG", "JOULE_PER_KG"])
    hf = {"M": 1 / 9.81, "KJ_PER_KG": 1e-3, "JOULE_PER_KG": 1.0}[head]
    rows = [(sp, q, h * hf, e) for sp, Q, H, E in curves for q, h, e in zip(Q, H, E)]
    s.rng.shuffle(rows)
    res = T("libecalc.presentation.yaml.yaml_entities:MemoryResource")(headers=["SPEED", "RATE", "HEAD", "EFFICIENCY"], data=[[r[i] for r in rows] for i in range(4)])
    FM = "libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model:"
    one = len(curves) == 1
    y = T(FM + ("YamlPumpChartSingleSpeed" if one else "YamlPumpChartVariableSpeed")).model_validate(
        {"NAME": "p", "FILE": "f.csv", "TYPE": "PUMP_CHART_SINGLE_SPEED" if one else "PUMP_CHART_VARIABLE_SPEED", "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": head, "EFFICIENCY": "FRACTION"}, "HEAD_MARGIN": metres})
    p = s.run(T(FI + ("_create_pump_model_single_speed_dto_model_data" if one else "_create_pump_chart_variable_speed_dto_model_data")), res, y)
    s.ensure("the pump is accepted", p.ok, str(p.exc))
    rho = s.real("density", lo=600, hi=1300)
    sp, Q, H, E = curves[-1]
    q = s.rng.uniform(Q[0] * 1.001, Q[-1] * 0.999)
    top = _line(s, Q, H, q)
    over = s.choice("above the highest head, metres", [-15.0, 2.0, 4.9, 5.1, 12.0, 19.9, 20.1, 50.0])
    dp = (top + over * 9.81) * rho / 1e5
    if q <= max(c[1][0] for c in curves) or top + over * 9.81 <= 0:
        return
    power, reported, status = p.value.simulate(q * 24, 10.0, 10.0 + dp, rho)
    F = T("libecalc.domain.process.core.results.pump:PumpFailureStatus")
    s.ensure("valid up to the margin in metres above the highest head", (status is F.NO_FAILURE) == (over <= metres), f"{over} {metres} {status}")
    if 0 < over <= metres:
        s.ensure("then at the highest head", abs(power - rho * top * q / 3.6e9 / _line(s, Q, E, q)) <= 1e-6 * max(1, power), f"{power}")
