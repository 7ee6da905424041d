"""C18 pumps of process simulations, their streams and their process graph"""
from contracts.common import T
from contracts.pumps import CH, _chart_data, _curve
from vc.harness import contract

PP = "libecalc.process.pump.pump:Pump"
LS = "libecalc.process.pump.liquid_stream:LiquidStream"
PS = "libecalc.process.pump.pump_process_simulation:PumpProcessSimulation"
MP = "libecalc.presentation.yaml.mappers.pump_process_simulation_mapper:PumpProcessSimulationMapper"
PF = "libecalc.process.pump.pump:PumpFailureStatus"


class _Curve:
    """a speed curve whose head is an unknown function of its rate"""
    efficiency = [0.5]

    def __init__(self, speed, head):
        self.speed_rpm = self.speed = speed
        self.head_as_function_of_rate = head


def _pump(s, n=1, minimum=None):
    """a pump on a chart that is unknown functions: lowest rate, lowest and highest head, efficiency and speed curves"""
    flow, lowest, highest, eff = s.func("lowest rate", 1, lo=0), s.func("lowest head", 1, lo=0), s.func("highest head", 1, lo=0), s.func("efficiency", 2, lo=0.01, hi=1)
    biggest, smallest = s.real("highest rate", lo=0, hi=None if s.symbolic else 300), s.real("lowest rate of the chart", lo=0, hi=None if s.symbolic else 300)
    efficient = s.bool("100 percent efficient")
    speeds = [s.real(f"speed{i}", lo=0.001, hi=None if s.symbolic else 10000) for i in range(n)]
    for a, b in zip(speeds, speeds[1:]):
        s.assume(a < b)
    curves = [_Curve(v, s.func(f"head of curve {i}", 1, lo=0)) for i, v in enumerate(speeds)]
    C = T(CH)
    one = lambda x: x[0] if hasattr(x, "__len__") else x
    s.patch(C, "minimum_rate_as_function_of_head", property(lambda self: flow))
    s.patch(C, "minimum_head_as_function_of_rate", property(lambda self: lowest))
    s.patch(C, "maximum_head_as_function_of_rate", property(lambda self: highest))
    s.patch(C, "maximum_rate", property(lambda self: biggest))
    s.patch(C, "minimum_rate", property(lambda self: smallest))
    s.patch(C, "is_100_percent_efficient", property(lambda self: efficient))
    s.patch(C, "efficiency_as_function_of_rate_and_head", lambda self, rates, heads: [eff(one(rates), one(heads))])
    order = list(curves)
    if n > 1 and s.bool("curves from the highest speed"):
        order.reverse()
    p = s.run(T(PP), _chart_data(order), minimum)
    return p, curves, flow, lowest, highest, eff, biggest, smallest, efficient


def _stream(s):
    p, rho = s.real("ps", lo=0, lo_open=True, hi=None if s.symbolic else 50), s.real("density", lo=0.001 if s.symbolic else 500, hi=None if s.symbolic else 1500)
    m = s.real("mass rate", lo=0, hi=None if s.symbolic else 300000)
    return T(LS)(pressure_bara=p, density_kg_per_m3=rho, mass_rate_kg_per_h=m), p, rho, m


@contract("C18", PP + ".evaluate", PP + ".__init__", PP + ".propagate_stream", PP + ".set_discharge_pressure", PP + "._calculate_head", PP + "._efficiency", PP + "._determine_failure_status", weight=2)
def process_pump_on_any_chart(s):
    """the rate is raised to the lowest flow of the pump and to the lowest at the head, then the head to the lowest at the rate; power is mass rate times head over efficiency; a failure exactly above the highest head or rate of the chart"""
    given = s.bool("a lowest flow is given")
    minimum = s.real("lowest flow", lo=0, hi=None if s.symbolic else 300) if given else None
    p, curves, flow, lowest, highest, eff, biggest, smallest, efficient = _pump(s, 1, minimum)
    if given and minimum < smallest:
        s.ensure("a lowest flow outside the chart is refused", p.raised(T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")), str(p.exc))
        return
    s.ensure("the pump is accepted", p.ok, str(p.exc))
    inlet, ps, rho, m = _stream(s)
    pd = s.real("pd", hi=None if s.symbolic else 90, lo=-1)
    r = s.run(p.value.evaluate, inlet, pd)
    if pd <= 0:
        s.ensure("a pressure that is none is refused", r.raised(T("libecalc.process.pump.exceptions:NonPositivePressureException")), str(r.exc))
        s.ensure("also when it is set", s.run(p.value.set_discharge_pressure, pd).raised(T("libecalc.process.pump.exceptions:NonPositivePressureException")))
        return
    s.ensure("does not fail", r.ok, str(r.exc))
    x = r.value
    F = T(PF)
    s.ensure("the result is of this pump, inlet and discharge pressure", s.and_(x.process_unit_id == p.value.get_id(), x.inlet_stream is inlet, s.eq(x.required_discharge_pressure_bara, pd)))
    head = (pd - ps) * 100000.0 / rho
    s.ensure("the head asked for", s.eq(x.required_head_joule_per_kg, head))
    out = s.run(p.value.propagate_stream, inlet)
    s.ensure("a pump without a discharge pressure is not run", out.raised(ValueError))
    p.value.set_discharge_pressure(pd)
    out = s.run(p.value.propagate_stream, inlet)
    s.ensure("the stream delivered is the inlet at the discharge pressure delivered", out.ok and s.and_(s.eq(out.value.pressure_bara, x.operational_discharge_pressure_bara), s.eq(out.value.mass_rate_kg_per_h, m), s.eq(out.value.density_kg_per_m3, rho)), str(out.exc))
    if m <= 0:
        s.ensure("off without a rate", s.and_(s.eq(x.shaft_power_mw, 0), s.eq(x.operational_head_joule_per_kg, 0), s.eq(x.operational_volumetric_rate_m3_per_hour, 0), s.eq(x.recirculation_rate_m3_per_hour, 0),
                                              s.eq(x.operational_discharge_pressure_bara, ps), x.efficiency is None, x.speed_rpm is None, x.specific_shaft_work_joule_per_kg is None, x.failure_status is F.NO_FAILURE, x.is_valid))
        return
    rate = m / rho
    floor = minimum if given else smallest
    q = s.ite(rate > floor, rate, floor)
    q = s.ite(q > flow(head), q, flow(head))
    h = s.ite(head > lowest(q), head, lowest(q))
    s.ensure("the rate it runs at", s.eq(x.operational_volumetric_rate_m3_per_hour, q))
    s.ensure("recirculated is what the rate was raised by", s.eq(x.recirculation_rate_m3_per_hour, q - rate))
    s.ensure("the head it runs at", s.eq(x.operational_head_joule_per_kg, h))
    e = 1.0 if efficient else eff(q, h)
    s.ensure("the efficiency is that of the point", s.eq(x.efficiency, e))
    s.ensure("work over efficiency", s.eq(x.specific_shaft_work_joule_per_kg * e, h))
    s.ensure("power is mass rate times head over efficiency", s.eq(x.shaft_power_mw, rho * q * h / 3600 / 1000000 / e))
    s.ensure("the pressure it delivers is that of its head", s.eq(x.operational_discharge_pressure_bara, ps + h * rho / 100000.0))
    s.ensure("the choke takes what is above the pressure asked for", s.eq(x.choke_pressure_drop_bara, (h - head) * rho / 100000.0))
    s.ensure("the speed of the curve", s.eq(x.speed_rpm, curves[0].speed_rpm))
    if not s.symbolic:
        s.assume(h == highest(q) or abs(h - highest(q)) > 1e-6)
        s.assume(q == biggest or abs(q - biggest) > 1e-6)
    over_head, over_rate = bool(h > highest(q)), bool(q > biggest)
    s.ensure("the failure says what the chart does not reach", x.failure_status is (
        F.ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE if over_head and over_rate else F.ABOVE_MAXIMUM_HEAD_AT_RATE if over_head else F.ABOVE_MAXIMUM_PUMP_RATE if over_rate else F.NO_FAILURE), str(x.failure_status))
    s.ensure("valid exactly without a failure", x.is_valid is (not over_head and not over_rate))


@contract("C18", PP + "._speed_at_operating_point", PP + ".get_max_volumetric_rate_m3_per_day", bounded="charts of up to 4 speed curves (their heads unknown functions)")
def process_pump_speed(s):
    """the speed is the one whose head at the rate is the head run at, between the speeds of the chart; the highest rate is that of the chart at the head"""
    n = s.choice("curves", [1, 2, 3, 4])
    p, curves, *_ = _pump(s, n)
    s.ensure("the pump is accepted", p.ok, str(p.exc))
    q, h = s.real("rate", lo=0, hi=None if s.symbolic else 100), s.real("head", lo=0, hi=None if s.symbolic else 3000)
    heads = [c.head_as_function_of_rate(q) for c in curves]
    for a, b in zip(heads, heads[1:]):
        s.assume(a < b if s.symbolic else a + 1e-3 < b)
    r = s.run(p.value._speed_at_operating_point, q, h)
    s.ensure("does not fail", r.ok, str(r.exc))
    v = r.value
    S = [c.speed_rpm for c in curves]
    want = S[-1]
    for i in range(n - 2, -1, -1):
        want = s.ite(h < heads[i + 1], S[i] + (S[i + 1] - S[i]) * ((h - heads[i]) / (heads[i + 1] - heads[i])), want)
    want = s.ite(h <= heads[0], S[0], want)
    s.ensure("the speed", s.eq(v, want), f"{v} {want}")
    s.ensure("within the speeds of the chart", s.and_(s.le(S[0], v), s.le(v, S[-1])))
    g = s.func("highest rate", 1)
    s.patch(T(CH), "maximum_rate_as_function_of_head", property(lambda self: g))
    ps, pd, rho = s.real("ps", lo=0, hi=None if s.symbolic else 50), s.real("pd", lo=0, hi=None if s.symbolic else 90), s.real("density", lo=0.001 if s.symbolic else 500, hi=None if s.symbolic else 1500)
    r = s.run(p.value.get_max_volumetric_rate_m3_per_day, ps, pd, rho)
    s.ensure("the highest rate per day", r.ok and s.eq(r.value, 24 * g((pd - ps) * 100000.0 / rho)), str(r.exc))


@contract("C18", LS + ".__post_init__", LS + ".from_volumetric_rate", LS + ".with_mass_rate", LS + ".with_pressure", LS + ".volumetric_rate_m3_per_day", LS + ".volumetric_rate_m3_per_hour")
def liquid_streams(s):
    """a liquid has a positive density and pressure and no negative rate; its rate per day and hour and its mass rate are the same rate"""
    hi = None if s.symbolic else 100
    lo = None if s.symbolic else -20
    rate, p, rho = s.real("rate", lo=lo, hi=hi), s.real("p", lo=lo, hi=hi), s.real("density", lo=lo, hi=hi)
    r = s.run(T(LS).from_volumetric_rate, rate, p, rho)
    E = "libecalc.process.pump.exceptions:"
    if rho <= 0:
        s.ensure("no density", r.raised(T(E + "NonPositiveDensityException")))
    elif rate < 0:
        s.ensure("a negative rate", r.raised(T(E + "NegativeMassRateException")))
    elif p <= 0:
        s.ensure("no pressure", r.raised(T(E + "NonPositivePressureException")))
    else:
        s.ensure("accepted", r.ok, str(r.exc))
        x = r.value
        s.ensure("the rate given", s.and_(s.eq(x.volumetric_rate_m3_per_day, rate), s.eq(x.volumetric_rate_m3_per_hour * 24, rate), s.eq(x.mass_rate_kg_per_h * 24, rate * rho)))
        s.ensure("the state given", s.and_(s.eq(x.pressure_bara, p), s.eq(x.density_kg_per_m3, rho)))
        m, q = s.real("another mass rate", lo=lo, hi=hi), s.real("another pressure", lo=lo, hi=hi)
        y = s.run(x.with_mass_rate, m)
        s.ensure("another rate, otherwise the same", y.raised(T(E + "NegativeMassRateException")) if m < 0 else y.ok and s.and_(s.eq(y.value.mass_rate_kg_per_h, m), s.eq(y.value.pressure_bara, p), s.eq(y.value.density_kg_per_m3, rho)))
        y = s.run(x.with_pressure, q)
        s.ensure("another pressure, otherwise the same", y.raised(T(E + "NonPositivePressureException")) if q <= 0 else y.ok and s.and_(s.eq(y.value.mass_rate_kg_per_h, x.mass_rate_kg_per_h), s.eq(y.value.pressure_bara, q), s.eq(y.value.density_kg_per_m3, rho)))
        s.ensure("the stream itself is unchanged", s.and_(s.eq(x.pressure_bara, p), s.eq(x.mass_rate_kg_per_h * 24, rate * rho)))


@contract("C18", PS + ".evaluate", PS + "._evaluate_one", PS + "._project_streams", PS + ".__init__", PS + ".get_process_unit_connections", PS + ".get_recirculation_loop")
def process_graph_of_a_pump(s):
    """inlet, mixer, pump, splitter, choke and outlet in a chain; the streams between them are the rates and pressures of the pump: recirculated between mixer and splitter, choked to the pressure asked for; inputs one by one, in order"""
    p, curves, flow, lowest, highest, eff, biggest, smallest, efficient = _pump(s)
    s.assume(smallest >= 0)
    g = s.run(T(PS), p.value, "a pump")
    s.ensure("accepted", g.ok, str(g.exc))
    g = g.value
    units, links, loop = g.get_process_units(), g.get_process_unit_connections(), g.get_recirculation_loop()
    U = T("libecalc.process.pump.pump_process_simulation:LiquidProcessUnitType")
    s.ensure("the units in the order of the flow", [u.unit_type for u in units] == [U.INLET, U.DIRECT_MIXER, U.PUMP, U.DIRECT_SPLITTER, U.CHOKE, U.OUTLET])
    ids = [u.get_id() for u in units]
    s.ensure("each unit is one", len(set(ids)) == 6 and len({k.get_id() for k in links}) == 5)
    s.ensure("in a chain", [(k.get_from_process_unit_id(), k.get_to_process_unit_id()) for k in links] == list(zip(ids, ids[1:])))
    s.ensure("recirculated around the pump", loop.mixer_id == ids[1] and loop.splitter_id == ids[3] and p.value.get_id() == ids[2])
    s.ensure("named", g.get_name() == "a pump" and units[2].name == "a pump")
    I = T("libecalc.process.pump.pump_process_simulation:PumpOperatingInput")
    n = s.choice("inputs", [0, 1, 2])
    inputs = []
    for i in range(n):
        a, rho = s.real(f"ps{i}", lo=0, lo_open=True, hi=None if s.symbolic else 50), s.real(f"density{i}", lo=0.001 if s.symbolic else 500, hi=None if s.symbolic else 1500)
        inputs.append(I(inlet_stream=T(LS)(pressure_bara=a, density_kg_per_m3=rho, mass_rate_kg_per_h=s.real(f"mass{i}", lo=0, hi=None if s.symbolic else 300000)),
                        required_discharge_pressure_bara=s.real(f"pd{i}", lo=0, lo_open=True, hi=None if s.symbolic else 90)))
    r = s.run(g.evaluate, inputs)
    s.ensure("does not fail", r.ok, str(r.exc))
    s.ensure("one result per input", len(r.value) == n)
    for i, got in zip(inputs, r.value):
        want = p.value.evaluate(i.inlet_stream, i.required_discharge_pressure_bara)  # contract: process_pump_on_any_chart
        x, t = got.pump_result, got.connection_streams
        s.ensure("the result of the input", s.and_(x.inlet_stream is i.inlet_stream, s.eq(x.shaft_power_mw, want.shaft_power_mw), s.eq(x.operational_head_joule_per_kg, want.operational_head_joule_per_kg)))
        s.ensure("a stream on every connection", set(t) == {k.get_id() for k in links})
        t = [t[k.get_id()] for k in links]
        m, q, up = i.inlet_stream.mass_rate_kg_per_h, want.operational_volumetric_rate_m3_per_hour * i.inlet_stream.density_kg_per_m3, want.operational_discharge_pressure_bara
        s.ensure("the density does not change", s.and_(*[s.eq(k.density_kg_per_m3, i.inlet_stream.density_kg_per_m3) for k in t]))
        s.ensure("mass: what comes in goes out, with the recirculation in between", s.and_(*[s.eq(k.mass_rate_kg_per_h, w) for k, w in zip(t, [m, q, q, m, m])]))
        ps, pd = i.inlet_stream.pressure_bara, i.required_discharge_pressure_bara
        s.ensure("pressures: raised by the pump, lowered by the choke", s.and_(*[s.eq(k.pressure_bara, w) for k, w in zip(t, [ps, ps, up, up, s.ite(up < pd, up, pd)])]))
        s.ensure("the choke lowers by what it is said to", s.eq(t[3].pressure_bara - t[4].pressure_bara, x.choke_pressure_drop_bara))


@contract("C18", MP + ".map", MP + "._to_operating_input", MP + "._require_positive")
def pump_inputs_of_the_periods(s):
    """each period has the rate, pressures and density of its own; a fluid without pressure or density is refused, and so is a pump that runs towards no pressure"""
    from types import SimpleNamespace as NS
    import importlib
    n = s.length("n", lo=1)
    hi = None if s.symbolic else 100
    lo = None if s.symbolic else -1
    neg = s.bool("values that are none")
    at = (lambda v: s.array(v, n, lo=lo, hi=hi)) if neg else (lambda v: s.array(v, n, lo=1e-9, hi=hi))
    rate = s.array("rate", n, lo=0, hi=hi)
    ps, pd, rho = at("ps"), at("pd"), at("density")
    series = {"R": rate, "P": ps, "D": pd, "RHO": rho}
    M = importlib.import_module(MP.split(":")[0])
    given = []

    class Expr:
        """stands for TimeSeriesExpression and what makes a series of it (contracts: C02, C04, C07)"""
        def __init__(self, time_series_expression=None, expression=None, expression_evaluator=None, **more):
            self.values = series[expression] if time_series_expression is None else time_series_expression.values
            self.get_values = self.get_stream_day_values = lambda: self.values
            self.get_periods = lambda: periods
            given.append(more)

    for name in ("TimeSeriesExpression", "ExpressionTimeSeriesFlowRate", "ExpressionTimeSeriesPressure", "ExpressionTimeSeriesFluidDensity"):
        s.patch(M, name, Expr)
    s.patch(M, "Regularity", lambda **k: None)
    periods = s.array("period", n, lo=0, hi=hi)
    evaluator = NS(get_subset_for_period=lambda period: evaluator, get_period=lambda: None)
    s.patch(T(MP), "_get_chart_data", lambda self, reference: _chart_data([_curve([100.0, 200.0], [30000.0, 10.0], [0.5, 0.5], 1.0)]))
    m = T(MP)(evaluator, None, {}, None)
    y = NS(name="p", pump_model=NS(chart="c", minimum_flow_rate=150.0), inlet=NS(rate="R", pressure="P", density="RHO"), required_discharge_pressure="D")
    r = s.run(m.map, y)
    E = T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")
    if not r.ok:
        s.ensure("refused only with a reason", s.and_(neg, r.raised(E)), str(r.exc))
        return
    g, inputs, when = r.value
    s.ensure("named, with its lowest flow", g.get_name() == "p" and g.get_minimum_flow_rate_m3_per_hour() == 150.0)
    s.ensure("one input per period", s.len(inputs) == n and s.len(when) == n)
    for k in s.indices(n):
        i = inputs[k]
        s.ensure("the periods in order", s.eq(when[k], periods[k]))
        s.ensure("the rate of the period", s.eq(i.inlet_stream.volumetric_rate_m3_per_day, rate[k]))
        s.ensure("the pressure and density of the period", s.and_(s.eq(i.inlet_stream.pressure_bara, ps[k]), s.eq(i.inlet_stream.density_kg_per_m3, rho[k]), ps[k] > 0, rho[k] > 0))
        s.ensure("the discharge pressure asked for", s.eq(i.required_discharge_pressure_bara, s.ite(pd[k] > 0, pd[k], ps[k])))
        s.ensure("a pump that runs has a pressure to deliver", s.implies(rate[k] > 0, pd[k] > 0))
