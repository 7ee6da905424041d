"""C22 compressor stages and trains on a common shaft"""
import math

from contracts.common import T
from contracts.fluid import R, any_stream, model, service
from contracts.pumps import _chart_data, _curve, _line
from vc.harness import contract

TR = "libecalc.domain.process.compressor.core.train."
SG = TR + "stage:CompressorTrainStage"
BA = TR + "base:CompressorTrainModel"
CS = TR + "compressor_train_common_shaft:CompressorTrainCommonShaft"
RS = "libecalc.domain.process.compressor.core.results:"
UT = TR + "utils.common:"
EN = TR + "utils.enthalpy_calculations:"
PU = "libecalc.process.process_units."
EU = "libecalc.domain.process.entities.process_units."
LC = EU + "legacy_compressor.legacy_compressor:LegacyCompressor"
RM = EU + "rate_modifier.rate_modifier:RateModifier"
CC = "libecalc.domain.process.value_objects.chart.compressor.compressor_chart:CompressorChart"
BC = "libecalc.domain.process.value_objects.chart.base:ChartCurve"
FL = "libecalc.domain.process.value_objects.chart.chart_area_flag:ChartAreaFlag"
TS = "libecalc.domain.process.core.results.compressor:TargetPressureStatus"
FT = "libecalc.domain.process.core.results.compressor:CompressorTrainCommonShaftFailureStatus"
PC = "libecalc.common.fixed_speed_pressure_control:FixedSpeedPressureControl"
EV = TR + "train_evaluation_input:CompressorTrainEvaluationInput"
SH = "libecalc.process.shaft:"
TOL = 1e-3


def _module(path):
    import sys
    T(path)
    return sys.modules[path.split(":")[0]]


def _stage(svc, shaft, data, temperature=300.0, drop=0.0, dry=False, splitter=None, mixer=None, control=None):
    return T(SG)(
        compressor=T(LC)(data, fluid_service=svc, shaft=shaft), rate_modifier=T(RM)(data, shaft=shaft),
        temperature_setter=T(PU + "temperature_setter:TemperatureSetter")(required_temperature_kelvin=temperature, fluid_service=svc),
        liquid_remover=T(PU + "liquid_remover:LiquidRemover")(fluid_service=svc) if dry else None, fluid_service=svc,
        choke=T(PU + "choke:Choke")(pressure_change=drop, fluid_service=svc) if drop is not None else None,
        splitter=splitter, mixer=mixer, interstage_pressure_control=control)


@contract("C22", SG + ".evaluate", SG + ".get_compressor_inlet_stream", SG + ".split", SG + ".mix", SG + ".compress", SG + ".add_rate", LC + ".compress", LC + ".set_chart_area_flag_and_operational_point", LC + ".set_rate_before_asv",
          LC + ".validate_speed", UT + "calculate_power_in_megawatt", weight=2, budget=120)
def stage(s):
    """side streams, then the pressure drop, then the cooling; the compressor works at the shaft's speed on the gas with its recirculation, takes the power of all that gas, and what goes on is what came in"""
    svc = service(s)
    C = T(CC)
    speed, lowest, highest = (s.real(x, lo=1, hi=None if s.symbolic else 100) for x in ("speed", "lowest speed", "highest speed"))
    low, high = s.func("minimum flow", 1, lo=0, hi=None if s.symbolic else 5000), s.func("maximum flow", 1, lo=0, hi=None if s.symbolic else 20000)
    heads, effs = s.func("head", 2, lo=1, hi=None if s.symbolic else 1e5), s.func("efficiency", 2, lo=0.1, hi=1)
    F = T(FL)
    asked = []

    def point(self, speed, actual_rate_m3_per_hour, actual_rate_m3_per_hour_including_asv=None, increase_speed_below_assuming_choke=False, increase_rate_left_of_minimum_flow_assuming_asv=True):
        asked.append((speed, actual_rate_m3_per_hour, actual_rate_m3_per_hour_including_asv))
        return T("libecalc.domain.process.value_objects.chart.compressor.types:CompressorChartHeadEfficiencyResultSinglePoint")(
            polytropic_head=heads(speed, actual_rate_m3_per_hour_including_asv), polytropic_efficiency=effs(speed, actual_rate_m3_per_hour_including_asv), chart_area_flag=flag, is_valid=valid)

    s.patch(C, "calculate_polytropic_head_and_efficiency_single_point", point)
    s.patch(C, "minimum_rate_as_function_of_speed", property(lambda self: low))
    s.patch(C, "maximum_rate_as_function_of_speed", property(lambda self: high))
    s.patch(C, "minimum_speed", property(lambda self: lowest))
    s.patch(C, "maximum_speed", property(lambda self: highest))
    done = []
    pf = s.func("outlet pressure", 3, lo=1, hi=None if s.symbolic else 500)

    def outlet(polytropic_efficiency, polytropic_head_joule_per_kg, inlet_stream, fluid_service):
        done.append((polytropic_efficiency, polytropic_head_joule_per_kg, inlet_stream))
        return inlet_stream.with_new_fluid(svc.create_fluid(inlet_stream.fluid_model, pf(polytropic_efficiency, polytropic_head_joule_per_kg, inlet_stream.pressure_bara), 400.0))

    s.patch(_module(LC), "calculate_outlet_pressure_and_stream", outlet)
    x = any_stream(s, svc, "in", lo=0 if s.symbolic else 1)
    y = any_stream(s, svc, "side", fluid_model=x.fluid_model)
    if s.symbolic:  # every pair of these, not every combination
        side, drop, dry, how, which = s.choice("shape", [("out", 0, True, "none", 1), ("in", 1, True, "fraction", 0), ("both", 1, False, "mass", 2),
                                                        ("none", None, False, "fraction", 2), ("none", 1, True, "mass", 0)])
    else:
        side, drop, dry, how, which = s.choice("side streams", ["none", "out", "in", "both"]), s.choice("drop", [None, 0, 1]), s.bool("dry"), s.choice("recirculation", ["none", "fraction", "mass"]), s.rng.randrange(3)
    valid = side in ("none", "out") if s.symbolic else s.bool("valid")
    flag = [F.INTERNAL_POINT, F.BELOW_MINIMUM_FLOW_RATE, F.ABOVE_MAXIMUM_FLOW_RATE][which]
    drop = s.real("pressure drop", lo=0, hi=None if s.symbolic else 0.5) if drop else drop
    s.assume(s.implies(True, (drop or 0) < x.pressure_bara))
    temperature = s.real("required temperature", lo=1 if s.symbolic else 250, hi=None if s.symbolic else 350)
    out = s.real("out", lo=0, hi=None if s.symbolic else 1e6)
    s.assume(out <= x.standard_rate_sm3_per_day)

    class Mixer:
        number_of_inputs = 2

        def mix_streams(self, streams):
            return streams[0].with_mass_rate(sum(t.mass_rate_kg_per_h for t in streams))

    splitter = T(EU + "legacy_splitter.legacy_splitter:LegacySplitter")(2) if side in ("out", "both") else None
    shaft = T(SH + "VariableSpeedShaft")()
    shaft.set_speed(speed)
    data = _chart_data([_curve([1.0, 2.0], [20.0, 10.0], [0.5, 0.5], 1.0)])
    st = _stage(svc, shaft, data, temperature, drop, dry, splitter, Mixer() if side in ("in", "both") else None)
    part = s.real("part", lo=0, hi=1 if how == "fraction" else None if s.symbolic else 1e5)
    if how == "fraction":
        st.rate_modifier.fraction_of_available_capacity_to_recirculate = part
    elif how == "mass":
        st.rate_modifier.mass_rate_to_recirculate = part
    s.assume(low(speed) <= high(speed))
    r = s.run(st.evaluate, x, [out] if splitter else [], [y] if side in ("in", "both") else [])
    inside = s.and_(lowest <= speed, speed <= highest)
    s.ensure("only within the speeds of the chart", s.iff(r.ok, inside), str(r.exc))
    if not r.ok:
        return
    r = r.value
    m = x.mass_rate_kg_per_h
    if splitter:
        m = m - out * x.standard_density_gas_phase_after_flash / 24
        m = s.ite(m < 0, 0, m)
    if side in ("in", "both"):
        m = m + y.mass_rate_kg_per_h
    i, a, o, b = r.inlet_stream, r.inlet_stream_including_asv, r.outlet_stream, r.outlet_stream_including_asv
    s.ensure("what is left after the side streams", s.eq(i.mass_rate_kg_per_h, m))
    s.ensure("at the pressure after the drop and the temperature asked for", s.and_(s.eq(i.pressure_bara, x.pressure_bara - (drop or 0)), s.eq(i.temperature_kelvin, temperature)))
    q = m / i.density
    hi = high(speed)
    want = q if how == "none" else q + part * s.ite(hi > q, hi - q, 0) if how == "fraction" else q + part / i.density
    want = s.ite(want > low(speed), want, low(speed))
    s.ensure("with the recirculation", s.and_(s.eq(a.mass_rate_kg_per_h, want * i.density), a.fluid is i.fluid))
    s.ensure("the chart is asked once, at the speed and both rates", len(asked) == 1 and s.and_(s.eq(asked[0][0], speed), s.eq(asked[0][1], q), s.eq(asked[0][2], want)))
    h, e = heads(speed, asked[0][2]), effs(speed, asked[0][2])
    s.ensure("compressed by the head of the chart", len(done) == 1 and s.and_(s.eq(done[0][0], e), s.eq(done[0][1], h), done[0][2] is a))
    s.ensure("all of it is compressed", s.and_(s.eq(b.mass_rate_kg_per_h, a.mass_rate_kg_per_h), s.eq(b.pressure_bara, pf(e, h, i.pressure_bara))))
    s.ensure("what goes on is what came in", s.and_(s.eq(o.mass_rate_kg_per_h, m), o.fluid is b.fluid))
    s.ensure("head, efficiency and enthalpy", s.and_(s.eq(r.polytropic_head_kJ_per_kg, h / 1000), s.eq(r.polytropic_efficiency, e), s.eq(r.polytropic_enthalpy_change_kJ_per_kg, h / e / 1000),
                                                     s.eq(r.polytropic_enthalpy_change_before_choke_kJ_per_kg, h / e / 1000)))
    s.ensure("the power of all the gas", s.eq(r.power_megawatt, want * i.density * h / e / 3600 / 1000000))
    s.ensure("the part of it for recirculation", s.eq(r.asv_recirculation_loss_mw, (want * i.density - m) * (h / e / 1000) * (1 / (60 * 60 * 1000))))
    s.ensure("where in the chart", r.chart_area_flag is flag)
    s.ensure("within capacity as the chart says", s.iff(r.within_capacity, s.or_(valid, flag is F.INTERNAL_POINT)))
    s.ensure("rates", s.and_(s.eq(r.inlet_actual_rate_m3_per_hour, q), s.eq(r.inlet_actual_rate_asv_corrected_m3_per_hour, want), s.eq(r.mass_rate_kg_per_hour, m), s.eq(r.mass_rate_asv_corrected_kg_per_hour, want * i.density),
                             s.eq(r.standard_rate_sm3_per_day, m / i.standard_density_gas_phase_after_flash * 24), s.eq(r.outlet_actual_rate_m3_per_hour, m / o.density)))
    s.ensure("pressures", s.and_(s.eq(r.discharge_pressure, o.pressure_bara), s.eq(r.inlet_pressure, i.pressure_bara)))


@contract("C22", SG + ".evaluate_given_speed_and_target_discharge_pressure")
def stage_to_a_pressure(s):
    """a stage at a fixed speed recirculates until it just gives the pressure asked for; it gives less only without recirculation, and more only with all that fits"""
    svc = service(s)
    S = T(SG)
    hi = None if s.symbolic else 1e5
    top, mass = s.real("highest rate", lo=0, hi=hi), s.real("mass rate", lo=0, hi=hi)
    x = any_stream(s, svc, "in", mass_rate=mass)
    target = s.real("target", lo=1, hi=None if s.symbolic else 300)
    if s.symbolic:
        press = s.func("pressure", 1, lo=1)
    else:
        p0, k = s.rng.uniform(20, 300), s.rng.uniform(0.0001, 0.01)
        press = lambda z: p0 / (1 + k * max(z, 0))

    class Result:
        def __init__(self, recirculated):
            self.recirculated, self.inlet_stream, self.discharge_pressure = recirculated, x, press(recirculated)

    class Modifier:
        mass_rate_to_recirculate = None

    class Compressor:
        def get_max_rate(self):
            return top

    st = object.__new__(S)
    st.rate_modifier, st.compressor = Modifier(), Compressor()
    s.patch(S, "evaluate", lambda self, inlet_stream_stage, rates_out_of_splitter=None, streams_in_to_mixer=None: Result(self.rate_modifier.mass_rate_to_recirculate))
    _roots(s, SG)
    room = top * x.density - mass - 1e-5
    room = s.ite(room > 0, room, 0)
    r = s.run(st.evaluate_given_speed_and_target_discharge_pressure, x, target)
    s.ensure("does not fail", r.ok, str(r.exc))
    z, p = r.value.recirculated, r.value.discharge_pressure
    s.ensure("recirculates no more than there is room for", s.and_(s.le(0, z), s.le(z, room)))
    if press(0) < target:
        s.ensure("nothing recirculated if the pressure is not reached", s.eq(z, 0))
    elif press(room) > target:
        s.ensure("all there is room for if the pressure is still too high", s.eq(z, room))
    else:
        s.ensure("the pressure asked for", s.eq(p, target) if s.symbolic else abs(p - target) <= 2e-5 * target + 1e-2, f"{p} {target}")


def _roots(s, *paths, boolean=False):
    """in proofs the searches are taken by their contracts (C20): a root within the bounds where there is a change of sign"""
    if not s.symbolic:
        return
    count = [0]

    def find_root(lower_bound, upper_bound, func, relative_convergence_tolerance=1e-5, maximum_number_of_iterations=50):
        a, b = func(lower_bound), func(upper_bound)
        if not s.or_(s.and_(a <= 0, b >= 0), s.and_(a >= 0, b <= 0)):
            raise ValueError("f(a) and f(b) must have different signs")
        count[0] += 1
        x = s.real(f"root {count[0]}")
        s.assume(s.and_(lower_bound <= x, x <= upper_bound))
        s.assume(s.eq(func(x), 0))
        return x

    def largest(x_min, x_max, bool_func, convergence_tolerance=1e-3, maximum_number_of_iterations=20):
        if bool_func(x_max):
            return x_max
        count[0] += 1
        x = s.real(f"largest {count[0]}")
        s.assume(s.and_(x_min <= x, x <= x_max))
        if not bool_func(x):
            s.assume(s.eq(x, x_min))
        return x

    for p in paths:
        s.patch(_module(p), "find_root", find_root)
        if boolean:
            s.patch(_module(p), "maximize_x_given_boolean_condition_function", largest)


def _ideal(s, model_, kappa=1.3):
    M = model_.composition.molar_mass_mixture
    return M, kappa, kappa / (kappa - 1) * R / M


def _compressed(gas, p, t, head, eff):
    """outlet pressure of an ideal gas compressed polytropically"""
    M, kappa, cp = gas
    e = (kappa - 1) / (kappa * eff)
    return p * (1 + head * e * M / (R * t)) ** (1 / e)


class _Train:
    """a generated train of an ideal gas and what it can do, worked out stage by stage"""

    def __init__(self, s, n=None, variable=None, control=None, drops=True, fluid_model=None):
        C = T(BC)
        self.model = fluid_model or model()
        self.gas = _ideal(s, self.model)
        M, kappa, cp = self.gas
        self.n = n = n or s.rng.choice([1, 1, 2, 2, 3])
        self.variable = s.rng.random() < 0.6 if variable is None else variable
        self.ps, self.rate = s.rng.uniform(5, 40), s.rng.uniform(2e5, 5e6)
        self.density = 1.01325e5 * M / (R * 288.15)
        self.mass = m = self.rate * self.density / 24
        self.temps = [s.rng.uniform(285, 320) for _ in range(n)]
        self.drops = [s.rng.choice([None, None, s.rng.uniform(0.01, 1)]) if drops else None for _ in range(n)]
        p, self.data = self.ps, []
        for i in range(n):
            if drops == "large" and i > 0 and s.rng.random() < 0.7:
                self.drops[i] = s.rng.uniform(0.1, 0.6) * p
            p -= self.drops[i] or 0
            ratio, eff = s.rng.uniform(1.4, 2.6), s.rng.uniform(0.65, 0.85)
            e = (kappa - 1) / (kappa * eff)
            head = (ratio**e - 1) / e * R * self.temps[i] / M
            q = m / (p * 1e5 * M / (R * self.temps[i]))
            lo, hi, up, down, bow = s.rng.uniform(0.6, 0.85), s.rng.uniform(1.15, 1.6), s.rng.uniform(1.05, 1.2), s.rng.uniform(0.6, 0.85), s.rng.uniform(0.5, 0.9)
            curves = []
            for v in ([0.7, 0.85, 1.05] if self.variable else [1.0]):
                curves.append(T("libecalc.domain.process.value_objects.chart.chart:ChartCurve")(
                    speed_rpm=10000.0 * v, rate_actual_m3_hour=[q * lo * v, q * (lo + hi) / 2 * v, q * hi * v], polytropic_head_joule_per_kg=[head * up * v * v, head * (up * bow + down * (1 - bow)) * v * v, head * down * v * v],
                    efficiency_fraction=[eff * 0.95, eff, eff * 0.9]))
            self.data.append(_chart_data(curves))
            p *= ratio
        self.pd = p
        self.control = control
        self.power = None

    def make(self, s, svc, **k):
        """the train of the code"""
        shaft = T(SH + ("VariableSpeedShaft" if self.variable else "SingleSpeedShaft"))()
        k.setdefault("pressure_control", self.control)
        at, how = k.pop("interstage", (None, None))
        out = k.pop("out", None)
        splitter = T(EU + "legacy_splitter.legacy_splitter:LegacySplitter")
        stages = [_stage(svc, shaft, d, t, x, dry=True, splitter=splitter(2) if i == out else None, control=how if i == at else None) for i, (d, t, x) in enumerate(zip(self.data, self.temps, self.drops))]
        args = dict(energy_usage_adjustment_constant=0.0, energy_usage_adjustment_factor=1.0, stages=stages, fluid_service=svc, shaft=shaft, stage_number_interstage_pressure=at)
        args.update(k)
        t = T(CS)(**args)
        t._fluid_model = [self.model]
        return t

    def charts(self):
        return [T(CC)(d) for d in self.data]

    def run(self, speed, mass, ps, asv=None, extra=None):
        """the pressure after each stage at this speed, whether all stages are within their highest rates, and the power; asv: the mass rate through each stage"""
        M, kappa, cp = self.gas
        p, ok, power, out = ps, True, 0.0, []
        for i, c in enumerate(self.charts()):
            p -= self.drops[i] or 0
            rho = p * 1e5 * M / (R * self.temps[i])
            lo, hi = float(c.minimum_rate_as_function_of_speed(speed)), float(c.maximum_rate_as_function_of_speed(speed))
            q = mass / rho
            qa = max(q, lo) if asv is None else asv[i] / rho
            ok = ok and q <= hi
            r = c.calculate_polytropic_head_and_efficiency_single_point(speed=speed, actual_rate_m3_per_hour=min(q, hi), actual_rate_m3_per_hour_including_asv=min(qa, hi))
            h, e = float(r.polytropic_head), float(r.polytropic_efficiency)
            p = _compressed(self.gas, p, self.temps[i], h, e)
            power += qa * rho * h / e / 3.6e9
            out.append((p, qa * rho, h, e, lo * rho, hi * rho))
        return p, ok, power, out

    def speeds(self):
        return max(c.minimum_speed for c in self.charts()), min(c.maximum_speed for c in self.charts())

    def slowest(self, mass, ps):
        """the lowest speed at which every stage takes the rate, None if there is none"""
        lo, hi = self.speeds()
        if not self.run(hi, mass, ps)[1]:
            return None
        if self.run(lo, mass, ps)[1]:
            return lo
        for _ in range(60):
            mid = (lo + hi) / 2
            lo, hi = (lo, mid) if self.run(mid, mass, ps)[1] else (mid, hi)
        return hi

    def part(self, a, b):
        """some of the stages as a train"""
        x = object.__new__(_Train)
        x.__dict__.update(self.__dict__)
        x.n, x.data, x.temps, x.drops = b - a, self.data[a:b], self.temps[a:b], self.drops[a:b]
        x.whole = self
        return x

    def speed_for(self, mass, ps, pd, lo, hi):
        """the lowest speed that gives at least the pressure, within these; None if there is none"""
        ok = lambda N: self.run(N, mass, ps)[1]
        if not ok(hi) or self.run(hi, mass, ps)[0] < pd:
            return None
        met = lambda N: ok(N) and self.run(N, mass, ps)[0] >= pd
        if met(lo):
            return lo
        for _ in range(60):
            mid = (lo + hi) / 2
            lo, hi = (lo, mid) if met(mid) else (mid, hi)
        return hi

    def lowers(self, N, mass, pd, control, ps=None):
        """whether the pressure control can give this pressure at this speed, with some room to spare"""
        ps = ps or self.ps
        P = T(PC)
        clear = lambda low, high: low < pd * (1 - 5e-3) and pd * (1 + 5e-3) < high
        inside = lambda run: run[1] and all(a[1] <= a[5] * (1 - 1e-3) for a in run[3])
        if control == P.DOWNSTREAM_CHOKE:
            return self.run(N, mass, ps)[1] and self.run(N, mass, ps)[0] > pd
        if control == P.UPSTREAM_CHOKE:
            a, b = (self.drops[0] or 0) + 0.01, ps
            for _ in range(50):
                mid = (a + b) / 2
                try:
                    x = self.run(N, mass, mid)
                except (ValueError, ZeroDivisionError):  # nothing left after a pressure drop
                    a = mid
                    continue
                a, b = (a, mid) if x[0] > pd else (mid, b)
            return inside(self.run(N, mass, b))
        if control == P.INDIVIDUAL_ASV_PRESSURE:
            p, ratio, power = ps, (pd / ps) ** (1 / self.n), 0
            for i in range(self.n):
                one = self.part(i, i + 1)
                full = one.run(N, mass, p)[3][0]
                if not one.run(N, mass, p, [full[5]])[0] < p * ratio * (1 - 5e-3) < p * ratio * (1 + 5e-3) < one.run(N, mass, p)[0] or mass > full[5]:
                    return False
                p *= ratio
            return True
        if control == P.INDIVIDUAL_ASV_RATE:
            high, p = self.run(N, mass, ps), ps
            asv, ok = [], True
            for i in range(self.n):  # all the room there is in every stage
                one = self.part(i, i + 1)
                top = one.run(N, mass, p)[3][0][5]
                ok = ok and mass < top
                x = one.run(N, mass, p, [top])
                p = x[0]
            return ok and inside(high) and clear(p, high[0])
        pressures = []
        a = self.run(N, mass, ps)[3][0]
        for k in range(60):
            m = max(mass, a[4]) + (a[5] - max(mass, a[4])) * k / 59
            x = self.run(N, m, ps)
            if inside(x) and all(y[1] <= m * (1 + 1e-6) for y in x[3]):
                pressures.append(x[0])
        return len(pressures) > 8 and clear(min(pressures), max(pressures))


@contract("C22", CS + ".evaluate_given_constraints", CS + ".calculate_compressor_train", CS + ".find_fixed_shaft_speed_given_constraints", CS + ".evaluate_with_pressure_control_given_constraints", CS + "._evaluate_train_with_downstream_choking",
          CS + "._evaluate_train_with_upstream_choking", CS + "._evaluate_train_with_individual_asv_rate", CS + "._evaluate_train_with_individual_asv_pressure", CS + "._evaluate_train_with_common_asv", BA + ".check_target_pressures",
          UT + "calculate_outlet_pressure_and_stream", concrete_only=True, cases=400, budget=200, bounded="generated trains of 1 to 3 stages with generated charts, an ideal gas")
def a_train(s):
    """a train is run at a speed and recirculation that give the pressure asked for, if any do; every stage works on what the one before gives, and the power is that of all stages"""
    P = T(PC)
    control = s.choice("control", [None, *P])
    t = _Train(s, control=control)
    svc = service(s)
    mass = t.mass * s.rng.choice([0.0, s.rng.uniform(0.05, 0.6), s.rng.uniform(0.6, 1.4), s.rng.uniform(0.6, 1.4), s.rng.uniform(0.6, 1.4)])
    pd = t.ps * (t.pd / t.ps) ** s.rng.uniform(0.3, 1.25)
    limit = s.rng.choice([None, None, s.rng.uniform(0.3, 2) * (t.run(t.speeds()[1], t.mass, t.ps)[2])])
    highest = t.ps * (t.pd / t.ps) ** s.rng.uniform(0.5, 1.2) if control == P.DOWNSTREAM_CHOKE and s.rng.random() < 0.6 else None
    tr = t.make(s, svc, maximum_power=limit, maximum_discharge_pressure=highest)
    rate = mass * 24 / t.density
    r = s.run(tr.evaluate_given_constraints, T(EV)(suction_pressure=t.ps, discharge_pressure=pd, rates=[rate]))
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    if mass == 0:
        s.ensure("nothing through, nothing used", r.power_megawatt == 0 and r.is_valid and len(r.stage_results) == t.n)
        return
    near = lambda a, b, e=1e-6: abs(a - b) <= e * max(1e-9, abs(a), abs(b))
    lo, hi = t.speeds()
    N = r.speed
    s.ensure("within the speeds of the charts", lo - 1e-6 <= N <= hi + 1e-6, f"{N} {lo} {hi}")
    # every stage on what the one before gives
    p, capacity = r.stage_results[0].inlet_stream.pressure_bara + (t.drops[0] or 0), True
    M, kappa, cp = t.gas
    s.ensure("the suction pressure", near(r.inlet_stream.pressure_bara, t.ps) and (near(p, t.ps) or (control == P.UPSTREAM_CHOKE or highest) and p <= t.ps * (1 + (2e-3 if highest else 1e-6))), f"{p} {t.ps}")
    for i, x in enumerate(r.stage_results):
        p -= t.drops[i] or 0
        c = t.charts()[i]
        s.ensure("the inlet of a stage", near(x.inlet_stream.pressure_bara, p) and near(x.inlet_stream.temperature_kelvin, t.temps[i]) and near(x.mass_rate_kg_per_hour, mass), f"stage {i}: {x.inlet_stream.pressure_bara} {p}")
        rho = p * 1e5 * M / (R * t.temps[i])
        qa, q = x.mass_rate_asv_corrected_kg_per_hour / rho, mass / rho
        low, high = float(c.minimum_rate_as_function_of_speed(N)), float(c.maximum_rate_as_function_of_speed(N))
        s.ensure("no stage takes less than the lowest rate, nor less than what comes", qa >= q * (1 - 1e-9) and qa >= low * (1 - 1e-6))
        inside = q <= high * (1 + 1e-9) and qa <= high * (1 + 1e-6)
        capacity = capacity and inside
        if inside:
            h = c.calculate_polytropic_head_and_efficiency_single_point(speed=N, actual_rate_m3_per_hour=q, actual_rate_m3_per_hour_including_asv=min(qa, high))
            s.ensure("the head of the chart", near(x.polytropic_head_kJ_per_kg * 1000, float(h.polytropic_head)) and near(x.polytropic_efficiency, float(h.polytropic_efficiency)))
        h, e = x.polytropic_head_kJ_per_kg * 1000, x.polytropic_efficiency
        s.ensure("the power of a stage", near(x.power_megawatt, qa * rho * h / e / 3.6e9))
        before, p = p, _compressed(t.gas, p, t.temps[i], h, e)
        s.ensure("the pressure after a stage", near(x.outlet_stream.pressure_bara, p, 2e-3), f"stage {i}: {x.outlet_stream.pressure_bara} {p}")
        p = x.outlet_stream.pressure_bara
    s.ensure("the outlet of the last stage", near(r.discharge_pressure, p) or control == P.DOWNSTREAM_CHOKE and r.discharge_pressure <= p and near(r.discharge_pressure, pd), f"{r.discharge_pressure} {p} {pd}")
    s.ensure("the power of all stages", near(r.power_megawatt, sum(x.power_megawatt for x in r.stage_results)))
    if r.is_valid:
        s.ensure("the pressure asked for", near(r.discharge_pressure, pd, 1.5e-3), f"{r.discharge_pressure} {pd}")
        s.ensure("within capacity", capacity, str([(x.mass_rate_kg_per_hour, x.mass_rate_asv_corrected_kg_per_hour, y[4:], x.chart_area_flag) for x, y in zip(r.stage_results, t.run(N, mass, t.ps, [x.mass_rate_asv_corrected_kg_per_hour for x in r.stage_results])[3])]))
        s.ensure("within the power", not limit or r.power_megawatt <= limit, f"{r.power_megawatt} {limit}")
    else:
        s.ensure("why not", r.failure_status != T(FT).NO_FAILURE)
    # what can be done
    slow = t.slowest(mass, t.ps)
    if slow is None:
        s.ensure("above the highest rate", r.failure_status == T(FT).ABOVE_MAXIMUM_FLOW_RATE, str(r.failure_status))
        return
    most, least = t.run(hi, mass, t.ps)[0], t.run(slow, mass, t.ps)[0]
    over = lambda: bool(limit) and r.power_megawatt > limit
    if most < pd * (1 - 3e-3):
        s.ensure("too high a pressure", not r.is_valid and near(N, hi, 1e-4), f"{r.failure_status} {most} {pd}")
    elif most > pd * (1 + 3e-3) and least < pd * (1 - 3e-3):
        s.ensure("met where it can be", r.is_valid or over() and r.failure_status == T(FT).ABOVE_MAXIMUM_POWER, f"{r.failure_status} {least} {pd} {most}")
        s.ensure("with no more recirculation than the lowest rates need", all(near(x.mass_rate_asv_corrected_kg_per_hour, y[1], 5e-3) for x, y in zip(r.stage_results, t.run(N, mass, t.ps)[3])))
    elif least > pd * (1 + 3e-3):
        s.ensure("as slow as can be", near(N, slow, 2e-3), f"{N} {slow}")
        if control == P.DOWNSTREAM_CHOKE:
            if highest:
                last = r.stage_results[-1].outlet_stream.pressure_bara
                if r.is_valid:
                    s.ensure("no more than the highest pressure out of the last stage", last <= highest * (1 + 2e-3), f"{last} {highest}")
                s.ensure("not choked before the train where it need not be", last >= min(highest, least) * (1 - 5e-3), f"{last} {highest} {least}")
            s.ensure("the power is known to be too much or not", r.above_maximum_power == over())
            if not highest or highest > max(least, pd) * (1 + 3e-3) or highest > pd * (1 + 5e-3) and t.lowers(N, mass, highest, P.UPSTREAM_CHOKE):
                s.ensure("choked", r.is_valid or over() and r.failure_status == T(FT).ABOVE_MAXIMUM_POWER, str(r.failure_status))
        elif control is None:
            s.ensure("too low a pressure", r.failure_status == T(FT).TARGET_DISCHARGE_PRESSURE_TOO_LOW, str(r.failure_status))
        elif r.is_valid and control == P.COMMON_ASV:
            s.ensure("the same rate through all", all(near(x.mass_rate_asv_corrected_kg_per_hour, r.stage_results[0].mass_rate_asv_corrected_kg_per_hour, 1e-5) for x in r.stage_results))
        elif control == P.INDIVIDUAL_ASV_PRESSURE and r.is_valid and t.lowers(N, mass, pd, control):
            ratio = (pd / t.ps) ** (1 / t.n)
            s.ensure("the same pressure ratio over each stage", all(near(x.outlet_stream.pressure_bara, t.ps * ratio ** (i + 1), 5e-3) for i, x in enumerate(r.stage_results)))
        elif r.is_valid and control == P.INDIVIDUAL_ASV_RATE:
            parts = []
            for x, y in zip(r.stage_results, t.run(N, mass, t.ps, [x.mass_rate_asv_corrected_kg_per_hour for x in r.stage_results])[3]):
                if x.mass_rate_asv_corrected_kg_per_hour > y[4] * (1 + 1e-3):
                    parts.append((x.mass_rate_asv_corrected_kg_per_hour - mass) / (y[5] - mass))
            s.ensure("the same share of the room in each stage", all(abs(a - parts[0]) <= 1e-2 for a in parts), str(parts))
        if control in (P.UPSTREAM_CHOKE, P.INDIVIDUAL_ASV_RATE, P.INDIVIDUAL_ASV_PRESSURE, P.COMMON_ASV) and t.lowers(N, mass, pd, control):
            s.ensure("lowered to what is asked for", r.is_valid or over() and r.failure_status == T(FT).ABOVE_MAXIMUM_POWER, f"{r.failure_status} {r.discharge_pressure} {pd}")
        if over() and r.target_pressure_status == T(TS).TARGET_PRESSURES_MET and capacity:
            s.ensure("too much power", r.failure_status == T(FT).ABOVE_MAXIMUM_POWER, str(r.failure_status))


@contract("C22", CS + ".find_and_calculate_for_compressor_train_with_two_pressure_requirements", CS + ".split_train_on_stage_number", CS + ".split_rates_on_stage_number", CS + ".evaluate_given_constraints", CS + "._check_intermediate_pressure_stage_number_is_valid",
          CS + ".pressure_control_first_part", CS + ".pressure_control_last_part", BA + ".check_target_pressures", concrete_only=True, cases=400, budget=200, bounded="generated trains of 2 or 3 stages with generated charts, an ideal gas")
def two_pressures(s):
    """with a pressure asked for between two stages as well, all run at the speed that the more demanding part needs, and the other part is brought down by its own control"""
    P = T(PC)
    n = s.rng.choice([2, 3, 3])
    k = s.rng.randrange(1, n)
    first, last = s.choice("first", list(P)), s.choice("last", list(P))
    t = _Train(s, n=n, variable=True)
    svc = service(s)
    out = s.rng.choice([0.0, 0.0, 0.2]) * t.mass
    mass = t.mass * s.rng.choice([s.rng.uniform(0.05, 0.6), s.rng.uniform(0.6, 1.4), s.rng.uniform(0.6, 1.4)]) + out
    rest = mass - out
    pd = t.ps * (t.pd / t.ps) ** s.rng.uniform(0.4, 1.1)
    middle = t.ps * (pd / t.ps) ** (s.rng.uniform(0.7, 1.3) * k / n)
    s.assume(middle < pd and middle > 1.1 * t.ps)
    limit = s.rng.choice([None, None, s.rng.uniform(0.3, 2) * (t.run(t.speeds()[1], t.mass, t.ps)[2])])
    tr = t.make(s, svc, maximum_power=limit, interstage=(k, T("libecalc.common.fixed_speed_pressure_control:InterstagePressureControl")(first, last)), out=k if out else None)
    if out:
        tr._fluid_model = [t.model, None]
    q = 24 / t.density
    r = s.run(tr.evaluate_given_constraints, T(EV)(suction_pressure=t.ps, discharge_pressure=pd, interstage_pressure=middle, rates=[mass * q, out * q] if out else [mass * q]))
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    near = lambda a, b, e=1e-6: abs(a - b) <= e * max(1e-9, abs(a), abs(b))
    lo, hi = t.speeds()
    N = r.speed
    s.ensure("within the speeds of all the charts", lo - 1e-6 <= N <= hi + 1e-6, f"{N} {lo} {hi}")
    s.ensure("all the stages", len(r.stage_results) == n)
    M = t.gas[0]
    p, inside = t.ps, True
    for i, x in enumerate(r.stage_results):
        here = x.inlet_stream.pressure_bara + (t.drops[i] or 0)
        choked = first == P.UPSTREAM_CHOKE if i == 0 else last == P.UPSTREAM_CHOKE if i == k else False
        want = t.ps if i == 0 else middle if i == k else p
        s.ensure("the inlet of a stage", near(here, want) or choked and (here <= want * (1 + 1e-6) or i == 0 and not r.is_valid), f"stage {i}: {here} {want}")
        m = mass if i < k else rest
        s.ensure("the rate through a stage", near(x.mass_rate_kg_per_hour, m), f"stage {i}: {x.mass_rate_kg_per_hour} {m}")
        c = t.charts()[i]
        rho = x.inlet_stream.pressure_bara * 1e5 * M / (R * t.temps[i])
        low, high = float(c.minimum_rate_as_function_of_speed(N)), float(c.maximum_rate_as_function_of_speed(N))
        qa = x.mass_rate_asv_corrected_kg_per_hour / rho
        s.ensure("no less than the lowest rate", qa >= low * (1 - 1e-6) and qa >= m / rho * (1 - 1e-9))
        now = m / rho <= high * (1 + 1e-9) and qa <= high * (1 + 1e-6)
        inside = inside and now
        h, e = x.polytropic_head_kJ_per_kg * 1000, x.polytropic_efficiency
        if now:
            w = c.calculate_polytropic_head_and_efficiency_single_point(speed=N, actual_rate_m3_per_hour=m / rho, actual_rate_m3_per_hour_including_asv=min(qa, high))
            s.ensure("the head of the chart at the common speed", near(h, float(w.polytropic_head)) and near(e, float(w.polytropic_efficiency)))
        s.ensure("the power of a stage", near(x.power_megawatt, qa * rho * h / e / 3.6e9))
        s.ensure("the pressure after a stage", near(x.outlet_stream.pressure_bara, _compressed(t.gas, x.inlet_stream.pressure_bara, t.temps[i], h, e), 2e-3))
        p = x.outlet_stream.pressure_bara
    over = bool(limit) and r.power_megawatt > limit
    gave = r.stage_results[k - 1].outlet_stream.pressure_bara
    if r.is_valid:
        s.ensure("both pressures", near(r.discharge_pressure, pd, 1.5e-3) and (near(gave, middle, 1.5e-3) or first == P.DOWNSTREAM_CHOKE and gave > middle), f"{gave} {middle} {r.discharge_pressure} {pd}")
        s.ensure("within capacity and power", inside and not over)
    else:
        s.ensure("why not", r.failure_status != T(FT).NO_FAILURE)
    one, two = t.part(0, k), t.part(k, n)
    a, b = one.speed_for(mass, t.ps, middle, lo, hi), two.speed_for(rest, middle, pd, lo, hi)
    if a is None or b is None:
        return
    need = max(a, b)
    s.ensure("the speed that is needed", near(N, need, 2e-3) or not r.is_valid, f"{N} {a} {b}")
    clear = lambda part, m, x, y, c: near(part.run(need, m, x)[0], y, 1e-4) or not (out and part is two and c == P.COMMON_ASV) and part.lowers(need, m, y, c, x)
    reach = lambda part, m, x, y: part.run(hi, m, x)[0] > y * (1 + 3e-3) and (need < hi * (1 - 1e-3))
    if clear(one, mass, t.ps, middle, first) and clear(two, rest, middle, pd, last) and reach(one, mass, t.ps, middle) and reach(two, rest, middle, pd) and one.run(need, mass, t.ps)[1] and two.run(need, rest, middle)[1]:
        s.ensure("met where it can be", r.is_valid or over and r.failure_status == T(FT).ABOVE_MAXIMUM_POWER, f"{r.failure_status} speeds {N} {a} {b} gave {gave} {middle} {r.discharge_pressure} {pd}")
        s.cover("met")


@contract("C22", "libecalc.presentation.yaml.mappers.consumer_function_mapper:CompressorModelMapper._create_variable_speed_compressor_train_multiple_streams_and_pressures", BA + ".set_evaluation_input", BA + ".evaluate", BA + "._make_ports_from_splitters_and_mixers",
          CS + ".calculate_compressor_train", CS + "._validate_nonnegative_stage_rates", CS + "._validate_positive_ingoing_rates", CS + "._evaluate_train_with_individual_asv_pressure", concrete_only=True, cases=120, budget=200,
          bounded="generated trains of 1 to 4 stages with up to 4 more streams, an ideal gas")
def streams_in_any_order(s):
    """every stream goes in or out where the stages say, whatever the order they are listed in"""
    Y = "libecalc.presentation.yaml.yaml_types.models.yaml_compressor_trains:YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures"
    CM = T("libecalc.presentation.yaml.mappers.consumer_function_mapper:CompressorModelMapper")
    P = T(PC)
    svc = service(s)
    s.patch(T("ecalc_neqsim_wrapper.fluid_service:NeqSimFluidService"), "instance", classmethod(lambda cls: svc))
    n = s.rng.randint(1, 4)
    streams = [("in0", True, 0)] + [(f"x{i}", s.rng.random() < 0.5, s.rng.randrange(n)) for i in range(s.rng.randint(0, 4))]
    streams = [(a, ("in", "out")[not b], c) for a, b, c in streams]
    order = s.rng.sample(streams, len(streams))
    if s.rng.random() < 0.7:  # the inlet first, as is usual
        order = [streams[0]] + [x for x in order if x is not streams[0]]
    # the first ingoing stream that the first stage lists is its inlet
    control = s.choice("control", [x for x in P if x != P.COMMON_ASV])
    fluids = {a: model(methane=m, ethane=1 - m) for m, (a, b, c) in zip((0.95, 0.9, 0.85, 0.8, 0.75), streams) if b == "in"}
    t = _Train(s, n=n, variable=True, fluid_model=fluids["in0"])
    margins = dict(CONTROL_MARGIN=0, CONTROL_MARGIN_UNIT="PERCENTAGE")
    stages = [dict(INLET_TEMPERATURE=t.temps[i] - 273.15, COMPRESSOR_CHART=f"chart{i}", **margins) for i in range(n)]
    for i in range(n):
        here = [a for a, b, c in streams if c == i]
        if s.rng.random() < 0.5:
            s.rng.shuffle(here)
        if here:
            stages[i]["STREAM"] = here
        if t.drops[i]:
            stages[i]["PRESSURE_DROP_AHEAD_OF_STAGE"] = t.drops[i]
    y = T(Y).model_validate(dict(NAME="t", TYPE="VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", PRESSURE_CONTROL=control.value, STAGES=stages,
                                 STREAMS=[dict(NAME=a, TYPE="INGOING", FLUID_MODEL=a) if b == "in" else dict(NAME=a, TYPE="OUTGOING") for a, b, c in order]))

    class Mapper(CM):
        def __init__(self):
            pass

        def _get_fluid_model(self, reference):
            return fluids[reference]

        def _get_compressor_chart(self, reference, control_margin):
            return t.data[int(reference[5:])]

    made = s.run(Mapper()._create_variable_speed_compressor_train_multiple_streams_and_pressures, y)
    s.ensure("maps", made.ok, repr(made.exc))
    train, models = made.value
    s.ensure("the fluids in the order of the streams", [m is None for m in models] == [b == "out" for a, b, c in order] and all(m == fluids[a] for m, (a, b, c) in zip(models, order) if b == "in"))
    import numpy as np

    # rates: some of the main stream comes and goes, never more out than there is
    periods = 2
    rates, left = {}, [[t.rate * s.rng.uniform(0.8, 1.1), t.rate * s.rng.choice([0, s.rng.uniform(0.8, 1.1)])]]
    rates["in0"] = left[0]
    now = list(left[0])
    through = []
    for i in range(n):
        for a, b, c in streams[1:]:
            if c == i and b == "out":
                k = [s.rng.choice([0.0, s.rng.uniform(0, 0.2)]) * x for x in now]
                rates[a], now = k, [x - z for x, z in zip(now, k)]
        for a, b, c in streams[1:]:
            if c == i and b == "in":
                k = [s.rng.uniform(0, 0.2) * t.rate for x in now]
                rates[a], now = k, [x + z for x, z in zip(now, k)]
        through.append(list(now))
    pd = t.ps * (t.pd / t.ps) ** s.rng.uniform(0.5, 1.0)
    given = np.array([rates[a] for a, b, c in order])
    train.set_evaluation_input(rate=given, fluid_model=models, suction_pressure=np.array([t.ps] * periods), discharge_pressure=np.array([pd] * periods))
    r = s.run(train.evaluate)
    s.ensure("runs", r.ok, repr(r.exc))
    r = r.value
    s.ensure("the rates as given", np.array_equal(np.array(r.rate_sm3_day), given))
    # mass rates: what has come in of each fluid less what has gone out of the mixture
    density = {a: svc.create_fluid(m, 10.0, 300.0).properties.standard_density for a, m in fluids.items()}
    for p in range(periods):
        mass, moles = None, None
        for i in range(n):
            if i == 0:  # the first one listed at the stage is the inlet
                first = [x for x in stages[0]["STREAM"] if x in fluids][0]
                M = {a: m.composition.molar_mass_mixture for a, m in fluids.items()}
                mass = rates[first][p] * density[first] / 24
                parts = {first: mass / M[first]}
            else:
                first = None
            outs = [a for a, b, c in streams if c == i and b == "out"]
            out = sum(rates[a][p] for a in outs)
            total = sum(parts.values())
            if outs and total > 0:
                # standard volume of an ideal gas is proportional to the moles
                std = sum(parts.values()) / density[first or "in0"] * M[first or "in0"] * 24
                keep = max(0, 1 - out / std)
                parts = {a: v * keep for a, v in parts.items()}
            for a, b, c in streams:
                if c == i and b == "in" and a != first:
                    parts[a] = parts.get(a, 0) + rates[a][p] * density[a] / 24 / M[a]
            mass = sum(v * M[a] for a, v in parts.items())
            x = r.stage_results[i].mass_rate_before_asv_kg_per_hr[p]
            s.ensure("the rate through each stage", abs(x - mass) <= 1e-6 * max(1, mass), f"stage {i}: {x} {mass} {streams} {order}")
    if len(fluids) > 1:
        s.cover("more than one stream in")


@contract("C22", CS + "._get_max_std_rate_single_timestep", BA + ".get_max_standard_rate", concrete_only=True, cases=150, budget=200, bounded="generated trains of 1 to 3 stages with generated charts, an ideal gas")
def maximum_rate(s):
    """the maximum rate of a train can be run, and no more than it can; it is the same whatever was asked before"""
    import numpy as np
    P = T(PC)
    control = s.choice("control", [None, *P])
    t = _Train(s, control=control, n=s.rng.choice([1, 2, 3]) if control in (None, P.DOWNSTREAM_CHOKE, P.UPSTREAM_CHOKE) else 1)
    svc = service(s)
    pd = t.ps * (t.pd / t.ps) ** s.rng.uniform(0.3, 1.25)
    limit = s.rng.choice([None] if t.n > 1 else [None, None, None, s.rng.uniform(0.3, 1.5) * (t.run(t.speeds()[1], t.mass, t.ps)[2])])
    tr = t.make(s, svc, maximum_power=limit)
    evaluate = lambda rate: tr.evaluate_given_constraints(T(EV)(suction_pressure=t.ps, discharge_pressure=pd, rates=[rate]))
    bad = s.rng.choice(["", "", "suction", "discharge"])
    r = s.run(tr.get_max_standard_rate, np.array([t.ps, -1.0 if bad == "suction" else t.ps]), np.array([pd, 0.0 if bad == "discharge" else pd]))
    s.ensure("does not fail", r.ok, repr(r.exc))
    one, two = r.value
    if bad:
        s.ensure("none without a pressure", two == 0.0)
    else:
        s.ensure("the same again", one == two or np.isnan(one) and np.isnan(two), f"{one} {two}")
    s.ensure("known", not np.isnan(one))
    evaluate(t.rate * s.rng.uniform(0.2, 1.2))
    again = tr.get_max_standard_rate(np.array([t.ps]), np.array([pd]))[0]
    s.ensure("the same after other rates", abs(again - one) <= 1e-9 * max(1, one), f"{again} {one}")
    if one > 0:
        x = evaluate(one * (1 - 5e-3))
        s.ensure("can be run", x.is_valid or control is None and x.failure_status == T(FT).TARGET_DISCHARGE_PRESSURE_TOO_LOW or x.failure_status == T(FT).ABOVE_MAXIMUM_POWER and x.power_megawatt <= limit * (1 + 1e-2), f"{one} {x.failure_status} {x.discharge_pressure} {pd} {x.power_megawatt} {limit}")
        y = evaluate(one * (1 + 2e-2))
        s.ensure("no more than it can", not y.is_valid or abs(y.discharge_pressure / pd - 1) > 1e-5, f"{one} {t.rate} {y.discharge_pressure} {pd} {y.power_megawatt} {limit}")
    else:
        for f in (0.3, 0.6, 0.8, 0.9, 1.0, 1.1, 1.2, 1.4):
            y = evaluate(t.rate * f)
            through = [x.mass_rate_asv_corrected_kg_per_hour <= x.mass_rate_kg_per_hour * (1 + 1e-9) for x in y.stage_results]
            s.ensure("none if none can be run", t.n > 1 and not all(through) or not y.is_valid or abs(y.discharge_pressure / pd - 1) > 1e-5, f"{f} {y.discharge_pressure} {pd} {y.power_megawatt} {limit}")


class _Fake:
    """a result in which only what is set is known"""

    def __init__(self, **k):
        self.__dict__.update(k)


def _bare(cls, **k):
    x = object.__new__(cls)
    x.__dict__.update(k)
    return x


@contract("C22", BA + ".check_target_pressures")
def target_pressures(s):
    """pressures are met when they are within the tolerance of what is asked for, and otherwise it is known which is not and how"""
    S = T(TS)
    real = lambda n: s.real(n, lo=0 if s.symbolic else 1, hi=None if s.symbolic else 100, lo_open=True)
    near = lambda n, x: real(n) if s.symbolic or x is None else x * s.rng.choice([1, 1 + 5e-4, 1 - 5e-4, 1.1, 0.9])
    suction, ps, pd, pi = real("suction"), real("train suction"), s.choice("to a pressure", [True, False]), s.choice("between", [True, False])
    pd, pi = real("discharge") if pd else None, real("intermediate") if pi else None
    got, mid, first = near("delivered", pd), near("delivered between", pi), near("at the first stage", ps)
    after = s.choice("choked between", [True, False])
    if after:
        after = near("after the choke", pi)
    k = s.choice("stage", [None, 1, 2])
    stages = [_Fake(discharge_pressure=mid if i + 1 == k else real(f"stage {i}"), inlet_pressure=first, inlet_stream=_Fake(pressure_bara=first)) for i in range(2)]
    as_list = s.choice("stages only", [True, False])
    if as_list:
        stages[-1].discharge_pressure = got
        results = stages
    else:
        results = _Fake(suction_pressure=ps, discharge_pressure=got, stage_results=stages)
    tr = _bare(T(CS), stage_number_interstage_pressure=k)
    E = T(EV)(suction_pressure=suction, discharge_pressure=pd, interstage_pressure=pi, rates=[1.0])
    args = dict(intermediate_pressure_after_choke=after) if after and not as_list else {}
    r = s.run(tr.check_target_pressures, constraints=E, results=results, **args)
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    b = args.get("intermediate_pressure_after_choke") or (mid if k is not None else None)
    above = lambda x, y: x / y - 1 > TOL
    if not as_list and above(first, ps):
        want = S.ABOVE_TARGET_SUCTION_PRESSURE
    elif pd is not None and above(got, pd):
        want = S.ABOVE_TARGET_DISCHARGE_PRESSURE
    elif pd is not None and above(pd, got):
        want = S.BELOW_TARGET_DISCHARGE_PRESSURE
    elif not as_list and pi is not None and b is not None and above(b, pi):
        want = S.ABOVE_TARGET_INTERMEDIATE_PRESSURE
    elif not as_list and pi is not None and b is not None and above(pi, b):
        want = S.BELOW_TARGET_INTERMEDIATE_PRESSURE
    else:
        want = S.TARGET_PRESSURES_MET
    s.ensure("which pressure is not met", r is want, f"{r} {want}")


@contract("C22", RS + "CompressorTrainResultSingleTimeStep.failure_status", RS + "CompressorTrainResultSingleTimeStep.is_valid", RS + "CompressorTrainResultSingleTimeStep.within_capacity", RS + "CompressorTrainResultSingleTimeStep.power_megawatt",
          RS + "CompressorTrainResultSingleTimeStep.chart_area_status", RS + "CompressorTrainStageResultSingleTimeStep.within_capacity")
def train_status(s):
    """a train is valid exactly when every stage is within its chart, the pressures are met and the power is not too high; what is wrong is told"""
    S, F, Flag = T(TS), T(FT), T(FL)
    kinds = [Flag.INTERNAL_POINT, Flag.BELOW_MINIMUM_FLOW_RATE, Flag.ABOVE_MAXIMUM_FLOW_RATE, Flag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE, Flag.NO_FLOW_RATE]
    flags = [s.choice(f"flag {i}", kinds) for i in range(2)]
    good = [s.choice(f"valid {i}", [True, False]) for i in range(2)]
    power = [s.real(f"power {i}", lo=0, hi=None if s.symbolic else 10) for i in range(2)]
    stages = [T(RS + "CompressorTrainStageResultSingleTimeStep")(None, None, None, None, 1.0, 1.0, 1.0, 1.0, power[i], flags[i], good[i]) for i in range(2)]
    met = s.choice("pressures", [S.TARGET_PRESSURES_MET, S.ABOVE_TARGET_DISCHARGE_PRESSURE, S.BELOW_TARGET_DISCHARGE_PRESSURE, S.ABOVE_TARGET_INTERMEDIATE_PRESSURE, S.BELOW_TARGET_INTERMEDIATE_PRESSURE, S.ABOVE_TARGET_SUCTION_PRESSURE])
    over = s.choice("over", [True, False])
    r = T(RS + "CompressorTrainResultSingleTimeStep")(None, None, 100.0, stages, met, over)
    out = s.run(lambda: (r.is_valid, r.failure_status, r.within_capacity, r.power_megawatt, r.chart_area_status))
    s.ensure("does not fail", out.ok, repr(out.exc))
    valid, why, inside, total, where = out.value
    each = [a is Flag.INTERNAL_POINT or b for a, b in zip(flags, good)]
    s.ensure("within capacity when all stages are", inside == all(each))
    s.ensure("valid when nothing is wrong", valid == (all(each) and met is S.TARGET_PRESSURES_MET and not over))
    s.ensure("the power of all stages", s.eq(total, power[0] + power[1]))
    high = (Flag.ABOVE_MAXIMUM_FLOW_RATE, Flag.BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE)
    seen = [f for f, ok in zip(flags, each) if not ok and (f in high or f is Flag.BELOW_MINIMUM_FLOW_RATE)]
    names = {S.TARGET_PRESSURES_MET: F.ABOVE_MAXIMUM_POWER if over else F.NO_FAILURE, S.ABOVE_TARGET_DISCHARGE_PRESSURE: F.TARGET_DISCHARGE_PRESSURE_TOO_LOW, S.BELOW_TARGET_DISCHARGE_PRESSURE: F.TARGET_DISCHARGE_PRESSURE_TOO_HIGH,
             S.ABOVE_TARGET_INTERMEDIATE_PRESSURE: F.TARGET_INTERMEDIATE_PRESSURE_TOO_LOW, S.BELOW_TARGET_INTERMEDIATE_PRESSURE: F.TARGET_INTERMEDIATE_PRESSURE_TOO_HIGH, S.ABOVE_TARGET_SUCTION_PRESSURE: F.TARGET_DISCHARGE_PRESSURE_TOO_HIGH}
    want = (F.ABOVE_MAXIMUM_FLOW_RATE if seen[0] in high else F.BELOW_MINIMUM_FLOW_RATE) if seen else names[met]
    s.ensure("what is wrong", why is want, f"{why} {want}")
    bad = [f for f, ok in zip(flags, good) if not ok]
    s.ensure("the first stage that is outside", where is (bad[0] if bad else Flag.NO_FLOW_RATE if Flag.NO_FLOW_RATE in flags else flags[0]))


@contract("C22", CS + ".find_fixed_shaft_speed_given_constraints", budget=120)
def finds_the_speed(s):
    """the train runs at a speed that gives the pressure asked for; if none does, as slow as the rate allows when all give more, and as fast as it can when all give less or the rate is too high"""
    C = T(CS)
    lo = s.real("lowest", lo=1, hi=None if s.symbolic else 100)
    hi = lo + s.real("range", lo=0, hi=None if s.symbolic else 100)
    pd = s.real("asked for", lo=0 if s.symbolic else 20, hi=None if s.symbolic else 220)
    if s.symbolic:
        press, c = s.func("pressure", 1), s.real("capacity reached at")
        ok = lambda N: N >= c
    else:
        a, c = s.rng.uniform(0.5, 1.5), s.rng.uniform(0, 200)
        press, ok = (lambda N: a * N), (lambda N: N >= c)
    shaft = T(SH + "VariableSpeedShaft")()
    tr = _bare(C, shaft=shaft)
    s.patch(C, "minimum_speed", property(lambda self: lo))
    s.patch(C, "maximum_speed", property(lambda self: hi))
    s.patch(C, "calculate_compressor_train", lambda self, constraints: _Fake(within_capacity=ok(self.shaft.get_speed()), discharge_pressure=press(self.shaft.get_speed())))
    _roots(s, CS, boolean=True)
    bounds = s.choice("bounds", [(None, None), ("narrower", None), (None, "narrower"), ("wider", "wider")])
    lower = s.real("lower", lo=1, hi=None if s.symbolic else 200) if bounds[0] else None
    upper = s.real("upper", lo=1, hi=None if s.symbolic else 200) if bounds[1] else None
    a, b = lo, hi
    if lower is not None:
        a = s.ite(lower > lo, lower, lo)
    if upper is not None:
        b = s.ite(upper < hi, upper, hi)
    s.assume(a <= b)
    r = s.run(tr.find_fixed_shaft_speed_given_constraints, T(EV)(suction_pressure=1.0, discharge_pressure=pd, rates=[1.0]), lower, upper)
    s.ensure("does not fail", r.ok, repr(r.exc))
    N = r.value
    s.ensure("the shaft runs at it", s.eq(shaft.get_speed(), N))
    s.ensure("within the speeds", s.and_(s.le(a, N), s.le(N, b)))
    tol = 0 if s.symbolic else 1e-4 * pd + 0.3
    s.ensure("as fast as it can for too high a rate", s.implies(s.not_(ok(b)), s.eq(N, b)))
    s.ensure("within capacity if it can be", s.implies(ok(b), ok(N)))
    met = s.and_(press(N) <= pd + tol, press(N) >= pd - tol)
    s.ensure("short of the pressure only as fast as it can", s.implies(s.and_(ok(b), press(N) < pd - tol), s.eq(N, b)))
    s.ensure("the pressure when some speed below the highest within capacity gives less", s.implies(s.and_(ok(b), ok(a), press(a) <= pd, pd <= press(b)), met))
    s.ensure("as slow as it can when that gives more", s.implies(s.and_(ok(b), ok(a), press(a) > pd + tol), s.eq(N, a)))


@contract("C22", CS + ".calculate_compressor_train")
def through_the_stages(s):
    """a train takes the gas through its stages one after the other, each with the streams connected to it; its power is that of all stages, which must not exceed the maximum"""
    C = T(CS)
    n = s.choice("stages", [1, 2, 3])
    kinds = s.choice("ports", [[], [(0, True)], [(n - 1, False)], [(n - 1, True), (n - 1, False)], [(0, False), (n - 1, True)], [(n // 2, True), (n - 1, True)]])
    ports = [T(TR + "types:StreamPort")(is_inlet_port=True, connected_to_stage_no=0)] + [T(TR + "types:StreamPort")(is_inlet_port=i, connected_to_stage_no=k) for k, i in kinds]
    real = lambda name: s.real(name, lo=0 if s.symbolic else 1, hi=None if s.symbolic else 100)
    rates = [real(f"rate {i}") for i in range(len(ports))]
    ps, limit = real("suction"), s.choice("limit", [None, "some"])
    limit = s.real("maximum power", lo=0, lo_open=True, hi=None if s.symbolic else 30) if limit else None
    power = [s.real(f"power {i}", lo=0, hi=None if s.symbolic else 10) for i in range(n)]
    fluids = [f"fluid {i}" if p.is_inlet_port else None for i, p in enumerate(ports)]
    seen = []

    class Gas:
        def __init__(self, model, pressure, temperature, rate):
            self.fluid_model, self.pressure_bara, self.temperature_kelvin, self.rate = model, pressure, temperature, rate

        def with_new_fluid(self, f):
            return Gas(f[0], f[1], f[2], self.rate)

    class Service:
        def create_stream_from_standard_rate(self, fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day):
            return Gas(fluid_model, pressure_bara, temperature_kelvin, standard_rate_m3_per_day)

        def create_fluid(self, fluid_model, pressure_bara, temperature_kelvin):
            return (fluid_model, pressure_bara, temperature_kelvin)

    outs = [Gas(f"out {i}", real(f"out {i}"), 300.0 + i, i) for i in range(n)]

    class Stage:
        def __init__(self, i):
            self.i, self.inlet_temperature_kelvin, self.fluid_service = i, 290.0 + i, Service()

        def evaluate(self, inlet_stream_stage, rates_out_of_splitter=None, streams_in_to_mixer=None):
            seen.append((self.i, inlet_stream_stage, rates_out_of_splitter, streams_in_to_mixer))
            return _Fake(outlet_stream=outs[self.i], power_megawatt=power[self.i], discharge_pressure=outs[self.i].pressure_bara, inlet_pressure=inlet_stream_stage.pressure_bara, within_capacity=True)

    shaft = T(SH + "VariableSpeedShaft")()
    shaft.set_speed(77.0)
    into = {i: [j for j, p in enumerate(ports) if p.is_inlet_port and p.connected_to_stage_no == i] for i in range(n)}
    out = {i: [j for j, p in enumerate(ports) if not p.is_inlet_port and p.connected_to_stage_no == i] for i in range(n)}
    tr = _bare(C, stages=[Stage(i) for i in range(n)], ports=ports, inlet_port_connected_to_stage=into, outlet_port_connected_to_stage=out, _fluid_model=fluids, _fluid_service=Service(), shaft=shaft, maximum_power=limit, stage_number_interstage_pressure=None)
    s.patch(C, "check_target_pressures", lambda self, constraints, results: ("status of", [r.discharge_pressure for r in results]))
    r = s.run(tr.calculate_compressor_train, T(EV)(suction_pressure=ps, discharge_pressure=None, rates=rates))
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    s.ensure("every stage once, in order", [x[0] for x in seen] == list(range(n)))
    first = seen[0][1]
    s.ensure("the first stage gets the gas of the train", first.fluid_model == "fluid 0" and first.temperature_kelvin == 290.0 and s.and_(s.eq(first.pressure_bara, ps), s.eq(first.rate, rates[0])))
    s.ensure("a stage gets what the one before gives", all(seen[i][1] is outs[i - 1] for i in range(1, n)))
    for i, gas, leaving, entering in seen:
        s.ensure("as many streams leave a stage as are connected to it", len(leaving) == len(out[i]))
        for j, q in zip(out[i], leaving):
            s.ensure("at their own rates", s.eq(q, rates[j]))
        mine = [j for j in into[i] if j > 0]
        s.ensure("as many streams enter a stage as are connected to it", len(entering) == len(mine))
        for j, g in zip(mine, entering):
            s.ensure("each the gas and rate of its own", g.fluid_model == fluids[j] and s.eq(g.rate, rates[j]))
            s.ensure("at the pressure and temperature of the stage", s.and_(s.eq(g.pressure_bara, gas.pressure_bara), s.eq(g.temperature_kelvin, gas.temperature_kelvin)))
    s.ensure("what the train takes and gives", r.inlet_stream is first and r.outlet_stream is outs[-1])
    s.ensure("the speed of the shaft", r.speed == 77.0)
    s.ensure("the power of all stages", s.eq(r.power_megawatt, sum(power)))
    s.ensure("too much power", s.iff(r.above_maximum_power, sum(power) > limit) if limit is not None else not r.above_maximum_power)
    s.ensure("the pressures of all stages are judged", r.target_pressure_status[0] == "status of" and len(r.target_pressure_status[1]) == n)


@contract("C22", CS + ".evaluate_given_constraints", CS + "._validate_nonnegative_stage_rates", CS + "._validate_positive_ingoing_rates", CS + ".evaluate_with_pressure_control_given_constraints", BA + ".reset_rate_modifiers")
def what_is_evaluated(s):
    """no gas, no power; more gas out than in is refused; otherwise the train runs at the speed found and its pressure is controlled only if it gives more than asked for"""
    C, S, P = T(CS), T(TS), T(PC)
    kinds = s.choice("ports", [[], [(0, True)], [(1, False)], [(0, False), (1, True)], [(1, False), (0, False)], [(1, True), (1, False)]])
    Port = T(TR + "types:StreamPort")
    ports = [Port(is_inlet_port=True, connected_to_stage_no=0)] + [Port(is_inlet_port=i, connected_to_stage_no=k) for k, i in kinds]
    rates = [s.real(f"rate {i}", lo=0, hi=None if s.symbolic else 10) * (1 if s.symbolic else s.rng.choice([0, 1, 1])) for i in range(len(ports))]
    control = s.choice("control", [None, P.DOWNSTREAM_CHOKE, P.UPSTREAM_CHOKE, P.INDIVIDUAL_ASV_RATE, P.INDIVIDUAL_ASV_PRESSURE, P.COMMON_ASV])
    status = s.choice("status", [S.TARGET_PRESSURES_MET, S.ABOVE_TARGET_DISCHARGE_PRESSURE, S.BELOW_TARGET_DISCHARGE_PRESSURE])
    between = s.choice("between", [True, False])
    log, reset = [], []
    shaft = T(SH + "VariableSpeedShaft")()
    stages = [_Fake(rate_modifier=_Fake(reset=lambda i=i: reset.append(i))) for i in range(2)]
    tr = _bare(C, stages=stages, ports=ports, shaft=shaft, stage_number_interstage_pressure=1, _pressure_control=control)
    for name in ("pressure_control_first_part", "pressure_control_last_part"):
        s.patch(C, name, property(lambda self, name=name: name))
    ran = _Fake(target_pressure_status=status)

    def speed(self, constraints):
        log.append("speed")
        self.shaft.set_speed(5.0)
        return 5.0
    s.patch(C, "find_fixed_shaft_speed_given_constraints", speed)
    s.patch(C, "calculate_compressor_train", lambda self, constraints: (log.append(("ran", self.shaft.get_speed())), ran)[1])
    for name, c in (("downstream_choking", P.DOWNSTREAM_CHOKE), ("upstream_choking", P.UPSTREAM_CHOKE), ("individual_asv_rate", P.INDIVIDUAL_ASV_RATE), ("individual_asv_pressure", P.INDIVIDUAL_ASV_PRESSURE), ("common_asv", P.COMMON_ASV)):
        s.patch(C, "_evaluate_train_with_" + name, lambda self, constraints, c=c: (c, constraints))
    s.patch(C, "find_and_calculate_for_compressor_train_with_two_pressure_requirements", lambda self, **k: ("two", k))
    E = T(EV)(suction_pressure=10.0, discharge_pressure=20.0, interstage_pressure=15.0 if between else None, rates=rates)
    r = s.run(tr.evaluate_given_constraints, E)
    net = lambda k: sum([rates[i] if p.is_inlet_port else -rates[i] for i, p in enumerate(ports) if p.connected_to_stage_no <= k])
    if s.or_(net(0) < 0, net(1) < 0):
        s.ensure("more out than in is refused", r.raised(ValueError), repr(r.exc))
        return
    s.ensure("does not fail", r.ok, repr(r.exc))
    s.ensure("nothing left from before", set(reset) == {0, 1})
    r = r.value
    if s.and_(*[rates[i] <= 0 for i, p in enumerate(ports) if p.is_inlet_port]):
        s.cover("no gas")
        s.ensure("no gas, no power", r.is_valid and r.power_megawatt == 0 and not log and len(r.stage_results) == 2)
    elif between:
        s.ensure("both pressures are met", isinstance(r, tuple) and r[0] == "two" and r[1]["constraints"] is E and r[1]["stage_number_for_intermediate_pressure_target"] == 1 and r[1]["pressure_control_first_part"] == "pressure_control_first_part" and r[1]["pressure_control_last_part"] == "pressure_control_last_part")
    else:
        s.ensure("runs at the speed found", log == ["speed", ("ran", 5.0)])
        if status is S.ABOVE_TARGET_DISCHARGE_PRESSURE and control is not None:
            s.ensure("the control that was asked for", isinstance(r, tuple) and r[0] is control and r[1] is E)
        else:
            s.ensure("what the train gives", r is ran)


def _matrix(s, rows):
    if s.symbolic:
        from vc.seq import SArr2
        return SArr2(rows)
    import numpy as np
    return np.array(rows)


@contract("C22", BA + ".evaluate", BA + ".set_evaluation_input", BA + "._in_port_order", BA + ".reset_rate_modifiers")
def every_period(s):
    """each period of a train is evaluated with its own rates and pressures; the power is adjusted when there is some"""
    B, C = T(BA), T(CS)
    n = s.length("periods", lo=1)
    several = s.choice("streams", [None, [0, 1], [1, 0]])
    ps, pd = s.array("suction", n, lo=1, hi=100), s.array("discharge", n, lo=1, hi=100)
    between = s.array("between", n, lo=1, hi=100) if s.choice("has between", [True, False]) else None
    rates = [s.array("rate", n, lo=0, hi=100), s.array("other rate", n, lo=0, hi=100)][:2 if several else 1]
    factor, constant = s.real("factor", lo=0, hi=None if s.symbolic else 3), s.real("constant", lo=-5, hi=5)
    power = s.func("power", 3) if s.symbolic else lambda a, b, c: max(0.0, a + b + 2 * c - 150)
    since = [0]
    stage = _Fake(rate_modifier=_Fake(reset=lambda: None if s.symbolic else since.__setitem__(0, 0)), interstage_pressure_control=True if between is not None else None, compressor=_Fake(compressor_chart=None))
    tr = _bare(C, stages=[stage], _stream_number_per_port=several, energy_usage_adjustment_factor=factor, energy_usage_adjustment_constant=constant, calculate_max_rate=False)

    def one(self, constraints):
        left = None
        if not s.symbolic:
            left = since[0]
            since[0] += 1
        return _Fake(power_megawatt=power(constraints.suction_pressure, constraints.discharge_pressure, constraints.rates[0]), failure_status=constraints, left=left)
    s.patch(C, "evaluate_given_constraints", one)
    s.patch(T(RS + "CompressorTrainResultSingleTimeStep"), "from_result_list_to_dto", staticmethod(lambda result_list, compressor_charts: ("in", "out", result_list)))
    s.patch(_module(BA), "CompressorTrainResult", lambda **k: _Fake(**k))
    given = rates[0] if several is None else _matrix(s, rates)

    def go():
        tr.set_evaluation_input(rate=given, fluid_model=["a", "b"] if several else "a", suction_pressure=ps, discharge_pressure=pd, intermediate_pressure=between)
        return tr.evaluate()
    r = s.run(go)
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    order = several or [0]
    s.ensure("the fluids in the order of the streams", tr._fluid_model == [["a", "b"][i] for i in order])
    s.ensure("every period once", s.and_(s.eq(s.len(r.power), n), s.eq(s.len(r.stage_results), n), s.eq(s.len(r.failure_status), n)))
    for t in s.indices(n):
        c = r.failure_status[t]
        if not s.symbolic:
            s.ensure("nothing left from the period before", r.stage_results[t].left == 0)
        s.ensure("the pressures of the period", s.and_(s.eq(c.suction_pressure, ps[t]), s.eq(c.discharge_pressure, pd[t])))
        s.ensure("and between", c.interstage_pressure is None if between is None else s.eq(c.interstage_pressure, between[t]))
        s.ensure("as many rates as streams", len(c.rates) == len(order))
        for k, i in enumerate(order):
            s.ensure("the rates of the period", s.eq(c.rates[k], rates[i][t]))
        p = power(ps[t], pd[t], rates[order[0]][t])
        want = s.ite(p > 0, p * factor + constant, p)
        s.ensure("the power of the period, adjusted", s.and_(s.eq(r.power[t], want), s.eq(r.energy_usage[t], want)))
        d = r.stage_results[t].failure_status
        s.ensure("the result of the period", s.and_(s.eq(d.suction_pressure, ps[t]), s.eq(d.discharge_pressure, pd[t]), s.eq(d.rates[0], rates[order[0]][t])))
