"""C14 the results add up from components to installations to the asset"""
from uuid import UUID

from contracts.common import RA, T, TU, periods, rate_series, units
from contracts.resample import _days, _frac, _overlap
from vc.harness import contract

MP = "libecalc.presentation.json_result.mapper:"
IM = MP + "InstallationMapper"
RS = "libecalc.presentation.json_result.result.results:"
EC = "libecalc.domain.infrastructure.energy_components."
INST = EC + "installation.installation:InstallationComponent"
YM = "libecalc.presentation.yaml.model:YamlModel"
BLD = "libecalc.presentation.yaml.domain.energy_container_energy_model_builder:EnergyContainerEnergyModelBuilder"


def _id(k):
    return UUID(int=k)


class TS:
    """stands for Regularity and HydrocarbonExport: holds a time series"""

    def __init__(self, ts):
        self.time_series = ts


class Evaluator:
    def __init__(self, pers):
        self.periods = pers

    def get_periods(self):
        return self.periods


class Valid:
    """stands for a component's core result: its validity"""

    def __init__(self, ts):
        self.is_valid, self.temporal_results, self.periods = ts, [], ts.periods


def _parts():
    """stand-ins for the energy components (their rates: contracts of C08, C09, C10): any rates"""
    FCC, ELC, GSC = T(EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent"), T(EC + "electricity_consumer.electricity_consumer:ElectricityConsumer"), T(EC + "generator_set.generator_set_component:GeneratorSetEnergyComponent")
    CT = T("libecalc.common.component_type:ComponentType")

    class Fuel(FCC):
        def __init__(self, k, name, fuel, power, emissions):
            self._uuid, self._name, self.component_type = _id(k), name, CT.GENERIC
            self.f, self.p, self.e = fuel, power, emissions

        def get_fuel_consumption(self):
            return T("libecalc.domain.installation:FuelConsumption")(rate=self.f, fuel=None)

        def get_power_consumption(self):
            return self.p

        def get_emissions(self):
            return self.e

    class Electric(ELC):
        def __init__(self, k, name, power):
            self._uuid, self._name, self.component_type, self.p = _id(k), name, CT.GENERIC, power

        def get_power_consumption(self):
            return self.p

    class Genset(GSC):
        def __init__(self, k, name, fuel, emissions, consumers, required, margin):
            self._uuid, self._name, self.component_type = _id(k), name, CT.GENERATOR_SET
            self.f, self.e, self.consumers, self.r, self.m = fuel, emissions, consumers, required, margin

        def get_fuel_consumption(self):
            return T("libecalc.domain.installation:FuelConsumption")(rate=self.f, fuel=None)

        def get_emissions(self):
            return self.e

        def get_power_requirement(self):
            return self.r

        def get_power_capacity_margin(self):
            return self.m

    class Vent:
        def __init__(self, k, name, emissions):
            self.k, self.name, self.e = k, name, emissions

        def get_id(self):
            return _id(self.k)

        def get_name(self):
            return self.name

        def get_component_process_type(self):
            return CT.VENTING_EMITTER

        def get_emissions(self):
            return self.e

    return Fuel, Electric, Genset, Vent


class Mapping:
    def __init__(self, regs):
        self.regs = regs

    def get_regularity(self, k):
        return self.regs[k]


class Named:
    def __init__(self, name):
        self.name = name


class Input:
    def __init__(self, installations):
        self.installations = installations


def _model(name, pers, insts, tree, nodes, valid, regs):
    class M(T(YM)):
        variables = property(lambda self: self._variables)

        def __init__(self):
            b = T(BLD)()
            for k, node in nodes.items():
                b.register_energy_container(k, tree.get(k), node)
            self.__dict__["_energy_model"] = b.build()
            self._input, self._consumer_results, self._variables = Input(insts), valid, Evaluator(pers)
            self._mapping_context, self._configuration = Mapping(regs), Named(name)

    return M()


def _rate(s, name, pers, n, reg, unit, kind, lo=0):
    v = s.array(name, n, lo=lo, kind="list")
    return T(RA + ":TimeSeriesRate")(periods=pers, values=v, unit=unit, rate_type=kind, regularity=reg), v


def _add(a, b):
    return b if a is None else a + b


def _build(s, n, pers, two, mech, elec):
    """an asset with one or two installations; returns (model, installations' expected rates as functions of k, parts)"""
    RT, U = T(RA + ":RateType"), units()
    TSF, TSB = T(RA + ":TimeSeriesFloat"), T(RA + ":TimeSeriesBoolean")
    Fuel, Electric, Genset, Vent = _parts()
    I, A = T(INST), T(EC + "asset.asset:Asset")
    insts, nodes, tree, valid, regs, want = [], {}, {}, {}, {}, []
    nodes[_id(1)] = None
    for j in range(2 if two else 1):
        g = s.array(f"reg{j}", n, lo=0, hi=1, kind="list")
        sd = lambda name, unit: _rate(s, f"{name}{j}", pers, n, g, unit, RT.STREAM_DAY)
        reg = TS(TSF(periods=pers, values=g, unit=U.NONE))
        hc, hv = _rate(s, f"hc{j}", pers, n, g, U.STANDARD_CUBIC_METER_PER_DAY, RT.CALENDAR_DAY)
        f1, f1v = sd("fuel", U.STANDARD_CUBIC_METER_PER_DAY)
        e1, e1v = sd("co2", U.TONS_PER_DAY)
        p1 = p1v = None
        if mech:
            p1, p1v = sd("shaft", U.MEGA_WATT)
        parts = [Fuel(10 * j + 11, f"fuel{j}", f1, p1, {"co2": e1})]
        w = dict(j=j, g=g, hc=hv, fuel=[f1v], mech=[p1v] if mech else [], elec=[], em={"co2": [e1v]}, own={})
        w["own"][f"fuel{j}"] = (f1v, p1v, {"co2": e1v}, "fuel")
        if elec == "all" or (elec == "second" and j == 1):
            f2, f2v = sd("gfuel", U.STANDARD_CUBIC_METER_PER_DAY)
            e2, e2v = sd("gco2", U.TONS_PER_DAY)
            x2, x2v = sd("gnox", U.TONS_PER_DAY)
            q1, q1v = sd("load", U.MEGA_WATT)
            q2, q2v = sd("pump", U.MEGA_WATT)
            m2, m2v = _rate(s, f"margin{j}", pers, n, g, U.MEGA_WATT, RT.STREAM_DAY, lo=None)
            c1, c2 = Electric(10 * j + 13, f"load{j}", q1), Electric(10 * j + 14, f"pump{j}", q2)
            gs = Genset(10 * j + 12, f"gen{j}", f2, {"co2": e2, "nox": x2}, [c1, c2], q1 + q2, m2)
            parts.append(gs)
            w["fuel"].append(f2v)
            w["em"]["co2"].append(e2v)
            w["em"]["nox"] = [x2v]
            w["elec"] += [q1v, q2v]
            w["own"][f"gen{j}"] = (f2v, None, {"co2": e2v, "nox": x2v}, "fuel")
            w["own"][f"load{j}"] = (None, q1v, {}, "power")
            w["own"][f"pump{j}"] = (None, q2v, {}, "power")
            w["margin"] = m2v
        v1, v1v = sd("vent", U.TONS_PER_DAY)
        vent = Vent(10 * j + 15, f"vent{j}", {"ch4": v1})
        w["em"]["ch4"] = [v1v]
        w["own"][f"vent{j}"] = (None, None, {"ch4": v1v}, "vent")
        inst = I(id=_id(10 * j + 10), name=f"inst{j}", regularity=reg, hydrocarbon_export=TS(hc), fuel_consumers=parts, expression_evaluator=Evaluator(pers), venting_emitters=[vent])
        insts.append(inst)
        nodes[_id(10 * j + 10)] = inst
        tree[_id(10 * j + 10)] = _id(1)
        w["valid"] = {}
        for p in parts:
            nodes[p.get_id()] = p
            tree[p.get_id()] = _id(10 * j + 10)
            for c in getattr(p, "consumers", []):
                nodes[c.get_id()] = c
                tree[c.get_id()] = p.get_id()
        nodes[vent.get_id()] = vent
        tree[vent.get_id()] = _id(10 * j + 10)
        for k in list(nodes):
            if tree.get(k) is not None and k not in regs:
                regs[k] = reg
                if nodes[k] is not vent and nodes[k] is not inst:
                    b = s.bools(f"ok{k.int}", n)
                    valid[k] = Valid(TSB(periods=pers, values=b, unit=U.NONE))
                    w["valid"][nodes[k].get_name()] = b
        want.append(w)
    nodes[_id(1)] = A(id=_id(1), name="asset", installations=insts)
    return _model("asset", pers, insts, tree, nodes, valid, regs), want


def _cum(s, name, series, v, k):
    """series accumulates the volumes; v is that of period k"""
    c = series.values
    s.ensure(name + " accumulated", s.eq(c[k], v) if k == 0 else s.eq(c[k], c[k - 1] + v))


def _total(lists, k):
    t = 0
    for x in lists:
        t = t + x[k]
    return t


def _check_component(s, name, comp, want, n, d, k, parent, RT, U):
    g = want["g"]
    fuel, power, em, kind = want["own"][name]
    days = (d[k + 1] - d[k]).total_seconds() / 86400
    s.ensure("parent of a component", comp.parent == parent)
    if kind == "fuel":
        s.ensure("energy usage of a fuel consumer is its fuel per calendar day", s.eq(comp.energy_usage.values[k], fuel[k] * g[k]))
        _cum(s, "fuel of a component", comp.energy_usage_cumulative, fuel[k] * g[k] * days, k)
        s.ensure("fuel is reported per calendar day", comp.energy_usage.rate_type == RT.CALENDAR_DAY and comp.energy_usage.unit == U.STANDARD_CUBIC_METER_PER_DAY)
    elif kind == "power":
        s.ensure("energy usage of an electricity consumer is its power", s.eq(comp.energy_usage.values[k], power[k]))
        s.ensure("power is reported per stream day in MW", comp.energy_usage.rate_type == RT.STREAM_DAY and comp.energy_usage.unit == U.MEGA_WATT)
    else:
        s.ensure("venting uses no energy", s.eq(comp.energy_usage.values[k], 0.0))
    if power is not None:
        s.ensure("power of a component", comp.power is not None and s.eq(comp.power.values[k], power[k]))
        _cum(s, "energy of a component", comp.power_cumulative, power[k] * g[k] * days * 24 / 1000, k)
        s.ensure("energy is reported in GWh", comp.power_cumulative.unit == U.GIGA_WATT_HOURS)
    s.ensure("emissions of a component", sorted(comp.emissions) == sorted(em))
    for e, v in em.items():
        s.ensure("emission rate of a component", comp.emissions[e].rate.rate_type == RT.CALENDAR_DAY and s.eq(comp.emissions[e].rate.values[k], v[k] * g[k]))
        _cum(s, "emission of a component", comp.emissions[e].cumulative, v[k] * g[k] * days, k)
        s.ensure("emission name", comp.emissions[e].name == e)
    if name in want["valid"]:
        s.ensure("validity of a component", s.iff(comp.is_valid.values[k], want["valid"][name][k]))


FN = [IM + "." + m for m in ("map_installation", "map_container", "map_generic_component", "map_generator_set", "map_venting_emitter", "aggregate_emissions", "aggregate_power_consumption", "aggregate_fuel_consumption", "get_emissions", "get_fuel_consumption_rate", "get_power_consumption_rate", "get_parent")]
FN += [MP + "get_asset_result", MP + "EmissionHelper.to_full_result", MP + "TimeSeriesHelper.convert_to_cumulative", INST + ".get_electrical_power_consumers", INST + ".get_mechanical_power_consumers", INST + ".get_emitters", INST + ".get_fuel_consumers", YM + ".get_emitter", YM + ".get_fuel_consumer", YM + ".get_power_consumer", YM + ".get_electricity_producer", YM + ".get_validity", YM + ".get_container_info"]
SHAPES = [(False, True, "all"), (True, False, "second"), (False, False, "none"), (True, True, "all"), (True, True, "none")]


def _by_contract(s, n):
    """replaces TimeSeriesRate.__add__ by its contract (C03 rate_addition)"""
    count = []

    def add(self, other):
        RT = T(RA + ":RateType")
        if self.unit != other.unit or self.rate_type != other.rate_type:
            raise ValueError("mismatch")
        g = self.regularity
        if other.regularity is not g:
            count.append(1)
            g = s.array(f"sum_regularity{len(count)}", n, lo=0, hi=1, kind="list")
            if self.rate_type == RT.STREAM_DAY:
                a, b, x, y = self.values, other.values, self.regularity, other.regularity
                s.assume_all(n, lambda k: s.eq(g[k] * (a[k] + b[k]), a[k] * x[k] + b[k] * y[k]))
        return T(RA + ":TimeSeriesRate")(periods=self.periods, values=[p + q for p, q in zip(self.values, other.values)], unit=self.unit, rate_type=self.rate_type, regularity=g)

    s.patch(RA + ":TimeSeriesRate", "__add__", add)


def _asset(s, shape):
    RT, U = T(RA + ":RateType"), units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    two, mech, elec = shape if s.symbolic else s.choice("shape", SHAPES)
    model, want = _build(s, n, pers, two, mech, elec)
    if s.symbolic and two:
        _by_contract(s, n)
    r = s.run(T(MP + "get_asset_result"), model)
    s.ensure("does not fail", r.ok)
    res = r.value
    names = [c.name for c in res.sub_components]
    expected = [x for w in want for x in [f"inst{w['j']}", *w["own"]]]
    s.ensure("every component is reported once", sorted(names) == sorted(expected))
    s.ensure("the asset is on top", res.component_result.name == "asset")
    by = {c.name: c for c in res.sub_components}
    tops = [(res.component_result, want)] + [(by[f"inst{w['j']}"], [w]) for w in want]
    for k in s.indices(n):
        days = (d[k + 1] - d[k]).total_seconds() / 86400
        for top, ws in tops:
            label = "asset" if top is res.component_result else "installation"
            fuel = 0
            for w in ws:
                fuel = fuel + _total(w["fuel"], k) * w["g"][k]
            s.ensure(f"fuel of the {label}", s.eq(top.energy_usage.values[k], fuel))
            _cum(s, f"fuel of the {label}", top.energy_usage_cumulative, fuel * days, k)
            s.ensure(f"fuel type of the {label}", top.energy_usage.rate_type == RT.CALENDAR_DAY and top.energy_usage.unit == U.STANDARD_CUBIC_METER_PER_DAY)
            for what, series in (("elec", top.power_electrical), ("mech", top.power_mechanical)):
                some = any(w[what] for w in ws)
                s.ensure(f"{what} power reported for the {label} exactly if there is any", (series is not None) == some)
                if some:
                    tot = 0
                    for w in ws:
                        tot = tot + _total(w[what], k)
                    s.ensure(f"{what} power of the {label}", s.eq(series.values[k], tot))
                    vol = 0
                    for w in ws:
                        vol = vol + _total(w[what], k) * w["g"][k]
                    _cum(s, f"{what} energy of the {label}", top.power_electrical_cumulative if what == "elec" else top.power_mechanical_cumulative, vol * days * 24 / 1000, k)
                    s.ensure(f"{what} power of the {label} is in MW", series.unit == U.MEGA_WATT)
            some = any(w["elec"] or w["mech"] for w in ws)
            s.ensure(f"power reported for the {label} exactly if there is any", (top.power is not None) == some)
            if some:
                tot = 0
                for w in ws:
                    tot = tot + _total(w["elec"], k) + _total(w["mech"], k)
                s.ensure(f"power of the {label}", s.eq(top.power.values[k], tot))
                vol = 0
                for w in ws:
                    vol = vol + (_total(w["elec"], k) + _total(w["mech"], k)) * w["g"][k]
                _cum(s, f"energy of the {label}", top.power_cumulative, vol * days * 24 / 1000, k)
                s.ensure(f"energy of the {label} is in GWh", top.power_cumulative.unit == U.GIGA_WATT_HOURS)
            kinds = sorted({e for w in ws for e in w["em"]})
            s.ensure(f"emissions of the {label}", sorted(top.emissions) == kinds)
            for e in kinds:
                tot = 0
                for w in ws:
                    if e in w["em"]:
                        tot = tot + _total(w["em"][e], k) * w["g"][k]
                s.ensure(f"emission of the {label}", s.eq(top.emissions[e].rate.values[k], tot))
                _cum(s, f"emission of the {label}", top.emissions[e].cumulative, tot * days, k)
                s.ensure(f"emission type of the {label}", top.emissions[e].rate.rate_type == RT.CALENDAR_DAY and top.emissions[e].rate.unit == U.TONS_PER_DAY)
            hc = 0
            for w in ws:
                hc = hc + w["hc"][k]
            s.ensure(f"export of the {label}", s.eq(top.hydrocarbon_export_rate.values[k], hc))
        for w in want:
            for name in w["own"]:
                parent = f"gen{w['j']}" if name[:-1] in ("load", "pump") else f"inst{w['j']}"
                _check_component(s, name, by[name], w, n, d, k, parent, RT, U)
            if f"gen{w['j']}" in by:
                gen = by[f"gen{w['j']}"]
                s.ensure("power of a generator set", s.eq(gen.power.values[k], _total(w["elec"], k)))
                s.ensure("margin of a generator set", s.eq(gen.power_capacity_margin.values[k], w["margin"][k]))


BND = "assets of one or two installations with a fuel consumer, a generator set with two electricity consumers (or none) and a vent; any rates, regularities and number of periods"


@contract("C14", *FN, bounded=BND, weight=5, budget=150, cases=100)
def totals_of_an_installation(s):
    """fuel, power, emissions and export of an installation and its asset are the sums over the components, each reported once with its own rates"""
    _asset(s, (False, True, "all"))


@contract("C14", *FN, bounded=BND, weight=5, budget=200, cases=100)
def totals_of_two_installations(s):
    """the same for two installations with different regularities, one of which has no generator set"""
    _asset(s, (True, False, "second"))


@contract("C14", *FN, bounded=BND, weight=3, budget=100, cases=100)
def totals_without_power(s):
    """the same without any power"""
    _asset(s, (False, False, "none"))


CR = "libecalc.domain.process.core.results."
LCS = EC + "legacy_consumer.system."
MH, CH = MP + "ModelResultHelper", MP + "CompressorHelper"
COND = dict(actual_rate_m3_per_hr="ACTUAL_VOLUMETRIC_M3_PER_HOUR", actual_rate_before_asv_m3_per_hr="ACTUAL_VOLUMETRIC_M3_PER_HOUR", standard_rate_sm3_per_day="STANDARD_CUBIC_METER_PER_DAY", standard_rate_before_asv_sm3_per_day="STANDARD_CUBIC_METER_PER_DAY", kappa="NONE", density_kg_per_m3="KG_M3", pressure="BARA", temperature_kelvin="KELVIN", z="NONE")
STAGE = dict(asv_recirculation_loss_mw="MEGA_WATT", polytropic_efficiency="FRACTION", polytropic_enthalpy_change_before_choke_kJ_per_kg="POLYTROPIC_HEAD_KILO_JOULE_PER_KG", polytropic_enthalpy_change_kJ_per_kg="POLYTROPIC_HEAD_KILO_JOULE_PER_KG", polytropic_head_kJ_per_kg="POLYTROPIC_HEAD_KILO_JOULE_PER_KG", energy_usage="MEGA_WATT", mass_rate_kg_per_hr="KILO_PER_HOUR", mass_rate_before_asv_kg_per_hr="KILO_PER_HOUR", power="MEGA_WATT", speed="SPEED_RPM")
FLAGS = ["head_exceeds_maximum", "is_valid", "pressure_is_choked", "rate_exceeds_maximum", "rate_has_recirculation"]


class Expected:
    """what one model result must hold: series {path: (values, unit)} and flags {path: values}"""

    def __init__(self, name, parent, periods):
        self.name, self.parent, self.periods, self.series, self.flags = name, parent, periods, {}, {}


def _arr(s, x, label, n, unit, path):
    v = s.array(label, n, kind="list")
    x.series[path] = (v, unit)
    return v


def _condition(s, x, label, n, path):
    return T(CR + "compressor:CompressorStreamCondition")(**{f: _arr(s, x, f"{label}.{f}", n, u, path + (f,)) for f, u in COND.items()})


def _train(s, x, label, n, turbine, pers):
    """a CompressorTrainResult with arbitrary contents (one stage)"""
    U = units()
    Status = T(CR + "compressor:CompressorTrainCommonShaftFailureStatus")
    ok = s.bools(label + ".ok", n)
    status = [Status.NO_FAILURE if s.choice(f"{label}.status{k}", [True] if s.symbolic else [True, False]) else Status.ABOVE_MAXIMUM_POWER for k in range(n)]
    flags = {f: ok if f == "is_valid" else s.bools(f"{label}.{f}", n) for f in FLAGS}
    st = {f: _arr(s, x, f"{label}.st.{f}", n, u, ("stage_results", 0, f)) for f, u in STAGE.items()}
    for f, v in flags.items():
        x.flags[("stage_results", 0, f)] = v
    stage = T(CR + "compressor:CompressorStageResult")(energy_usage_unit=U.MEGA_WATT, power_unit=U.MEGA_WATT, fluid_composition={}, chart_area_flags=["F"] * n, chart=None, inlet_stream_condition=_condition(s, x, label + ".si", n, ("stage_results", 0, "inlet_stream_condition")), outlet_stream_condition=_condition(s, x, label + ".so", n, ("stage_results", 0, "outlet_stream_condition")), **st, **flags)
    tr = None
    tok = [True] * n
    if turbine:
        over = s.bools(label + ".over", n)
        tok = [s.not_(b) for b in over]
        load, eff, fuel = (_arr(s, x, f"{label}.t.{q}", n, u, ("turbine_result", q)) for q, u in (("load", "MEGA_WATT"), ("efficiency", "FRACTION"), ("fuel_rate", "STANDARD_CUBIC_METER_PER_DAY")))
        x.flags[("turbine_result", "exceeds_maximum_load")] = over
        x.flags[("turbine_result", "is_valid")] = tok
        tr = T(CR + "turbine:TurbineResult")(load=load, efficiency=eff, load_unit=U.MEGA_WATT, exceeds_maximum_load=over, energy_usage=fuel, energy_usage_unit=U.STANDARD_CUBIC_METER_PER_DAY)
        e, p, unit = fuel, load, "STANDARD_CUBIC_METER_PER_DAY"
        x.series[("energy_usage",)], x.series[("power",)] = (e, unit), (p, "MEGA_WATT")
    else:
        unit = "MEGA_WATT"
        e, p = _arr(s, x, label + ".e", n, unit, ("energy_usage",)), _arr(s, x, label + ".p", n, unit, ("power",))
    x.flags[("is_valid",)] = [s.and_(a, b, c is Status.NO_FAILURE) for a, b, c in zip(ok, tok, status)]
    x.status = status
    top = _arr(s, x, label + ".max", n, "STANDARD_CUBIC_METER_PER_DAY", ("maximum_rate",))
    rate = _arr(s, x, label + ".rate", n, "STANDARD_CUBIC_METER_PER_DAY", ("rate",))
    return T(CR + "compressor:CompressorTrainResult")(rate_sm3_day=rate, max_standard_rate=top, inlet_stream_condition=_condition(s, x, label + ".i", n, ("inlet_stream_condition",)), outlet_stream_condition=_condition(s, x, label + ".o", n, ("outlet_stream_condition",)), stage_results=[stage], failure_status=status, turbine_result=tr, energy_usage=e, energy_usage_unit=getattr(U, unit), power=p, power_unit=U.MEGA_WATT)


def _pump(s, x, label, n):
    U, Status = units(), T(CR + "pump:PumpFailureStatus")
    status = [Status.NO_FAILURE if s.choice(f"{label}.status{k}", [True] if s.symbolic else [True, False]) else Status.ABOVE_MAXIMUM_PUMP_RATE for k in range(n)]
    x.flags[("is_valid",)] = [q is Status.NO_FAILURE for q in status]
    names = dict(rate=("inlet_liquid_rate_m3_per_day", "STANDARD_CUBIC_METER_PER_DAY"), suction_pressure=("inlet_pressure_bar", "BARA"), discharge_pressure=("outlet_pressure_bar", "BARA"), operational_head=("operational_head", "POLYTROPIC_HEAD_JOULE_PER_KG"), energy_usage=("energy_usage", "MEGA_WATT"), power=("power", "MEGA_WATT"))
    return T(CR + "pump:PumpModelResult")(fluid_density=s.array(label + ".density", n, kind="list"), failure_status=status, energy_usage_unit=U.MEGA_WATT, power_unit=U.MEGA_WATT, **{a: _arr(s, x, f"{label}.{a}", n, u, (f,)) for a, (f, u) in names.items()})


class Pressures:
    def __init__(self, pers, values):
        self.pers, self.values = pers, values

    def get_periods(self):
        return self.pers

    def get_values(self):
        return self.values


class Setting:
    def __init__(self, suction, discharge):
        self.suction_pressures, self.discharge_pressures = suction, discharge


def _get(obj, path):
    for p in path:
        obj = obj[p] if isinstance(p, int) else getattr(obj, p)
    return obj


def _dated_models(s, kind, d, ps, n):
    """core result of a component with one or two dated models; returns (component energy usage model, core result, expected models)"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    CFR = T(EC + "legacy_consumer.consumer_function.results:ConsumerFunctionResult")
    Sampled = T("libecalc.domain.process.compressor.core.sampled:CompressorModelSampled")
    System = T(LCS + "consumer_function:ConsumerSystemConsumerFunction")
    cut = s.choice("cut", [None] + list(range(1, n)))
    spans = [(0, n)] if cut is None else [(0, cut), (cut, n)]
    turbine = kind == "compressor" and s.choice("turbine", [True, False])
    want, results, models = [], [], {}
    for i, (lo, hi) in enumerate(spans):
        m, sub = hi - lo, Periods(list(ps[lo:hi]))
        span = Period(d[lo], d[hi])
        names = ["a", "b"] if "system" in kind else ["c"]
        parts = []
        for name in names:
            x = Expected(name, "c", (lo, hi))
            label = f"{name}{i}"
            if "pump" in kind:
                parts.append(_pump(s, x, label, m))
            elif "compressor" in kind:
                parts.append(_train(s, x, label, m, turbine, sub))
            else:
                U = units()
                e, p = _arr(s, x, label + ".e", m, "MEGA_WATT", ("energy_usage",)), _arr(s, x, label + ".p", m, "MEGA_WATT", ("power",))
                x.flags[("is_valid",)] = [True] * m
                parts.append(T(CR + "generic:EnergyFunctionGenericResult")(energy_usage=e, energy_usage_unit=U.MEGA_WATT, power=p, power_unit=U.MEGA_WATT, allow_negative_energy_usage=True))
            want.append(x)
        if "system" in kind:
            used = [s.choice(f"used{i}.{k}", [0, 1]) for k in range(m)]
            sets = []
            for q in range(2):
                sets.append(Setting([Pressures(sub, s.array(f"suction{i}.{q}.{z}", m, kind="list")) for z in range(2)], [Pressures(sub, s.array(f"discharge{i}.{q}.{z}", m, kind="list")) for z in range(2)]))
            if "compressor" in kind:
                for z, x in enumerate(want[-2:]):
                    x.series[("requested_inlet_pressure",)] = ([sets[used[k]].suction_pressures[z].values[k] for k in range(m)], "BARA")
                    x.series[("requested_outlet_pressure",)] = ([sets[used[k]].discharge_pressures[z].values[k] for k in range(m)], "BARA")
            f = type("SystemPart", (System,), {"__init__": lambda self, c, o: self.__dict__.update(consumers=c, o=o), "operational_settings": property(lambda self: self.o)})([Named(q) for q in names], sets)
            import numpy as np

            results.append(T(LCS + "results:ConsumerSystemConsumerFunctionResult")(operational_setting_used=np.asarray(used), consumer_results=[T(LCS + "results:SystemComponentResultWithName")(name=q, result=p) for q, p in zip(names, parts)], cross_over_used=None, periods=sub, power_loss_factor=None))
        else:
            f = None
            if kind == "compressor":
                x = want[-1]
                pi, po = _arr(s, x, f"in{i}", m, "BARA", ("requested_inlet_pressure",)), _arr(s, x, f"out{i}", m, "BARA", ("requested_outlet_pressure",))
                f = type("TrainPart", (Sampled,), {"__init__": lambda self, a, b: self.__dict__.update(a=a, b=b), "get_requested_inlet_pressure": lambda self: self.a, "get_requested_outlet_pressure": lambda self: self.b})(pi, po)
            results.append(CFR(periods=sub, power_loss_factor=None, energy_function_result=parts[0]))
        models[span] = f
    core = {"pump": "PumpResult", "compressor": "CompressorResult", "generic": "GenericComponentResult"}.get(kind, "ConsumerSystemResult")
    res = T("libecalc.core.result.results:" + core)(periods=Periods(list(ps)), id="c", results=results)
    return T("libecalc.common.temporal_model:TemporalModel")(models), res, want


def _component(s, kind):
    CT, RT, U = T("libecalc.common.component_type:ComponentType"), T(RA + ":RateType"), units()
    Period, Periods, TSF = T(TU + ":Period"), T(TU + ":Periods"), T(RA + ":TimeSeriesFloat")
    d = s.calendar("cal")
    if s.symbolic:
        d = d[:4]
    n = len(d) - 1
    ps = [Period(a, b) for a, b in zip(d[:-1], d[1:])]
    days = [_days((d[i], d[i + 1])) for i in range(n)]
    g = s.array("reg", n, lo=0, hi=1, kind="list")
    temporal, res, want = _dated_models(s, kind, d, ps, n)
    _, Electric, Genset, _ = _parts()
    c = Electric(20, "c", T(RA + ":TimeSeriesRate").from_timeseries_stream_day_rate(res.power, TSF(periods=Periods(list(ps)), values=g, unit=U.NONE)))
    c.component_type = {"pump": CT.PUMP, "compressor": CT.COMPRESSOR, "generic": CT.GENERIC, "pump_system": CT.PUMP_SYSTEM, "compressor_system": CT.COMPRESSOR_SYSTEM}[kind]
    c.energy_usage_model = temporal
    reg = TS(TSF(periods=Periods(list(ps)), values=g, unit=U.NONE))
    gen = Genset(12, "gen", None, {}, [c], None, None)
    inst = T(INST)(id=_id(10), name="inst", regularity=reg, hydrocarbon_export=None, fuel_consumers=[gen], expression_evaluator=Evaluator(Periods(list(ps))))
    model = _model("asset", Periods(list(ps)), [inst], {_id(10): _id(1), _id(12): _id(10), _id(20): _id(12)}, {_id(1): Named("asset"), _id(10): inst, _id(12): gen, _id(20): c}, {_id(20): res}, {_id(20): reg})
    r = s.run(T(IM)(model).map_container, _id(20))
    s.ensure("does not fail", r.ok)
    comp, got = r.value.component_result, r.value.models
    s.ensure("the component", comp.name == "c" and comp.parent == "gen" and comp.componentType == c.component_type)
    s.ensure("one result per model", len(got) == len(want) and sorted((m.name, m.periods.periods[0].start) for m in got) == sorted((x.name, d[x.periods[0]]) for x in want))
    power, flow, loss = [0] * n, [None] * n, [0] * n
    for x in want:
        lo, hi = x.periods
        m = [q for q in got if q.name == x.name and q.periods.periods[0].start == d[lo]][0]
        s.ensure("parent of a model", m.parent == "c")
        s.ensure("periods of a model", [(p.start, p.end) for p in m.periods.periods] == [(d[i], d[i + 1]) for i in range(lo, hi)])
        for path, (v, unit) in x.series.items():
            ts = _get(m, path)
            label = ".".join(str(p) for p in path)
            s.ensure(f"unit of {label}", ts.unit == getattr(U, unit))
            s.ensure(f"length of {label}", len(ts.values) == hi - lo)
            for k in range(hi - lo):
                s.ensure(f"{label}", s.eq(ts.values[k], v[k]))
                if hasattr(ts, "regularity"):
                    s.ensure(f"regularity of {label}", s.eq(ts.regularity[k], g[lo + k]))
            if hasattr(ts, "rate_type"):
                s.ensure(f"{label} is per stream day", ts.rate_type == RT.STREAM_DAY)
        for path, v in x.flags.items():
            ts = _get(m, path)
            for k in range(hi - lo):
                s.ensure("flag " + ".".join(str(p) for p in path), s.iff(ts.values[k], v[k]))
        for k in range(hi - lo):
            power[lo + k] = power[lo + k] + x.series[("power",)][0][k]
            _cum(s, "energy of a model", m.power_cumulative, x.series[("power",)][0][k] * g[lo + k] * days[lo + k] * 24 / 1000, k)
        if kind == "compressor":
            s.ensure("failure status", list(m.failure_status) == list(x.status))
    for k in range(n):
        s.ensure("power of the component", s.eq(comp.power.values[k], power[k]))
        s.ensure("energy usage of the component", s.eq(comp.energy_usage.values[k], power[k]))
    if kind == "pump":
        for x in want:
            for f in ("inlet_liquid_rate_m3_per_day", "inlet_pressure_bar", "outlet_pressure_bar", "operational_head"):
                for k in range(x.periods[1] - x.periods[0]):
                    s.ensure(f"{f} of the component", s.eq(getattr(comp, f).values[x.periods[0] + k], x.series[(f,)][0][k]))
    if kind == "compressor":
        for x in want:
            for k in range(x.periods[1] - x.periods[0]):
                s.ensure("recirculation loss of the component", s.eq(comp.recirculation_loss.values[x.periods[0] + k], x.series[("stage_results", 0, "asv_recirculation_loss_mw")][0][k]))
                s.ensure("exceeded rate of the component", s.iff(comp.rate_exceeds_maximum.values[x.periods[0] + k], x.flags[("stage_results", 0, "rate_exceeds_maximum")][k]))


CAL3 = "up to three periods of fixed calendars symbolically and generated ones concretely, one or two dated models, one stage, two consumers per system; any values"


@contract("C14", IM + ".map_pump", MH + ".process_pump_models", IM + ".map_consumer_system", IM + ".map_container", MP + "TimeSeriesHelper.initialize_timeseries", bounded=CAL3, weight=3, budget=120, cases=150)
def pump_models(s):
    """every value of a pump's dated models is reported for its own periods, with the installation's regularity"""
    _component(s, s.choice("kind", ["pump", "pump_system", "generic"]))


@contract("C14", IM + ".map_compressor", MH + ".process_single_compressor_model", CH + ".process_stage_results", CH + ".process_inlet_stream_condition", CH + ".process_outlet_stream_condition", MH + ".process_turbine_result", MH + ".map_rate", bounded=CAL3, weight=3, budget=120, cases=150)
def compressor_models(s):
    """the same for a compressor, its stage, its streams and its turbine"""
    _component(s, "compressor")


@contract("C14", MH + ".process_compressor_models", CH + ".get_requested_compressor_pressures", MP + "OperationalSettingHelper.get_operational_setting_used_id", bounded=CAL3, weight=3, budget=120, cases=150)
def compressor_system_models(s):
    """the same for a compressor system; the requested pressures are those of the setting used in the period"""
    _component(s, "compressor_system")


FU = "libecalc.infrastructure.file_utils:"


def _covered(d, n, a, b, f):
    """sum over the original periods of f(i) times the days of it that lie within [a, b)"""
    t = 0.0
    for i in range(n):
        t += _overlap(a, b, d[i], d[i + 1]) * f(i)
    return t


def _near(x, v):
    if v is None:
        return x is None
    return abs(x - v) <= 2e-5 + 3e-6 * abs(v)


def _rows(s, text, fmt):
    from datetime import datetime

    lines = [q.split(",") for q in text.strip().split("\n")]
    head = lines[0]
    s.ensure("no column twice", len(set(head)) == len(head))
    s.ensure("the first column is the time", head[0] == "timesteps")
    return [datetime.strptime(q[0], fmt) for q in lines[1:]], {h: [q[i + 1] for q in lines[1:]] for i, h in enumerate(head[1:])}


def _columns(ws, top):
    """columns of the totals: name: (f(i), kind) with f the calendar-day rate (or for power the stream-day rate) in period i"""
    out = {}
    fuel = lambda i: sum(sum(v[i] for v in w["fuel"]) * w["g"][i] for w in ws)
    out[f"{top}.energy_usage[Sm3/cd]"] = (fuel, fuel, "rate")
    out[f"{top}.energy_usage_cumulative[Sm3 (cd)]"] = (fuel, fuel, "cumulative")
    for e in sorted({e for w in ws for e in w["em"]}):
        f = lambda i, e=e: sum(sum(v[i] for v in w["em"].get(e, [])) * w["g"][i] for w in ws)
        out[f"{top}.{e}.rate[t/cd]"] = (f, f, "rate")
        out[f"{top}.{e}.cumulative[t (cd)]"] = (f, f, "cumulative")
    for what in ("elec", "mech"):
        if any(w[what] for w in ws):
            f = lambda i, q=what: sum(sum(v[i] for v in w[q]) for w in ws)
            g = lambda i, q=what: sum(sum(v[i] for v in w[q]) * w["g"][i] for w in ws)
            name = "power_electrical" if what == "elec" else "power_mechanical"
            out[f"{top}.{name}[MW (sd)]"] = (f, g, "rate")
            out[f"{top}.{name}_cumulative[GWh (cd)]"] = (f, lambda i, g=g: g(i) * 24 / 1000, "cumulative")
    f = lambda i: sum(w["hc"][i] for w in ws)
    out[f"{top}.hydrocarbon_export_rate[Sm3/cd]"] = (f, f, "rate")
    return out


@contract("C14", FU + "get_result_output", FU + "to_json", FU + "dataframe_to_csv", "libecalc.presentation.json_result.result.tabular_time_series:TabularTimeSeries.resample", "libecalc.presentation.json_result.result.tabular_time_series:TabularTimeSeries.to_dataframe", RS + "EcalcModelResult.resample", RS + "EcalcModelResult.sort_sub_components", "libecalc.presentation.simple_result.simple:SimpleResultData.from_dto", "libecalc.presentation.simple_result.simple:SimpleComponentResult.from_dto", "libecalc.common.math.numbers:Numbers.format_results_to_precision", "libecalc.common.datetime.utils:DateTimeFormats.get_format", concrete_only=True, bounded="generated assets of one or two installations on generated calendars of up to 8 periods, all output frequencies but daily", cases=120)
def written_results(s):
    """the written CSV and JSON results hold, for every component and reporting period, the rates and accumulated volumes of what the period covers"""
    import json

    Period, Periods, F = T(TU + ":Period"), T(TU + ":Periods"), T(TU + ":Frequency")
    d = s.calendar("cal")
    n = len(d) - 1
    pers = Periods([Period(a, b) for a, b in zip(d[:-1], d[1:])])
    shape = s.choice("shape", SHAPES)
    freq = s.choice("freq", [F.YEAR, F.MONTH, F.NONE])
    model, want = _build(s, n, pers, *shape)
    opt = s.choice("date format", [0, 1, 2])
    fmt = ["%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M:%S", "%d.%m.%Y %H:%M:%S"][opt]
    res = T(MP + "get_asset_result")(model)
    r = s.run(lambda: res.resample(freq) if freq != F.NONE else res.model_copy())
    s.ensure("resampling does not fail", r.ok)
    r = s.run(T("libecalc.common.math.numbers:Numbers").format_results_to_precision, result=r.value, precision=6)
    s.ensure("rounding does not fail", r.ok)
    O = T(FU + "OutputFormat")
    out = T(FU + "get_result_output")
    csv = s.run(out, results=r.value, output_format=O.CSV, simple_output=True, date_format_option=opt)
    s.ensure("CSV does not fail", csv.ok)
    dates, cols = _rows(s, csv.value, fmt)
    ends = dates[1:] + [d[-1]]
    s.ensure("the rows are in time order from the start of the model to its end", dates[0] == d[0] and all(a < b for a, b in zip(dates, ends)))
    if freq == F.NONE:
        s.ensure("one row per period", dates == d[:-1])
    expect = _columns(want, "asset")
    for w in want:
        expect.update(_columns([w], f"inst{w['j']}"))
        g = w["g"]
        for name, (fuel, power, em, kind) in w["own"].items():
            if kind == "fuel":
                f = lambda i, v=fuel, g=g: v[i] * g[i]
                expect[f"{name}.energy_usage[Sm3/cd]"], expect[f"{name}.energy_usage_cumulative[Sm3 (cd)]"] = (f, f, "rate"), (f, f, "cumulative")
            if power is not None:
                f, h = lambda i, v=power: v[i], lambda i, v=power, g=g: v[i] * g[i]
                expect[f"{name}.power[MW (sd)]"] = (f, h, "rate")
                expect[f"{name}.power_cumulative[GWh (cd)]"] = (f, lambda i, h=h: h(i) * 24 / 1000, "cumulative")
            for e, v in em.items():
                f = lambda i, v=v, g=g: v[i] * g[i]
                expect[f"{name}.{e}.rate[t/cd]"], expect[f"{name}.{e}.cumulative[t (cd)]"] = (f, f, "rate"), (f, f, "cumulative")
            if name in w["valid"]:
                expect[f"{name}.is_valid[N/A]"] = (w["valid"][name], None, "valid")
    for name, (f, vol, kind) in expect.items():
        s.ensure("every value has its column", name in cols, name)
        for k, (a, b) in enumerate(zip(dates, ends)):
            x = float(cols[name][k])
            if kind == "valid":
                ok = all(f[i] for i in range(n) if d[i] < b and d[i + 1] > a)
                s.ensure("valid exactly if valid throughout the reporting period", x == int(ok), (name, k))
            elif kind == "cumulative":
                s.ensure("accumulated volume to the end of the reporting period", _near(x, _covered(d, n, d[0], b, vol)), (name, k))
            elif _covered(d, n, a, b, vol) > 0:
                s.ensure("mean rate of the reporting period", _near(x, _covered(d, n, a, b, f) / _days((a, b))), (name, k))
    for simple in (True, False):
        js = s.run(out, results=r.value, output_format=O.JSON, simple_output=simple, date_format_option=opt)
        s.ensure("JSON does not fail", js.ok)
        data = json.loads(js.value)
        comps = data["components"] if simple else [data["component_result"], *data["sub_components"]]
        s.ensure("every component is written once", sorted(c["name"] for c in comps) == sorted(["asset"] + [x for w in want for x in [f"inst{w['j']}", *w["own"]]]))
        for c in comps:
            eu = c["energy_usage"] if simple else c["energy_usage"]["values"]
            unit = c["energy_usage_unit"] if simple else c["energy_usage"]["unit"]
            key = next(h for h in cols if h.startswith(f"{c['name']}.energy_usage["))
            s.ensure("unit of the energy usage", (unit == "MW") == ("[MW" in key))
            for k in range(len(dates)):
                s.ensure("the JSON holds the same energy usage", abs(eu[k] - float(cols[key][k])) <= 1e-5, (c["name"], k))
                key2 = f"{c['name']}.power[MW (sd)]"
                if key2 in cols:
                    p = c["power"] if simple else c["power"]["values"]
                    s.ensure("the JSON holds the same power", abs(p[k] - float(cols[key2][k])) <= 1e-5, (c["name"], k))
                v = c["is_valid"] if simple else c["is_valid"]["values"]
                s.ensure("the JSON holds the same validity", bool(v[k]) == bool(int(cols[f"{c['name']}.is_valid[N/A]"][k])))
                for e, q in c["emissions"].items():
                    rate = q["rate"] if simple else q["rate"]["values"]
                    s.ensure("the JSON holds the same emissions", abs(rate[k] - float(cols[f"{c['name']}.{e}.rate[t/cd]"][k])) <= 1e-5)
            s.ensure("the JSON holds the dates", [datetime_of(x, fmt) for x in c["periods"]["timesteps"]] == dates if not simple else True)


def datetime_of(x, fmt):
    from datetime import datetime

    return datetime.strptime(x, fmt)


@contract("C14", "libecalc.presentation.json_result.result.tabular_time_series:TabularTimeSeries.resample", concrete_only=True, bounded="results with parts in lists and by name on generated calendars, all output frequencies but daily", cases=120)
def parts_of_results_are_resampled(s):
    """a result resampled has each of its series, and each series of each of its parts, resampled as on its own; what is not a series stays; the result itself is unchanged"""
    Period, Periods, F = T(TU + ":Period"), T(TU + ":Periods"), T(TU + ":Frequency")
    d = s.calendar("cal")
    n = len(d) - 1
    pers = Periods([Period(a, b) for a, b in zip(d[:-1], d[1:])])
    Base, TSR, TSB, RT, U = T("libecalc.presentation.json_result.result.tabular_time_series:TabularTimeSeries"), T(RA + ":TimeSeriesRate"), T(RA + ":TimeSeriesBoolean"), T(RA + ":RateType"), units()

    class Part(Base):
        rate: TSR
        valid: TSB

    class Whole(Base):
        rate: TSR
        one: Part
        many: list[Part]
        named: dict[str, Part]
        labels: list[str]
        nothing: list[Part]

    def rate():
        return TSR(periods=pers, values=[round(s.rng.uniform(0, 50), 2) for _ in range(n)], unit=U.STANDARD_CUBIC_METER_PER_DAY, rate_type=s.rng.choice([RT.STREAM_DAY, RT.CALENDAR_DAY]), regularity=[1.0] * n)

    def part(name):
        return Part(name=name, periods=pers, rate=rate(), valid=TSB(periods=pers, values=[s.rng.random() < 0.7 for _ in range(n)], unit=U.NONE))

    x = Whole(name="x", periods=pers, rate=rate(), one=part("one"), many=[part(f"m{i}") for i in range(s.rng.randrange(3))], named={f"k{i}": part(f"k{i}") for i in range(s.rng.randrange(3))}, labels=["a"] * n, nothing=[])
    before = x.model_dump()
    freq = s.choice("freq", [F.YEAR, F.MONTH, F.NONE])
    r = s.run(x.resample, freq)
    s.ensure("does not fail", r.ok, str(r.exc))
    r = r.value
    s.ensure("the result itself is unchanged", x.model_dump() == before)
    alone = (lambda v: v) if freq == F.NONE else (lambda v: v.resample(freq=freq))
    s.ensure("its own series", r.rate == alone(x.rate) and r.periods == alone(x.rate).periods)
    s.ensure("what is no series", r.labels == x.labels and r.nothing == [] and r.name == "x")
    s.ensure("the same parts", [p.name for p in r.many] == [p.name for p in x.many] and list(r.named) == list(x.named))
    for a, b in [(r.one, x.one), *zip(r.many, x.many), *((r.named[k], x.named[k]) for k in x.named)]:
        s.ensure("the series of each part", a.name == b.name and a.rate == alone(b.rate) and a.valid == alone(b.valid) and a.periods == alone(b.rate).periods)
