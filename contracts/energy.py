"""C08 generator sets, C09 emissions"""
from uuid import UUID

from contracts.common import RA, T, TU, periods, units
from vc.harness import contract

EC = "libecalc.domain.infrastructure.energy_components."
GM = EC + "generator_set.generator_set_model:GeneratorSetModel"
GC = EC + "generator_set.generator_set_component:GeneratorSetEnergyComponent"
FM = EC + "fuel_model.fuel_model:FuelModel"
VM = "libecalc.common.variables:VariablesMap"
TM = "libecalc.common.temporal_model:TemporalModel"
ID = UUID(int=1)


class Table:
    def __init__(self, **cols):
        self.cols = cols

    def get_headers(self):
        return list(self.cols)

    def get_column(self, h):
        return self.cols[h]


class Reg:
    """stands for Regularity (contract: one value in [0, 1] per period; proved in C07)"""

    def __init__(self, pers, values):
        self.values = values
        self.time_series = T(RA + ":TimeSeriesFloat")(periods=pers, values=values, unit=units().NONE)


@contract("C08", GM + ".__init__", GM + ".evaluate_fuel_usage", GM + ".evaluate_power_capacity_margin", GM + ".max_capacity", "libecalc.common.interpolation:setup_interpolator_1d",
          bounded="tables with 2 or 3 rows in any order (values unbounded); up to 8 rows in concrete runs")
def table_lookup(s):
    """fuel is linear between the rows of the table, that of the end rows outside it, zero without load; the margin is the largest power minus the load"""
    m = s.choice("rows", [2, 3] if s.symbolic else [2, 3, 5, 8])
    P = [s.real(f"p{i}", lo=0) for i in range(m)]
    F = [s.real(f"f{i}", lo=0) for i in range(m)]
    for i in range(m):
        for j in range(i):
            s.assume(P[i] != P[j])
            s.assume(s.implies(P[i] < P[j], F[i] <= F[j]))
            s.assume(s.implies(P[i] > P[j], F[i] >= F[j]))
    load = s.real("load")
    g = s.run(T(GM), name="g", resource=Table(FUEL=F, POWER=P))
    s.ensure("the table is accepted", g.ok)
    f, c = s.run(g.value.evaluate_fuel_usage, load), s.run(g.value.evaluate_power_capacity_margin, load)
    s.ensure("does not fail", f.ok and c.ok)
    top, fhi, low, flo = P[0], F[0], P[0], F[0]
    for i in range(1, m):
        b, a = P[i] > top, P[i] < low
        top, fhi = s.ite(b, P[i], top), s.ite(b, F[i], fhi)
        low, flo = s.ite(a, P[i], low), s.ite(a, F[i], flo)
    s.ensure("margin is the largest power of the table minus the load", s.eq(c.value, top - load))
    if load <= 0:
        s.ensure("no load, no fuel", s.eq(f.value, 0))
        return
    s.ensure("below the table: the first row", s.implies(load < low, s.eq(f.value, flo)))
    s.ensure("above the table: the last row", s.implies(load > top, s.eq(f.value, fhi)))
    for i in range(m):
        s.ensure("at a row: its fuel", s.implies(load == P[i], s.eq(f.value, F[i])))
        for j in range(m):
            if i == j:
                continue
            nxt = s.and_(P[i] < load, load < P[j], *[s.or_(P[q] <= P[i], P[q] >= P[j]) for q in range(m) if q not in (i, j)])
            s.ensure("between two rows: linear", s.implies(nxt, s.eq((f.value - F[i]) * (P[j] - P[i]), (F[j] - F[i]) * (load - P[i]))))


class Gen:
    """stands for GeneratorSetModel: any fuel function and capacity (contract: table_lookup)"""

    def __init__(self, f, cap):
        self.evaluate_fuel_usage = f
        self.cap = cap

    def evaluate_power_capacity_margin(self, p):
        return self.cap - p


def _dated(s, n, d, m, name="q"):
    """m positions in the time vector, in order, the first not necessarily at its start"""
    p = [s.int(name + "0", lo=0, hi=n - 1)]
    for i in range(1, m):
        p.append(s.int(f"{name}{i}", lo=p[-1] + 1, hi=n - 1))
    return p


def _fuel(period):
    return T(TM)({period: T("libecalc.dto.fuel_type:FuelType")(id=ID, name="fuel", emissions=[])})


@contract("C08", GC + ".evaluate_process_model", GC + "._evaluate_fuel_rate", GC + "._evaluate_power_capacity_margin", "libecalc.common.utils.nan_handling:clean_nan_values",
          bounded="1 or 2 dated generator models; loads, capacities, fuel functions, dates and time vector unbounded", weight=3)
def generator_set_per_period(s):
    """in every period the generator model in force gives the fuel, and the period is valid exactly when a model is in force and its capacity is not exceeded"""
    Period = T(TU + ":Period")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    ev = T(VM)(periods=pers, variables={})
    load = s.array("load", n, kind="list", lo=0)
    m = s.choice("m", [1, 2])
    p = _dated(s, n, d, m)
    gens = [Gen(s.func(f"fuel{i}", lo=0), s.real(f"cap{i}")) for i in range(m)]
    whole = Period(d[0], d[n])
    g = s.run(T(GC), id=ID, name="g", generator_set_model=T(TM)({d[q]: x for q, x in zip(p, gens)}), regularity=Reg(pers, s.array("reg", n, lo=0, hi=1, kind="list")),
              expression_evaluator=ev, consumers=[], fuel=T(TM)({d[0]: None}))
    s.ensure("built", g.ok)
    TSF = T(RA + ":TimeSeriesFloat")
    r = s.run(g.value.evaluate_process_model, TSF(periods=pers, values=load, unit=units().MEGA_WATT))
    s.ensure("does not fail", r.ok)
    v = r.value
    s.ensure("one value per period", s.and_(*[s.len(x.values) == n for x in (v.energy_usage, v.power, v.power_capacity_margin, v.is_valid)]))
    s.ensure("units", v.energy_usage.unit == units().STANDARD_CUBIC_METER_PER_DAY and v.power.unit == units().MEGA_WATT and v.power_capacity_margin.unit == units().MEGA_WATT)
    for k in s.indices(n):
        fuel, margin = 0.0, 0.0
        for q, x in zip(p, gens):
            fuel = s.ite(k >= q, x.evaluate_fuel_usage(load[k]), fuel)
            margin = s.ite(k >= q, x.cap - load[k], margin)
        s.ensure("the load is the power", s.eq(v.power.values[k], load[k]))
        s.ensure("fuel of the model in force, none before", s.eq(v.energy_usage.values[k], fuel))
        s.ensure("capacity margin of the model in force", s.eq(v.power_capacity_margin.values[k], margin))
        s.ensure("valid exactly when a model is in force and its capacity suffices", s.iff(v.is_valid.values[k], s.and_(k >= p[0], margin >= 0)))


D0, D1, D2 = {}, {"co2": "V;X"}, {"co2": "V;Y", "ch4": "V;Z"}


def _fuel_emissions(s, choices):
    E, FT, U = T("libecalc.dto.emission:Emission"), T("libecalc.dto.fuel_type:FuelType"), units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    X, Y, Z = (s.array(c, n, kind="list") for c in "XYZ")
    fac = {"V;X": X, "V;Y": Y, "V;Z": Z}
    ev = T(VM)(periods=pers, variables=fac)
    fuel = s.array("fuel", n, kind="list")
    defs = s.choice("emissions", choices)
    p = _dated(s, n, d, len(defs))
    model = T(TM)({d[q]: FT(id=ID, name="f", emissions=[E(name=a, factor=b) for a, b in e.items()]) for q, e in zip(p, defs)})
    r = s.run(T(FM)(model, ev).evaluate_emissions, fuel)
    s.ensure("does not fail", r.ok)
    names = sorted({a for e in defs for a in e})
    s.ensure("all emissions of any fuel", sorted(r.value) == names)
    for a in names:
        v = r.value[a]
        s.ensure("one value per period, in tons per day", s.and_(s.len(v.values) == n, v.unit == U.TONS_PER_DAY))
        for k in s.indices(n):
            want = 0.0
            for q, e in zip(p, defs):
                want = s.ite(k >= q, fuel[k] * fac[e[a]][k] / 1000 if a in e else 0.0, want)
            s.ensure("fuel rate times factor of the fuel in force", s.eq(v.values[k], want))


@contract("C09", FM + ".evaluate_emissions", bounded="a fuel with 1 date(s) and up to 2 emissions; fuel rates, factors, dates and time vector unbounded", weight=3, budget=150)
def one_fuel(s):
    """an emission is the fuel rate times the factor of the fuel (kg to tons)"""
    _fuel_emissions(s, [[D0], [D1], [D2]])


@contract("C09", FM + ".evaluate_emissions", bounded="a fuel with 2 date(s) and up to 2 emissions; fuel rates, factors, dates and time vector unbounded", weight=3, budget=150)
def fuel_change(s):
    """where the fuel changes, the factor of the fuel in force applies"""
    _fuel_emissions(s, [[D1, D2]])


@contract("C09", FM + ".evaluate_emissions", bounded="a fuel with 2 date(s) and up to 2 emissions; fuel rates, factors, dates and time vector unbounded", weight=3, budget=150)
def fuel_change_back(s):
    """an emission is zero where the fuel in force does not emit it"""
    _fuel_emissions(s, [[D2, D1]])


@contract("C09", FM + ".evaluate_emissions", bounded="a fuel with 2 date(s) and up to 2 emissions; fuel rates, factors, dates and time vector unbounded", weight=3, budget=150)
def fuel_without_emissions(s):
    """an emission is zero where the fuel in force emits nothing"""
    _fuel_emissions(s, [[D0, D1], [D1, D0]])


RES = "libecalc.core.result:GeneratorSetResult"


class Series:
    """stands for a per-period time series input (contract: C07): any value in every period"""

    def __init__(self, values):
        self.values = values

    def get_values(self):
        return self.values


def _rate_is(s, label, v, pers, n, unit, values, reg):
    """v is the stream-day rate with these values and this regularity in these periods"""
    SD = T(RA + ":RateType").STREAM_DAY
    s.ensure(label + ": stream-day rate of every period, in the right unit", s.and_(v.rate_type == SD, v.unit == unit, s.len(v.values) == n, s.len(v.regularity) == n, s.len(v.periods.periods) == n))
    for k in s.indices(n):
        s.ensure(label + ": value", s.eq(v.values[k], values(k)))
        s.ensure(label + ": regularity", s.eq(v.regularity[k], reg[k]))
        s.ensure(label + ": period", s.and_(v.periods.periods[k].start == pers.periods[k].start, v.periods.periods[k].end == pers.periods[k].end))


@contract("C08", GC + ".get_power_production", GC + ".get_maximum_power_production", GC + ".get_power_capacity_margin", GC + ".get_power_requirement", GC + ".get_fuel_consumption",
          GC + ".evaluate_energy_usage", weight=2, budget=150)
def generator_set_reported(s):
    """what a generator set reports is the evaluated result as stream-day rates with the regularity of the installation; with a cable loss the produced power is the delivered power times one plus the loss"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    ev = T(VM)(periods=pers, variables={})
    load, loss, shore = (s.array(a, n, kind="list", lo=0) for a in ("load", "loss", "shore"))
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    gen = Gen(s.func("fuel", lo=0), s.real("cap"))
    has = s.choice("cable", [True, False])
    fuel = T(TM)({d[0]: "fuel"})
    g = T(GC)(id=ID, name="g", generator_set_model=T(TM)({d[0]: gen}), regularity=Reg(pers, reg), expression_evaluator=ev, consumers=[], fuel=fuel,
              cable_loss=Series(loss) if has else None, max_usage_from_shore=Series(shore) if has else None)
    TSF, U = T(RA + ":TimeSeriesFloat"), units()

    class Ctx:
        def get_power_requirement(self):
            return TSF(periods=pers, values=load, unit=U.MEGA_WATT)

    r = s.run(g.evaluate_energy_usage, Ctx())
    s.ensure("does not fail", r.ok)
    prod, mx, margin, req, cons = (s.run(f) for f in (g.get_power_production, g.get_maximum_power_production, g.get_power_capacity_margin, g.get_power_requirement, g.get_fuel_consumption))
    s.ensure("reports do not fail", prod.ok and mx.ok and margin.ok and req.ok and cons.ok)
    _rate_is(s, "power production", prod.value, pers, n, U.MEGA_WATT, (lambda k: load[k] * (1 + loss[k])) if has else (lambda k: load[k]), reg)
    _rate_is(s, "power requirement", req.value, pers, n, U.MEGA_WATT, lambda k: load[k], reg)
    _rate_is(s, "capacity margin", margin.value, pers, n, U.MEGA_WATT, lambda k: gen.cap - load[k], reg)
    _rate_is(s, "fuel", cons.value.rate, pers, n, U.STANDARD_CUBIC_METER_PER_DAY, lambda k: gen.evaluate_fuel_usage(load[k]), reg)
    s.ensure("of the fuel of the generator set", cons.value.fuel is fuel)
    if has:
        _rate_is(s, "maximum from shore", mx.value, pers, n, U.MEGA_WATT, lambda k: shore[k], reg)
    else:
        s.ensure("no maximum without one", mx.value is None)


@contract("C08", GC + ".__init__", EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent.__init__")
def fuel_covers_consumer(s):
    """a generator set or fuel consumer is accepted exactly when its fuel is defined for the whole period it is defined for"""
    Period = T(TU + ":Period")
    a, b, f, e = s.date("a"), s.date("b"), s.date("f"), s.date("e")
    s.assume(a < b)
    s.assume(f < e)
    which = s.choice("which", ["genset", "fuel consumer"])
    model, fuel = T(TM)({Period(a, b): "m"}), T(TM)({Period(f, e): "x"})
    if which == "genset":
        r = s.run(T(GC), id=ID, name="g", generator_set_model=model, regularity=None, expression_evaluator=None, consumers=[], fuel=fuel)
    else:
        r = s.run(T(EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent"), id=ID, name="g", regularity=None, component_type=None, fuel=fuel, energy_usage_model=model, expression_evaluator=None)
    V = T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")
    s.ensure("accepted or refused", r.ok or r.raised(V))
    s.ensure("accepted exactly when covered", s.iff(r.ok, s.and_(f <= a, b <= e)))


class Res:
    def __init__(self, pers, energy):
        self.periods, self.energy_usage = pers, energy


@contract("C09", GC + ".get_emissions", EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent.get_emissions", EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent.get_fuel_consumption",
          FM + ".evaluate_emissions", bounded="one dated fuel with 1 emission; fuel rates, factors, regularities, dates and time vector unbounded", weight=2)
def consumer_emissions(s):
    """the emissions of a fuel consumer are its fuel rate times the factor, as stream-day rates with the regularity of the consumer"""
    E, FT, U = T("libecalc.dto.emission:Emission"), T("libecalc.dto.fuel_type:FuelType"), units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    rate, factor = (s.array(c, n, kind="list") for c in ("rate", "factor"))
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    ev = T(VM)(periods=pers, variables={"V;X": factor})
    fuel = T(TM)({d[0]: FT(id=ID, name="f", emissions=[E(name="co2", factor="V;X")])})
    which = s.choice("which", ["genset", "fuel consumer"])
    res = Res(pers, T(RA + ":TimeSeriesStreamDayRate")(periods=pers, values=rate, unit=U.STANDARD_CUBIC_METER_PER_DAY))
    if which == "genset":
        c = T(GC)(id=ID, name="g", generator_set_model=T(TM)({d[0]: "m"}), regularity=Reg(pers, reg), expression_evaluator=ev, consumers=[], fuel=fuel)
        c._generator_set_result = res
    else:
        c = T(EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent")(id=ID, name="g", regularity=Reg(pers, reg), component_type=None, fuel=fuel, energy_usage_model=T(TM)({d[0]: "m"}), expression_evaluator=ev)
        c._consumer_result = res
    r = s.run(c.get_emissions)
    s.ensure("does not fail", r.ok)
    s.ensure("the emissions of the fuel", list(r.value) == ["co2"])
    _rate_is(s, "emission", r.value["co2"], pers, n, U.TONS_PER_DAY, lambda k: rate[k] * factor[k] / 1000, reg)
    f = s.run(c.get_fuel_consumption)
    s.ensure("fuel consumption does not fail", f.ok)
    _rate_is(s, "fuel", f.value.rate, pers, n, U.STANDARD_CUBIC_METER_PER_DAY, lambda k: rate[k], reg)


VE = "libecalc.domain.infrastructure.emitters.venting_emitter:"


class Expr:
    """stands for TimeSeriesExpression (contract: C07): any value in every period"""

    def __init__(self, values, ev):
        self.values, self.expression_evaluator = values, ev

    def get_masked_values(self):
        return self.values


@contract("C09", VE + "EmissionRate._get_stream_day_values", VE + "DirectVentingEmitter._get_emissions", VE + "VentingEmitter.get_emissions", VE + "EmissionRate.get_periods",
          bounded="1 or 2 emissions per emitter; rates, regularities and time vector unbounded", weight=2)
def direct_venting(s):
    """a vented emission is the given rate in tons per day as a stream-day rate: a calendar-day rate is divided by the regularity and is zero where that is zero"""
    U, RT = units(), T(RA + ":RateType")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    ev = T(VM)(periods=pers, variables={})
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    R = Reg(pers, reg)
    unit = s.choice("unit", [U.KILO_PER_DAY, U.TONS_PER_DAY])
    typ = s.choice("type", [RT.CALENDAR_DAY, RT.STREAM_DAY])
    names = s.choice("names", [["co2"], ["co2", "ch4"]])
    rates = {a: s.array(a, n, kind="list") for a in names}
    em = s.run(lambda: T(VE + "DirectVentingEmitter")(id=ID, name="v", component_type=None, emitter_type=None, regularity=R, emissions=[
        T(VE + "VentingEmission")(name=a, emission_rate=T(VE + "EmissionRate")(Expr(v, ev), unit, typ, R)) for a, v in rates.items()]))
    s.ensure("built", em.ok)
    r = s.run(em.value.get_emissions)
    s.ensure("does not fail", r.ok)
    s.ensure("every emission", sorted(r.value) == sorted(names))
    f = 1000 if unit == U.KILO_PER_DAY else 1

    def want(v):
        return lambda k: v[k] / f if typ == RT.STREAM_DAY else s.ite(reg[k] == 0, 0.0, v[k] / s.ite(reg[k] == 0, 1.0, reg[k]) / f)

    for a, v in rates.items():
        _rate_is(s, "emission", r.value[a], pers, n, U.TONS_PER_DAY, want(v), reg)


@contract("C09", VE + "OilVolumeRate._get_stream_day_values", VE + "OilVentingEmitter._get_emissions", VE + "OilVentingEmitter.get_storage_rates", VE + "OilVentingEmitter.get_oil_rates", VE + "VentingEmitter.get_emissions",
          bounded="1 or 2 emissions per emitter; rates, factors, regularities and time vector unbounded", weight=2)
def oil_venting(s):
    """emissions from loading or storage are the oil rate times the factor (kg to tons); the oil rate is reported per stream day"""
    U, RT = units(), T(RA + ":RateType")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    names = s.choice("names", [["co2"], ["co2", "ch4"]])
    fac = {a: s.array("f_" + a, n, kind="list") for a in names}
    ev = T(VM)(periods=pers, variables={"V;" + a: v for a, v in fac.items()})
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    R = Reg(pers, reg)
    typ = s.choice("type", [RT.CALENDAR_DAY, RT.STREAM_DAY])
    oil = s.array("oil", n, kind="list")
    em = s.run(lambda: T(VE + "OilVentingEmitter")(id=ID, name="v", component_type=None, emitter_type=None, regularity=R, volume=T(VE + "VentingVolume")(
        oil_volume_rate=T(VE + "OilVolumeRate")(Expr(oil, ev), U.STANDARD_CUBIC_METER_PER_DAY, typ, R),
        emissions=[T(VE + "VentingVolumeEmission")(name=a, emission_factor="V;" + a) for a in names])))
    s.ensure("built", em.ok)
    r, st = s.run(em.value.get_emissions), s.run(em.value.get_storage_rates)
    s.ensure("does not fail", r.ok and st.ok)
    s.ensure("every emission", sorted(r.value) == sorted(names))

    def rate(k):
        return oil[k] if typ == RT.STREAM_DAY else s.ite(reg[k] == 0, 0.0, oil[k] / s.ite(reg[k] == 0, 1.0, reg[k]))

    def want(v):
        return lambda k: rate(k) * v[k] / 1000

    _rate_is(s, "oil", st.value, pers, n, U.STANDARD_CUBIC_METER_PER_DAY, rate, reg)
    for a, v in fac.items():
        _rate_is(s, "emission", r.value[a], pers, n, U.TONS_PER_DAY, want(v), reg)
