"""C10 consumers, power requirement and validity"""
from uuid import UUID

from contracts.common import RA, T, TU, periods, units
from contracts.energy import Reg, _rate_is
from vc.harness import contract

EC = "libecalc.domain.infrastructure.energy_components."
LC = EC + "legacy_consumer."
DCF = LC + "consumer_function.direct_consumer_function:DirectConsumerFunction"
CFR = LC + "consumer_function.results:ConsumerFunctionResult"
GR = "libecalc.domain.process.core.results.generic:EnergyFunctionGenericResult"
RES = "libecalc.core.result.results:"
ID = UUID(int=1)
CTX = "libecalc.presentation.yaml.model:Context"


class Rate:
    """stands for TimeSeriesFlowRate / TimeSeriesPower (contract: C07): any stream-day value in every period"""

    def __init__(self, pers, values):
        self.pers, self.values = pers, values

    def get_stream_day_values(self):
        return self.values

    def get_periods(self):
        return self.pers


class Loss:
    """stands for TimeSeriesPowerLossFactor (contract: power_loss): usage / (1 - factor)"""

    def __init__(self, f):
        self.f = f

    def get_values(self):
        return self.f

    def apply(self, energy_usage):
        return energy_usage / (1 - self.f)


@contract("C10", DCF + ".evaluate", DCF + ".energy_usage_unit", CFR + ".power", CFR + ".energy_usage", CFR + ".is_valid", CFR + ".energy_usage_unit", CFR + ".power_loss_factor", GR + "._is_valid", GR + ".get_energy_result")
def direct_consumer(s):
    """a direct consumer uses the load (MW, power with losses) or the fuel rate (Sm3/day) it is given; a negative fuel rate is invalid, a load never is"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    x = s.array("x", n, kind="list")
    f = s.array("f", n)
    s.assume_all(n, lambda k: f[k] < 1)
    kind = s.choice("kind", ["POWER", "FUEL"])
    lossy = s.choice("loss", [True, False])
    Typ, U = T("libecalc.common.energy_usage_type:EnergyUsageType"), units()
    other = Rate(pers, s.array("other", n, kind="list"))
    args = dict(load=Rate(pers, x), fuel_rate=other) if kind == "POWER" else dict(fuel_rate=Rate(pers, x), load=other)
    r = s.run(T(DCF)(energy_usage_type=Typ[kind], power_loss_factor=Loss(f) if lossy else None, **args).evaluate)
    s.ensure("does not fail", r.ok)
    v = r.value
    eu, pw, val, un = (s.run(lambda a=a: getattr(v, a)) for a in ("energy_usage", "power", "is_valid", "energy_usage_unit"))
    s.ensure("results do not fail", eu.ok and pw.ok and val.ok and un.ok)
    s.ensure("unit", un.value == (U.MEGA_WATT if kind == "POWER" else U.STANDARD_CUBIC_METER_PER_DAY))
    s.ensure("power for electrical consumers only", (pw.value is not None) == (kind == "POWER"))
    s.ensure("one value per period", s.and_(s.len(eu.value) == n, s.len(val.value) == n))
    for k in s.indices(n):
        w = x[k] / (1 - f[k]) if lossy else x[k]
        s.ensure("usage with losses", s.eq(eu.value[k], w))
        if kind == "POWER":
            s.ensure("power with losses", s.eq(pw.value[k], w))
        s.ensure("valid unless a negative fuel rate", s.iff(val.value[k], kind == "POWER" or x[k] >= 0))


@contract("C10", GR + "._is_valid", GR + ".get_energy_result", CFR + ".is_valid")
def generic_validity(s):
    """a result is valid exactly where it is a number, and not negative unless negative usage is allowed"""
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list", nan=True)
    neg = s.choice("negative", [True, False])
    U = units()
    r = s.run(lambda: T(GR)(energy_usage=x, energy_usage_unit=U.MEGA_WATT, power=x, power_unit=None, allow_negative_energy_usage=neg).get_energy_result())
    s.ensure("does not fail", r.ok)
    s.ensure("power unit", r.value.power.unit == U.MEGA_WATT)
    s.ensure("one value per period", s.len(r.value.is_valid) == n)
    for k in s.indices(n):
        bad = s.isnan(x[k])
        s.ensure("valid where defined and allowed", s.iff(r.value.is_valid[k], s.and_(s.not_(bad), s.or_(neg, s.ge(x[k], 0)))))


class Result:
    """stands for the result of one temporal model"""

    def __init__(self, pers, energy, power, valid, unit, settings=None):
        self.periods, self.energy_usage, self.power, self.is_valid, self.energy_usage_unit = pers, energy, power, valid, unit
        self.operational_setting_used = settings


@contract("C10", RES + "ConcatenatedProperty.__get__", RES + "GenericComponentResult.energy_usage", RES + "ConsumerSystemResult.operational_settings_used", RES + "convert_to_one_based_index",
          bounded="1 or 2 temporal models; values, dates and time vector unbounded", weight=2, budget=120)
def temporal_results_joined(s):
    """the result of a consumer is, period by period, that of the temporal model in force; where none is in force it uses nothing and is valid"""
    Period, Periods, U = T(TU + ":Period"), T(TU + ":Periods"), units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    two = s.choice("models", [1, 2])
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    cut = [i, j]
    if two == 2:
        cut.append(s.int("h", lo=j + 1, hi=n))
    power = s.choice("power", ["all", "none"])
    system = s.choice("system", [False, True])
    parts, vals = [], []
    for q in range(two):
        a, b = cut[q], cut[q + 1]
        m = b - a
        sub = Periods([Period(start=d[a + k], end=d[a + k + 1]) for k in range(m)])
        e, p, v = s.array(f"e{q}", m), s.array(f"p{q}", m), s.bools(f"v{q}", m)
        w = s.bools(f"u{q}", m)
        u = [s.ite(w[k], 2, 0) for k in range(m)] if system else None
        parts.append(Result(sub, e, p if power == "all" else None, v, U.STANDARD_CUBIC_METER_PER_DAY, u))
        vals.append((a, b, e, p, v, u))
    r = T(RES + ("ConsumerSystemResult" if system else "GenericComponentResult"))(periods=pers, id="x", results=parts)
    eu, pw, va = (s.run(lambda a=a: getattr(r, a)) for a in ("energy_usage", "power", "is_valid"))
    s.ensure("does not fail", eu.ok and pw.ok and va.ok)
    st = s.run(lambda: r.operational_settings_used) if system else None
    s.ensure("settings do not fail", st is None or st.ok)
    s.ensure("power is none if the models have none", (pw.value is None) == (power == "none"))
    s.ensure("units", eu.value.unit == U.STANDARD_CUBIC_METER_PER_DAY and (pw.value is None or pw.value.unit == U.MEGA_WATT))
    s.ensure("one value per period", s.and_(*[s.len(x.value.values) == n for x in (eu, pw, va, st) if x is not None and x.value is not None]))
    for k in s.indices(n):
        we, wp, wv, wu = 0.0, 0.0, True, 0.0
        for a, b, e, p, v, u in vals:
            if a <= k and k < b:
                we, wp, wv = e[k - a], p[k - a], v[k - a]
                wu = u[k - a] + 1 if system else 0
        s.ensure("usage of the model in force", s.eq(eu.value.values[k], we))
        s.ensure("validity of the model in force", s.iff(va.value.values[k], wv))
        if power == "all":
            s.ensure("power of the model in force", s.eq(pw.value.values[k], wp))
        if system:
            s.ensure("settings are numbered from one, zero where none is in force", s.eq(st.value.values[k], wu))


class One:
    def __init__(self, power=None, valid=None, energy=None):
        self.power, self.is_valid, self.energy_usage = power, valid, energy


@contract("C10", CTX + ".get_power_requirement", CTX + "._get_consumers_of_current", RA + ":TimeSeriesStreamDayRate.__add__", bounded="up to 3 consumers; powers, regularity and time vector unbounded")
def power_requirement(s):
    """the power required from a generator set is, in every period, the sum of the power of its consumers (those that use power)"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    has = s.choice("consumers", [[], [1], [0], [1, 1], [1, 0], [0, 1], [1, 1, 1], [1, 0, 1], [0, 0]])
    pw = [s.array(f"p{i}", n, kind="list") if h else None for i, h in enumerate(has)]
    TS = T(RA + ":TimeSeriesStreamDayRate")
    me, oth = UUID(int=50), UUID(int=60)
    TSB, U = T(RA + ":TimeSeriesBoolean"), units()

    def one(i, p):
        o = One(None if p is None else TS(periods=pers, values=p, unit=U.MEGA_WATT), TSB(periods=pers, values=s.bools(f"v{i}", n), unit=U.NONE),
                TS(periods=pers, values=p if p is not None else s.array(f"e{i}", n, kind="list"), unit=U.MEGA_WATT if p is not None else U.STANDARD_CUBIC_METER_PER_DAY))
        o.periods, o.id = pers, f"c{i}"
        return o

    res = {UUID(int=i + 1): one(i, p) for i, p in enumerate(pw)}
    ids = list(res)
    res[oth] = one("o", s.array("o", n, kind="list"))

    class Model:
        def get_consumers(self, c):
            return ids if c == me else [oth]

    r = s.run(T(CTX)(Model(), res, me).get_power_requirement)
    s.ensure("does not fail", r.ok)
    s.ensure("none if no consumer uses power", (r.value is None) == (1 not in has))
    if r.value is None:
        return
    s.ensure("one value per period in MW", s.and_(s.len(r.value.values) == n, r.value.unit == units().MEGA_WATT))
    for k in s.indices(n):
        w = 0.0
        for p in pw:
            if p is not None:
                w = w + p[k]
        s.ensure("sum of the consumers", s.eq(r.value.values[k], w))
    for i, p in enumerate(pw):
        if p is not None:
            for k in s.indices(n):
                s.ensure("the consumers' results are not changed", s.eq(res[ids[i]].power.values[k], p[k]))


@contract("C10", "libecalc.presentation.yaml.model:YamlModel.get_validity", "libecalc.common.graph:Graph.get_successors", "libecalc.presentation.yaml.domain.energy_container_energy_model_builder:EnergyContainerEnergyModel.get_all_children",
          bounded="models with 1 or 2 installations of up to 3 components; validity and time vector unbounded")
def validity_of_installations(s):
    """an installation or model is valid in a period exactly when every component in it is"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    TSB, U = T(RA + ":TimeSeriesBoolean"), units()
    Asset, Inst = T(EC + "asset.asset:Asset"), T(EC + "installation.installation:InstallationComponent")
    YM, B = T("libecalc.presentation.yaml.model:YamlModel"), T("libecalc.presentation.yaml.domain.energy_container_energy_model_builder:EnergyContainerEnergyModelBuilder")
    shape = s.choice("shape", [[[1]], [[1, 0]], [[2, 1]], [[1], [1]], [[2, 0], [1, 1]]])  # 1 consumer, 0 venting emitter (no result), 2 genset with a consumer
    b, cnt, valid, insts = B(), [0], {}, {}

    def new(parent, o):
        cnt[0] += 1
        i = UUID(int=cnt[0])
        b.register_energy_container(i, parent, o)
        return i

    root = new(None, object.__new__(Asset))
    for comps in shape:
        it = new(root, object.__new__(Inst))
        insts[it] = []
        for c in comps:
            g = new(it, object())
            mine = [g] if c else []
            if c == 2:
                mine.append(new(g, object()))
            for x in mine:
                valid[x] = s.bools(f"v{x.int}", n)
                insts[it].append(x)
    m = object.__new__(YM)
    m.__dict__["_energy_model"] = b.build()
    m._consumer_results = {i: One(valid=TSB(periods=pers, values=v, unit=U.NONE)) for i, v in valid.items()}
    m._variables = T("libecalc.common.variables:VariablesMap")(periods=pers, variables={})
    for who, parts in [(root, list(valid)), *insts.items()]:
        r = s.run(m.get_validity, who)
        s.ensure("does not fail", r.ok)
        s.ensure("one value per period", s.len(r.value.values) == n)
        for k in s.indices(n):
            s.ensure("valid exactly when all parts are", s.iff(r.value.values[k], s.and_(*[valid[p][k] for p in parts])))


@contract("C10", EC + "electricity_consumer.electricity_consumer:ElectricityConsumer.get_power_consumption", EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent.get_power_consumption")
def power_consumption(s):
    """the power a consumer reports is its power as a stream-day rate with its regularity; none if it has no power"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    pw = s.array("pw", n, kind="list")
    U = units()
    ev = T("libecalc.common.variables:VariablesMap")(periods=pers, variables={})
    has = s.choice("power", [True, False])
    which = s.choice("which", ["el", "fuel"])
    if which == "el":
        c = T(EC + "electricity_consumer.electricity_consumer:ElectricityConsumer")(id=ID, name="c", regularity=Reg(pers, reg), component_type=None, energy_usage_model=None, expression_evaluator=ev)
    else:
        TM = T("libecalc.common.temporal_model:TemporalModel")
        c = T(EC + "fuel_consumer.fuel_consumer:FuelConsumerComponent")(id=ID, name="c", regularity=Reg(pers, reg), component_type=None, energy_usage_model=TM({d[0]: 1}), fuel=TM({d[0]: 1}), expression_evaluator=ev)
    c._consumer_result = One(power=T(RA + ":TimeSeriesStreamDayRate")(periods=pers, values=pw, unit=U.MEGA_WATT) if has else None)
    c._consumer_result.periods = pers
    r = s.run(c.get_power_consumption)
    s.ensure("does not fail", r.ok)
    s.ensure("none without power", (r.value is None) == (not has))
    if has:
        _rate_is(s, "power", r.value, pers, n, U.MEGA_WATT, lambda k: pw[k], reg)


@contract("C10", LC + "component:Consumer.evaluate", LC + "component:Consumer.get_consumer_result", bounded="1 or 2 temporal models; values, dates and time vector unbounded")
def temporal_models_evaluated(s):
    """every temporal model of a consumer is evaluated, and contributes its result in the order of the dates"""
    Period, Periods, U, TM = T(TU + ":Period"), T(TU + ":Periods"), units(), T("libecalc.common.temporal_model:TemporalModel")
    n = s.length("n", lo=2)
    pers, d = periods(s, "t", n)
    j = s.int("j", lo=1, hi=n - 1)
    x, y = s.array("x", j, kind="list"), s.array("y", n - j, kind="list")
    G, C = T(GR), T(CFR)

    class F:
        def __init__(self, a, b, v):
            self.a, self.b, self.v = a, b, v

        def evaluate(self):
            a = self.a
            return C(periods=Periods([Period(start=d[a + k], end=d[a + k + 1]) for k in range(self.b - a)]), power_loss_factor=None,
                     energy_function_result=G(energy_usage=self.v, energy_usage_unit=U.MEGA_WATT, power=self.v, power_unit=U.MEGA_WATT))

    model = TM({d[0]: F(0, j, x), d[j]: F(j, n, y)})
    Typ = T("libecalc.common.component_type:ComponentType")
    c = T(LC + "component:Consumer")(id="c", name="c", component_type=Typ.GENERIC, consumes=None, regularity=None, energy_usage_model=model)
    r = s.run(lambda: c.evaluate(T("libecalc.common.variables:VariablesMap")(periods=pers, variables={})).energy_usage)
    s.ensure("does not fail", r.ok)
    s.ensure("one value per period", s.len(r.value.values) == n)
    for k in s.indices(n):
        if k < j:
            s.ensure("first model", s.eq(r.value.values[k], x[k]))
        else:
            s.ensure("second model", s.eq(r.value.values[k], y[k - j]))
