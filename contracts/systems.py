"""C11 consumer systems: crossover, choice of operational setting, sums over the consumers"""
import numpy as np

from contracts.common import T, periods, units
from contracts.consumers import Loss, Rate
from vc.harness import contract

SYS = "libecalc.domain.infrastructure.energy_components.legacy_consumer.system."
FN = SYS + "consumer_function:ConsumerSystemConsumerFunction"
OS = SYS + "operational_setting:ConsumerSystemOperationalSettingExpressions"
OSR = SYS + "results:ConsumerSystemOperationalSettingResult"
CFR = SYS + "results:ConsumerSystemConsumerFunctionResult"
NAMED = SYS + "results:SystemComponentResultWithName"
PICK = SYS + "utils:get_operational_settings_number_used_from_model_results"
BASE = "libecalc.domain.process.core.results.base:"
# every way two or three consumers can be connected, no consumer both sending and receiving (as the manual asks)
CROSS = [None, [0, 0], [2, 0], [0, 1], [0, 0, 0], [2, 0, 0], [3, 0, 0], [0, 1, 0], [0, 3, 0], [0, 0, 1], [0, 0, 2], [3, 3, 0], [2, 0, 2], [0, 1, 1]]
BOUND = "systems of two or three consumers, one to three operational settings (any number of periods, any values)"


class Values:
    """stands for TimeSeriesPressure / TimeSeriesFluidDensity (contract: C07)"""

    def __init__(self, v):
        self.v = v

    def get_values(self):
        return self.v


class Consumer:
    """stands for ConsumerSystemComponent: any function of rate, pressures and density, the same in every period"""

    def __init__(self, s, name, unit, power):
        self.s, self.name, self.unit, self.power = s, name, unit, power
        self.max = s.func(f"max_{name}", 3, lo=0)
        self.use = s.func(f"use_{name}", 4)
        self.ok = s.func(f"ok_{name}", 4)

    def get_max_standard_rate(self, suction_pressure, discharge_pressure, fluid_density=None):
        n = len(suction_pressure)
        d = fluid_density if hasattr(fluid_density, "__len__") else [fluid_density if fluid_density is not None else 1] * n
        return np.asarray([self.max(a, b, c) for a, b, c in zip(suction_pressure, discharge_pressure, d)])

    def evaluate(self, rate, suction_pressure, discharge_pressure, fluid_density=None):
        n = len(rate)
        d = fluid_density if hasattr(fluid_density, "__len__") else [fluid_density if fluid_density is not None else 1] * n
        use = [self.use(*a) for a in zip(rate, suction_pressure, discharge_pressure, d)]
        ok = [self.ok(*a) > 0 for a in zip(rate, suction_pressure, discharge_pressure, d)]
        return Result(self.unit, use, ok, self.power)


class Result:
    """stands for an EnergyFunctionResult"""

    def __init__(self, unit, use, ok, power):
        Q, R = T(BASE + "Quantity"), T(BASE + "EnergyResult")
        U = units()
        self.r = R(energy_usage=Q(values=use, unit=unit), power=Q(values=use if unit == U.MEGA_WATT else power, unit=U.MEGA_WATT) if power is not None else None, is_valid=ok)

    def get_energy_result(self):
        return self.r


def _setting(s, tag, pers, n, m, cross, dens):
    r = [s.array(f"rate{tag}{i}", n, kind="list") for i in range(m)]
    ps = [s.array(f"ps{tag}{i}", n, kind="list") for i in range(m)]
    pd = [s.array(f"pd{tag}{i}", n, kind="list") for i in range(m)]
    fd = [s.array(f"dens{tag}{i}", n, kind="list") for i in range(m)] if dens else None
    args = dict(rates=[Rate(pers, x) for x in r], suction_pressures=[Values(x) for x in ps], discharge_pressures=[Values(x) for x in pd], cross_overs=cross)
    if dens:
        args["fluid_densities"] = [Values(x) for x in fd]
    o = T(OS)(**args)
    return o, r, ps, pd, fd


def _after(s, cons, cross, r, ps, pd, fd, k):
    """the rates after crossover in period k, from the manual"""
    m = len(r)
    out = [r[i][k] for i in range(m)]
    for i, c in enumerate(cross or []):
        if c:
            mx = cons[i].max(ps[i][k], pd[i][k], fd[i][k] if fd else 1)
            t = s.ite(s.and_(r[i][k] > mx, pd[c - 1][k] >= pd[i][k]), r[i][k] - mx, 0)
            out[i] = out[i] - t
            out[c - 1] = out[c - 1] + t
    return out


@contract("C11", FN + ".calculate_operational_settings_after_cross_over", OS + ".get_rate_after_crossover", OS + ".get_crossover_rate", OS + ".set_rates_after_crossover", OS + ".get_rate", OS + ".get_discharge_pressure", OS + ".get_fluid_density", bounded=BOUND)
def crossover(s):
    """rate above a consumer's maximum goes to its crossover receiver, when that has at least the discharge pressure; the total rate is unchanged"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    cross = s.choice("cross", CROSS[1:])
    dens = s.choice("density", [True, False])
    m = len(cross)
    U = units()
    cons = [Consumer(s, f"c{i}", U.MEGA_WATT, None) for i in range(m)]
    o, r, ps, pd, fd = _setting(s, "a", pers, n, m, cross, dens)
    f = T(FN)(consumer_components=cons, operational_settings_expressions=[o], power_loss_factor=None)
    q = s.run(f.calculate_operational_settings_after_cross_over, o)
    s.ensure("does not fail", q.ok)
    a = [s.run(o.get_rate_after_crossover, i) for i in range(m)]
    x = [s.run(o.get_crossover_rate, i) for i in range(m)]
    b = [s.run(o.get_rate, i) for i in range(m)]
    s.ensure("rates can be read", all(y.ok for y in a + x + b))
    for i in range(m):
        s.ensure("one rate per period", s.and_(s.len(a[i].value) == n, s.len(x[i].value) == n))
    for k in s.indices(n):
        want = _after(s, cons, cross, r, ps, pd, fd, k)
        s.ensure("total rate kept", s.eq(sum(a[i].value[k] for i in range(m)), sum(r[i][k] for i in range(m))))
        for i in range(m):
            s.ensure("given rate is not changed", s.eq(b[i].value[k], r[i][k]))
            s.ensure("rate after crossover", s.eq(a[i].value[k], want[i]))
            s.ensure("crossover rate is the difference", s.eq(x[i].value[k], want[i] - r[i][k]))
            c = cross[i]
            if c:
                mx = cons[i].max(ps[i][k], pd[i][k], fd[i][k] if fd else 1)
                s.ensure("a sender is left with at most its maximum", s.implies(pd[c - 1][k] >= pd[i][k], s.le(a[i].value[k], mx)))


@contract("C11", PICK, OSR + ".is_valid", OSR + ".indices_outside_capacity", OSR + ".indices_within_capacity", OSR + ".__len__", bounded=BOUND)
def chosen_setting(s):
    """in every period the first operational setting all consumers can run is used, the last one if there is none"""
    n = s.length("n", lo=1)
    U = units()
    m, p = s.choice("consumers", [1, 2]), s.choice("settings", [1, 2, 3])
    ok = [[s.bools(f"ok{j}{i}", n) for i in range(m)] for j in range(p)]
    zero = s.array("use", n, kind="list")
    r = s.run(T(PICK), consumer_system_operational_settings_results=[T(OSR)(consumer_results=[Result(U.MEGA_WATT, zero, o, None) for o in ok[j]]) for j in range(p)])
    s.ensure("does not fail", r.ok)
    s.ensure("one per period", s.len(r.value) == n)
    for k in s.indices(n):
        good = [s.and_(*[ok[j][i][k] for i in range(m)]) for j in range(p)]
        want = p - 1
        for j in reversed(range(p)):
            want = s.ite(good[j], j, want)
        s.ensure("lowest valid, else last", s.eq(r.value[k], want))


@contract("C11", OSR + ".energy_usage", OSR + ".power", OSR + ".is_valid", CFR + ".energy_usage", CFR + ".power", CFR + ".is_valid", CFR + ".energy_usage_unit", CFR + ".power_loss_factor", bounded=BOUND)
def system_sums(s):
    """energy and power of a system are the sums over its consumers (with losses), valid only where all of them are"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    U = units()
    m = s.choice("consumers", [1, 2, 3])
    unit = s.choice("unit", [U.MEGA_WATT, U.STANDARD_CUBIC_METER_PER_DAY])
    lossy = s.choice("loss", [True, False])
    powered = [s.choice(f"power{i}", [True, False]) for i in range(m)]
    f = s.array("f", n)
    s.assume_all(n, lambda k: f[k] < 1)
    use = [s.array(f"use{i}", n, kind="list") for i in range(m)]
    pw = [s.array(f"pw{i}", n, kind="list") for i in range(m)]
    ok = [s.bools(f"ok{i}", n) for i in range(m)]
    R = [Result(unit, use[i], ok[i], pw[i] if powered[i] else None) for i in range(m)]
    real = [(use[i] if unit == U.MEGA_WATT else pw[i]) if powered[i] else None for i in range(m)]
    one = T(OSR)(consumer_results=R)
    two = T(CFR)(periods=pers, operational_setting_used=[], consumer_results=[T(NAMED)(name=f"c{i}", result=R[i]) for i in range(m)], cross_over_used=None, power_loss_factor=Loss(f) if lossy else None)
    for v, loss in ((one, False), (two, lossy)):
        e, w, g = (s.run(lambda a=a: getattr(v, a)) for a in ("energy_usage", "power", "is_valid"))
        s.ensure("does not fail", e.ok and w.ok and g.ok)
        for k in s.indices(n):
            div = 1 - f[k] if loss else 1
            s.ensure("energy is the sum", s.eq(e.value[k], sum(u[k] for u in use) / div))
            s.ensure("power is the sum", s.eq(w.value[k], sum(u[k] for u in real if u is not None) / div))
            s.ensure("valid where all are", s.iff(g.value[k], s.and_(*[o[k] for o in ok])))
    s.ensure("unit of the consumers", two.energy_usage_unit == unit)


@contract("C11", FN + ".evaluate", FN + ".validate", FN + ".calculate_operational_settings_after_cross_over", PICK, CFR + ".energy_usage", CFR + ".is_valid", bounded=BOUND, cases=300)
def evaluate_system(s):
    """every consumer is run with the rate, pressures and density of the setting chosen for the period"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    U = units()
    cross = s.choice("cross", [None, [2, 0], [0, 1]])
    cross2 = s.choice("cross2", [[2, 0], None, "none"])
    dens = s.choice("density", [True, False])
    m = 2
    cons = [Consumer(s, f"c{i}", U.MEGA_WATT, True) for i in range(m)]
    st = [_setting(s, "a", pers, n, m, cross, dens)]
    cr = [cross]
    if cross2 != "none":
        st.append(_setting(s, "b", pers, n, m, cross2, dens))
        cr.append(cross2)
    f = T(FN)(consumer_components=cons, operational_settings_expressions=[o[0] for o in st], power_loss_factor=None)
    q = s.run(f.evaluate)
    s.ensure("does not fail", q.ok)
    v = q.value
    eu, val = s.run(lambda: v.energy_usage), s.run(lambda: v.is_valid)
    s.ensure("results can be read", eu.ok and val.ok)
    s.ensure("consumers in order", [c.name for c in v.consumer_results] == ["c0", "c1"])
    each = [c.result.get_energy_result() for c in v.consumer_results]
    s.ensure("periods of the setting", v.periods is pers)
    for k in s.indices(n):
        rates = [_after(s, cons, cr[j], *st[j][1:], k) for j in range(len(st))]
        args = [[(rates[j][i], st[j][2][i][k], st[j][3][i][k], st[j][4][i][k] if dens else 1) for i in range(m)] for j in range(len(st))]
        good = [s.and_(*[cons[i].ok(*args[j][i]) > 0 for i in range(m)]) for j in range(len(st))]
        j0 = s.ite(good[0], 0, len(st) - 1)
        s.ensure("setting used", s.eq(v.operational_setting_used[k], j0))
        use = [cons[i].use(*args[-1][i]) for i in range(m)]
        ok = good[-1]
        moved = [s.or_(*[rates[j][i] > st[j][1][i][k] for i in range(m)]) for j in range(len(st))]
        mv = moved[-1]
        if len(st) == 2:
            use = [s.ite(good[0], cons[i].use(*args[0][i]), use[i]) for i in range(m)]
            ok = s.or_(good[0], good[1])
            mv = s.or_(s.and_(good[0], moved[0]), s.and_(s.not_(good[0]), moved[1]))
        for i in range(m):
            s.ensure("usage of the consumer", s.eq(each[i].energy_usage.values[k], use[i]))
        s.ensure("usage of the system", s.eq(eu.value[k], sum(use)))
        s.ensure("valid", s.iff(val.value[k], ok))
        s.ensure("crossover used", s.iff(v.cross_over_used[k], mv))


@contract("C11", OS + ".check_list_length", FN + ".validate")
def setting_lists(s):
    """a setting with lists that do not have one entry per consumer is refused"""
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    U = units()
    a, b, c, e = (s.choice(x, [1, 2, 3]) for x in ("rates", "suction", "discharge", "consumers"))
    cr = s.choice("crossover", [None, [0], [0, 0], [0, 0, 0]])
    x = s.array("x", n, kind="list")
    V = T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")
    r = s.run(lambda: T(OS)(rates=[Rate(pers, x)] * a, suction_pressures=[Values(x)] * b, discharge_pressures=[Values(x)] * c, cross_overs=cr))
    good = b == a and c == a and (cr is None or len(cr) == a)
    s.ensure("refused exactly when lengths differ", r.ok if good else r.raised(V))
    if r.ok:
        q = s.run(lambda: T(FN)(consumer_components=[Consumer(s, f"c{i}", U.MEGA_WATT, None) for i in range(e)], operational_settings_expressions=[r.value], power_loss_factor=None))
        s.ensure("refused exactly when the number of consumers differs", q.ok if a == e else q.raised(V))


CMP = SYS + "types:ConsumerSystemComponent"
PUMP = "libecalc.domain.process.pump.pump:PumpModel"
TRAIN = "libecalc.domain.process.compressor.core.train.base:CompressorTrainModel"
SAMPLED = "libecalc.domain.process.compressor.core.sampled:CompressorModelSampled"
TURB = "libecalc.domain.process.compressor.core.base:CompressorWithTurbineModel"


def _facility(base, log, answer, inner=None):
    """a facility model of the given class that records what it is asked"""

    def init(self):
        pass

    def note(name):
        def f(self, *a, **k):
            log.append((name, a, k))
            return answer

        return f

    body = {m: note(m) for m in ("evaluate", "evaluate_rate_ps_pd_density", "get_max_standard_rate", "get_max_standard_rates", "set_evaluation_input")}
    for m in getattr(base, "__abstractmethods__", ()):
        body.setdefault(m, note(m))
    body["__init__"] = init
    if inner is not None:
        body["compressor_model"] = inner
    return type("Facility", (base,), body)()


@contract("C11", CMP + ".evaluate", CMP + ".get_max_standard_rate")
def component_inputs(s):
    """a consumer of a system hands its model the rate, suction pressure, discharge pressure, density and fluid it is given"""
    n = s.length("n", lo=1)
    kind = s.choice("kind", ["pump", "train", "sampled", "turbine train", "turbine sampled"])
    rate, ps, pd, rho = (s.array(x, n) for x in ("rate", "ps", "pd", "rho"))
    log, fluid, answer = [], object(), object()
    if kind.startswith("turbine"):
        inner = _facility(T(TRAIN if kind.endswith("train") else SAMPLED), log, None)
        model = _facility(T(TURB), log, answer, inner)
    else:
        model = _facility(T({"pump": PUMP, "train": TRAIN, "sampled": SAMPLED}[kind]), log, answer)
    c = T(CMP)(name="x", facility_model=model, fluid_model=fluid)
    s.ensure("name", c.name == "x")
    q = s.run(c.get_max_standard_rate, suction_pressure=ps, discharge_pressure=pd, fluid_density=rho)
    s.ensure("maximum rate is the model's", q.ok and q.value is answer and len(log) == 1)
    _, a, k = log.pop()
    args = list(a) + list(k.values())
    for what in ("suction", "discharge"):
        got = [v for key, v in k.items() if what in key]
        s.ensure("maximum rate at the given pressures", got[0] is (ps if what == "suction" else pd) if got else args[0 if what == "suction" else 1] is (ps if what == "suction" else pd))
    s.ensure("density for a pump, fluid for a train", any(v is rho for v in args) if kind == "pump" else ("sampled" in kind or any(v is fluid for v in args)))
    q = s.run(c.evaluate, rate=rate, suction_pressure=ps, discharge_pressure=pd, fluid_density=rho)
    s.ensure("result is the model's", q.ok and q.value is answer)
    given = {}
    for _, a, k in log:
        given.update(k)
    for what, v in (("rate", rate), ("suction", ps), ("discharge", pd)):
        s.ensure("evaluated with what is given", any(x is v for key, x in given.items() if key.startswith(what)))
    if kind == "pump":
        s.ensure("with the density", any(x is rho for key, x in given.items() if "densit" in key))
    if kind.endswith("train"):
        s.ensure("with the fluid", any(x is fluid for key, x in given.items() if "fluid" in key))
