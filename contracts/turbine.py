"""C16 turbines and turbine-driven compressors"""
from contracts.common import T, units
from vc.harness import contract

TB = "libecalc.domain.infrastructure.energy_components.turbine.turbine:Turbine"
CWT = "libecalc.domain.process.compressor.core.base:CompressorWithTurbineModel"
BASE = "libecalc.domain.process.compressor.core.base"
TR = "libecalc.domain.process.core.results.compressor:CompressorTrainResult"
TUR = "libecalc.domain.process.core.results.turbine:TurbineResult"


def _table(s, rows):
    """loads from zero, in order, and efficiencies between 0 and 1"""
    L = [0.0]
    for i in range(1, rows):
        step = s.real(f"step{i}", lo=0.001 if not s.symbolic else 0, hi=None if s.symbolic else 20, lo_open=True)
        L.append(L[-1] + step)
    return L, [s.real(f"eff{i}", lo=0, hi=1) for i in range(rows)]


def _efficiency(s, L, e, x):
    """linear between the points, the last efficiency above them"""
    v = e[-1]
    for i in range(len(L) - 2, -1, -1):
        v = s.ite(x <= L[i + 1], e[i] + (e[i + 1] - e[i]) * ((x - L[i]) / (L[i + 1] - L[i])), v)
    return v


@contract("C16", TB + ".__init__", TB + ".evaluate", TB + ".max_power", TUR + ".get_energy_result", TUR + "._is_valid", bounded="tables with 2 or 3 rows (values unbounded), up to 8 rows in concrete runs; loads and their number unbounded",
          weight=2, budget=100)
def turbine_fuel(s):
    """fuel is the load per day over the heating value and the efficiency at the load; the load is the adjusted one, and a load above the table is invalid"""
    rows = s.choice("rows", [2, 3] if s.symbolic else [2, 3, 5, 8])
    L, e = _table(s, rows)
    n = s.length("n", lo=1)
    load = s.array("load", n, lo=0, hi=None if s.symbolic else 60)
    lhv = s.real("lhv", lo=0)
    given = s.real("fuel_lhv", lo=0)
    f, c = s.real("factor", lo=0.1, hi=4), s.real("constant", lo=0, hi=None if s.symbolic else 10)
    if s.bool("plain"):
        f, c = 1.0, 0.0
    use_fuel = s.bool("heating value of the fuel")
    t = s.run(T(TB), loads=L, lower_heating_value=lhv, efficiency_fractions=e, energy_usage_adjustment_factor=f, energy_usage_adjustment_constant=c)
    s.ensure("the table is accepted", t.ok)
    r = s.run(t.value.evaluate, load, given) if use_fuel else s.run(t.value.evaluate, load)
    s.ensure("does not fail", r.ok)
    h = s.ite(given > 0, given, lhv) if use_fuel else lhv
    res = r.value.get_energy_result()
    s.ensure("one value per load", s.len(res.power.values) == n and s.len(res.energy_usage.values) == n and s.len(res.is_valid) == n)
    s.ensure("units", res.power.unit == units().MEGA_WATT and res.energy_usage.unit == units().STANDARD_CUBIC_METER_PER_DAY)
    for k in s.indices(n):
        adj = s.ite(load[k] > 0, (load[k] + c) / f, load[k])
        eff = r.value.efficiency[k]
        s.ensure("the load is the adjusted load", s.eq(res.power.values[k], adj))
        s.ensure("efficiency is linear in the adjusted load", s.eq(eff, _efficiency(s, L, e, adj)))
        if s.and_(h > 0, eff > 0):
            s.ensure("fuel is the energy per day over heating value and efficiency", s.eq(res.energy_usage.values[k], adj * 86400 / h / eff))
        s.ensure("no load, no fuel", s.implies(load[k] == 0, s.eq(res.energy_usage.values[k], 0)))
        s.ensure("invalid exactly above the largest load of the table", s.iff(res.is_valid[k], adj <= L[-1]))
        s.ensure("maximum power is the power at which the load is the largest of the table", s.implies(load[k] > 0, s.iff(load[k] <= t.value.max_power, adj <= L[-1])))


@contract("C16", TB + ".validate_loads_and_efficiency_factors", bounded="tables of up to 4 rows")
def turbine_tables(s):
    """loads and efficiencies pair up, and efficiencies are fractions"""
    a, b = s.choice("loads", [1, 2, 3, 4]), s.choice("effs", [1, 2, 3, 4])
    L = [float(i) for i in range(a)]
    e = [s.real(f"e{i}", lo=None if s.symbolic else -0.5, hi=None if s.symbolic else 1.5) for i in range(b)]
    t = s.run(T(TB), loads=L, lower_heating_value=38, efficiency_fractions=e, energy_usage_adjustment_factor=1, energy_usage_adjustment_constant=0)
    good = a == b and s.and_(*[s.and_(x >= 0, x <= 1) for x in e])
    s.ensure("accepted exactly if each load has one efficiency between 0 and 1", s.iff(t.ok, good))


class Q:
    def __init__(self, **k):
        self.__dict__.update(k)


class Compressor:
    """stands for a compressor model: any power for any rate and pressures, any maximum rate"""

    def __init__(self, power, most):
        self.power, self.most = power, most
        self._fluid_model = [None]

    def set_evaluation_input(self, rate, suction_pressure, discharge_pressure, fluid_model=None):
        self.inp = rate, suction_pressure, discharge_pressure

    def evaluate(self):
        r, ps, pd = self.inp
        p = [self.power(r[i], ps[i], pd[i]) for i in range(len(r))]
        return Q(get_energy_result=lambda: Q(power=Q(values=p)))

    def get_max_standard_rate(self, suction_pressures, discharge_pressures, fluid_model=None):
        return self.most


def _adjusted(s, p, f, c):
    return s.ite(p > 0, p * f + c, p)


@contract("C16", CWT + ".get_max_standard_rate", CWT + "._calculate_remaining_capacity_in_train_given_standard_rate", TB + ".max_power", bounded="1 or 2 periods; powers, rates and pressures unbounded")
def maximum_rate_with_turbine(s):
    """the maximum rate is that of the compressor where the turbine can deliver the power, else the rate at which it just can"""
    n = s.choice("n", [1, 2])
    ps, pd = s.array("ps", n, lo=1, hi=500), s.array("pd", n, lo=1, hi=500)
    most = s.array("most", n, lo=1, hi=None if s.symbolic else 1e6)
    biggest = s.real("largest load", lo=0.1, hi=None if s.symbolic else 50)
    f, c = s.real("factor", lo=0.1, hi=4), s.real("constant", lo=0, hi=None if s.symbolic else 10)
    tf, tc = s.real("turbine factor", lo=0.1, hi=4), s.real("turbine constant", lo=0, hi=None if s.symbolic else 10)
    per = s.real("power per rate", lo=0, hi=None if s.symbolic else 1e-3, lo_open=True)
    g = s.func("g", 3) if s.symbolic else None
    power = (lambda r, a, b: g(r, a, b)) if s.symbolic else (lambda r, a, b: 0.0 if r <= 0 else per * r * (1 + b / 100))
    orig = [most[k] for k in range(n)]
    tur = T(TB)(loads=[0, biggest], lower_heating_value=38, efficiency_fractions=[0.3, 0.3], energy_usage_adjustment_factor=tf, energy_usage_adjustment_constant=tc)
    m = T(CWT)(Compressor(power, most), energy_usage_adjustment_constant=c, energy_usage_adjustment_factor=f, turbine_model=tur)
    if s.symbolic:
        root = s.func("root", 2)

        def find_root(lower_bound, upper_bound, func, **kw):
            """contract of find_root: a root of func between the bounds"""
            x = root(lower_bound, upper_bound)
            s.assume(x >= lower_bound)
            s.assume(x <= upper_bound)
            s.assume(func(x) == 0)
            return x

        s.patch(T(BASE), "find_root", find_root)
    mp = tur.max_power
    s.assume(mp > 0.1)
    s.assume(mp > c + 0.01)
    r = s.run(m.get_max_standard_rate, suction_pressures=ps, discharge_pressures=pd)
    s.ensure("does not fail", r.ok)
    s.ensure("one rate per period", s.len(r.value) == n)
    for k in s.indices(n):
        full = _adjusted(s, power(orig[k], ps[k], pd[k]), f, c)
        if full <= mp:
            s.ensure("the compressor's maximum rate where the turbine can deliver it", s.eq(r.value[k], orig[k]))
        else:
            have = _adjusted(s, power(r.value[k], ps[k], pd[k]), f, c)
            if s.symbolic:
                s.ensure("a rate the turbine can deliver", have <= mp)
                s.ensure("and no less than that but for the tolerance", have >= mp - 0.001)
            else:
                s.ensure("the rate the turbine can just deliver", abs(have - mp) <= 2e-3 * max(mp, 1))
            s.ensure("within the compressor's", s.and_(r.value[k] >= 0, r.value[k] <= orig[k]))


@contract("C16", CWT + ".evaluate", CWT + ".evaluate_turbine_based_on_compressor_model_result", TR + ".turbine_result", TR + ".get_energy_result", TR + "._is_valid", TUR + "._is_valid")
def compressor_with_turbine(s):
    """the turbine is loaded with the adjusted power of the compressor, and its fuel and load are reported as energy usage and power; valid where compressor and turbine are"""
    import numpy as np
    n = s.length("n", lo=1)
    P = s.array("power", n, lo=0, hi=None if s.symbolic else 40, kind="list", nan=True)
    valid = s.bools("stage valid", n)
    ex = s.bools("exceeds", n)
    f, c = s.real("factor", lo=0.1, hi=4), s.real("constant", lo=0, hi=None if s.symbolic else 10)
    FS = T("libecalc.domain.process.core.results.compressor:CompressorTrainCommonShaftFailureStatus")
    fails = s.bools("fails", n)
    status = [FS.ABOVE_MAXIMUM_POWER if fails[k] else FS.NO_FAILURE for k in range(n)]
    SC = T("libecalc.domain.process.core.results.compressor:CompressorStreamCondition")
    u = units()
    tr = T(TR)(rate_sm3_day=[0.0], max_standard_rate=None, inlet_stream_condition=None, outlet_stream_condition=None, stage_results=[Q(is_valid=valid)], failure_status=status,
               turbine_result=None, energy_usage=P, energy_usage_unit=u.MEGA_WATT, power=P, power_unit=u.MEGA_WATT)
    fuel, load = s.func("fuel", 1), s.func("load", 1)
    seen = []

    class Tur:
        """stands for Turbine (contract: turbine_fuel)"""

        def evaluate(self, load):
            seen.append(load)
            return T(TUR)(load=[l(load[k]) for k in range(n)], efficiency=[0.3 for k in range(n)], load_unit=u.MEGA_WATT, exceeds_maximum_load=ex,
                          energy_usage=[fuel(load[k]) for k in range(n)], energy_usage_unit=u.STANDARD_CUBIC_METER_PER_DAY)

    l = load
    comp = Compressor(None, None)
    comp.evaluate = lambda: tr
    m = T(CWT)(comp, energy_usage_adjustment_constant=c, energy_usage_adjustment_factor=f, turbine_model=Tur())
    r = s.run(m.evaluate)
    s.ensure("does not fail", r.ok)
    s.ensure("a turbine is evaluated once", len(seen) == 1)
    res = r.value.get_energy_result()
    s.ensure("units", res.power.unit == u.MEGA_WATT and res.energy_usage.unit == u.STANDARD_CUBIC_METER_PER_DAY)
    s.ensure("one value per period", s.len(res.power.values) == n and s.len(res.energy_usage.values) == n and s.len(res.is_valid) == n)
    for k in s.indices(n):
        adj = seen[0][k]
        s.ensure("load is the adjusted power", s.or_(s.isnan(P[k]), s.eq(adj, s.ite(P[k] > 0, P[k] * f + c, P[k]))))
        s.ensure("no number where the compressor has none", s.implies(s.isnan(P[k]), s.isnan(adj)))
        s.ensure("power is the turbine load", s.or_(s.isnan(P[k]), s.eq(res.power.values[k], load(adj))))
        s.ensure("energy usage is the fuel", s.or_(s.isnan(P[k]), s.eq(res.energy_usage.values[k], fuel(adj))))
        s.ensure("valid where compressor and turbine are", s.iff(res.is_valid[k], s.and_(valid[k], s.not_(ex[k]), s.not_(fails[k]))))
