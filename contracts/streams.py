"""C19 fluid streams: mixing, splitting, pressure drops, recirculation and the distribution of a common stream"""
from contracts.common import T
from contracts.fluid import FS, any_stream, composition, model, properties, service, stream
from vc.harness import contract

PU = "libecalc.process.process_units."
SM = FS + "stream_mixer:StreamMixer"
ST = FS + "fluid_stream:FluidStream"
LS = "libecalc.domain.process.entities.process_units.legacy_splitter.legacy_splitter:LegacySplitter"
LM = "libecalc.domain.process.entities.process_units.legacy_mixer.legacy_mixer:LegacyMixer"
RM = "libecalc.domain.process.entities.process_units.rate_modifier.rate_modifier:RateModifier"
EX = FS + "exceptions:"
PE = "libecalc.process.process_pipeline.process_error:"
CO = "libecalc.process.stream_distribution.common_stream_distribution:"
PRIO = "libecalc.process.stream_distribution.priorities_stream_distribution:"
FIELDS = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]


def _same_fluid(s, a, b):
    return a.fluid_model == b.fluid_model


@contract("C19", SM + ".mix_streams", LM + ".mix_streams", PU + "mixer:Mixer.propagate_stream", FS + "fluid_model:FluidComposition.normalized",
          bounded="1 to 3 streams of 2 components (values unbounded); up to 5 streams of 11 components in runs", weight=3, budget=120, cases=400)
def mixing(s):
    """mass, every component and enthalpy are conserved; the pressure is the lowest one; one equation of state"""
    n = s.choice("streams", [1, 2, 3] if s.symbolic else [1, 2, 3, 5])
    comps = ["methane", "CO2"] if s.symbolic else FIELDS
    svc = service(s)
    fr, xs = [], []
    same = s.bool("one equation of state")
    for i in range(n):
        if s.symbolic:  # fractions that add up to one; any others: contract compositions, and runs
            a = s.real(f"fraction{i}", lo=0, hi=1)
            f = {"methane": a, "CO2": 1 - a}
        else:
            f = {c: s.real(f"{c}{i}", lo=0, hi=1) for c in comps}
        s.assume(sum(f.values()) > 0)
        fr.append(f)
        xs.append(stream(s, f"s{i}", model("SRK" if same or i != n - 1 else "PR", **f)))
    how = s.choice("unit", ["mixer", "legacy", "unit"])
    if how == "unit":
        s.assume(n == 2)
        u = T(PU + "mixer:Mixer")(svc)
        u.set_stream(xs[1])
        r = s.run(u.propagate_stream, xs[0])
    elif how == "legacy":
        r = s.run(T(LM)(n, svc).mix_streams, xs)
    else:
        r = s.run(T(SM)(svc).mix_streams, xs)
    total = sum(x.mass_rate_kg_per_h for x in xs)
    if s.and_(total == 0):
        s.ensure("nothing to mix is refused", r.raised(T(EX + "ZeroTotalMassRateException")))
        return
    if not same and n > 1:
        s.ensure("different equations of state are refused", r.raised(T(EX + "IncompatibleEoSModelsException")))
        return
    s.ensure("mixes", r.ok, str(r.exc))
    o = r.value
    s.ensure("mass is conserved", s.eq(o.mass_rate_kg_per_h, total))
    low = xs[0].pressure_bara
    for x in xs[1:]:
        low = s.ite(x.pressure_bara < low, x.pressure_bara, low)
    s.ensure("the pressure is the lowest one", s.eq(o.pressure_bara, low))
    s.ensure("the equation of state is that of the streams", o.fluid_model.eos_model == xs[0].fluid_model.eos_model)
    s.ensure("enthalpy is conserved", s.eq(o.enthalpy_joule_per_kg * total, sum(x.mass_rate_kg_per_h * x.enthalpy_joule_per_kg for x in xs)))
    moles = [x.mass_rate_kg_per_h / x.molar_mass for x in xs]
    for c in FIELDS:
        got = getattr(o.composition, c)
        if c not in comps:
            s.ensure("no component appears", s.eq(got, 0))
        else:
            s.ensure("every component is conserved", s.eq(got * sum(moles), sum(m * (f[c] / sum(f.values())) for m, f in zip(moles, fr))))


@contract("C19", SM + ".mix_streams", LM + ".mix_streams", PU + "mixer:Mixer.propagate_stream")
def mixing_refuses(s):
    """nothing to mix, a wrong number of streams or no side stream is an error"""
    svc = service(s)
    s.ensure("no streams", s.run(T(SM)(svc).mix_streams, []).raised(T(EX + "EmptyStreamListException")))
    n = s.choice("inputs", [1, 2, 3])
    k = s.choice("streams", [1, 2, 3])
    if n != k:
        s.ensure("number of streams", s.run(T(LM)(n, svc).mix_streams, [stream(s, f"s{i}") for i in range(k)]).raised(ValueError))
    s.ensure("no side stream", s.run(T(PU + "mixer:Mixer")(svc).propagate_stream, stream(s, "x")).raised(ValueError))


@contract("C19", PU + "choke:Choke.propagate_stream", PU + "choke:Choke.set_pressure_change", PU + "pressure_dropper:PressureDropper.propagate_stream",
          PU + "pressure_dropper:PressureDropper.set_pressure_drop")
def pressure_drops(s):
    """the pressure falls by the drop, temperature, rate and fluid stay; a drop beyond the pressure is an error, and so is a negative one"""
    svc = service(s)
    x = any_stream(s, svc, "in")
    dp = s.real("drop", lo=None if s.symbolic else -10, hi=None if s.symbolic else 450)
    if s.bool("zero"):
        dp = 0.0
    which = s.choice("unit", ["choke", "dropper"])
    if which == "choke":
        u = T(PU + "choke:Choke")(svc)
        r = s.run(u.set_pressure_change, dp)
    else:
        u = T(PU + "pressure_dropper:PressureDropper")(svc)
        r = s.run(u.set_pressure_drop, dp)
    if dp < 0:
        s.ensure("a negative drop is refused", r.raised(ValueError))
        return
    s.ensure("a drop is accepted", r.ok)
    r = s.run(u.propagate_stream, x)
    if x.pressure_bara - dp < 0:
        s.ensure("a drop beyond the pressure is an error", r.raised(T(PE + "InsufficientInletPressureError")))
        return
    s.ensure("does not fail", r.ok, str(r.exc))
    o = r.value
    s.ensure("the pressure falls by the drop", s.eq(o.pressure_bara, x.pressure_bara - dp))
    s.ensure("the temperature stays", s.eq(o.temperature_kelvin, x.temperature_kelvin))
    s.ensure("mass is conserved", s.eq(o.mass_rate_kg_per_h, x.mass_rate_kg_per_h))
    s.ensure("the standard rate stays", s.eq(o.standard_rate_sm3_per_day, x.standard_rate_sm3_per_day))
    s.ensure("the fluid stays", _same_fluid(s, o, x))


@contract("C19", PU + "splitter:Splitter.propagate_stream", PU + "splitter:Splitter.get_split_stream", PU + "direct_mixer:DirectMixer.propagate_stream",
          PU + "direct_splitter:DirectSplitter.propagate_stream", PU + "temperature_setter:TemperatureSetter.propagate_stream")
def taking_and_adding(s):
    """what is taken and what goes on is what came in; what is mixed in and taken out again leaves the stream; a new temperature keeps the mass"""
    svc = service(s)
    x = any_stream(s, svc, "in")
    q = s.real("rate", lo=0, hi=None if s.symbolic else 2e7)
    u = T(PU + "splitter:Splitter")(svc)
    u.set_rate(q)
    r = s.run(u.propagate_stream, x)
    over = q > x.standard_rate_sm3_per_day
    if over:
        s.ensure("taking more than there is is an error", r.raised(T(PE + "OfftakeExceedsInletError")))
    else:
        s.ensure("does not fail", r.ok, str(r.exc))
        rest, taken = r.value, u.get_split_stream(x)
        s.ensure("the rate taken", s.eq(taken.standard_rate_sm3_per_day, q))
        s.ensure("mass is conserved", s.eq(rest.mass_rate_kg_per_h + taken.mass_rate_kg_per_h, x.mass_rate_kg_per_h))
        for o in (rest, taken):
            s.ensure("pressure, temperature and fluid stay", s.and_(s.eq(o.pressure_bara, x.pressure_bara), s.eq(o.temperature_kelvin, x.temperature_kelvin), _same_fluid(s, o, x)))
    m = T(PU + "direct_mixer:DirectMixer")()
    m.set_mix_rate(q)
    d = T(PU + "direct_splitter:DirectSplitter")()
    d.set_split_rate(q)
    a = m.propagate_stream(x)
    s.ensure("the rate mixed in", s.eq(a.standard_rate_sm3_per_day, x.standard_rate_sm3_per_day + q))
    b = d.propagate_stream(a)
    s.ensure("what is mixed in and taken out leaves the stream", s.and_(s.eq(b.mass_rate_kg_per_h, x.mass_rate_kg_per_h), b.fluid is x.fluid))
    t = T(PU + "temperature_setter:TemperatureSetter")(svc)
    k = s.real("temperature", lo=1, hi=None if s.symbolic else 500)
    t.set_temperature(k)
    c = t.propagate_stream(x)
    s.ensure("the temperature is set, mass, pressure and fluid stay", s.and_(s.eq(c.temperature_kelvin, k), s.eq(c.mass_rate_kg_per_h, x.mass_rate_kg_per_h), s.eq(c.pressure_bara, x.pressure_bara), _same_fluid(s, c, x)))


@contract("C19", PU + "liquid_remover:LiquidRemover.propagate_stream")
def liquid_removed(s):
    """the mass that goes on is the mass of the gas"""
    v = s.real("vapor fraction", lo=0, hi=1)
    x = stream(s, "in", vapor=v)
    gas = stream(s, "gas", model(methane=1.0), rate=0.0).fluid
    svc = service(s, two_phase=lambda f: gas)
    r = s.run(T(PU + "liquid_remover:LiquidRemover")(svc).propagate_stream, x)
    s.ensure("does not fail", r.ok, str(r.exc))
    o = r.value
    if v < 0.9999:
        s.ensure("moles of gas are the vapor fraction of the moles", s.eq(o.mass_rate_kg_per_h / gas.molar_mass, v * x.mass_rate_kg_per_h / x.molar_mass))
        s.ensure("the fluid is the gas", o.fluid is gas)
    else:
        s.ensure("gas is unchanged", s.and_(s.eq(o.mass_rate_kg_per_h, x.mass_rate_kg_per_h), o.fluid is x.fluid))


@contract("C19", LS + ".split_stream", LS + ".rates_out_of_splitter", bounded="1 to 3 outlets (rates unbounded), up to 5 in runs")
def splitting(s):
    """the outlets take their rates and the last one the rest; mass is conserved whatever the rates"""
    n = s.choice("outlets", [1, 2, 3] if s.symbolic else [1, 2, 3, 5])
    x = stream(s, "in")
    hi = None if s.symbolic else 2e7
    q = [s.real(f"q{i}", lo=0, hi=hi) for i in range(n - 1)]
    if s.bool("all zero"):
        q = [0.0] * (n - 1)
    if s.bool("empty"):
        x = x.with_mass_rate(0.0)
    sp = T(LS)(n)
    sp.rates_out_of_splitter = list(q)
    r = s.run(sp.split_stream, x)
    s.ensure("does not fail", r.ok, str(r.exc))
    out = r.value
    s.ensure("one stream per outlet", len(out) == n)
    s.ensure("mass is conserved", s.eq(sum(o.mass_rate_kg_per_h for o in out), x.mass_rate_kg_per_h))
    s.ensure("the fluid stays", all(o.fluid is x.fluid for o in out))
    total = sum(q) if q else 0.0
    if x.standard_rate_sm3_per_day >= total:
        for i in range(n - 1):
            s.ensure("an outlet takes its rate", s.eq(out[i].standard_rate_sm3_per_day, q[i]))
        s.ensure("the last one takes the rest", s.eq(out[-1].standard_rate_sm3_per_day, x.standard_rate_sm3_per_day - total))
    else:
        s.ensure("nothing is left for the last one", s.eq(out[-1].mass_rate_kg_per_h, 0))
    s.ensure("a wrong number of rates is refused", not s.run(setattr, sp, "rates_out_of_splitter", [1.0] * n).ok)


@contract("C19", RM + ".add_rate", RM + ".remove_rate", RM + ".reset", RM + ".mass_rate_to_recirculate", RM + ".fraction_of_available_capacity_to_recirculate")
def recirculation(s):
    """through the compressor goes at least its minimum flow, plus what is asked for; what is added before it is removed after it"""
    x = stream(s, "in")
    low, high = s.func("minimum flow", 1, lo=0, hi=None if s.symbolic else 5000), s.func("maximum flow", 1, lo=0, hi=None if s.symbolic else 20000)

    class Chart:
        def minimum_rate_as_function_of_speed(self, speed):
            return low(speed)

        def maximum_rate_as_function_of_speed(self, speed):
            return high(speed)

    class Shaft:
        def get_speed(self):
            return speed

    speed = s.real("speed", lo=1, hi=None if s.symbolic else 100)
    m = object.__new__(T(RM))
    m._shaft, m._compressor_chart = Shaft(), Chart()
    m._additional_mass_rate, m._mass_rate_to_recirculate, m._fraction_of_available_capacity_to_recirculate = 0.0, None, None
    lo, hi = low(speed), high(speed)
    s.assume(lo <= hi)
    f, g = s.real("fraction", lo=0, hi=1), s.real("mass", lo=0, hi=None if s.symbolic else 1e6)
    steps = s.choice("settings", ["none", "fraction", "mass", "fraction then mass", "mass then fraction", "fraction then reset", "mass then reset"])
    for w in steps.split(" then "):
        if w == "fraction":
            m.fraction_of_available_capacity_to_recirculate = f
        elif w == "mass":
            m.mass_rate_to_recirculate = g
        elif w == "reset":
            m.reset()
    last = steps.split(" then ")[-1]
    q = x.mass_rate_kg_per_h / x.density
    r = s.run(m.add_rate, x)
    s.ensure("does not fail", r.ok, str(r.exc))
    a = r.value
    qa = a.mass_rate_kg_per_h / x.density
    if last == "fraction":
        asked = q + f * s.ite(hi > q, hi - q, 0)
    elif last == "mass":
        asked = q + g / x.density
    else:
        asked = q
    s.ensure("the flow asked for, or the minimum flow", s.eq(qa, s.ite(asked > lo, asked, lo)))
    s.ensure("the fluid stays", a.fluid is x.fluid)
    y = stream(s, "out", rate=a.mass_rate_kg_per_h)
    b = m.remove_rate(y)
    s.ensure("what is added is removed", s.eq(b.mass_rate_kg_per_h, x.mass_rate_kg_per_h))
    s.ensure("the fluid stays after the compressor", b.fluid is y.fluid)


@contract("C19", ST + ".standard_rate_sm3_per_day", ST + ".volumetric_rate_m3_per_hour", ST + ".with_mass_rate", ST + ".with_standard_rate", ST + ".with_new_fluid", ST + ".from_standard_rate", ST + ".__post_init__")
def rates_of_a_stream(s):
    """mass, standard and actual rates agree, and stay in step when one is set"""
    m = s.real("mass", lo=None if s.symbolic else -10, hi=None if s.symbolic else 1e6)
    if m < 0:
        s.ensure("a negative rate is refused", s.run(stream, s, "x", None, m).raised(T(EX + "NegativeMassRateException")))
        return
    x = stream(s, "x", rate=m)
    s.ensure("standard rate per day", s.eq(x.standard_rate_sm3_per_day, m * 24 / x.fluid.properties.standard_density))
    s.ensure("actual rate per hour", s.eq(x.volumetric_rate_m3_per_hour, m / x.fluid.properties.density))
    q = s.real("rate", lo=0, hi=None if s.symbolic else 1e7)
    a = x.with_standard_rate(q)
    s.ensure("a new standard rate", s.and_(s.eq(a.standard_rate_sm3_per_day, q), a.fluid is x.fluid))
    s.ensure("a new mass rate", s.and_(s.eq(x.with_mass_rate(q).mass_rate_kg_per_h, q), s.eq(x.with_mass_rate(q).standard_rate_sm3_per_day * x.fluid.properties.standard_density, q * 24)))
    b = T(ST).from_standard_rate(q, x.fluid_model, x.fluid.properties)
    s.ensure("from a standard rate", s.and_(s.eq(b.standard_rate_sm3_per_day, q), s.eq(b.pressure_bara, x.pressure_bara), s.eq(b.temperature_kelvin, x.temperature_kelvin)))
    y = stream(s, "y")
    s.ensure("a new fluid keeps the mass", s.eq(x.with_new_fluid(y.fluid).mass_rate_kg_per_h, m))


@contract("C19", FS + "fluid_model:FluidComposition.normalized", FS + "fluid_model:FluidComposition.molar_mass_mixture", FS + "fluid_model:FluidComposition.__post_init__", FS + "fluid_model:FluidComposition.from_dict",
          bounded="three components at a time (values unbounded), all eleven in runs")
def compositions(s):
    """fractions add up to one in the given proportions; the molar mass is that of the mixture; negative or no fractions are refused"""
    c = {k: s.real(k, lo=None if s.symbolic else -0.05, hi=None if s.symbolic else 1) for k in FIELDS}
    if s.symbolic or s.bool("sparse"):
        at = s.choice("components", [0, 3, 6, 8])
        c = {k: (v if k in FIELDS[at:at + 3] else 0.0) for k, v in c.items()}
    r = s.run(composition, **c)
    neg = s.or_(*[v < 0 for v in c.values()])
    if neg:
        s.ensure("negative fractions are refused", r.raised(T(EX + "NegativeComponentFractionException")))
        return
    s.ensure("accepted", r.ok, str(r.exc))
    total = sum(c.values())
    n = s.run(r.value.normalized)
    if total == 0:
        s.ensure("no fractions are refused", n.raised(T(EX + "InvalidFluidCompositionException")))
        return
    s.ensure("normalises", n.ok)
    for k in FIELDS:
        s.ensure("in the given proportions", s.eq(getattr(n.value, k) * total, c[k]))
    W = T(FS + "constants:ThermodynamicConstants").COMPONENTS
    M = s.run(lambda: r.value.molar_mass_mixture)
    s.ensure("molar mass of the mixture", M.ok and s.eq(M.value * total, sum(c[k] * W[k].molecular_weight_kg_per_mol for k in FIELDS)))
    s.ensure("an unknown component is refused", s.run(T(FS + "fluid_model:FluidComposition").from_dict, {"helium": 1.0}).raised(T(EX + "InvalidFluidCompositionException")))


@contract("C19", CO + "CommonStreamDistribution.get_streams", CO + "CommonStreamDistribution._adjust_for_overflow", CO + "CommonStreamDistribution.__init__",
          bounded="2 to 4 consumers with any capacities and rate fractions, overflow between any of them (values unbounded)", weight=2, budget=120, cases=400)
def common_stream(s):
    """each takes its fraction; what is beyond its capacity goes where its overflow goes, and nothing is lost"""
    import itertools
    n = s.choice("n", [2, 3] if s.symbolic else [2, 3, 4, 5])
    svc = service(s)
    x = any_stream(s, svc, "in")
    fr = [s.real(f"fraction{i}", lo=0, hi=1) for i in range(n)]
    cap = [s.real(f"capacity{i}", lo=0, hi=None if s.symbolic else 5e6) for i in range(n)]
    order = s.choice("order", list(itertools.permutations(range(n))) if n < 4 else [tuple(range(n)), tuple(reversed(range(n)))] + [tuple(s.rng.sample(range(n), n)) for _ in range(3)])
    # overflow goes from an earlier to a later one of the order, so there is no cycle
    to = [None] * n
    for a, b in zip(order, order[1:]):
        if s.bool(f"overflow{a}"):
            to[a] = b if s.symbolic or s.bool(f"next{a}") else order[-1]

    class Item(T(CO + "HasExcessRate")):
        def __init__(self, c):
            self.c = c

        def get_excess_rate(self, inlet_stream):
            q = inlet_stream.standard_rate_sm3_per_day
            return s.ite(q > self.c, q - self.c, 0.0)

    O = T(CO + "Overflow")
    names = [f"item{i}" for i in range(n)]
    r = s.run(T(CO + "CommonStreamDistribution"), x, {names[i]: Item(cap[i]) for i in range(n)}, list(fr), [O(from_id=names[i], to_id=names[t]) for i, t in enumerate(to) if t is not None], svc)
    s.ensure("accepted", r.ok, str(r.exc))
    g = s.run(r.value.get_streams)
    s.ensure("does not fail", g.ok, str(g.exc))
    q0 = x.standard_rate_sm3_per_day
    rate = [q0 * f for f in fr]
    for i in order:
        if to[i] is not None:
            over = s.ite(rate[i] > cap[i], rate[i] - cap[i], 0.0)
            rate[i], rate[to[i]] = rate[i] - over, rate[to[i]] + over
    s.ensure("one stream each", len(g.value) == n and r.value.get_number_of_streams() == n)
    for i in range(n):
        o = g.value[i]
        s.ensure("rate of each", s.eq(o.standard_rate_sm3_per_day, rate[i]), f"{i}: {o.standard_rate_sm3_per_day} {rate[i]} {to}")
        s.ensure("pressure, temperature and fluid of the common stream", s.and_(s.eq(o.pressure_bara, x.pressure_bara), s.eq(o.temperature_kelvin, x.temperature_kelvin), _same_fluid(s, o, x)))
    s.ensure("nothing is lost", s.eq(sum(o.standard_rate_sm3_per_day for o in g.value), q0 * sum(fr)))


@contract("C19", CO + "CommonStreamDistribution.__init__", PRIO + "find_first_valid", PRIO + "PrioritiesStreamDistribution.get_streams",
          bounded="1 to 3 settings of 1 to 3 consumers")
def priorities(s):
    """the first setting in which all are valid, else the last one; overflow in a ring is refused"""
    n, m = s.choice("n", [1, 2, 3]), s.choice("settings", [1, 2, 3])
    svc = service(s)
    grid = [[any_stream(s, svc, f"s{j}{i}") for i in range(n)] for j in range(m)]
    ok = s.func("valid", 2)
    valid = lambda i, st: ok(i, st.standard_rate_sm3_per_day) > 0

    class Item(T(PRIO + "HasValidity")):
        def __init__(self, i):
            self.i = i

        def is_valid(self, inlet_stream):
            return valid(self.i, inlet_stream)

    IND = T("libecalc.process.stream_distribution.individual_stream_distribution:IndividualStreamDistribution")
    d = T(PRIO + "PrioritiesStreamDistribution")([IND(g) for g in grid], [Item(i) for i in range(n)])
    r = s.run(d.get_streams)
    s.ensure("does not fail", r.ok, str(r.exc))
    want = grid[-1]
    for j in range(m - 1, -1, -1):
        if s.and_(*[valid(i, grid[j][i]) for i in range(n)]):
            want = grid[j]
    s.ensure("the first valid setting", len(r.value) == n and all(a is b for a, b in zip(r.value, want)))
    if n > 1:
        O = T(CO + "Overflow")
        names = [f"i{i}" for i in range(n)]
        c = s.run(T(CO + "CommonStreamDistribution"), grid[0][0], {k: None for k in names}, [1 / n] * n, [O(from_id=names[i], to_id=names[(i + 1) % n]) for i in range(n)], svc)
        s.ensure("a ring is refused", c.raised(T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")))


@contract("C19", FS + "fluid_property_validation:validate_ph_flash_result", FS + "process_conditions:ProcessConditions.__post_init__")
def states_are_checked(s):
    """a flash result is accepted only if physical and at the enthalpy asked for; pressures and temperatures are positive"""
    big = None if s.symbolic else 2e6
    v = {k: s.real(k, lo=None if s.symbolic else -0.05, hi=None if s.symbolic else 400) for k in ("temperature_kelvin", "pressure_bara", "density", "z", "kappa", "standard_density")}
    vf = s.real("vapor", lo=None if s.symbolic else -0.1, hi=None if s.symbolic else 1.1)
    h = s.real("h", lo=None if s.symbolic else -1e6, hi=None if s.symbolic else 1e6)
    t = h + s.real("off", lo=None if s.symbolic else -200, hi=None if s.symbolic else 200)
    p = properties(enthalpy_joule_per_kg=h, vapor_fraction_molar=vf, molar_mass=0.02, **v)
    r = s.run(T(FS + "fluid_property_validation:validate_ph_flash_result"), p, t, "x")
    err = s.ite(h > t, h - t, t - h)
    at = s.ite(t > 0, t, -t)
    tol = s.ite(at * 1e-4 > 10, at * 1e-4, 10)
    if not s.symbolic:
        s.assume(abs(err - tol) > 1e-6)
    good = s.and_(*[x > 0 for x in v.values()], vf >= -1e-5, vf <= 1 + 1e-5, err <= tol)
    s.ensure("accepted exactly if physical and at the enthalpy", s.iff(r.ok, good))
    c = s.run(T(FS + "process_conditions:ProcessConditions"), temperature_kelvin=v["temperature_kelvin"], pressure_bara=v["pressure_bara"])
    s.ensure("conditions are positive", s.iff(c.ok, s.and_(v["temperature_kelvin"] > 0, v["pressure_bara"] > 0)))
