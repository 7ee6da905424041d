"""C23 solving a process for its outlet pressure"""
import math

from contracts.common import T
from contracts.fluid import R, any_stream, model, service
from contracts.trains import _Fake, _Train, _bare, _module
from vc.harness import contract

PS = "libecalc.process.process_solver."
PU = "libecalc.process.process_units."
PP = "libecalc.process.process_pipeline."
SO = PS + "solver:"
CO = PS + "configuration:"
SEC = PS + "pipeline_section_solver:PipelineSectionSolver"
FCN = PS + "float_constraint:FloatConstraint"
SH = "libecalc.process.shaft:VariableSpeedShaft"
CP = PU + "compressor:Compressor"
BO = PS + "boundary:Boundary"
CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]


def _units(t, svc, control, shaft):
    """the stages as a section of a process of the code"""
    units, comps = [], []
    for d, temp, drop in zip(t.data, t.temps, t.drops):
        c = T(CP)(compressor_chart=d, fluid_service=svc)
        shaft.connect(c)
        comps.append(c)
        if drop:
            units.append(T(PU + "choke:Choke")(fluid_service=svc, pressure_change=drop))
        units += [T(PU + "temperature_setter:TemperatureSetter")(fluid_service=svc, required_temperature_kelvin=temp), T(PU + "liquid_remover:LiquidRemover")(fluid_service=svc), c]
    A = T(PS + "anti_surge.anti_surge_strategy:AntiSurgeType")
    return T(PS + "section_assembly:assemble_process_section")(units, A.COMMON_ASV if control == "COMMON_ASV" else A.INDIVIDUAL_ASV, control, svc), comps


def _assembled(a, comps, control, shaft, name="train"):
    """and what solves it, with the valves its pressure control needs"""
    H = T(PS + "choke_configuration_handler:ChokeConfigurationHandler")
    choke = next((h for h in a.configuration_handlers if isinstance(h, H)), None)
    loops = [h for h in a.configuration_handlers if h is not choke]
    return T(PS + "solver_assembly:assemble_solver")(
        process_units=a.process_units, configuration_handlers=[shaft, *a.configuration_handlers], compressors=comps, recirculation_loops=loops, shaft=shaft, pipeline_name=name,
        pressure_control_type=control, choke=choke and choke._choke, choke_configuration_handler=choke)


def _system(t, svc, control):
    """the train as a process of the code"""
    shaft = T(SH)()
    return _assembled(*_units(t, svc, control, shaft), control, shaft)


def _applied(system, configurations, gas):
    """what comes out of the process with exactly these settings and all others at rest"""
    for h in system.runner._configuration_handlers.values():
        h.reset()
    for c in configurations:
        system.runner.apply_configuration(c)
    return system.runner.run(inlet_stream=gas)


def _common(t, N, mass, ps, part=0.0):
    """the train with one recirculation around all stages, part of the way from the least that keeps every stage out of surge to the most the first stage takes; None if there is none"""
    first = t.run(N, mass, ps)[3][0]
    inside = lambda x: x[1] and all(a[4] * (1 - 1e-9) <= a[1] <= a[5] * (1 + 1e-9) for a in x[3])
    top, ok = max(first[5], mass), None
    low = max(mass, first[4])
    at = lambda m: t.run(N, m, ps, [m] * t.n)
    surge = lambda x: any(a[1] < a[4] for a in x[3])
    if not t.run(N, mass, ps)[1]:
        return None
    a, b = low, top
    if surge(at(a)):
        if surge(at(b)):
            return None
        for _ in range(60):
            mid = (a + b) / 2
            a, b = (mid, b) if surge(at(mid)) else (a, mid)
        low = b
        if not inside(at(low * 1.05)) or top < low * 1.05:
            t.narrow = True  # next to nothing between the surge of one stage and the stonewall of another
    x = at(low)
    if not inside(x):
        return None
    if part == 0:
        return x
    m = low + part * (top - low)
    x = at(m)
    return x if inside(x) else None


def _pressure(t, control, N, mass, ps):
    """the pressure at a speed with nothing but the least recirculation, None if the train does not take the rate"""
    x = _common(t, N, mass, ps) if control == "COMMON_ASV" else t.run(N, mass, ps)
    return x[0] if x is not None and x[1] else None


def _solvable(t, control, mass, target):
    """whether the pressure can be had as the process is controlled, and at which speed if it is more than asked for at all; None where it is too close to tell"""
    t.narrow = False
    can, N = _can(t, control, mass, target)
    return (None, None) if t.narrow else (can, N)


def _can(t, control, mass, target):
    lo, hi = t.speeds()
    top = _pressure(t, control, hi, mass, t.ps)
    if top is None:
        return None, None
    if top < target * (1 - 1e-3):
        return False, hi
    if top < target * (1 + 1e-3):
        return None, None
    ok = lambda N: _pressure(t, control, N, mass, t.ps) is not None
    a, b = lo, hi
    if ok(lo):
        N = lo
    else:
        for _ in range(50):
            mid = (a + b) / 2
            a, b = (a, mid) if ok(mid) else (mid, b)
        N = b
    if not all(ok(N + (hi - N) * k / 10) for k in range(11)):
        return None, None
    least = _pressure(t, control, N, mass, t.ps)
    if least < target * (1 - 1e-3):
        return True, None
    if least < target * (1 + 5e-3):
        return None, None
    return _lowers(t, control, N, mass, target), N


def _lowers(t, control, N, mass, target):
    """whether the pressure can be lowered to this at the speed; None where it is too close to tell"""
    if control == "COMMON_ASV":
        xs = [_common(t, N, mass, t.ps, k / 60) for k in range(61)]
        n = next((i for i, x in enumerate(xs) if x is None), 61)
        if any(x is not None and x[0] < target * (1 - 5e-3) for x in xs[:n]):
            return True
        return False if n == 61 and xs[-1][0] > target * (1 + 5e-3) else None
    if control == "INDIVIDUAL_ASV_RATE":
        for k in range(61):
            p, ok = t.ps, True
            for i in range(t.n):
                one = t.part(i, i + 1)
                x = one.run(N, mass, p)[3][0]
                low, high = max(mass, x[4]), x[5]
                ok = ok and mass <= high
                m = low + (max(high, low) - low) * k / 60
                p = one.run(N, m, p, [m])[0] if ok else p
            if not ok:
                return None
            if p < target * (1 - 5e-3):
                return True
        return False if p > target * (1 + 5e-3) else None
    P = T("libecalc.common.fixed_speed_pressure_control:FixedSpeedPressureControl")
    return True if t.lowers(N, mass, target, getattr(P, control), t.ps) else None


FI = PS + "finders."
PE = PP + "process_error:"
SS = PS + "search_strategies:"
THERMO = "libecalc.domain.process.compressor.core.exceptions:CompressorThermodynamicCalculationError"


def _errors(s):
    E = {"surge": T(PE + "CompressorSurgeError"), "stonewall": T(PE + "CompressorStonewallError"), "insufficient": T(PE + "InsufficientInletPressureError")}
    return {"surge": lambda: E["surge"](process_unit_id="u", actual_rate=1.0, boundary_rate=2.0), "stonewall": lambda: E["stonewall"](process_unit_id="u", actual_rate=3.0, boundary_rate=2.0),
            "insufficient": lambda: E["insufficient"](process_unit_id="u", inlet_pressure_bara=1.0, required_delta_pressure_bara=2.0), "thermo": lambda: T(THERMO)("flash", "no such state"),
            "liquid": lambda: T(PE + "LiquidAtInletError")(process_unit_id="u", vapor_fraction=0.5)}


def _searches(s):
    """the searches: in proofs by their contracts (C20), with any result these allow"""
    if not s.symbolic:
        return T(SS + "Bisect")(tolerance=1e-7, max_iterations=60), T(SS + "ScipyRootFindingStrategy")()
    count = [0]
    B = T(SS + "DidNotConvergeError")

    def fresh(boundary):
        count[0] += 1
        x = s.real(f"found {count[0]}")
        s.assume(s.and_(boundary.min <= x, x <= boundary.max))
        return x

    class Search:
        def search(self, boundary, func):
            x = fresh(boundary)
            if not func(x).accepted:
                raise B(boundary=boundary, tolerance=1e-3, iterations=10)
            return x

        def highest_true(self, boundary, predicate):
            if predicate(boundary.max):
                return boundary.max
            if not predicate(boundary.min):
                return None
            x = fresh(boundary)
            s.assume(predicate(x))
            return x

    class Root:
        def find_root(self, boundary, func):
            a, b = func(boundary.min), func(boundary.max)
            if not s.or_(s.and_(a <= 0, b >= 0), s.and_(a >= 0, b <= 0)):
                raise ValueError("f(a) and f(b) must have different signs")
            x = fresh(boundary)
            s.assume(s.eq(func(x), 0))
            return x

    return Search(), Root()


def _failed(f, name):
    return isinstance(f.failure, T(SO + name))


def _unreachable(f, which):
    return _failed(f, "TargetPressureUnreachableFailure") and f.failure.direction is getattr(T(SO + "TargetDirection"), which)


@contract("C23", FI + "shaft_speed_finder:ShaftSpeedFinder.find", FI + "shaft_speed_finder:ShaftSpeedFinder._find_min_within_capacity_speed", FI + "shaft_speed_finder:ShaftSpeedFinder._eos_ok", cases=400)
def finds_a_speed(s):
    """a speed within the range that gives the pressure; none only if the train does not take the rate at the highest speed, or all speeds that it can run at give less or all give more, and then the nearest is given"""
    big = None if s.symbolic else 1000
    lo = s.real("lowest", lo=1, hi=big)
    hi = lo + s.real("range", lo=0, hi=big)
    pd = s.real("asked for", lo=0, hi=None if s.symbolic else 2500)
    wrong, above = s.choice("below capacity", ["stonewall", "insufficient", "thermo", "none"]), s.choice("too fast", ["none", "thermo", "surge", "stonewall", "insufficient"])
    c = s.real("takes the rate from", lo=0, hi=None if s.symbolic else 2000)
    e = s.real("and to", lo=0, hi=None if s.symbolic else 3000)
    if s.symbolic:
        press = s.func("pressure", 1)
    else:
        k = s.rng.uniform(0.5, 1.5)
        press = lambda N: k * N
        s.assume(abs(e - hi) > 1e-3 and abs(c - hi) > 1e-3 and abs(c - e) > 1)
    E = _errors(s)
    asked = []

    def func(cfg):
        N = cfg.speed
        asked.append(N)
        if wrong != "none" and N < c:
            raise E[wrong]()
        if above != "none" and N > e:
            raise E[above]()
        return _Fake(pressure_bara=press(N))

    search, root = _searches(s)
    fits = lambda N: s.and_(True if wrong == "none" else N >= c, True if above == "none" else N <= e)
    r = s.run(T(FI + "shaft_speed_finder:ShaftSpeedFinder")(search_strategy=search, root_finding_strategy=root, boundary=T(BO)(min=lo, max=hi), target_pressure=pd).find, func)
    some = s.symbolic or (above != "thermo" or (hi if hi <= e else e) >= (lo if wrong == "none" else max(lo, c)) + 1e-3)
    if not r.ok:
        s.ensure("only when the search finds no speed at all", r.raised(T(SS + "DidNotConvergeError")) and (s.symbolic or not (fits(hi) and hi - max(lo, c) > 1e-3)), repr(r.exc))
        return
    r = r.value
    N = r.configuration.speed
    s.ensure("within the speeds", s.and_(s.le(lo, N), s.le(N, hi)))
    tol = 0 if s.symbolic else 1e-6 * (1 + pd)
    if r.success:
        s.ensure("at which it can run", fits(N) if s.symbolic else c - 1e-6 <= N or wrong == "none")
        s.ensure("the pressure asked for", s.and_(press(N) <= pd + tol, press(N) >= pd - tol))
        return
    if above in ("surge", "stonewall", "insufficient") and hi > e or wrong in ("stonewall", "insufficient") and hi < c:
        s.ensure("not at the highest speed", s.eq(N, hi))
        how = wrong if wrong != "none" and wrong != "thermo" and hi < c else above
        s.ensure("why", _failed(r, {"surge": "CompressorSurgeFailure", "stonewall": "CompressorStonewallFailure", "insufficient": "InsufficientInletPressureFailure"}[how]) or (wrong == "thermo" and hi < c and _failed(r, "ThermodynamicCalculationFailure")))
        return
    if _unreachable(r, "MAX_BELOW_TARGET"):
        s.ensure("as fast as it can gives less", s.and_(fits(N), press(N) < pd + tol, s.eq(r.failure.achievable_pressure_bara, press(N)), s.eq(r.failure.target_pressure_bara, pd)))
        s.ensure("the highest speed unless it fails there", s.implies(fits(hi), s.eq(N, hi)))
        if not s.symbolic:
            s.ensure("next to the highest it can run at", abs(N - min(hi, e if above == "thermo" else hi)) < 1e-3)
    elif _unreachable(r, "MIN_ABOVE_TARGET"):
        s.ensure("as slow as it can gives more", s.and_(fits(N), press(N) > pd - tol, s.eq(r.failure.achievable_pressure_bara, press(N)), s.eq(r.failure.target_pressure_bara, pd)))
        s.ensure("the lowest speed unless it fails there", s.implies(fits(lo), s.eq(N, lo)))
        if not s.symbolic:
            s.ensure("next to the lowest it can run at", abs(N - max(lo, c if wrong != "none" else lo)) < 1e-3)
    else:
        s.ensure("no speed at which the state of the gas can be found", _failed(r, "ThermodynamicCalculationFailure") and s.not_(s.or_(fits(lo), fits(hi))), str(r.failure))


RF = FI + "recirculation_loop_rate_finder:RecirculationLoopRateFinder"


@contract("C23", RF + ".find", RF + "._find_min_within_capacity_rate", RF + "._find_max_within_capacity_rate", RF + "._bool_func", cases=400)
def finds_a_recirculation(s):
    """the recirculation that gives the pressure, or without a pressure the least that keeps every stage out of surge; none only if no recirculation can be run with, or all give less or all give more"""
    big = None if s.symbolic else 1000
    lo = s.real("lowest", lo=0, hi=big)
    hi = lo + s.real("range", lo=0, hi=big)
    a, b = s.real("out of surge from", lo=0, hi=None if s.symbolic else 2000), s.real("takes up to", lo=0, hi=None if s.symbolic else 3000)
    s.assume(a <= b)
    above = s.choice("above", ["stonewall", "insufficient"])
    target = s.choice("target", [None, "some"])
    if target:
        target = T(FCN)(1.0)
        target.value = s.real("asked for", lo=0, hi=None if s.symbolic else 200)
    if s.symbolic:
        press = s.func("pressure", 1)
    else:
        k = s.rng.uniform(0.01, 0.1)
        press = lambda x: 200 - k * x
        s.assume(b - a > 1e-2 and abs(a - hi) > 1e-2 and abs(b - hi) > 1e-2 and abs(b - lo) > 1e-2)
    E = _errors(s)

    def func(cfg):
        x = cfg.recirculation_rate
        if x < a:
            raise E["surge"]()
        if x > b:
            raise E[above]()
        return _Fake(pressure_bara=press(x))

    if s.symbolic:
        s.patch(T(CO + "RecirculationConfiguration"), "__post_init__", lambda self: None)
        iscl = lambda self, o: s.and_(o - self.value <= self.abs_tol, self.value - o <= self.abs_tol)
        s.patch(T(FCN), "_is_close", iscl)
    search, root = _searches(s)
    fits = lambda x: s.and_(a <= x, x <= b)
    r = s.run(T(RF)(search_strategy=search, root_finding_strategy=root, recirculation_rate_boundary=T(BO)(min=lo, max=hi), target_pressure=target).find, func)
    if not r.ok:
        s.ensure("only when the search finds no recirculation at all", r.raised(T(SS + "DidNotConvergeError")), repr(r.exc))
        s.ensure("which there is not", s.symbolic or max(lo, a) > min(hi, b) - 1e-3, f"{lo} {hi} {a} {b}")
        return
    r = r.value
    x = r.configuration.recirculation_rate
    s.ensure("within the range", s.and_(s.le(lo, x), s.le(x, hi)))
    if _failed(r, "CompressorStonewallFailure") or _failed(r, "InsufficientInletPressureFailure"):
        s.ensure("too much without any more", s.and_(s.eq(x, lo), lo > b))
        s.ensure("why", _failed(r, {"stonewall": "CompressorStonewallFailure", "insufficient": "InsufficientInletPressureFailure"}[above]))
        return
    s.ensure("can be run with", fits(x))
    s.ensure("not more than it takes", s.implies(lo > b, False))
    if target is None:
        s.ensure("found", r.success)
        s.ensure("no more than needed", s.implies(a <= lo, s.eq(x, lo)))
        if not s.symbolic:
            s.ensure("the least", abs(x - max(lo, a)) < 1e-3, f"{x} {lo} {a}")
        return
    tol = target.abs_tol
    if r.success:
        s.ensure("the pressure asked for", s.and_(press(x) <= target.value + tol, press(x) >= target.value - tol))
        return
    s.ensure("what is reached", s.and_(s.eq(r.failure.achievable_pressure_bara, press(x)), s.eq(r.failure.target_pressure_bara, target.value)))
    if _unreachable(r, "MAX_BELOW_TARGET"):
        s.ensure("less with as little as possible", s.and_(press(x) < target.value - tol, s.implies(a <= lo, s.eq(x, lo))))
        if not s.symbolic:
            s.ensure("the least", abs(x - max(lo, a)) < 1e-3)
    else:
        s.ensure("more with as much as possible", s.and_(_unreachable(r, "MIN_ABOVE_TARGET"), press(x) > target.value + tol, s.implies(hi <= b, s.eq(x, hi))))
        if not s.symbolic:
            s.ensure("the most", abs(x - min(hi, b)) < 1e-3)


CF = FI + "choke_delta_pressure_finders:"


@contract("C23", CF + "UpstreamChokeDeltaPressureFinder.find", CF + "DownstreamChokeDeltaPressureFinder.find", cases=400)
def finds_a_choking(s):
    """the pressure drop that gives the pressure; upstream none only if even the most the train can run with gives more, downstream only if it is short of the pressure already"""
    up = s.choice("where", ["upstream", "downstream"]) == "upstream"
    pd = s.real("asked for", lo=0, lo_open=True, hi=None if s.symbolic else 100)
    E = _errors(s)
    if not up:
        p = s.real("pressure", lo=0, lo_open=True, hi=None if s.symbolic else 150)
        r = s.run(T(CF + "DownstreamChokeDeltaPressureFinder")(target_pressure=pd).find, lambda cfg: _Fake(pressure_bara=p - cfg.delta_pressure))
        s.ensure("does not fail", r.ok, repr(r.exc))
        r = r.value
        s.ensure("unless it is short of it", s.iff(r.success, p >= pd))
        if r.success:
            s.ensure("the pressure asked for", s.and_(s.eq(p - r.configuration.delta_pressure, pd), s.ge(r.configuration.delta_pressure, 0)))
        else:
            s.ensure("no choking", s.and_(r.configuration.delta_pressure == 0, _unreachable(r, "MAX_BELOW_TARGET"), s.eq(r.failure.achievable_pressure_bara, p), s.eq(r.failure.target_pressure_bara, pd)))
        return
    ps = s.real("suction", lo=0.01, hi=None if s.symbolic else 50)
    least = s.real("takes", lo=-1, hi=None if s.symbolic else 60)
    above = s.choice("above", ["stonewall", "insufficient", "liquid"])
    if s.symbolic:
        press = s.func("pressure", 1)
    else:
        k = s.rng.uniform(1, 4)
        press = lambda d: k * (ps - d)
        s.assume(abs(least - ps) > 1e-2 and abs(press(least) - pd) > 0.1)
    s.assume(least >= 0)
    s.assume(press(0) > pd)
    top = ps - 1e-3

    def func(cfg):
        if cfg.delta_pressure > least:
            raise E[above]()
        return _Fake(pressure_bara=press(cfg.delta_pressure))

    def between(state):
        """candidates: what can be run with, and what cannot"""
        num = [n for n in sorted(state) if type(state[n]).__name__ in ("SReal", "SInt", "float", "int", "Fraction")]
        out = []
        for n in num:
            v = state[n]
            for lab, f in (("runs", lambda v: v <= least), ("does not", lambda v: v > least), ("in", lambda v: s.and_(0 <= v, v <= top))):
                out.append((f"{n} {lab}", (lambda f, v: lambda: f(v))(f, v)))
        return out

    s.invariants("UpstreamChokeDeltaPressureFinder.find", between, havoc=lambda n, v, ex: E[above]() if isinstance(v, Exception) else None)
    search, root = _searches(s)
    r = s.run(T(CF + "UpstreamChokeDeltaPressureFinder")(root_finding_strategy=root, target_pressure=pd, delta_pressure_boundary=T(BO)(min=0.0, max=top)).find, func)
    if not r.ok:
        s.ensure("only for what it does not know how to avoid", s.and_(above == "liquid", top > least), repr(r.exc))
        return
    r = r.value
    x = r.configuration.delta_pressure
    s.ensure("within what it can run with", s.and_(s.le(0, x), s.le(x, top), s.le(x, least)))
    tol = 0 if s.symbolic else 1e-6 * (1 + pd)
    if r.success:
        s.ensure("the pressure asked for", s.and_(press(x) <= pd + tol, press(x) >= pd - tol))
        return
    s.ensure("more even then", press(x) > pd - tol)
    if least >= top:
        s.ensure("all of it", s.and_(s.eq(x, top), _unreachable(r, "MIN_ABOVE_TARGET"), s.eq(r.failure.achievable_pressure_bara, press(x)), s.eq(r.failure.target_pressure_bara, pd)))
    else:
        s.ensure("why", _failed(r, {"stonewall": "CompressorStonewallFailure", "insufficient": "InsufficientInletPressureFailure"}[above]))
        s.ensure("as much as it can", s.ge(x + 1e-3, least))


def _through(system, gas):
    """for every compressor: what it gets, and how little and how much it takes"""
    out = []
    for c in system.compressors:
        x = system.runner.run(inlet_stream=gas, to_id=c.get_id())
        out.append((x.volumetric_rate_m3_per_hour, float(c.minimum_flow_rate), float(c.maximum_flow_rate), x))
    return out


def _settings(system, solution):
    """the settings by what they are for"""
    order = [h.get_id() for h in system.runner._configuration_handlers.values()]
    return sorted((order.index(c.configuration_handler_id), *vars(c.value).values()) for c in solution.configuration)


@contract("C23", SEC + ".find_solution", SEC + "._find_solution", SEC + "._find_speed_solution", SEC + "._get_outlet_stream", PS + "section_assembly:assemble_process_section", PS + "section_assembly:recirculation_loop", PS + "solver_assembly:assemble_solver",
          PS + "solver_assembly:_resolve_anti_surge_strategy", PS + "solver_assembly:_resolve_pressure_control_strategy", PS + "process_pipeline_runner:ProcessPipelineRunner.run", PS + "process_pipeline_runner:ProcessPipelineRunner.apply_configuration",
          PS + "anti_surge.common_asv:CommonASVAntiSurgeStrategy.apply", PS + "anti_surge.individual_asv:IndividualASVAntiSurgeStrategy.apply", PS + "pressure_control.common_asv:CommonASVPressureControlStrategy.apply",
          PS + "pressure_control.downstream_choke:DownstreamChokePressureControlStrategy.apply", PS + "pressure_control.upstream_choke:UpstreamChokePressureControlStrategy.apply",
          PS + "pressure_control.individual_asv:IndividualASVPressureControlStrategy.apply", PS + "pressure_control.individual_asv:IndividualASVRateControlStrategy.apply", PS + "pressure_control.individual_asv:compute_minimum_achievable_pressure",
          CP + ".propagate_stream", CP + ".get_operational_point", CP + ".get_recirculation_range", "libecalc.process.shaft:Shaft.get_speed_boundary", concrete_only=True, cases=250, budget=150, weight=2,
          bounded="generated trains of 1 to 3 stages with generated charts, an ideal gas")
def solves(s):
    """a process is solved whenever it can be: its settings give the pressure, keep every compressor within its flows and run it no faster than needed; a pressure it cannot give is said to be out of reach"""
    svc = service(s)
    t = _Train(s, variable=True, drops=s.choice("pressure drops", ["small", "large"]))
    control = s.choice("control", CONTROLS)
    sysm = _system(t, svc, control)
    f = s.choice("rate", [0.3, 0.5, 0.8, 1.0, 1.0, 1.2]) * s.rng.uniform(0.9, 1.1)
    mass = t.mass * f
    gas = svc.create_stream_from_standard_rate(t.model, t.ps, 300.0, t.rate * f)
    target = t.ps * (t.pd / t.ps) ** s.rng.uniform(*s.choice("pressure", [(0.4, 1.2), (0.4, 0.7), (0.1, 0.4)]))
    lo, hi = t.speeds()
    before = s.bool("solved before")
    if before:
        other = svc.create_stream_from_standard_rate(t.model, t.ps * s.rng.uniform(0.8, 1.3), 300.0, t.rate * s.rng.uniform(0.3, 1.3))
        first = s.run(sysm.solver.find_solution, [T(FCN)(t.ps * (t.pd / t.ps) ** s.rng.uniform(0.2, 1.2))], other)
        s.ensure("does not fail", first.ok, f"{control} {first.exc!r}")
        fresh = s.run(_system(t, svc, control).solver.find_solution, [T(FCN)(target)], gas)
    r = s.run(sysm.solver.find_solution, [T(FCN)(target)], gas)
    s.ensure("does not fail", r.ok, f"{control} {r.exc!r}")
    r = r.value
    if before:
        s.ensure("the same whatever was solved before", fresh.ok and fresh.value.success == r.success and type(fresh.value.failure) is type(r.failure), f"{control} {fresh.exc!r} {fresh.ok and fresh.value.failure} {r.failure}")
    can, N = _solvable(t, control, mass, target)
    if r.success:
        s.ensure("only what is possible", can is not False, control)
        s.ensure("one setting each", len({c.configuration_handler_id for c in r.configuration}) == len(r.configuration))
        out = _applied(sysm, r.configuration, gas)
        s.ensure("gives the pressure", abs(out.pressure_bara - target) < 1e-3 + 1e-5 * target, f"{control} {out.pressure_bara} {target}")
        s.ensure("what comes in goes out", abs(out.mass_rate_kg_per_h - mass) <= 1e-6 * mass)
        speed = sysm.shaft.get_speed()
        s.ensure("within the speeds", lo * (1 - 1e-9) <= speed <= hi * (1 + 1e-9))
        through = _through(sysm, gas)
        s.ensure("every compressor within its flows", all(a <= q * (1 + 1e-6) and q <= b * (1 + 1e-6) for q, a, b, x in through))
        if control in ("DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE"):
            s.ensure("no more recirculation than needed", all(abs(x.mass_rate_kg_per_h - mass) < 1e-6 * mass or q <= a * (1 + 1e-4) + 1e-3 for q, a, b, x in through))
        if can:
            if N is None:
                s.ensure("as slow as gives the pressure", abs(_pressure(t, control, speed, mass, t.ps) - target) < 2e-2 * target if control == "COMMON_ASV" else abs(_pressure(t, control, speed, mass, t.ps) - target) < 1e-3 * target)
            else:
                s.ensure("as slow as takes the rate", abs(speed - N) <= 1e-4 * N + 1e-6, f"{speed} {N}")
    else:
        s.ensure("all that is possible", can is not True, f"{control} {t.n} {N} {r.failure} {f}")
        if can is False and N == hi:
            s.ensure("how far from it", _unreachable(r, "MAX_BELOW_TARGET") and abs(r.failure.achievable_pressure_bara - _pressure(t, control, hi, mass, t.ps)) < 1e-2 * target and r.failure.target_pressure_bara == target, str(r.failure))
            s.ensure("where", r.failure.source_id == sysm.pipeline_section.get_id())


def _speed_for(t, control, mass, target):
    """the lowest speed that gives the pressure, None if that is not known"""
    can, N = _solvable(t, control, mass, target)
    if not can or N is not None:
        return N if can else None
    lo, hi = t.speeds()
    met = lambda N: (_pressure(t, control, N, mass, t.ps) or 0) >= target
    for _ in range(50):
        mid = (lo + hi) / 2
        lo, hi = (lo, mid) if met(mid) else (mid, hi)
    return hi


def _sections(s, t, svc, shared):
    """the train in sections: each with its control, on one shaft or each on its own"""
    cuts = [(i, i + 1) for i in range(t.n)]
    last = len(cuts) - 1
    parts, controls, shafts, made = [], [], [], []
    shaft = T(SH)()
    for i, (a, b) in enumerate(cuts):
        parts.append(t.part(a, b))
        controls.append(s.choice(f"control {i}", [c for c in CONTROLS if not shared or not (c == "UPSTREAM_CHOKE" and i > 0 or c == "DOWNSTREAM_CHOKE" and i < last)]))
        shafts.append(shaft if shared else T(SH)())
        made.append(_units(parts[-1], svc, controls[-1], shafts[-1]))
    return parts, controls, [_assembled(*m, c, h) for m, c, h in zip(made, controls, shafts)]


def _applied_in(systems, configurations, gas):
    """what comes out of each section with exactly these settings"""
    out = []
    for x in systems:
        handlers = x.runner._configuration_handlers
        for h in handlers.values():
            h.reset()
        for c in configurations:
            if c.configuration_handler_id in handlers:
                x.runner.apply_configuration(c)
    for x in systems:
        through = _through(x, gas)
        gas = x.runner.run(inlet_stream=gas)
        out.append((gas, through))
    return out


def _pieces(s):
    t = _Train(s, n=s.rng.choice([2, 2, 3]), variable=True, drops=s.choice("pressure drops", ["small", "large"]))
    f = s.choice("rate", [0.5, 0.8, 1.0, 1.0, 1.15]) * s.rng.uniform(0.9, 1.1)
    total = s.rng.uniform(*s.choice("pressure", [(0.6, 1.1), (0.5, 0.9), (0.9, 1.0)]))
    own = [s.rng.uniform(0.85, 1.15) for _ in range(t.n)]
    if s.rng.random() < 0.3:
        own = [1.0] * t.n
    targets, p = [], t.ps
    for i in range(t.n):
        p = max(p * 1.05, (p - (t.drops[i] or 0)) * max(1.05, 1 + ((t.pd / t.ps) ** (1 / t.n) - 1) * total * own[i]))
        targets.append(p)
    return t, t.mass * f, t.rate * f, targets


def _judged(s, r, systems, configurations, gas, targets, mass):
    out = _applied_in(systems, configurations, gas)
    for i, ((x, through), target) in enumerate(zip(out, targets)):
        s.ensure("gives the pressure", abs(x.pressure_bara - target) < 2e-3 + 1e-5 * target, f"section {i}: {x.pressure_bara} {target}")
        s.ensure("what comes in goes out", abs(x.mass_rate_kg_per_h - mass) <= 1e-6 * mass)
        s.ensure("every compressor within its flows", all(a <= q * (1 + 1e-6) and q <= b * (1 + 1e-6) for q, a, b, _ in through), f"section {i}")


@contract("C23", PS + "multi_pressure_solver:MultiPressureSolver.find_solution", PS + "multi_pressure_solver:MultiPressureSolver._find_solution", concrete_only=True, cases=120, budget=120, weight=2,
          bounded="generated trains of 2 or 3 sections of a stage each on one shaft with generated charts, an ideal gas")
def solves_sections_on_a_shaft(s):
    """every section gives its own pressure at one speed, the lowest that all of them can; it fails only if a section cannot"""
    svc = service(s)
    t, mass, rate, targets = _pieces(s)
    parts, controls, systems = _sections(s, t, svc, True)
    gas = svc.create_stream_from_standard_rate(t.model, t.ps, 300.0, rate)
    r = s.run(lambda: T(PS + "multi_pressure_solver:MultiPressureSolver")(T(PS + "pipeline_section:Pipeline")([x.pipeline_section for x in systems])).find_solution([T(FCN)(p) for p in targets], gas))
    s.ensure("does not fail", r.ok, f"{controls} {r.exc!r}")
    r = r.value
    speeds, p = [], t.ps
    for part, c, target in zip(parts, controls, targets):
        part.ps = p
        speeds.append(_speed_for(part, c, mass, target))
        can = _solvable(part, c, mass, target)[0]
        if can is False:
            s.ensure("only what is possible", not r.success)
            return
        p = target
    known = all(N is not None for N in speeds)
    N = max(speeds) if known else None
    if r.success:
        s.ensure("one setting each", len({c.configuration_handler_id for c in r.configuration}) == len(r.configuration))
        s.ensure("one speed", sum(c.configuration_handler_id == systems[0].shaft.get_id() for c in r.configuration) == 1)
        _judged(s, r, systems, r.configuration, gas, targets, mass)
        if known:
            tol = 2e-2 if "COMMON_ASV" in controls else 1e-3
            s.ensure("no faster than needed", abs(systems[0].shaft.get_speed() - N) <= tol * N, f"{systems[0].shaft.get_speed()} {speeds}")
        return
    if known:
        low = [True if abs(x - N) <= 1e-3 * N else _lowers(part, c, N, mass, target) for part, c, x, target in zip(parts, controls, speeds, targets)]
        s.ensure("all that is possible", not all(low), f"{controls} {speeds} {r.failure}")


@contract("C23", PS + "multi_shaft_solver:MultiShaftSolver.find_solution", PS + "multi_shaft_solver:MultiShaftSolver._find_solution", PS + "multi_shaft_equal_ratio_solver:MultiShaftEqualRatioSolver.find_solution", concrete_only=True, cases=120, budget=120, weight=2,
          bounded="generated trains of 2 or 3 sections of a stage each on shafts of their own with generated charts, an ideal gas")
def solves_sections_on_their_own(s):
    """every section gives its own pressure, or all of them the same pressure ratio to the one asked for; it fails only if a section cannot"""
    svc = service(s)
    t, mass, rate, targets = _pieces(s)
    parts, controls, systems = _sections(s, t, svc, False)
    gas = svc.create_stream_from_standard_rate(t.model, t.ps, 300.0, rate)
    equal = s.bool("equal ratios")
    sections = [x.pipeline_section for x in systems]
    if equal:
        r = s.run(T(PS + "multi_shaft_equal_ratio_solver:MultiShaftEqualRatioSolver")(sections).find_solution, [T(FCN)(targets[-1])], gas)
        targets = [t.ps * (targets[-1] / t.ps) ** ((i + 1) / t.n) for i in range(t.n)]
    else:
        r = s.run(T(PS + "multi_shaft_solver:MultiShaftSolver")(sections).find_solution, [T(FCN)(p) for p in targets], gas)
    s.ensure("does not fail", r.ok, f"{controls} {r.exc!r}")
    r = r.value
    p, can = t.ps, []
    for part, c, target in zip(parts, controls, targets):
        part.ps = p
        can.append(_solvable(part, c, mass, target)[0])
        p = target
    if r.success:
        s.ensure("only what is possible", False not in can, f"{controls} {can}")
        s.ensure("one setting each", len({c.configuration_handler_id for c in r.configuration}) == len(r.configuration))
        _judged(s, r, systems, r.configuration, gas, targets, mass)
    else:
        s.ensure("all that is possible", not all(x is True for x in can), f"{controls} {r.failure}")
        first = next((i for i, x in enumerate(can) if x is not True), None)
        if first is not None and can[first] is False and _failed(r, "TargetPressureUnreachableFailure"):
            s.ensure("where", r.failure.source_id == sections[first].get_id(), f"{first}")


FS = PS + "feasibility_solver:FeasibilitySolver"


@contract("C23", FS + ".get_excess_rate", FS + "._largest_feasible_rate", FS + "._is_feasible", cases=400)
def finds_the_excess(s):
    """nothing of a rate is too much if the train takes it, otherwise what is left can be taken by the train and is as much as it takes, and all of it is too much if it takes nothing"""
    full = s.real("rate", lo=-1, hi=None if s.symbolic else 1e6)
    if s.symbolic:
        takes_ = s.func("takes", 1)
        takes = lambda x: takes_(x) > 0
    else:
        least = s.rng.choice([0.0, 0.0, s.rng.uniform(0, 1e6)])
        most = s.rng.choice([0.0, s.rng.uniform(0, 1e6), s.rng.uniform(0, 2e6)])
        takes = lambda x: least <= x <= most
    asked = []

    class Stream:
        def __init__(self, rate):
            self.standard_rate_sm3_per_day = rate

        def with_standard_rate(self, rate):
            return Stream(rate)

    target = T(FCN)(10.0)

    class Solver:
        def find_solution(self, pressure_targets, inlet_stream):
            asked.append(pressure_targets)
            return T(SO + "Solution")([], None if takes(inlet_stream.standard_rate_sm3_per_day) else T(SO + "ProcessFailure")("too much"))

    search = _searches(s)[0] if s.symbolic else s.choice("search", [None, T(SS + "Bisect")(tolerance=1e-6, max_iterations=60)])
    r = s.run(T(FS)(Solver(), search).get_excess_rate, Stream(full), target)
    s.ensure("does not fail", r.ok, repr(r.exc))
    x = r.value
    s.ensure("for the pressure asked for", all(a == [target] for a in asked))
    if full <= 0:
        s.ensure("nothing of nothing", x == 0)
        return
    s.ensure("no more than there is", s.and_(0 <= x, x <= full))
    if takes(full):
        s.ensure("nothing if it takes it", x == 0)
        return
    s.ensure("something if it does not", s.or_(x > 0, takes(full - x)))
    s.ensure("what is left it can take", s.or_(s.eq(x, full), takes(full - x), takes(full - x - 1e-9 * full) if not s.symbolic else False), f"{full} {x}")
    if not s.symbolic and least == 0:
        s.ensure("as much as it takes", abs(full - x - (most if most > 0 else 0)) <= 2e-4 * max(full, 1.0) + 1e-6, f"{full} {x} {most}")


def _close(s):
    if s.symbolic:
        s.patch(T(FCN), "_is_close", lambda self, o: s.and_(o - self.value <= self.abs_tol, self.value - o <= self.abs_tol))


def _config(handler, value, kind="RecirculationConfiguration"):
    return T(CO + "Configuration")(handler, T(CO + kind)(value))


@contract("C23", SEC + ".find_solution", SEC + "._find_solution", SEC + "._get_outlet_stream", cases=400)
def decides(s):
    """a section is solved if and only if the speed, the anti-surge and where needed the pressure control succeed, with the settings of all of them; otherwise the failure is that of the first that did not"""
    _close(s)
    F = lambda n, *a: T(SO + n)(*a)
    D = T(SO + "TargetDirection")
    asked = s.real("asked for", lo=1, hi=100)
    at = s.real("pressure", lo=1, hi=100)
    speed = s.choice("speed", ["found", "above", "below", "stonewall", "surge", "thermo", "insufficient", "raises", "does not converge"])
    surge = s.choice("anti-surge", ["done", "fails", "raises"])
    control = s.choice("control", ["done", "above", "fails", "raises"])
    E = _errors(s)
    DN = T(SS + "DidNotConvergeError")
    failures = {"found": None, "above": F("TargetPressureUnreachableFailure", 5.0, 3.0, D.MIN_ABOVE_TARGET), "below": F("TargetPressureUnreachableFailure", 2.0, 3.0, D.MAX_BELOW_TARGET), "stonewall": F("CompressorStonewallFailure", "u"),
                "surge": F("CompressorSurgeFailure", "u"), "thermo": F("ThermodynamicCalculationFailure"), "insufficient": F("InsufficientInletPressureFailure")}
    setting = T(CO + "SpeedConfiguration")(s.real("rpm", lo=1, hi=1000))
    applied, evaluated = [], []

    def find_speed(self, pressure_constraint, inlet_stream):
        evaluated.append((pressure_constraint, inlet_stream))
        if speed == "raises":
            raise E["liquid"]()
        if speed == "does not converge":
            raise DN(boundary=T(BO)(min=0.0, max=1.0), tolerance=1e-3, iterations=3)
        return T(PS + "finder:Finding")(setting, failures[speed])

    s.patch(T(SEC), "_find_speed_solution", find_speed)

    class Anti:
        def apply(self, inlet_stream):
            if surge == "raises":
                raise E["stonewall"]()
            return T(SO + "Solution")([_config("asv 1", 10.0), _config("asv 2", 20.0)], F("CompressorStonewallFailure", "asv") if surge == "fails" else None)

        def reset(self):
            pass

    class Control(Anti):
        def apply(self, target_pressure, inlet_stream):
            evaluated.append((target_pressure, inlet_stream))
            if control == "raises":
                raise E["surge"]()
            f = F("TargetPressureUnreachableFailure", 5.0, 3.0, D.MIN_ABOVE_TARGET) if control == "above" else F("CompressorStonewallFailure", "control") if control == "fails" else None
            return T(SO + "Solution")([_config("asv 2", 30.0), _config("choke", 1.0, "ChokeConfiguration")], f)

    class Runner:
        def apply_configuration(self, c):
            applied.append(c)

        def apply_configurations(self, cs):
            applied.extend(cs)

        def run(self, inlet_stream, to_id=None):
            return _Fake(pressure_bara=at)

    section = T(PS + "pipeline_section:PipelineSection")(shaft_id="shaft", runner=Runner(), anti_surge_strategy=Anti(), pressure_control_strategy=Control(), speed_boundary=T(BO)(min=1.0, max=1000.0), root_finding_strategy=None, process_pipeline_id="pipeline",
                                                         process_pipeline_section_id="section")
    target, gas = T(FCN)(1.0), object()
    target.value = asked
    r = s.run(T(SEC)(section).find_solution, [target], gas)
    s.ensure("does not fail", r.ok, repr(r.exc))
    r = r.value
    got = {c.configuration_handler_id: c.value for c in r.configuration}
    s.ensure("one setting each", len(got) == len(r.configuration))
    s.ensure("for the pressure and the gas", all(a is target and b is gas for a, b in evaluated))
    if speed in ("raises", "does not converge"):
        s.ensure("the failure", _failed(r, "LiquidAtInletFailure") if speed == "raises" else _failed(r, "ConvergenceFailure") and r.failure.source_id == "pipeline")
        return
    if speed in ("stonewall", "surge", "thermo", "insufficient"):
        s.ensure("the failure of the speed", r.failure is failures[speed] and got == {"shaft": setting})
        return
    s.ensure("at that speed", applied[0].configuration_handler_id == "shaft" and applied[0].value is setting)
    if surge == "raises":
        s.ensure("the failure of the anti-surge", _failed(r, "CompressorStonewallFailure"))
        return
    if surge == "fails":
        s.ensure("the failure of the anti-surge", _failed(r, "CompressorStonewallFailure") and r.failure.source_id == "asv" and len(got) == 3 and got["shaft"] is setting)
        return
    if speed == "below":
        s.ensure("too little", _unreachable(r, "MAX_BELOW_TARGET") and r.failure.source_id == "section" and r.failure.achievable_pressure_bara == 2.0 and r.failure.target_pressure_bara == 3.0)
        s.ensure("its settings", len(got) == 3 and got["shaft"] is setting and got["asv 1"].recirculation_rate == 10 and got["asv 2"].recirculation_rate == 20)
        return
    near = s.and_(at - asked <= 1e-3, asked - at <= 1e-3)
    if r.success and "choke" not in got:
        s.ensure("no control only where it is right as it is", near)
        s.ensure("its settings", len(got) == 3 and got["shaft"] is setting and got["asv 1"].recirculation_rate == 10 and got["asv 2"].recirculation_rate == 20)
        return
    s.ensure("controlled only where it is not", s.not_(near))
    if control == "raises":
        s.ensure("the failure of the control", _failed(r, "CompressorSurgeFailure"))
        return
    s.ensure("the settings of both", len(got) == 4 and got["shaft"] is setting and got["asv 1"].recirculation_rate == 10 and got["asv 2"].recirculation_rate == 30 and got["choke"].delta_pressure == 1)
    if control == "done":
        s.ensure("done", r.success)
    elif control == "fails":
        s.ensure("the failure of the control", _failed(r, "CompressorStonewallFailure") and r.failure.source_id == "control")
    else:
        s.ensure("too much", _unreachable(r, "MIN_ABOVE_TARGET") and r.failure.source_id == "section")


@contract("C23", SO + "Solution.combine", SO + "Solution.get_configuration", CO + "merge_configurations", SO + "process_error_to_failure", cases=300, bounded="up to three settings on each side")
def combines(s):
    """solutions one after another: solved if both are, with the last setting of each; what has failed stays as it failed"""
    names = ["a", "b", "c"]
    first = [_config(h, s.real(f"first {h}", lo=0, hi=10)) for h in names if s.bool(f"has {h}")]
    second = [_config(h, s.real(f"second {h}", lo=0, hi=10)) for h in names if s.bool(f"then {h}")]
    fails = [T(SO + "ProcessFailure")(n) if s.bool(f"{n} fails") else None for n in ("first", "second")]
    E = _errors(s)
    kind = s.choice("error", ["surge", "stonewall", "insufficient", "liquid", "offtake", "thermo"])
    e = T(PE + "OfftakeExceedsInletError")(process_unit_id="u", available_rate=1.0, offtake_rate=2.0) if kind == "offtake" else E[kind]()
    f = s.run(T(SO + "process_error_to_failure"), e).value
    names_ = {"surge": "CompressorSurgeFailure", "stonewall": "CompressorStonewallFailure", "insufficient": "InsufficientInletPressureFailure", "liquid": "LiquidAtInletFailure", "offtake": "OfftakeExceedsInletFailure", "thermo": "ThermodynamicCalculationFailure"}
    s.ensure("the failure of an error", type(f) is T(SO + names_[kind]))
    own = {"surge": lambda: (f.source_id, f.actual_rate_m3_per_hour, f.minimum_rate_m3_per_hour) == ("u", 1, 2), "stonewall": lambda: (f.source_id, f.actual_rate_m3_per_hour, f.maximum_rate_m3_per_hour) == ("u", 3, 2),
           "insufficient": lambda: (f.process_unit_id, f.inlet_pressure_bara, f.required_delta_pressure_bara) == ("u", 1, 2), "liquid": lambda: (f.process_unit_id, f.vapor_fraction) == ("u", 0.5),
           "offtake": lambda: (f.process_unit_id, f.available_rate, f.offtake_rate) == ("u", 1, 2), "thermo": lambda: True}
    s.ensure("and what it tells", own[kind]())
    one, two = T(SO + "Solution")(first, fails[0]), T(SO + "Solution")(second, fails[1])
    r = s.run(one.combine, two).value
    if fails[0]:
        s.ensure("failed already", r.failure is fails[0] and list(r.configuration) == first)
        return
    s.ensure("fails as the second", r.failure is fails[1] and r.success == (fails[1] is None))
    want = {c.configuration_handler_id: c.value for c in first}
    want.update({c.configuration_handler_id: c.value for c in second})
    s.ensure("one setting each", len(r.configuration) == len(want) and {c.configuration_handler_id for c in r.configuration} == set(want))
    for h in names:
        got = s.run(r.get_configuration, h)
        s.ensure("the last", got.raised(ValueError) if h not in want else got.ok and got.value is want[h], h)
