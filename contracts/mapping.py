"""C25: what the model file says of a consumer is what is evaluated"""
from contracts.common import T
from contracts.timeseries_input import _Reg, _evaluator
from vc.harness import contract

CF = "libecalc.presentation.yaml.mappers.consumer_function_mapper:"
CM = CF + "ConsumerFunctionMapper"
EU = "libecalc.presentation.yaml.yaml_types.components.legacy.energy_usage_model:"
CT = "libecalc.common.consumption_type:ConsumptionType"
VX = "libecalc.common.errors.ecalc_validation_error:EcalcValidationException"


def _mapper(s, ev, reg):
    """the mapper of a consumer with the inputs (a part of the evaluator and of the regularity) of the periods of one model;
    which part that is is settled by models_in_force"""
    M = T(CM)
    m = M.__new__(M)
    m._period_subsets = {"period": (_Reg(reg), ev)}
    m._process_service = T("libecalc.presentation.yaml.domain.default_process_service:DefaultProcessService")()
    m._compressor_model_mapper = T(CF + "CompressorModelMapper")(resources=None, reference_service=None, configuration=None)
    m._pump_model_mapper = T(CF + "PumpModelMapper")(resources=None, reference_service=None, configuration=None)
    m._tabular_model_mapper = T(CF + "TabularModelMapper")(resources=None, reference_service=None, configuration=None)
    return m


CONDITIONS = [{}, {"CONDITIONS": ["V;C > 2", "V;D"]}, {"CONDITION": 0}, {"CONDITION": "V;C > 2"}, {"CONDITION": "V;C"}, {"CONDITIONS": ["V;D"]}]


def _condition(s, c, d, few=False):
    """what the conditions are made of is proved for direct loads; for the others that they are used"""
    given = s.choice("condition", CONDITIONS[:2] if few and s.symbolic else CONDITIONS)
    if not given:
        return given, lambda k: True
    one = given.get("CONDITION")
    if one == "V;C":
        return given, lambda k: c[k] != 0
    if one == "V;C > 2":
        return given, lambda k: c[k] > 2
    if one == 0:
        return given, lambda k: False
    if len(given["CONDITIONS"]) == 2:
        return given, lambda k: s.and_(c[k] > 2, d[k] != 0)
    return given, lambda k: d[k] != 0


@contract("C25", CM + "._map_direct", CF + "_map_condition", CF + "handle_condition_list")
def direct_loads(s):
    """a direct consumer uses the load or the fuel rate given, where its conditions hold"""
    n = s.length("n", lo=1)
    x, c, d, reg = s.array("x", n, kind="list", lo=0), s.array("c", n, kind="list"), s.array("d", n, kind="list"), s.array("reg", n, kind="list", lo=0, hi=1)
    loss = s.array("loss", n, kind="list", lo=0, hi=0.9)
    ev, _ = _evaluator(s, n, X=x, C=c, D=d, L=loss)
    cond, on = _condition(s, c, d)
    fuel = s.choice("fuel", [False, True])
    day = s.choice("rate type", [None, "STREAM_DAY", "CALENDAR_DAY"])
    lossy = s.choice("losses", [False, True])
    y = dict(TYPE="DIRECT", **cond, **({"CONSUMPTION_RATE_TYPE": day} if day else {}), **({"POWERLOSSFACTOR": "V;L"} if lossy else {}))
    y["FUELRATE" if fuel else "LOAD"] = "V;X"
    y = T(EU + ("YamlEnergyUsageModelDirectFuel" if fuel else "YamlEnergyUsageModelDirectElectricity")).model_validate(y)
    C = T(CT)
    consumes = s.choice("consumes", [C.FUEL, C.ELECTRICITY])
    r = s.run(_mapper(s, ev, reg)._map_direct, model=y, consumes=consumes, period="period")
    if (consumes == C.FUEL) != fuel:
        s.ensure("of the energy it consumes", r.raised(T(CF + "InvalidConsumptionType")))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    f = r.value
    s.ensure("fuel or power", f.is_fuel_consumer == fuel and f.is_electrical_consumer == (not fuel))
    e = s.run(f.evaluate)
    s.ensure("evaluated", e.ok)
    u = e.value.energy_usage
    s.ensure("one value per period", s.len(u) == n)
    for k in s.indices(n):
        given, part = s.ite(on(k), x[k], 0.0), 1 - loss[k] if lossy else 1
        if day == "CALENDAR_DAY":
            s.ensure("per calendar day", s.eq(u[k] * part * reg[k], s.ite(reg[k] == 0, 0.0, given)))
            s.ensure("zero when the regularity is", s.implies(reg[k] == 0, s.eq(u[k], 0)))
        else:
            s.ensure("as given where the conditions hold", s.eq(u[k] * part, given))


class _Model:
    """stands for a compressor, train or pump (their contracts: C17, C18, C21, C22); keeps what it is asked to be evaluated for"""
    given = None

    def __init__(self, consumes=None):
        self.consumes = consumes

    def get_consumption_type(self):
        return self.consumes

    def set_evaluation_input(self, **given):
        self.given = given


def _inputs(s, lo=None):
    n = s.length("n", lo=1)
    arr = lambda nm, **k: s.array(nm, n, kind="list", **k)
    a = dict(X=arr("x", lo=lo), C=arr("c"), D=arr("d"), P=arr("p"), Q=arr("q"), L=arr("loss", lo=0, hi=0.9), R=arr("rho"), M=arr("mid"), Y=arr("y", lo=lo))
    reg = arr("reg", lo=0, hi=1)
    ev, _ = _evaluator(s, n, **a)
    cond, on = _condition(s, a["C"], a["D"], few=True)
    return n, a, reg, ev, cond, on


def _registered(s, m, stub, kind):
    svc = m._process_service
    i = svc.consumer_to_model_map.get(("consumer", "period"))
    s.ensure("registered for its consumer and period", i is not None and len(svc.consumer_to_model_map) == 1)
    s.ensure("the model it refers to", getattr(svc, kind).get(i) is stub and sum(len(v) for v in (svc.compressor_process_systems, svc.pump_process_systems, svc.compressors_sampled)) == 1)
    return svc.get_evaluation_input(i)


def _rate_as_given(s, name, v, given, reg, k):
    s.ensure(name + " per stream day", s.eq(v[k] * reg[k], s.ite(reg[k] == 0, 0.0, given)))
    s.ensure(name + " is zero when the regularity is", s.implies(reg[k] == 0, s.eq(v[k], 0)))


def _losses(s, inp, loss, given, n):
    f = inp.power_loss_factor
    if f is None:
        s.ensure("no losses unless they are given", not given)
        return
    v = s.run(f.get_values)
    s.ensure("losses for each period", v.ok and s.len(v.value) == n)
    for k in s.indices(n):
        s.ensure("the loss given", s.eq(v.value[k], loss[k] if given else 0.0))


def _pump(s, valid):
    n, a, reg, ev, cond, on = _inputs(s, lo=0 if valid else None)
    rate, p, q = (lambda k: s.ite(on(k), a["X"][k], 0.0)), a["P"], a["Q"]
    runs = lambda k: s.and_(rate(k) > 0, reg[k] > 0)
    if valid:
        s.assume_all(n, lambda k: s.implies(runs(k), s.and_(0 < p[k], p[k] <= q[k])))
    lossy = s.choice("losses", [False, True])
    y = dict(TYPE="PUMP", ENERGYFUNCTION="ref", RATE="V;X", SUCTION_PRESSURE="V;P", DISCHARGE_PRESSURE="V;Q", FLUID_DENSITY="V;R", **cond, **({"POWERLOSSFACTOR": "V;L"} if lossy else {}))
    y = T(EU + "YamlEnergyUsageModelPump").model_validate(y, context=None)
    m, stub, C = _mapper(s, ev, reg), _Model(), T(CT)
    s.patch(m._pump_model_mapper, "create_pump_model", lambda ref: {"ref": stub}[ref])
    consumes = s.choice("consumes", [C.ELECTRICITY] if valid else [C.ELECTRICITY, C.FUEL])
    return n, a, reg, rate, runs, lossy, m, stub, s.run(m._map_pump, model=y, consumes=consumes, period="period", consumer_id="consumer"), consumes


@contract("C25", CM + "._map_pump", CF + "_map_condition", CF + "validate_pressures", "libecalc.domain.process.evaluation_input:PumpEvaluationInput.apply_to_model")
def pumps_as_given(s):
    """a pump is evaluated for the rate, pressures and density given, each in its own place"""
    n, a, reg, rate, runs, lossy, m, stub, r, _ = _pump(s, True)
    s.ensure("accepted", r.ok, repr(r.exc))
    inp = _registered(s, m, stub, "pump_process_systems")
    s.ensure("given to the pump", s.run(inp.apply_to_model, stub).ok)
    g = stub.given
    s.ensure("one value per period", s.and_(*[s.len(g[x]) == n for x in ("stream_day_rate", "suction_pressure", "discharge_pressure", "fluid_density")]))
    for k in s.indices(n):
        _rate_as_given(s, "the rate", g["stream_day_rate"], rate(k), reg, k)
        s.ensure("the pressures", s.and_(s.eq(g["suction_pressure"][k], a["P"][k]), s.eq(g["discharge_pressure"][k], a["Q"][k])))
        s.ensure("the density", s.eq(g["fluid_density"][k], a["R"][k]))
    _losses(s, inp, a["L"], lossy, n)


@contract("C25", CM + "._map_pump", CF + "validate_pressures", budget=150)
def pumps_refused(s):
    """a pump is refused where it would run with a negative rate or with pressures that cannot be"""
    n, a, reg, rate, runs, lossy, m, stub, r, consumes = _pump(s, False)
    if consumes != T(CT).ELECTRICITY:
        s.ensure("pumps use power", r.raised(T(CF + "InvalidConsumptionType")))
        return
    if not r.ok:
        s.ensure("refused with a reason", r.raised(T(VX)))
        s.cover("refused")
        return
    for k in s.indices(n):
        s.ensure("no negative rate", s.or_(rate(k) >= 0, reg[k] == 0))
        s.ensure("no impossible pressures where it runs", s.implies(runs(k), s.and_(0 < a["P"][k], a["P"][k] <= a["Q"][k])))


def _stub(kind, consumes):
    """stands for a model of this kind: it consumes what it says and keeps what it is asked to be evaluated for"""
    B = T({"train": "libecalc.domain.process.compressor.core.train.compressor_train_common_shaft:CompressorTrainCommonShaft",
           "sampled": "libecalc.domain.process.compressor.core.sampled:CompressorModelSampled",
           "turbine": "libecalc.domain.process.compressor.core.base:CompressorWithTurbineModel", "pump": "libecalc.domain.process.pump.pump:PumpModel"}[kind])
    S = type("Stub", (B,), {"get_consumption_type": lambda self: self.consumes, "set_evaluation_input": lambda self, **given: self.__dict__.update(given=given), "__init__": lambda self: None, "given": None,
                             "get_max_standard_rate": lambda self, **k: (self, k), "get_max_standard_rates": lambda self, **k: (self, k)})
    m = S.__new__(S)
    m.consumes = consumes
    return m


@contract("C25", CM + "._map_compressor", CF + "_is_sampled_compressor", CF + "validate_pressures", "libecalc.domain.process.evaluation_input:CompressorEvaluationInput.apply_to_model",
          "libecalc.domain.process.evaluation_input:CompressorSampledEvaluationInput.apply_to_model", "libecalc.presentation.yaml.mappers.simplified_train_mapping_utils:CompressorOperationalTimeSeries.from_time_series", budget=150, weight=2)
def compressors_as_given(s):
    """a compressor, compressor train or sampled model is evaluated for the rate and pressures given, with or without a turbine; one where it would run with impossible pressures is refused"""
    n, a, reg, ev, cond, on = _inputs(s, lo=0)
    C = T(CT)
    rate, p, q = (lambda k: s.ite(on(k), a["X"][k], 0.0)), a["P"], a["Q"]
    runs = lambda k: s.and_(rate(k) > 0, reg[k] > 0)
    valid = s.choice("pressures possible", [True, False])
    if valid:
        s.assume_all(n, lambda k: s.implies(runs(k), s.and_(0 < p[k], p[k] <= q[k])))
    kind = s.choice("kind", ["train", "sampled", "turbine of a train", "turbine of a sampled"] if valid else ["train"])
    stub = _stub(kind.split()[0], s.choice("it consumes", [C.ELECTRICITY, C.FUEL] if valid else [C.ELECTRICITY]))
    if stub.__class__.__mro__[1] is T("libecalc.domain.process.compressor.core.base:CompressorWithTurbineModel"):
        stub.compressor_model = _stub(kind.split()[-1], C.ELECTRICITY)
    sampled = "sampled" in kind
    lossy = s.choice("losses", [False, True] if valid else [False])
    y = dict(TYPE="COMPRESSOR", ENERGYFUNCTION="ref", RATE="V;X", **cond, **({"POWERLOSSFACTOR": "V;L"} if lossy else {}))
    given_p = s.choice("suction pressure given", [True, False] if sampled else [True])
    given_q = s.choice("discharge pressure given", [True, False] if sampled else [True])
    y.update({**({"SUCTION_PRESSURE": "V;P"} if given_p else {}), **({"DISCHARGE_PRESSURE": "V;Q"} if given_q else {})})
    y = T(EU + "YamlEnergyUsageModelCompressor").model_validate(y, context=None)
    m, fluid, seen = _mapper(s, ev, reg), object(), []
    s.patch(m._compressor_model_mapper, "create_compressor_model", lambda ref, operational_data=None: (seen.append(operational_data), {"ref": (stub, None if sampled else fluid)}[ref])[1])
    consumes = s.choice("consumes", [C.ELECTRICITY, C.FUEL] if valid else [C.ELECTRICITY])
    r = s.run(m._map_compressor, y, consumes=consumes, period="period", consumer_id="consumer")
    if consumes != stub.consumes:
        s.ensure("of the energy it consumes", r.raised(T(CF + "InvalidConsumptionType")))
        return
    if not valid and not r.ok:
        s.ensure("refused with a reason", r.raised(T(VX)))
        s.cover("refused")
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    if not valid:
        for k in s.indices(n):
            s.ensure("no impossible pressures where it runs", s.implies(runs(k), s.and_(0 < p[k], p[k] <= q[k])))
        return
    s.ensure("the model", r.value is stub)
    inp = _registered(s, m, stub, "compressors_sampled" if sampled else "compressor_process_systems")
    s.ensure("given to the model", s.run(inp.apply_to_model, stub).ok)
    g = stub.given
    s.ensure("fluid of the model", g["fluid_model"] is (None if sampled else fluid))
    s.ensure("pressures exactly where they are given", (g["suction_pressure"] is not None) == given_p and (g["discharge_pressure"] is not None) == given_q and g.get("intermediate_pressure") is None)
    v = g["rate"] if sampled else g["rate"][0]
    data = seen[0]
    for k in s.indices(n):
        _rate_as_given(s, "the rate", v, rate(k), reg, k)
        s.ensure("the model is made for that rate", s.eq(data.rates[k], v[k]))
        if given_p:
            s.ensure("the suction pressure", s.and_(s.eq(g["suction_pressure"][k], p[k]), s.eq(data.suction_pressures[k], p[k])))
        if given_q:
            s.ensure("the discharge pressure", s.and_(s.eq(g["discharge_pressure"][k], q[k]), s.eq(data.discharge_pressures[k], q[k])))
    if lossy or inp.power_loss_factor is not None:
        _losses(s, inp, a["L"], lossy, n)


@contract("C25", CM + "._map_multiple_streams_compressor", CF + "validate_pressures", "libecalc.domain.process.evaluation_input:CompressorEvaluationInput.apply_to_model", budget=150, weight=2,
          bounded="one or two streams; values and their number unbounded")
def streams_as_given(s):
    """a train with several streams is evaluated for the rate of each stream, in its place, and the pressures given; with impossible pressures where it runs it is refused"""
    n, a, reg, ev, cond, on = _inputs(s, lo=0)
    C = T(CT)
    p, q, mid = a["P"], a["Q"], a["M"]
    two, between = s.choice("streams", [1, 2]) == 2, s.choice("interstage pressure given", [False, True])
    rates = [lambda k: s.ite(on(k), a["X"][k], 0.0), lambda k: s.ite(on(k), a["Y"][k], 0.0)][:2 if two else 1]
    runs = lambda k: s.and_(s.or_(*[r(k) > 0 for r in rates]), reg[k] > 0)
    possible = lambda k: s.and_(0 < p[k], p[k] <= mid[k], mid[k] <= q[k]) if between else s.and_(0 < p[k], p[k] <= q[k])
    valid = s.choice("pressures possible", [True, False])
    if valid:
        s.assume_all(n, lambda k: s.implies(runs(k), possible(k)))
    stub, fluids = _stub(s.choice("kind", ["train", "turbine"] if valid else ["train"]), C.ELECTRICITY), [object(), object()]
    y = dict(TYPE="VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", COMPRESSOR_TRAIN_MODEL="ref", RATE_PER_STREAM=["V;X", "V;Y"][:len(rates)], SUCTION_PRESSURE="V;P", DISCHARGE_PRESSURE="V;Q", **cond)
    if between:
        y["INTERSTAGE_CONTROL_PRESSURE"] = "V;M"
    y = T(EU + "YamlEnergyUsageModelCompressorTrainMultipleStreams").model_validate(y, context=None)
    m = _mapper(s, ev, reg)
    s.patch(m._compressor_model_mapper, "create_compressor_model", lambda ref: {"ref": (stub, fluids)}[ref])
    consumes = s.choice("consumes", [C.ELECTRICITY, C.FUEL] if valid else [C.ELECTRICITY])
    r = s.run(m._map_multiple_streams_compressor, y, consumes=consumes, period="period", consumer_id="consumer")
    if consumes != stub.consumes:
        s.ensure("of the energy it consumes", r.raised(T(CF + "InvalidConsumptionType")))
        return
    if not valid and not r.ok:
        s.ensure("refused with a reason", r.raised(T(VX)))
        s.cover("refused")
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    if not valid:
        for k in s.indices(n):
            s.ensure("no impossible pressures where it runs", s.implies(runs(k), possible(k)))
        return
    inp = _registered(s, m, stub, "compressor_process_systems")
    s.ensure("given to the train", s.run(inp.apply_to_model, stub).ok)
    g = stub.given
    s.ensure("fluids of the train", g["fluid_model"] is fluids)
    s.ensure("an intermediate pressure exactly when it is given", (g["intermediate_pressure"] is not None) == between)
    s.ensure("a rate for each stream", len(g["rate"]) == len(rates))
    for k in s.indices(n):
        for i, rate in enumerate(rates):
            _rate_as_given(s, "the rate of the stream", g["rate"][i], rate(k), reg, k)
        s.ensure("the pressures", s.and_(s.eq(g["suction_pressure"][k], p[k]), s.eq(g["discharge_pressure"][k], q[k])))
        if between:
            s.ensure("the interstage pressure", s.eq(g["intermediate_pressure"][k], mid[k]))


def _system(s, pump):
    n, a, reg, ev, cond, on = _inputs(s, lo=0)
    C = T(CT)
    Z, P2, Q2, R2 = (s.array(x, n, kind="list", lo=0) for x in ("z", "p2", "q2", "rho2"))
    ev, _ = _evaluator(s, n, Z=Z, P2=P2, Q2=Q2, R2=R2, **a)
    layout = s.choice("layout", [0, 1, 2]) if s.symbolic else None
    fractions = s.choice("rates", ["rates", "fractions"]) if layout is None else ["rates", "fractions", "fractions"][layout]
    parts = s.choice("fractions", [(0.25, 0.75)] if s.symbolic else [(0.25, 0.75), (1, 0), ("V;Z", "1 {-} V;Z")]) if fractions == "fractions" else None
    if parts and parts[0] == "V;Z":
        s.assume_all(n, lambda k: Z[k] <= 1)
    part = [lambda k: Z[k], lambda k: 1 - Z[k]] if parts and parts[0] == "V;Z" else [lambda k: parts[0], lambda k: parts[1]]
    if fractions == "fractions":
        rates = [lambda k, i=i: s.ite(on(k), a["X"][k] * part[i](k), 0.0) for i in range(2)]
    else:
        rates = [lambda k: s.ite(on(k), a["X"][k], 0.0), lambda k: s.ite(on(k), a["Y"][k], 0.0)]
    each_p = s.choice("a suction pressure for each", [False, True]) if layout is None else layout == 0
    each_q = s.choice("a discharge pressure for each", [False, True]) if layout is None else layout == 1
    p, q = [a["P"], P2 if each_p else a["P"]], [a["Q"], Q2 if each_q else a["Q"]]
    setting = {"RATES": ["V;X", "V;Y"]} if fractions == "rates" else {"RATE_FRACTIONS": list(parts)}
    setting.update({"SUCTION_PRESSURES": ["V;P", "V;P2"]} if each_p else {"SUCTION_PRESSURE": "V;P"})
    setting.update({"DISCHARGE_PRESSURES": ["V;Q", "V;Q2"]} if each_q else {"DISCHARGE_PRESSURE": "V;Q"})
    over = s.choice("crossover", [None, [2, 0]]) if layout is None else [None, [2, 0], None][layout]
    if over:
        setting["CROSSOVER"] = over
    # pump systems are asked for possible pressures in every period, running or not
    possible = lambda i, k: s.and_(0 < p[i][k], p[i][k] <= q[i][k])
    runs = lambda i, k: s.and_(rates[i](k) > 0, reg[k] > 0)
    for i in range(2):
        s.assume_all(n, lambda k, i=i: possible(i, k) if pump else s.implies(runs(i, k), possible(i, k)))
    y = dict(TYPE="PUMP_SYSTEM" if pump else "COMPRESSOR_SYSTEM", OPERATIONAL_SETTINGS=[setting], **cond)
    if fractions == "fractions":
        y["TOTAL_SYSTEM_RATE"] = "V;X"
    lossy = s.choice("losses", [False, True]) if layout is None else layout > 0
    if lossy:
        y["POWERLOSSFACTOR"] = "V;L"
    return n, a, reg, ev, rates, p, q, R2, y, setting, over, lossy


def _same_system(s, f, names, stubs, n, a, reg, rates, p, q, over, lossy, fluids=None):
    s.ensure("its parts in order", [c.name for c in f.consumers] == names)
    asked = [s.run(c.get_max_standard_rate, suction_pressure=1, discharge_pressure=2, fluid_density=3) for c in f.consumers]
    s.ensure("their models", all(x.ok and x.value[0] is m for x, m in zip(asked, stubs)))
    s.ensure("their fluids", fluids is None or all(x.value[1]["fluid_model"] is fl for x, fl in zip(asked, fluids)))
    [e] = f.operational_settings
    s.ensure("the crossover given", e.cross_overs == over)
    for i in range(2):
        v, pp, qq = e.get_rate(i), e.get_suction_pressure(i), e.get_discharge_pressure(i)
        for k in s.indices(n):
            _rate_as_given(s, "the rate of the part", v, rates[i](k), reg, k)
            s.ensure("its pressures", s.and_(s.eq(pp[k], p[i][k]), s.eq(qq[k], q[i][k])))
    _losses(s, f, a["L"], lossy, n)
    return e


@contract("C25", CM + "._map_compressor_system", CF + "validate_pressures", budget=200, weight=2, bounded="two compressors, one operational setting, three layouts of what is given for each and for all (concretely all of them); values and their number unbounded")
def compressor_systems_as_given(s):
    """each compressor of a system is evaluated for its own rate (or part of the rate) and pressures"""
    n, a, reg, ev, rates, p, q, _, y, setting, over, lossy = _system(s, False)
    C = T(CT)
    y["COMPRESSORS"] = [{"NAME": "one", "COMPRESSOR_MODEL": "ref1"}, {"NAME": "two", "COMPRESSOR_MODEL": "ref2"}]
    y = T(EU + "YamlEnergyUsageModelCompressorSystem").model_validate(y, context=None)
    m = _mapper(s, ev, reg)
    kinds = s.choice("they consume", [(C.ELECTRICITY, C.ELECTRICITY), (C.FUEL, C.FUEL), (C.FUEL, C.ELECTRICITY)][:2 if s.symbolic else 3])
    stubs, fluids = [_stub("train", c) for c in kinds], [object(), object()]
    s.patch(m._compressor_model_mapper, "create_compressor_model", lambda ref: {"ref1": (stubs[0], fluids[0]), "ref2": (stubs[1], fluids[1])}[ref])
    consumes = C.ELECTRICITY if s.symbolic else s.choice("consumes", [C.ELECTRICITY, C.FUEL])
    r = s.run(m._map_compressor_system, y, consumes=consumes, period="period")
    if kinds[0] != kinds[1]:
        s.ensure("all of the same energy", r.raised(T(VX)))
        return
    if consumes != kinds[0]:
        s.ensure("of the energy they consume", r.raised(T(CF + "InvalidConsumptionType")))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    _same_system(s, r.value, ["one", "two"], stubs, n, a, reg, rates, p, q, over, lossy, fluids)


@contract("C25", CM + "._map_pump_system", CF + "validate_pressures", budget=200, weight=2, bounded="two pumps, one operational setting, three layouts of what is given for each and for all (concretely all of them); values and their number unbounded")
def pump_systems_as_given(s):
    """each pump of a system is evaluated for its own rate (or part of the rate), pressures and density"""
    n, a, reg, ev, rates, p, q, R2, y, setting, over, lossy = _system(s, True)
    C = T(CT)
    each = s.choice("a density for each", [False, True])
    if each:
        setting["FLUID_DENSITIES"] = ["V;R", "V;R2"]
        other = not s.symbolic and s.choice("and one for all", [False, True])
        if other:
            y["FLUID_DENSITY"] = 1000
    else:
        y["FLUID_DENSITY"] = "V;R"
    y["PUMPS"] = [{"NAME": "one", "CHART": "ref1"}, {"NAME": "two", "CHART": "ref2"}]
    y = T(EU + "YamlEnergyUsageModelPumpSystem").model_validate(y, context=None)
    m, stubs = _mapper(s, ev, reg), [_stub("pump", C.ELECTRICITY), _stub("pump", C.ELECTRICITY)]
    s.patch(m._pump_model_mapper, "create_pump_model", lambda ref: {"ref1": stubs[0], "ref2": stubs[1]}[ref])
    consumes = s.choice("consumes", [C.ELECTRICITY, C.FUEL])
    r = s.run(m._map_pump_system, y, consumes=consumes, period="period")
    if consumes != C.ELECTRICITY:
        s.ensure("pumps use power", r.raised(T(CF + "InvalidConsumptionType")))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    e = _same_system(s, r.value, ["one", "two"], stubs, n, a, reg, rates, p, q, over, lossy)
    for i, rho in enumerate([a["R"], R2 if each else a["R"]]):
        v = e.get_fluid_density(i)
        for k in s.indices(n):
            s.ensure("its density", s.eq(v[k], rho[k]))


class _Table:
    """stands for the tabular model of the reference: a table of two rows"""
    data = [[0.0, 10.0], [2.0, 7.0]]

    def __init__(self, name, kind):
        self.headers, self.kind = [name, kind], kind

    def get_energy_usage_type(self):
        return T("libecalc.common.energy_usage_type:EnergyUsageType")[self.kind]


@contract("C25", CM + "._map_tabular", "libecalc.presentation.yaml.domain.expression_time_series_variable:ExpressionTimeSeriesVariable.get_values",
          "libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated.tabular_consumer_function:TabularConsumerFunction.evaluate_variables",
          bounded="one variable and a table of two rows; values and their number unbounded")
def tabulated_as_given(s):
    """a tabulated consumer looks up the value of its variable, per stream day when that is a rate, and uses nothing where its conditions do not hold"""
    n, a, reg, ev, cond, on = _inputs(s, lo=0)
    C = T(CT)
    name, kind = s.choice("variable", ["RATE", "rate", "SPEED"]), s.choice("kind", ["FUEL", "POWER"])
    lossy = s.choice("losses", [False, True])
    y = dict(TYPE="TABULATED", ENERGYFUNCTION="ref", VARIABLES=[{"NAME": name, "EXPRESSION": "V;X"}], **cond, **({"POWERLOSSFACTOR": "V;L"} if lossy else {}))
    y = T(EU + "YamlEnergyUsageModelTabulated").model_validate(y, context=None)
    m = _mapper(s, ev, reg)
    s.patch(m._tabular_model_mapper, "create_tabular_model", lambda ref: {"ref": _Table(name, kind)}[ref])
    consumes = s.choice("consumes", [C.ELECTRICITY, C.FUEL])
    r = s.run(m._map_tabular, model=y, consumes=consumes, period="period")
    if (consumes == C.FUEL) != (kind == "FUEL"):
        s.ensure("of the energy it consumes", r.raised(T(CF + "InvalidConsumptionType")))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    e = s.run(r.value.evaluate)
    s.ensure("evaluated", e.ok)
    u = s.run(lambda: e.value.energy_usage).value
    s.ensure("one value per period", s.len(u) == n)
    for k in s.indices(n):
        part = 1 - a["L"][k] if lossy else 1
        x = a["X"][k] if name == "SPEED" else s.ite(reg[k] == 0, 0.0, a["X"][k] / s.ite(reg[k] == 0, 1.0, reg[k]))
        if on(k):
            if x <= 10:
                s.ensure("the table at the value", s.eq(u[k] * part, 2 + x * 0.5))
            else:
                s.ensure("no number outside the table", s.isnan(u[k]))
        else:
            s.ensure("nothing where the conditions do not hold", s.eq(u[k], 0))


@contract("C25", CM + ".__init__", CM + ".from_yaml_to_dto", CM + "._map_direct", bounded="one or two models, dated at starts of periods (or before the first); values, dates and the number of periods unbounded", budget=60, weight=2)
def models_in_force(s):
    """in every period a consumer is evaluated by the model in force there, with the variables and the regularity of that period"""
    Period, Reg = T("libecalc.common.time_utils:Period"), T("libecalc.domain.regularity:Regularity")
    C = T(CT)
    n = s.length("n", lo=1)
    m = s.choice("models", [1, 2])
    xs = [s.array(f"x{i}", n, kind="list", lo=0) for i in range(m)]
    reg = s.array("reg", n, kind="list", lo=0.25, hi=1)
    ev, d = _evaluator(s, n, REG=reg, **{f"X{i}": x for i, x in enumerate(xs)})
    day = s.choice("rate type", ["STREAM_DAY", "CALENDAR_DAY"])
    pos, lo = [], 0
    for i in range(m):
        p = s.int(f"p{i}", lo=lo, hi=n - 1)
        pos.append(p)
        lo = p + 1
    dates = [d[p] for p in pos]
    if s.choice("before the first period", [False, True]):
        s.assume(pos[0] == 0)
        e = s.date("early")
        s.assume(e < d[0])
        dates[0] = e
    Y = T(EU + "YamlEnergyUsageModelDirectElectricity")
    models = [Y.model_validate(dict(TYPE="DIRECT", LOAD=f"V;X{i}", CONSUMPTION_RATE_TYPE=day)) for i in range(m)]
    target = Period(d[0], d[n])
    r = s.run(Reg, expression_evaluator=ev, target_period=target, expression_input="V;REG")
    s.ensure("regularities accepted", r.ok)
    context = type("Context", (), {"_process_service": None})()
    f = s.run(T(CM), configuration=None, resources=None, references=None, target_period=target, expression_evaluator=ev, regularity=r.value,
              energy_usage_model=dict(zip(dates, models)), mapping_context=context, consumer_id="consumer")
    s.ensure("mapper made", f.ok, repr(f.exc))
    t = s.run(f.value.from_yaml_to_dto, C.ELECTRICITY)
    s.ensure("mapped", t.ok, repr(t.exc))
    got = list(t.value.items())
    s.ensure("one function per model", len(got) == m)
    ends = [*pos[1:], n]
    for i, (p, g) in enumerate(got):
        s.ensure("from where the model starts to where the next one does", s.and_(s.eq(p.start, d[pos[i]]), s.eq(p.end, d[ends[i]])))
        e = s.run(g.evaluate)
        s.ensure("evaluated", e.ok, repr(e.exc))
        u = e.value.energy_usage
        s.ensure("one value per period of the model", s.len(u) == ends[i] - pos[i])
        for k in s.indices(ends[i] - pos[i]):
            x, rr = xs[i][pos[i] + k], reg[pos[i] + k]
            s.ensure("by the model in force, for its own period", s.eq(u[k] * rr, x) if day == "CALENDAR_DAY" else s.eq(u[k], x))


CMP = "libecalc.presentation.yaml.mappers.component_mapper:"
EM = CMP + "EcalcModelMapper"


class _References:
    """stands for the references of the model file: every fuel and generator table by its name"""

    def get_fuel_reference(self, name):
        return T("libecalc.presentation.yaml.yaml_types.fuel_type.yaml_fuel_type:YamlFuelType").model_validate({"NAME": name, "EMISSIONS": [{"NAME": "CO2", "FACTOR": f"V;{name}"}]})

    def get_yaml_path(self, name):
        return T("libecalc.presentation.yaml.mappers.yaml_path:YamlPath")(("FUELTYPES", name))

    def get_generator_set_model(self, name):
        return type("Table", (), {"file": name + ".csv", "name": name})()


class _File:
    def get_file_context(self, path):
        return None


def _ecalc(ev, target, resources=None):
    return T(EM)(resources=resources, references=_References(), target_period=target, expression_evaluator=ev,
                 mapping_context=T("libecalc.presentation.yaml.mappers.yaml_mapping_context:MappingContext")(target_period=target), configuration=_File())


def _emission_is(s, v, given, reg, k, day, unit=1.0):
    if day == "CALENDAR_DAY":
        s.ensure("per stream day", s.eq(v[k] * reg[k] * unit, s.ite(reg[k] == 0, 0.0, given)))
        s.ensure("zero when the regularity is", s.implies(reg[k] == 0, s.eq(v[k], 0)))
    else:
        s.ensure("as given", s.eq(v[k] * unit, given))


@contract("C25", EM + ".map_venting_emitter", CF + "_map_condition", CF + "handle_condition_list", bounded="two emissions; values and their number unbounded", budget=100)
def venting_as_given(s):
    """a venting emitter emits the rates given (or of the volume given by the factors), each where its own conditions hold"""
    Period = T("libecalc.common.time_utils:Period")
    n = s.length("n", lo=1)
    a = {x: s.array(x.lower(), n, kind="list") for x in ("X", "C", "D", "Y")}
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    ev, d = _evaluator(s, n, **a)
    cond, on = _condition(s, a["C"], a["D"])
    day, unit = s.choice("rate type", ["STREAM_DAY", "CALENDAR_DAY"]), s.choice("unit", ["KG_PER_DAY", "TONS_PER_DAY"])
    from contracts.energy import Reg
    R = Reg(ev.get_periods(), reg)
    pt, YV = T("libecalc.presentation.yaml.mappers.yaml_path:YamlPath")(("x",)), "libecalc.presentation.yaml.yaml_types.emitters.yaml_venting_emitter:"
    defaults = T(CMP + "Defaults")(regularity=R, fuel=None)
    m = _ecalc(ev, Period(d[0], d[n]))
    oil = s.choice("oil", [False, True])
    rate = {"VALUE": "V;X", "TYPE": day, **cond}
    if oil:
        y = T(YV + "YamlOilTypeEmitter").model_validate({"NAME": "vent", "CATEGORY": "LOADING", "TYPE": "OIL_VOLUME", "VOLUME": {"RATE": rate, "EMISSIONS": [{"NAME": "CO2", "EMISSION_FACTOR": 2}]}})
    else:
        y = T(YV + "YamlDirectTypeEmitter").model_validate({"NAME": "vent", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [
            {"NAME": "CO2", "RATE": {**rate, "UNIT": unit}}, {"NAME": "CH4", "RATE": {"VALUE": "V;Y", "UNIT": unit, "TYPE": day}}]})
    r = s.run(m.map_venting_emitter, y, id="id", yaml_path=pt, defaults=defaults)
    s.ensure("accepted", r.ok, repr(r.exc))
    s.ensure("its name and category", r.value.name == "vent" and r.value.get_id() == "id")
    x = lambda k: s.ite(on(k), a["X"][k], 0.0)
    per = 1000 if unit == "KG_PER_DAY" else 1.0
    em = s.run(r.value.get_emissions)
    s.ensure("its emissions", em.ok and sorted(em.value) == (["co2"] if oil else ["ch4", "co2"]))
    if oil:
        st = s.run(r.value.get_storage_rates)
        s.ensure("oil rate", st.ok)
        got = [(st.value.values, x, 1.0), (em.value["co2"].values, x, 500)]
    else:
        got = [(em.value["co2"].values, x, per), (em.value["ch4"].values, lambda k: a["Y"][k], per)]
    for v, given, f in got:
        s.ensure("one value per period", s.len(v) == n)
        for k in s.indices(n):
            _emission_is(s, v, given(k), reg, k, day, f)


YC = "libecalc.presentation.yaml.yaml_types.components."


@contract("C25", EM + ".map_installation", EM + ".map_consumer", EM + ".map_generator_set", EM + "._resolve_fuel", EM + ".map_yaml_component", CMP + "_get_component_type",
          "libecalc.presentation.yaml.domain.expression_time_series_cable_loss:ExpressionTimeSeriesCableLoss.get_values", "libecalc.presentation.yaml.domain.expression_time_series_max_usage_from_shore:ExpressionTimeSeriesMaxUsageFromShore.get_values",
          bounded="one generator set with one consumer and one fuel consumer, one or two dates, four combinations of what is given (all of them concretely); values, dates and the number of periods unbounded", budget=60, weight=2)
def installations_as_given(s):
    """every consumer of an installation gets the regularity of the installation, and burns its own fuel, or that of the installation when it has none; generator sets have the table, the cable loss and the limit given"""
    Period = T("libecalc.common.time_utils:Period")
    n = s.length("n", lo=2)
    a = {x: s.array(x.lower(), n, kind="list", lo=0, **({"hi": 1} if x in ("REG", "L") else {})) for x in ("REG", "X", "Y", "L", "M", "HC")}
    ev, d = _evaluator(s, n, **a)
    p = s.int("p", lo=1, hi=n - 1)
    target = Period(d[0], d[n])
    # whose fuel: (of the installation, of the generator set, of the consumer) and what it is before and after a date
    FUELS = [("a", None, None), ("a", "b", "c"), (None, "b", "c"), ("ab", None, "c"), ("ab", "b", None), ("a", "ba", "ca")]
    case = s.choice("case", [0, 1, 2, 3]) if s.symbolic else None
    default, own_g, own_c = s.choice("fuels", FUELS) if case is None else [FUELS[0], FUELS[2], FUELS[4], FUELS[5]][case]
    fuel = lambda f: {} if f is None else {"FUEL": {d[0]: f[0], d[p]: f[1]} if len(f) == 2 else f}
    category = s.choice("category", ["TURBINE-GENERATOR", "POWER-FROM-SHORE", "both"]) if case is None else ["both", "TURBINE-GENERATOR", "POWER-FROM-SHORE", "both"][case]
    dated = s.choice("table", [False, True]) if case is None else case == 2
    shore = category != "TURBINE-GENERATOR"
    limit = (s.choice("limit", [None, 0, "V;M"]) if case is None else [0, None, "V;M", None][case]) if shore else None
    loss = (s.choice("loss", [None, "V;L"]) if case is None else [None, None, "V;L", "V;L"][case]) if shore else None
    g = {"NAME": "genset", "CATEGORY": category if category != "both" else {d[0]: "POWER-FROM-SHORE", d[p]: "TURBINE-GENERATOR"}, "ELECTRICITY2FUEL": {d[0]: "t1", d[p]: "t2"} if dated else "t1", **fuel(own_g),
         "CONSUMERS": [{"NAME": "load", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": "V;X"}}]}
    if limit is not None:
        g["MAX_USAGE_FROM_SHORE"] = limit
    if loss is not None:
        g["CABLE_LOSS"] = loss
    y = {"NAME": "inst", "REGULARITY": "V;REG", "HCEXPORT": "V;HC", **fuel(default), "GENERATORSETS": [g], "FUELCONSUMERS": [
        {"NAME": "flare", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "V;Y"}, **fuel(own_c)}]}
    y = T(YC + "yaml_installation:YamlInstallation").model_construct(**_yaml(s, y))
    m = _ecalc(ev, target)
    s.patch(m, "_create_generator_set_model", lambda name: type("Table", (), {"name": name})())
    r = s.run(m.map_installation, y, id="inst", yaml_path=T("libecalc.presentation.yaml.mappers.yaml_path:YamlPath")(("installations", 0)))
    s.ensure("accepted", r.ok, repr(r.exc))
    inst = r.value
    s.ensure("its parts", [c.get_name() for c in inst.fuel_consumers] == ["genset", "flare"] and inst.venting_emitters == [] and inst.get_name() == "inst")
    gen, flare = inst.fuel_consumers
    s.ensure("the consumers of the generator set", [c.get_name() for c in gen.consumers] == ["load"])
    for c in (inst, gen, flare, *gen.consumers):
        v = c.regularity.values
        for k in s.indices(n):
            s.ensure("regularity of the installation", s.eq(v[k], a["REG"][k]))
    h = inst.hydrocarbon_export.time_series.values
    for k in s.indices(n):
        s.ensure("export as given", s.eq(h[k], a["HC"][k]))
    for c, f in ((gen, own_g or default), (flare, own_c or default)):
        got = list(c.fuel.items())
        s.ensure("the fuel given, from the date given", [x.name for _, x in got] == list(f))
        s.ensure("its emissions", all(len(x.emissions) == 1 and x.emissions[0].name == "co2" and str(x.emissions[0].factor) == f"V;{x.name}" for _, x in got))
        for (q, _), (start, end) in zip(got, [(0, n)] if len(f) == 1 else [(0, p), (p, n)]):
            s.ensure("dates of the fuel", s.and_(s.eq(q.start, d[start]), s.eq(q.end, d[end])))
    got = list(gen.temporal_generator_set_model.items())
    s.ensure("the table given, from the date given", [x.name for _, x in got] == (["t1", "t2"] if dated else ["t1"]))
    for (q, _), (start, end) in zip(got, [(0, p), (p, n)] if dated else [(0, n)]):
        s.ensure("dates of the table", s.and_(s.eq(q.start, d[start]), s.eq(q.end, d[end])))
    s.ensure("a limit exactly when it is given", (gen.max_usage_from_shore is not None) == (limit is not None))
    if limit is not None:
        v = s.run(gen.max_usage_from_shore.get_values)
        s.ensure("limits", v.ok)
        for k in s.indices(n):
            s.ensure("the limit given", s.eq(v.value[k], 0 if limit == 0 else a["M"][k]))
    s.ensure("a cable loss exactly when it is given", (gen.cable_loss is not None) == (loss is not None))
    if loss is not None:
        v = s.run(gen.cable_loss.get_values)
        s.ensure("losses", v.ok)
        for k in s.indices(n):
            s.ensure("the cable loss given, where power comes from shore", s.eq(v.value[k], s.ite(s.and_(category == "both", k >= p), 0.0, a["L"][k])))
    for c, model, x in ((gen.consumers[0], "X", True), (flare, "Y", False)):
        [f] = list(c.energy_usage_model.items())
        u = s.run(f[1].evaluate)
        s.ensure("evaluated", u.ok)
        for k in s.indices(n):
            s.ensure("its own load or rate", s.eq(u.value.energy_usage[k], a[model][k]))


def _yaml(s, y):
    """the parts of the installation read as the model file is (dates may be any, so a model keyed by dates is put in as read)"""
    Y = lambda path: T(YC + path)
    con = lambda cls, o, model: Y(cls).model_construct(name=o["NAME"], category=o["CATEGORY"], fuel=o.get("FUEL"), energy_usage_model=T(EU + model).model_validate(o["ENERGY_USAGE_MODEL"]))
    g = y["GENERATORSETS"][0]
    gen = Y("yaml_generator_set:YamlGeneratorSet").model_construct(name=g["NAME"], category=g["CATEGORY"], fuel=g.get("FUEL"), electricity2fuel=g["ELECTRICITY2FUEL"], cable_loss=g.get("CABLE_LOSS"), max_usage_from_shore=g.get("MAX_USAGE_FROM_SHORE"),
                                                                   consumers=[con("legacy.yaml_electricity_consumer:YamlElectricityConsumer", c, "YamlEnergyUsageModelDirectElectricity") for c in g["CONSUMERS"]])
    fuel = [con("legacy.yaml_fuel_consumer:YamlFuelConsumer", c, "YamlEnergyUsageModelDirectFuel") for c in y["FUELCONSUMERS"]]
    return dict(name=y["NAME"], category=None, hydrocarbon_export=y["HCEXPORT"], fuel=y.get("FUEL"), regularity=y["REGULARITY"], generator_sets=[gen], fuel_consumers=fuel, venting_emitters=None)
