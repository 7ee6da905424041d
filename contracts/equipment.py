"""C26: the equipment described in the model file is the equipment evaluated"""
from contracts.common import T
from contracts.trains import PC, SH, _module
from vc.harness import contract

CF = "libecalc.presentation.yaml.mappers.consumer_function_mapper:"
CM = CF + "CompressorModelMapper"
MO = "libecalc.presentation.yaml.mappers.model:"
UT = "libecalc.presentation.yaml.mappers.utils:"
UD = "libecalc.presentation.yaml.mappers.charts.user_defined_chart_data:UserDefinedChartData"
GI = "libecalc.presentation.yaml.mappers.charts.generic_from_input_chart_data:GenericFromInputChartData"
CCR = "libecalc.domain.process.value_objects.chart.compressor.chart_creator:CompressorChartCreator"
BC = "libecalc.domain.process.value_objects.chart.base:ChartCurve"
ST = "libecalc.presentation.yaml.mappers.simplified_train_mapping_utils:"
BA = "libecalc.domain.process.compressor.core.train.base:"
CT = "libecalc.domain.process.compressor.core.base:CompressorWithTurbineModel"
Y = "libecalc.presentation.yaml.yaml_types.models."
TRN, STG, CHT = Y + "yaml_compressor_trains:", Y + "yaml_compressor_stages:", Y + "yaml_compressor_chart:"
EN = Y + "yaml_enums:"
MX = "libecalc.presentation.yaml.model_validation_exception:ModelValidationException"
VX = "libecalc.common.errors.ecalc_validation_error:EcalcValidationException"
CONTROLS = ["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "INDIVIDUAL_ASV_PRESSURE", "INDIVIDUAL_ASV_RATE", "COMMON_ASV"]
G = 9.81


class _Refs:
    """what is defined in the model file, by name (that the names are those of the file is the reference service's)"""

    def __init__(self, **kinds):
        for kind, models in kinds.items():
            setattr(self, "get_" + kind, models.__getitem__)

    def get_yaml_path(self, reference):
        return _Path()


class _NoContext:
    def get_file_context(self, path):
        return None


class _Path:
    keys = ("MODELS", 0)

    def append(self, key):
        return self


def _mapper(s, resources=None, **kinds):
    return T(CM)(resources=resources or {}, reference_service=_Refs(**kinds), configuration=_NoContext())


def _service(s):
    """the fluid service of the mappers; only passed on"""
    svc = object()
    N = T("ecalc_neqsim_wrapper.fluid_service:NeqSimFluidService")
    s.patch(_module(CF), "NeqSimFluidService", type("Service", (), {"instance": staticmethod(lambda: svc)}))
    return svc


FLUIDS = ["DRY", "MEDIUM", "ULTRA_RICH"]


def _fluids():
    Fl = Y + "yaml_fluid:YamlPredefinedFluidModel"
    return {f: T(Fl).model_validate(dict(NAME=f, TYPE="FLUID", FLUID_MODEL_TYPE="PREDEFINED", GAS_TYPE=f, EOS_MODEL="SRK")) for f in FLUIDS}


def _is_fluid(fluid, name):
    return fluid == T("libecalc.presentation.yaml.mappers.fluid_mapper:predefined_fluid_model_mapper")(_fluids()[name])


def _charts(single):
    """two charts, of different units"""
    a = dict(SPEED=100, RATE=[1000, 2000], HEAD=[50, 40], EFFICIENCY=[0.7, 0.8])
    b = dict(SPEED=200, RATE=[2000, 4000], HEAD=[100, 80], EFFICIENCY=[0.6, 0.7])
    c = dict(SPEED=100, RATE=[500, 700], HEAD=[3000, 2000], EFFICIENCY=[60, 50])
    d = dict(SPEED=250, RATE=[900, 1700], HEAD=[6000, 4500], EFFICIENCY=[55, 45])
    one, two = dict(HEAD="KJ_PER_KG", EFFICIENCY="FRACTION"), dict(HEAD="M", EFFICIENCY="PERCENTAGE")
    kind = T(CHT + ("YamlSingleSpeedChart" if single else "YamlVariableSpeedChart"))
    t = "SINGLE_SPEED" if single else "VARIABLE_SPEED"
    mk = lambda n, u, *cs: kind.model_validate({"NAME": n, "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": t, "UNITS": u, **({"CURVE": cs[0]} if single else {"CURVES": list(cs[::-1])})})
    return {"one": mk("one", one, a, b), "two": mk("two", two, c, d)}


POINTS = {"one": [([1000, 2000], [5e4, 4e4], [0.7, 0.8]), ([2000, 4000], [1e5, 8e4], [0.6, 0.7])],
          "two": [([500, 700], [3000 * G, 2000 * G], [0.6, 0.5]), ([900, 1700], [6000 * G, 4500 * G], [0.55, 0.45])]}
SPEEDS = {"one": [100, 200], "two": [100, 250]}


def _stages(s, several=False):
    """the stages of a train as described, with what each is"""
    out = []
    for i in range(s.choice("stages", [1, 2] if s.symbolic else [1, 2, 3])):
        chart, unit = s.choice(f"stage {i}", [("one", "PERCENTAGE"), ("two", "FRACTION")] if s.symbolic else [(c, u) for c in ("one", "two") for u in ("FRACTION", "PERCENTAGE")])
        t, m, d = s.real(f"temperature {i}", lo=-50, hi=100), s.real(f"margin {i}", lo=0, hi=0.9), s.real(f"drop {i}", lo=0, hi=20)
        if not s.symbolic and s.bool(f"no drop {i}"):
            d = 0.0
        out.append((dict(inlet_temperature=t, compressor_chart=chart, pressure_drop_ahead_of_stage=d, control_margin=m * 100 if unit == "PERCENTAGE" else m,
                         control_margin_unit=T(STG + "YamlControlMarginUnits")(unit)), (chart, t, m, d)))
    return out


def _cut(s):
    """what a control margin does to a curve is C18's; here that each curve is cut by the margin of its stage"""

    def cut(self, margin):
        c = object.__new__(T(BC))
        c.__dict__.update(self.__dict__)
        c.margin = margin
        return c

    if s.symbolic:
        s.patch(T(BC), "adjust_for_control_margin", cut)


def _same_stage(s, st, given, svc, shaft, single):
    chart, t, m, d = given
    s.ensure("cooled to the inlet temperature, in Kelvin", s.eq(st.inlet_temperature_kelvin, t + 273.15))
    s.ensure("after the pressure drop ahead of it", s.eq(st.pressure_drop_ahead_of_stage, d))
    s.ensure("no choke without a pressure drop", s.iff(st.choke is None, s.eq(d, 0)))
    s.ensure("of dry gas", st.remove_liquid_after_cooling)
    s.ensure("on the shaft of the train", st.compressor.shaft is shaft and st.rate_modifier.shaft is shaft)
    near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))
    for unit in (st.compressor, st.rate_modifier):
        c = unit.compressor_chart
        n = 1 if single else 2
        s.ensure("the speeds of its chart", [x.speed for x in c.curves] == SPEEDS[chart][:n])
        for x, o, (Q, H, E) in zip(c.curves, c.chart_data.get_original_curves(), POINTS[chart]):
            s.ensure("the curves of its chart, in the units it is given in", near(o.rate, Q) and near(o.head, H) and near(o.efficiency, E), f"{o.rate} {o.head} {o.efficiency}")
            if s.symbolic:
                s.ensure("cut at the control margin of the stage", s.eq(x.margin, m))
            else:
                s.ensure("cut at the control margin of the stage", s.eq(x.rate[0], Q[0] + m * (Q[1] - Q[0])), f"{x.rate} {Q} {m}")


def _train_fields(s, multi=False):
    f = dict(power_adjustment_factor=s.real("factor", lo=0.1, hi=5), power_adjustment_constant=s.real("constant", lo=-5, hi=5),
             maximum_power=s.choice("max power", [None, 1]) and s.real("maximum power", lo=0.1, hi=100), pressure_control=T(EN + "YamlPressureControl")(s.choice("control", CONTROLS[:2] if s.symbolic else CONTROLS)))
    if not multi:
        f["calculate_max_rate"] = s.choice("max rate", [False, True])
    return f


def _same_train(s, t, f):
    s.ensure("its power adjusted as given", s.and_(s.eq(t.energy_usage_adjustment_factor, f["power_adjustment_factor"]), s.eq(t.energy_usage_adjustment_constant, f["power_adjustment_constant"])))
    s.ensure("its maximum power", t.maximum_power is None if f["maximum_power"] is None else s.eq(t.maximum_power, f["maximum_power"]))
    s.ensure("its pressure control", t.pressure_control == T(PC)(f["pressure_control"].value))
    s.ensure("its highest rate found when asked for", bool(t.calculate_max_rate) == f.get("calculate_max_rate", False))


@contract("C26", CM + "._create_variable_speed_compressor_train", CM + "._create_single_speed_compressor_train", CM + "._create_compressor_train_stage", CM + "._get_compressor_chart", CM + "._get_fluid_model",
          CM + ".create_compressor_model", MO + "_pressure_control_mapper", MO + "single_speed_compressor_chart_mapper", MO + "variable_speed_compressor_chart_mapper",
          UT + "convert_control_margin_to_fraction", UT + "convert_temperature_to_kelvin", UD + ".from_yaml_curves", bounded="trains of up to two stages (concretely three), two charts; the values unbounded", weight=2, budget=120)
def trains_as_described(s):
    """a train of single or variable speed: each stage with its own chart, margin, temperature and pressure drop, in order, on one shaft; the train with its own power adjustment, limits and pressure control"""
    svc = _service(s)
    _cut(s)
    single = s.choice("single speed", [False, True])
    stages = _stages(s)
    fluid = s.choice("fluid", FLUIDS[:1] if s.symbolic else FLUIDS)
    f = _train_fields(s)
    highest = s.choice("highest pressure", [None, 1]) and s.real("maximum discharge pressure", lo=1, hi=500) if single else None
    Stage = T(STG + "YamlCompressorStageWithMarginAndPressureDrop")
    if single:
        f["maximum_discharge_pressure"] = highest
    train = T(TRN + ("YamlSingleSpeedCompressorTrain" if single else "YamlVariableSpeedCompressorTrain")).model_construct(
        name="train", fluid_model=fluid, compressor_train=T(STG + "YamlCompressorStages").model_construct(stages=[Stage.model_construct(**y) for y, _ in stages]), **f)
    r = s.run(_mapper(s, fluid=_fluids(), compressor_chart=_charts(single), compressor_model={"train": train}).create_compressor_model, "train")
    if highest is not None and f["pressure_control"].value != "DOWNSTREAM_CHOKE":
        s.ensure("a maximum discharge pressure only with a downstream choke", r.raised(T(MX)))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    t, fl = r.value
    s.ensure("the fluid it refers to", _is_fluid(fl, fluid))
    _same_train(s, t, f)
    s.ensure("its maximum discharge pressure", t.maximum_discharge_pressure is None if highest is None else s.eq(t.maximum_discharge_pressure, highest))
    s.ensure("on a shaft of one or several speeds", isinstance(t.shaft, T(SH + ("SingleSpeedShaft" if single else "VariableSpeedShaft"))))
    s.ensure("as many stages", len(t.stages) == len(stages))
    s.ensure("no side streams", len(t.ports) == 1)
    for st, (_, given) in zip(t.stages, stages):
        _same_stage(s, st, given, svc, t.shaft, single)
        s.ensure("nothing else in the stage", st.splitter is None and st.mixer is None and st.interstage_pressure_control is None)


# (streams as listed, stages as lists of the streams connected to them); > is INGOING, < is OUTGOING
LAYOUTS = [([">a"], [["a"]]), (["<b", ">a"], [["a"], ["b"]]), ([">b", ">a"], [["a"], ["b"]]), ([">a", ">b", "<c"], [["b", "a"], None, ["c"]]), (["<c", ">b", ">a"], [["a"], ["b", "c"]]),
           ([">d", "<c", ">a"], [["c", "a", "d"], None]), (["<x", ">a", ">y", "<z"], [["a"], ["z", "y"], ["x"]])]
BROKEN = [([">a"], [["a"], ["a"]]), ([">a"], [["a", "q"]]), ([">a", ">b"], [["a"], None]), (["<a", ">b"], [["a"], ["b"]]), ([">a", "<b"], [["a"], ["b"], ["b"]]), ([">a"], [None, ["a"]]), (["<a"], [["a"]]), ([">a", ">a"], [["a"]]),
          ([">a"], [["a", "a"]])]
MULTI = CM + "._create_variable_speed_compressor_train_multiple_streams_and_pressures"


def _multi(s, layout):
    streams, stages = layout
    kind = {">": T(TRN + "YamlMultipleStreamsStreamIngoing"), "<": T(TRN + "YamlMultipleStreamsStreamOutgoing")}
    fluids = {}
    ys = []
    for i, x in enumerate(streams):
        if x[0] == ">":
            fluids[x[1]] = FLUIDS[i % 3]
            ys.append(kind[">"].model_validate(dict(NAME=x[1], TYPE="INGOING", FLUID_MODEL=FLUIDS[i % 3])))
        else:
            ys.append(kind["<"].model_validate(dict(NAME=x[1], TYPE="OUTGOING")))
    given, yst = [], []
    between = s.choice("control between", [None] + list(range(1, len(stages)))[:1 if s.symbolic else None])
    controls = s.choice("controls", [("COMMON_ASV", "UPSTREAM_CHOKE")] if s.symbolic else [(a, b) for a in CONTROLS for b in CONTROLS]) if between is not None else None
    P = T(EN + "YamlPressureControl")
    for i, named in enumerate(stages):
        chart, unit = s.choice(f"stage {i}", [("one", "PERCENTAGE") if i else ("two", "FRACTION")] if s.symbolic else [(c, u) for c in ("one", "two") for u in ("FRACTION", "PERCENTAGE")])
        t, m, d = s.real(f"temperature {i}", lo=-50, hi=100), s.real(f"margin {i}", lo=0, hi=0.9), s.real(f"drop {i}", lo=0, hi=20)
        control = T(STG + "YamlInterstageControlPressure")(upstream_pressure_control=P(controls[0]), downstream_pressure_control=P(controls[1])) if i == between else None
        yst.append(T(STG + "YamlCompressorStageMultipleStreams").model_construct(inlet_temperature=t, compressor_chart=chart, pressure_drop_ahead_of_stage=d, control_margin=m * 100 if unit == "PERCENTAGE" else m,
                                                                                control_margin_unit=T(STG + "YamlControlMarginUnits")(unit), stream=named, interstage_control_pressure=control))
        given.append((chart, t, m, d))
    f = _train_fields(s, multi=True)
    y = T(TRN + "YamlVariableSpeedCompressorTrainMultipleStreamsAndPressures").model_construct(name="train", streams=ys, stages=yst, **f)
    return y, fluids, given, between, controls, f


@contract("C26", MULTI, CM + "._create_compressor_train_stage", MO + "map_yaml_to_fixed_speed_pressure_control", MO + "_pressure_control_mapper", BA + "CompressorTrainModel._make_ports_from_splitters_and_mixers",
          bounded="seven layouts of up to four streams on up to three stages; the values unbounded", weight=2, budget=120)
def streams_as_described(s):
    """each stream of a train goes in or out of the stage it is connected to, wherever it is listed, with its own fluid; the pressure between is controlled as given, at its stage"""
    svc = _service(s)
    _cut(s)
    layout = s.choice("layout", LAYOUTS)
    streams, stages = layout
    y, fluids, given, between, controls, f = _multi(s, layout)
    r = s.run(_mapper(s, fluid=_fluids(), compressor_chart=_charts(False), compressor_model={"train": y}).create_compressor_model, "train")
    s.ensure("accepted", r.ok, repr(r.exc))
    t, fl = r.value
    _same_train(s, t, f)
    s.ensure("a fluid for each stream coming in", len(fl) == len(streams) and all((g is None) if x[0] == "<" else _is_fluid(g, fluids[x[1]]) for g, x in zip(fl, streams)))
    s.ensure("as many stages", len(t.stages) == len(stages))
    s.ensure("on a shaft of several speeds", isinstance(t.shaft, T(SH + "VariableSpeedShaft")))
    for i, (st, g) in enumerate(zip(t.stages, given)):
        _same_stage(s, st, g, svc, t.shaft, False)
        c = st.interstage_pressure_control
        s.ensure("controlled where and as given", c is None if i != between else (c.upstream_pressure_control, c.downstream_pressure_control) == (T(PC)(controls[0]), T(PC)(controls[1])))
    s.ensure("the stage of the pressure between", t.stage_number_interstage_pressure == between)
    if between is not None:
        s.ensure("each part controlled as given", (t.pressure_control_first_part, t.pressure_control_last_part) == (T(PC)(controls[0]), T(PC)(controls[1])))
    numbers = t._in_port_order(list(range(len(streams))))
    s.ensure("each stream on one port", sorted(numbers) == list(range(len(streams))) and len(t.ports) == len(streams))
    where = {name: i for i, named in enumerate(stages) for name in named or []}
    for p, k in zip(t.ports, numbers):
        s.ensure("the port of the stream is in or out of its stage", p.is_inlet_port == (streams[k][0] == ">") and p.connected_to_stage_no == where[streams[k][1]], f"{streams} {stages} {numbers}")
    s.ensure("the inlet first", t.ports[0].is_inlet_port and t.ports[0].connected_to_stage_no == 0)


@contract("C26", MULTI, CM + ".create_compressor_model", bounded="nine layouts with a stream that is not connected to one stage, or no stream into the first", weight=1)
def streams_refused(s):
    """a stream that is connected to no stage, or to more than one, or that is not there, is refused, as is a train nothing comes into"""
    _service(s)
    _cut(s)
    y, *_ = _multi(s, s.choice("layout", BROKEN))
    r = s.run(_mapper(s, fluid=_fluids(), compressor_chart=_charts(False), compressor_model={"train": y}).create_compressor_model, "train")
    s.ensure("refused", r.raised(T(MX)), repr(r.value if r.ok else r.exc))


@contract("C26", CM + "._create_compressor_with_turbine", CM + "._create_turbine", CM + ".create_compressor_model", CT + ".__init__", bounded="tables of two or three rows (values unbounded), a train of one stage", weight=1)
def turbines_as_described(s):
    """a compressor with a turbine has the compressor and the turbine it refers to, each with its own adjustment; the turbine has its table and heating value"""
    from contracts.turbine import CWT, _efficiency, _table
    svc = _service(s)
    _cut(s)
    L, e = _table(s, s.choice("rows", [2, 3]))
    L2, e2 = [0.0, 5.0], [0.1, 0.2]
    nums = lambda tag: dict(power_adjustment_factor=s.real(tag + " factor", lo=0.1, hi=4), power_adjustment_constant=s.real(tag + " constant", lo=0, hi=10))
    ft, fo, lhv = nums("turbine"), nums("outer"), s.real("lhv", lo=1, hi=60)
    ftrain = _train_fields(s)
    Tb = T(Y + "yaml_turbine:YamlTurbine")
    turbines = {"other": Tb.model_construct(name="other", lower_heating_value=1.0, turbine_loads=L2, turbine_efficiencies=e2, power_adjustment_factor=1.0, power_adjustment_constant=0.0),
                "mine": Tb.model_construct(name="mine", lower_heating_value=lhv, turbine_loads=L, turbine_efficiencies=e, **ft)}
    stages = [dict(inlet_temperature=20.0, compressor_chart="one", pressure_drop_ahead_of_stage=0.0, control_margin=0.0, control_margin_unit=T(STG + "YamlControlMarginUnits")("FRACTION"))]
    train = T(TRN + "YamlVariableSpeedCompressorTrain").model_construct(name="train", fluid_model="MEDIUM", compressor_train=T(STG + "YamlCompressorStages").model_construct(
        stages=[T(STG + "YamlCompressorStageWithMarginAndPressureDrop").model_construct(**stages[0])]), **ftrain)
    y = T(Y + "yaml_compressor_with_turbine:YamlCompressorWithTurbine").model_construct(name="both", compressor_model="train", turbine_model="mine", **fo)
    broken = s.choice("broken", [False, True])
    if broken:
        turbines["mine"].turbine_efficiencies = e[:-1]
    r = s.run(_mapper(s, fluid=_fluids(), compressor_chart=_charts(False), compressor_model={"train": train, "both": y}, turbine=turbines).create_compressor_model, "both")
    if broken:
        s.ensure("refused without an efficiency for each load", r.raised(T(MX)))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    m, fl = r.value
    s.ensure("driven by a turbine", isinstance(m, T(CWT)))
    s.ensure("the fluid of the compressor", _is_fluid(fl, "MEDIUM"))
    _same_train(s, m.compressor_model, ftrain)
    s.ensure("of one stage", len(m.compressor_model.stages) == 1)
    powers = s.array("power", 1, lo=0.001, hi=50)
    power = powers[0]
    load = s.run(m._adjust_power, powers)
    s.ensure("adjusted", load.ok)
    s.ensure("the load of the turbine adjusted as given", s.eq(load.value[0], power * fo["power_adjustment_factor"] + fo["power_adjustment_constant"]))
    out = s.run(m.turbine_model.evaluate, powers)
    s.ensure("evaluated", out.ok)
    adj = (power + ft["power_adjustment_constant"]) / ft["power_adjustment_factor"]
    eff = _efficiency(s, L, e, adj)
    s.ensure("the efficiency in the table of the turbine", s.eq(out.value.efficiency[0], eff))
    if eff > 0:
        s.ensure("the heating value of the turbine", s.eq(out.value.get_energy_result().energy_usage.values[0], adj * 86400 / lhv / eff))



@contract("C26", ST + "calculate_number_of_stages", ST + "CompressorOperationalTimeSeries.with_positive_pressures", concrete_only=True, cases=300,
          bounded="up to 6 periods; maximum ratios of 1.1 to 6, pressure ratios to 1000, among them exact powers of the maximum, and nothing to compress")
def stages_needed(s):
    """the fewest stages, and at least one, with which no pressure ratio is above the maximum per stage"""
    from fractions import Fraction
    n = s.choice("periods", [1, 2, 6])
    exact = s.bool("a power of the maximum")
    limit = s.rng.choice([2, 3, 4, 5, 6]) if exact else s.rng.choice([1.1, 1.5, 2.0, 2.5, 3.5, 5.0, round(s.rng.uniform(1.05, 6), 2)])
    sp = [float(s.rng.choice([1, 2, 3, 7, 10])) if exact else s.rng.uniform(0.5, 50) for _ in range(n)]
    k = s.choice("power", [0, 1, 2, 3, 4, 5, 6])
    dp = [x * (float(limit) ** s.rng.choice([0, k]) if exact else s.rng.choice([1.0, 0.7, s.rng.uniform(1, limit), s.rng.uniform(1, 1000)])) for x in sp]
    r = s.run(T(ST + "calculate_number_of_stages"), maximum_pressure_ratio_per_stage=limit, suction_pressures=_np(sp), discharge_pressures=_np(dp))
    s.ensure("does not fail", r.ok, repr(r.exc))
    m = r.value
    highest = max(Fraction(b) / Fraction(a) for a, b in zip(sp, dp))
    slack = 0 if exact else Fraction(1, 10 ** 9)
    s.ensure("at least one", m >= 1 and m == int(m), f"{m}")
    s.ensure("enough", highest <= Fraction(limit) ** m * (1 + slack), f"{m} {float(highest)} {limit}")
    s.ensure("no more than needed", m == 1 or highest > Fraction(limit) ** (m - 1) * (1 - slack), f"{m} {float(highest)} {limit}")


def _np(values):
    import numpy as np
    return np.array(values, dtype=float)


SIMPLE = CM + "._create_simplified_model_with_prepared_stages"


def _generic(s):
    """charts to be made, of different units"""
    D, I = T(CHT + "YamlGenericFromDesignPointChart"), T(CHT + "YamlGenericFromInputChart")
    d = lambda n, head, unit, q, e: D.model_validate(dict(NAME=n, TYPE="COMPRESSOR_CHART", CHART_TYPE="GENERIC_FROM_DESIGN_POINT", DESIGN_RATE=q, DESIGN_HEAD=head, POLYTROPIC_EFFICIENCY=e, UNITS=dict(HEAD=unit, EFFICIENCY="FRACTION")))
    i = lambda n, e, unit: I.model_validate(dict(NAME=n, TYPE="COMPRESSOR_CHART", CHART_TYPE="GENERIC_FROM_INPUT", POLYTROPIC_EFFICIENCY=e, UNITS=dict(EFFICIENCY=unit)))
    return {"one": d("one", 80, "KJ_PER_KG", 5000, 0.7), "two": d("two", 9000, "M", 2000, 0.8), "in": i("in", 0.75, "FRACTION"), "in%": i("in%", 65, "PERCENTAGE")}


@contract("C26", SIMPLE, CM + ".create_compressor_model", ST + "calculate_number_of_stages", ST + "CompressorOperationalTimeSeries.with_positive_pressures", MO + "_generic_from_design_point_compressor_chart_mapper", UT + "convert_head_to_joule_per_kg",
          UT + "convert_efficiency_to_fraction", UT + "convert_rate_to_am3_per_hour", BA + "calculate_pressure_ratio_per_stage", GI + ".__init__", concrete_only=True, cases=250,
          bounded="up to three stages as given, or as many as needed, in up to six periods, in some of which it may not run")
def simplified_as_described(s):
    """each stage of a simplified train has its own temperature and the chart of its reference; a chart made from the input is made for the rates and the pressures of the stage, an equal share of the ratio each, in the periods it can run in"""
    svc = _service(s)
    C = s.rng
    made = []

    class Made(T("libecalc.domain.process.value_objects.chart.chart:ChartData")):
        def __init__(self, **k):
            made.append((self, k))

        curves = T(CCR).from_rate_and_head_design_point(design_actual_rate_m3_per_hour=1000, design_head_joule_per_kg=1e5, polytropic_efficiency=0.7)

        def get_original_curves(self):
            return self.curves.get_original_curves()

        get_adjusted_curves = get_original_curves

        @property
        def origin_of_chart_data(self):
            return T("libecalc.common.chart_type:ChartType").GENERIC_FROM_INPUT

    s.patch(_module(CF), "GenericFromInputChartData", Made)
    n = s.choice("periods", [1, 2, 6])
    unknown = s.choice("stages", ["known", "unknown"]) == "unknown"
    fluid, f = C.choice(FLUIDS), None
    limit = C.choice([1.5, 2.0, 3.0])
    data = True if unknown else s.choice("operational data", [True, False])
    names = ["one", "two", "in", "in%"] if data else ["one", "two"]
    stages = [(C.uniform(-30, 90), C.choice(names)) for _ in range(1 if unknown else s.choice("count", [1, 2, 3]))]
    f = dict(power_adjustment_factor=C.uniform(0.5, 2), power_adjustment_constant=C.uniform(-1, 1), maximum_power=C.choice([None, 5.0]), calculate_max_rate=C.choice([True, False]))
    stop = [n > 1 and i and C.random() < 0.3 for i in range(n)]
    sp = [C.choice([0.0, -1.0]) if x and C.random() < 0.5 else C.uniform(1, 30) for x in stop]
    dp = [0.0 if x else abs(p) * C.choice([1.0, C.uniform(1, 2), C.uniform(1, 60)]) for x, p in zip(stop, sp)]
    rates = [0.0 if x else C.uniform(1e3, 1e6) for x in stop]
    Op = T(ST + "CompressorOperationalTimeSeries")
    op = Op(rates=_np(rates), suction_pressures=_np(sp), discharge_pressures=_np(dp)) if data else None
    spec = T(STG + "YamlUnknownCompressorStages")(maximum_pressure_ratio_per_stage=limit, inlet_temperature=stages[0][0], compressor_chart=stages[0][1]) if unknown else T(STG + "YamlCompressorStages").model_construct(
        stages=[T(STG + "YamlCompressorStage")(inlet_temperature=t, compressor_chart=c) for t, c in stages])
    y = T(TRN + "YamlSimplifiedVariableSpeedCompressorTrain").model_construct(name="train", fluid_model=fluid, compressor_train=spec, **f)
    yc = _generic(s)
    r = s.run(_mapper(s, fluid=_fluids(), compressor_chart=yc, compressor_model={"train": y}).create_compressor_model, "train", operational_data=op)
    s.ensure("accepted", r.ok, repr(r.exc))
    t, fl = r.value
    s.ensure("the fluid it refers to", _is_fluid(fl, fluid))
    s.ensure("its power adjusted as given", (t.energy_usage_adjustment_factor, t.energy_usage_adjustment_constant) == (f["power_adjustment_factor"], f["power_adjustment_constant"]))
    s.ensure("its maximum power", t.maximum_power == f["maximum_power"])
    s.ensure("its highest rate found when asked for", bool(t.calculate_max_rate) == f["calculate_max_rate"])
    on = [i for i in range(n) if not stop[i]]
    if unknown:
        ratio = max(dp[i] / sp[i] for i in on)
        m = len(t.stages)
        s.ensure("the fewest stages with no more than the maximum ratio each", m >= 1 and ratio <= limit ** m * (1 + 1e-9) and (m == 1 or ratio > limit ** (m - 1) * (1 - 1e-9)), f"{m} {ratio} {limit}")
        stages = stages * m
    s.ensure("as many stages", len(t.stages) == len(stages))
    near = lambda a, b: len(a) == len(b) and all(abs(x - z) <= 1e-9 * max(1, abs(z)) for x, z in zip(a, b))
    k = 0
    for i, (st, (temp, c)) in enumerate(zip(t.stages, stages)):
        s.ensure("cooled to the inlet temperature, in Kelvin", abs(st.inlet_temperature_kelvin - temp - 273.15) < 1e-9)
        s.ensure("of dry gas, without pressure drop or side streams", st.remove_liquid_after_cooling and st.pressure_drop_ahead_of_stage == 0 and st.splitter is None and st.mixer is None)
        for unit in (st.compressor, st.rate_modifier):
            d = unit.compressor_chart.chart_data
            if c in ("one", "two"):
                q, h, e = (5000, 8e4, 0.7) if c == "one" else (2000, 9000 * G, 0.8)
                want = T(CCR).from_rate_and_head_design_point(design_actual_rate_m3_per_hour=q, design_head_joule_per_kg=h, polytropic_efficiency=e)
                for a, b in zip(d.get_original_curves(), want.get_original_curves()):
                    s.ensure("the chart of the design point", near(a.rate, b.rate) and near(a.head, b.head) and near(a.efficiency, b.efficiency), f"{a.rate} {b.rate}")
                s.ensure("a chart of one kind", len(d.get_original_curves()) == len(want.get_original_curves()))
            else:
                ks = [x for o, x in made if o is d]
                s.ensure("a chart made from the input", len(ks) == 1)
                x = ks[0]
                s.ensure("of its efficiency", abs(x["polytropic_efficiency"] - (0.75 if c == "in" else 0.65)) < 1e-12)
                s.ensure("of the fluid of the train", x["fluid_model"] == fl and x["fluid_service"] is svc)
                s.ensure("at the temperature of the stage", abs(x["inlet_temperature"] - temp - 273.15) < 1e-9)
                s.ensure("for the rates of the periods it can run in", near(x["standard_rates"], [rates[j] for j in on]), f"{x['standard_rates']} {rates}")
                up = lambda e: [sp[j] * (dp[j] / sp[j]) ** (e / len(stages)) for j in on]
                s.ensure("from the pressure the stages before it leave", near(x["inlet_pressure"], up(i)), f"{x['inlet_pressure']} {up(i)}")
                s.ensure("by its share of the ratio", near(x["outlet_pressure"], up(i + 1)), f"{x['outlet_pressure']} {up(i + 1)}")


@contract("C26", GI + "._chart", GI + ".get_original_curves", GI + ".get_adjusted_curves", GI + ".__init__", concrete_only=True, cases=150, bounded="up to six periods")
def chart_from_the_input(s):
    """the chart made from the input is made of the actual rate into the stage and of the head of the compression, at the efficiency given, in each of the periods"""
    C = s.rng
    n = s.choice("periods", [1, 2, 6])
    p, q = [C.uniform(1, 50) for _ in range(n)], [C.choice([0.0, C.uniform(1e3, 1e6)]) for _ in range(n)]
    out, temp, e = [x * C.uniform(1, 10) for x in p], C.uniform(250, 350), C.uniform(0.3, 0.95)
    asked = []

    class Service:
        def create_stream_from_standard_rate(self, **k):
            asked.append(k)
            return type("Stream", (), {"volumetric_rate_m3_per_hour": k["standard_rate_m3_per_day"] / k["pressure_bara"] / 24, "given": k})()

    svc, seen = Service(), []

    def heads(inlet_streams, outlet_pressure, polytropic_efficiency_vs_rate_and_head_function, fluid_service):
        seen.append((inlet_streams, list(outlet_pressure), fluid_service))
        eff = polytropic_efficiency_vs_rate_and_head_function(_np(q), _np(q))
        return _np([(b / x.given["pressure_bara"] - 1) * 1e4 / z for x, b, z in zip(inlet_streams, outlet_pressure, eff)]), eff

    chart = T(CCR).from_rate_and_head_design_point(design_actual_rate_m3_per_hour=1000, design_head_joule_per_kg=1e5, polytropic_efficiency=0.7)
    points = []
    s.patch(_module(GI), "calculate_enthalpy_change_head_iteration", heads)
    s.patch(T(CCR), "from_rate_and_head_values", staticmethod(lambda **k: points.append(k) or chart))
    d = T(GI)(fluid_model="fluid", fluid_service=svc, standard_rates=q, inlet_temperature=temp, inlet_pressure=p, polytropic_efficiency=e, outlet_pressure=out)
    r = s.run(lambda: (d.get_original_curves(), d.get_adjusted_curves()))
    s.ensure("made", r.ok, repr(r.exc))
    s.ensure("its curves, not cut", r.value[0] is chart.get_original_curves() and r.value[1] is chart.get_original_curves() and len(points) == 1)
    s.ensure("the gas into the stage", [(k["fluid_model"], k["pressure_bara"], k["temperature_kelvin"], k["standard_rate_m3_per_day"]) for k in asked[:n]] == [("fluid", a, temp, b) for a, b in zip(p, q)])
    near = lambda a, b: len(a) == len(b) and all(abs(x - y) <= 1e-9 * max(1, abs(y)) for x, y in zip(a, b))
    s.ensure("the actual rates", near(points[0]["actual_volume_rates_m3_per_hour"], [b / a / 24 for a, b in zip(p, q)]))
    s.ensure("the heads of the compression", near(points[0]["heads_joule_per_kg"], [(b / a - 1) * 1e4 for a, b in zip(p, out)]))
    s.ensure("the efficiency given", points[0]["polytropic_efficiency"] == e)


PMM = CF + "PumpModelMapper"
TMM = CF + "TabularModelMapper"
FAC = "libecalc.presentation.yaml.yaml_types.facility_model.yaml_facility_model:"
RES = "libecalc.presentation.yaml.yaml_entities:MemoryResource"


@contract("C26", PMM + ".create_pump_model", TMM + ".create_tabular_model", CM + "._create_compressor_sampled", CM + ".create_compressor_model", concrete_only=True, cases=200,
          bounded="generated tables of two to five rows, columns and rows in any order")
def tables_as_described(s):
    """a pump, a tabulated consumer and a sampled compressor have the values of the file they refer to, by the names of the columns; a file that is not there is refused"""
    C = s.rng
    kind = s.choice("kind", ["pump", "pumps", "tabular", "sampled", "sampled fuel"])
    m = C.choice([2, 3, 5])
    rates = sorted(C.sample(range(100, 5000), m))
    if kind in ("pump", "pumps"):
        cols = {"SPEED": [100] * m, "RATE": rates, "HEAD": [float(3000 - r / 3) for r in rates], "EFFICIENCY": [C.uniform(0.3, 0.9) for _ in rates]}
        if kind == "pumps":
            cols = {k: v + [x * (2 if k in ("SPEED", "RATE") else 4 if k == "HEAD" else 1) for x in v] for k, v in cols.items()}
    elif kind == "tabular":
        cols = {"RATE": rates, C.choice(["POWER", "FUEL"]): [C.uniform(1, 50) for _ in rates]}
    else:
        cols = {"RATE": rates, "SUCTION_PRESSURE": [C.uniform(10, 20) for _ in rates], "DISCHARGE_PRESSURE": [C.uniform(50, 80) for _ in rates]}
        for x in C.sample(list(cols), C.choice([0, 0, 1, 2])):
            del cols[x]
        cols["FUEL" if "fuel" in kind else "POWER"] = [C.uniform(1, 50) for _ in rates]
        if "fuel" in kind and C.random() < 0.5:
            cols["POWER"] = [C.uniform(1, 50) for _ in rates]
    names = list(cols)
    C.shuffle(names)
    other = {"A": [1, 2]}
    mk = lambda c, ns: T(RES)(headers=ns, data=[c[x] for x in ns])
    missing = s.choice("missing", [False, False, False, True])
    files = {"other.csv": mk(other, ["A"]), **({} if missing else {"mine.csv": mk(cols, names)})}
    typ = {"pump": "YamlPumpChartSingleSpeed", "pumps": "YamlPumpChartVariableSpeed", "tabular": "YamlTabularModel"}.get(kind, "YamlCompressorTabularModel")
    head = C.choice(["M", "KJ_PER_KG", "JOULE_PER_KG"])
    margin = C.choice([0.0, C.uniform(0, 30)])
    Yu = T(CHT + "YamlUnits")
    y = T(FAC + typ).model_construct(name="mine", file="mine.csv", **(dict(units=Yu(HEAD=head, EFFICIENCY="FRACTION"), head_margin=margin) if "pump" in kind else {}))
    what = {"pump": "pump_model", "pumps": "pump_model", "tabular": "tabulated_model"}.get(kind, "compressor_model")
    refs = _Refs(**{what: {"mine": y, "other": None}})
    made = []
    real = _module(CF).CompressorModelSampled

    class Sampled:
        def __new__(cls, *a, **k):
            import inspect
            made.append(dict(inspect.signature(real).bind(*a, **k).arguments))
            return "sampled"

    s.patch(_module(CF), "CompressorModelSampled", Sampled)
    M = T({"pump": PMM, "pumps": PMM, "tabular": TMM}.get(kind, CM))(resources=files, reference_service=refs, configuration=_NoContext())
    r = s.run(getattr(M, {"pump": "create_pump_model", "pumps": "create_pump_model", "tabular": "create_tabular_model"}.get(kind, "create_compressor_model")), "mine")
    if missing:
        s.ensure("a file that is not there is refused", r.raised(T(MX)), repr(r.exc))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    near = lambda a, b: len(a) == len(b) and all(abs(x - z) <= 1e-9 * max(1, abs(z)) for x, z in zip(a, b))
    if "pump" in kind:
        from contracts.pumps import PUMP
        f = {"M": G, "KJ_PER_KG": 1000, "JOULE_PER_KG": 1}[head]
        curves = r.value._pump_chart.curves if hasattr(r.value, "_pump_chart") else None
        s.ensure("a pump", isinstance(r.value, T(PUMP)))
        if curves is not None:
            s.ensure("its curves", len(curves) == (2 if kind == "pumps" else 1))
            for i, c in enumerate(curves):
                s.ensure("the points of the file", near(c.rate, cols["RATE"][i * m:i * m + m]) and near(c.head, [x * f for x in cols["HEAD"][i * m:i * m + m]]) and near(c.efficiency, cols["EFFICIENCY"][i * m:i * m + m]))
    elif kind == "tabular":
        value = "POWER" if "POWER" in cols else "FUEL"
        s.ensure("of the energy of its column", (r.value.get_energy_usage_type().value == "POWER") == (value == "POWER"))
        j = C.randrange(m)
        got = r.value.interpolate(_np([[rates[j]]]))
        s.ensure("the values of the file", abs(float(_np(got).flat[0]) - cols[value][j]) < 1e-9, f"{got} {cols}")
    else:
        mod, fl = r.value
        s.ensure("no fluid", fl is None)
        s.ensure("a sampled compressor", mod == "sampled" and len(made) == 1)
        for k, c in (("rate_values", "RATE"), ("suction_pressure_values", "SUCTION_PRESSURE"), ("discharge_pressure_values", "DISCHARGE_PRESSURE"), ("energy_usage_values", "FUEL" if "fuel" in kind else "POWER")):
            v = made[0].get(k)
            s.ensure("the values of the columns, in the order of the rows", (v is None) if c not in cols else near(v, cols[c]), f"{k} {v}")
        v = made[0].get("power_interpolation_values")
        s.ensure("power for fuel when it is given", (v is None) if "fuel" not in kind or "POWER" not in cols else near(v, cols["POWER"]))
        s.ensure("fuel or power", made[0]["energy_usage_type"].value == ("FUEL" if "fuel" in kind else "POWER"))


@contract("C26", UT + "convert_rate_to_am3_per_hour", UT + "convert_head_to_joule_per_kg", UT + "convert_head_to_meter_liquid_column", UT + "convert_temperature_to_kelvin", UT + "convert_efficiency_to_fraction", UT + "convert_control_margin_to_fraction")
def units_as_given(s):
    """rates, heads, temperatures, efficiencies and margins are what they are in the unit they are given in; a unit that is not one of theirs is refused"""
    U = T("libecalc.common.units:Unit")
    x = s.real("x")
    kj, j, m = U.POLYTROPIC_HEAD_KILO_JOULE_PER_KG, U.POLYTROPIC_HEAD_JOULE_PER_KG, U.POLYTROPIC_HEAD_METER_LIQUID_COLUMN
    factor = {"convert_rate_to_am3_per_hour": {U.ACTUAL_VOLUMETRIC_M3_PER_HOUR: (1, 0)}, "convert_head_to_joule_per_kg": {kj: (1000, 0), j: (1, 0), m: (G, 0)}, "convert_head_to_meter_liquid_column": {kj: (1000 / G, 0), j: (1 / G, 0), m: (1, 0)},
              "convert_temperature_to_kelvin": {U.KELVIN: (1, 0), U.CELSIUS: (1, 273.15)}, "convert_efficiency_to_fraction": {U.FRACTION: (1, 0), U.PERCENTAGE: (0.01, 0)}, "convert_control_margin_to_fraction": {U.FRACTION: (1, 0), U.PERCENTAGE: (0.01, 0)}}
    name = s.choice("what", list(factor))
    unit = s.choice("unit", [kj, j, m, U.ACTUAL_VOLUMETRIC_M3_PER_HOUR, U.KELVIN, U.CELSIUS, U.FRACTION, U.PERCENTAGE])
    one = name == "convert_control_margin_to_fraction"
    r = s.run(T(UT + name), x if one else [x, 2 * x], unit)
    if unit not in factor[name]:
        s.ensure("refused", r.raised(T(VX)))
        return
    s.ensure("converted", r.ok, repr(r.exc))
    a, b = factor[name][unit]
    got = [r.value] if one else r.value
    s.ensure("each value", len(got) == (1 if one else 2))
    for k, v in enumerate(got):
        want = (k + 1) * x * a + b
        s.ensure("in the unit it is used in", s.and_(s.le(v - want, 1e-9 * s.ite(x < 0, -x, x) + 1e-9), s.le(want - v, 1e-9 * s.ite(x < 0, -x, x) + 1e-9)))
