"""C24 process simulations of a YAML file: the process that is solved is the process as drawn"""
from contracts.common import T
from vc.harness import contract

MA = "libecalc.presentation.yaml.mappers.process_simulation_mapper:ProcessSimulationMapper"
PA = "libecalc.presentation.yaml.mappers.process.process_partitioner:ProcessPartitioner"
SB = "libecalc.presentation.yaml.mappers.process.build_sections:ProcessSectionBuilder"
SV = "libecalc.presentation.yaml.mappers.process.mapped_section_validator:MappedSectionValidator"
AS = "libecalc.process.process_solver.section_assembly:assemble_process_section"
PL = "libecalc.process.process_pipeline.process_pipeline:ProcessPipeline"
EM = "libecalc.presentation.yaml.mappers.ecalc_event_mapper:EcalcEventMapper"
ES = "libecalc.ecalc_model.ecalc_event:EcalcEventService"
FC = "libecalc.ecalc_model.time_series_fluid_model:TimeSeriesFluidComposition"
FM = "libecalc.ecalc_model.time_series_fluid_model:TimeSeriesFluidModel"
FD = "libecalc.presentation.yaml.mappers.fluid_mapper:"
EV = "libecalc.common.errors.ecalc_validation_error:EcalcValidationException"
PU = "libecalc.process.process_units."
YT = "libecalc.presentation.yaml.yaml_types."

KINDS = ["COMPRESSOR", "PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER", "MIXER", "SPLITTER"]
CLASSES = {"COMPRESSOR": "compressor:Compressor", "PRESSURE_DROPPER": "pressure_dropper:PressureDropper", "TEMPERATURE_SETTER": "temperature_setter:TemperatureSetter",
           "LIQUID_REMOVER": "liquid_remover:LiquidRemover", "MIXER": "mixer:Mixer", "SPLITTER": "splitter:Splitter"}
CONTROLS = ["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
COMPONENTS = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]


def _cls(kind):
    return T(PU + CLASSES[kind])


def _drawn(s, refusable=True):
    """the units of a process, some with a name, and constraints on it; most of them make sense"""
    rng = s.rng
    n = rng.choice([1, 2, 2, 3, 3, 4, 5, 6, 7])
    kinds = [rng.choice(["COMPRESSOR"] * 3 + KINDS) for _ in range(n)]
    if "COMPRESSOR" not in kinds and (not refusable or rng.random() < 0.8):
        kinds[rng.randrange(n)] = "COMPRESSOR"
    names = [f"u{i}" if rng.random() < 0.8 else None for i in range(n)]
    constraints = []
    start = 0
    for i in range(n):
        last = i == n - 1
        part = kinds[start:i + 1]
        if names[i] is None or (refusable and rng.random() < 0.05):
            if not last:
                continue
        if not last and (rng.random() < 0.5 or "COMPRESSOR" not in part or "COMPRESSOR" not in kinds[i + 1:] and rng.random() < 0.7):
            if not (refusable and rng.random() < 0.06):
                continue
        at = None if last and (names[i] is None or rng.random() < 0.6) else names[i]
        if last and refusable and rng.random() < 0.1 and names[i] is not None:
            constraints.append((names[i], rng.choice(["INDIVIDUAL_ASV", "COMMON_ASV"]), rng.choice(CONTROLS)))  # and another one at the outlet
            at = None
        surge = rng.choice(["INDIVIDUAL_ASV"] * 3 + (["COMMON_ASV"] * 2 if not set(part) & {"MIXER", "SPLITTER"} or refusable and rng.random() < 0.2 else []) + (["NO_ASV"] if refusable and rng.random() < 0.2 else []))
        control = rng.choice([c for c in CONTROLS if refusable and rng.random() < 0.1 or c in ("UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE") or c.startswith(surge[:9])])
        constraints.append((at, surge, control))
        start = i + 1
    if refusable and rng.random() < 0.05:
        constraints.append((rng.choice(["nowhere", None] + [x for x in names if x]), "INDIVIDUAL_ASV", "DOWNSTREAM_CHOKE"))
    if rng.random() < 0.3:
        rng.shuffle(constraints)
    return kinds, names, constraints


def _sections(kinds, names, constraints):
    """[(indices of units, constraint)], or None if the process cannot be divided"""
    targets = [c[0] for c in constraints]
    if len(set(targets)) != len(targets) or any(t is not None and t not in names for t in targets):
        return None
    out, now = [], []
    for i in range(len(kinds)):
        now.append(i)
        c = [c for c in constraints if c[0] is not None and c[0] == names[i]]
        if c:
            out.append((now, c[0]))
            now = []
    end = [c for c in constraints if c[0] is None]
    if end:
        if not now:
            return None
        out.append((now, end[0]))
    elif any(kinds[i] == "COMPRESSOR" for i in now):
        return None
    elif now:
        out[-1] = (out[-1][0] + now, out[-1][1])
    for units, (at, surge, control) in out:
        k = [kinds[i] for i in units]
        if "COMPRESSOR" not in k or surge == "NO_ASV":
            return None
        if control == "COMMON_ASV" and surge != "COMMON_ASV" or control.startswith("INDIVIDUAL") and surge != "INDIVIDUAL_ASV":
            return None
        if surge == "COMMON_ASV" and ("MIXER" in k or "SPLITTER" in k):
            return None
    return out


def _expected(units, kinds, surge, control):
    """the units of a section with what the solver needs: '<' and '>' are the ends of recirculation, '|' is a choke"""
    if surge == "COMMON_ASV":
        line = ["<", *units, ">"]
    else:
        line, held = [], []
        for i in units:
            if kinds[i] in ("MIXER", "SPLITTER"):
                line += [*held, i]
                held = []
            elif kinds[i] == "COMPRESSOR":
                line += ["<", *held, i, ">"]
                held = []
            else:
                held.append(i)
        line += held
    return ["|", *line] if control == "UPSTREAM_CHOKE" else [*line, "|"] if control == "DOWNSTREAM_CHOKE" else line


def _check_line(s, got, handlers, want, drawn):
    """units as expected, and handlers exactly for the recirculations and chokes among them"""
    mark = {"<": T(PU + "direct_mixer:DirectMixer"), ">": T(PU + "direct_splitter:DirectSplitter"), "|": T(PU + "choke:Choke")}
    s.ensure("the units as drawn, with recirculation and choke where the strategies put them", len(got) == len(want) and all(type(g) is mark[w] if isinstance(w, str) else g is drawn[w] for g, w in zip(got, want)), f"{got} {want}")
    loops = [(a.get_id(), b.get_id()) for a, b in zip([g for g in got if type(g) is mark["<"]], [g for g in got if type(g) is mark[">"]])]
    L, H = T("libecalc.process.process_solver.recirculation_loop:RecirculationLoop"), T("libecalc.process.process_solver.choke_configuration_handler:ChokeConfigurationHandler")
    s.ensure("one recirculation for each pair, in order", [(h.get_mixer_id(), h.get_splitter_id()) for h in handlers if isinstance(h, L)] == loops)
    s.ensure("the choke is handled", [h.get_choke_id() for h in handlers if isinstance(h, H)] == [g.get_id() for g in got if type(g) is mark["|"]])
    s.ensure("and nothing else", len(handlers) == len(loops) + want.count("|") and len({h.get_id() for h in handlers}) == len(handlers))


@contract("C24", PA + ".partition", SB + ".partition_and_validate", SB + ".assemble_sections", SV + ".validate", AS, "libecalc.process.process_solver.section_assembly:recirculation_loop", concrete_only=True, cases=1500,
          bounded="generated processes of up to 7 units of every kind, with up to 5 constraints, sensible or not, in any order")
def sections_of_a_process(s):
    """one section up to each constraint, the units in the order drawn; recirculation around each compressor with the units before it, or around the section; never around a mixer or splitter; a choke first or last; what cannot be divided is refused"""
    kinds, names, constraints = _drawn(s)
    s.cover("refused" if _sections(kinds, names, constraints) is None else "accepted")
    _divide(s, kinds, names, constraints)


@contract("C24", PA + ".partition", SB + ".partition_and_validate", SB + ".assemble_sections", SV + ".validate", AS, "libecalc.process.process_solver.section_assembly:recirculation_loop", cases=200, budget=120,
          bounded="every process of up to 3 compressors, coolers and mixers, every set of constraints on them, with the same strategies")
def sections_of_any_small_process(s):
    """as sections_of_a_process, for every small process"""
    n = s.choice("units", [1, 2, 3])
    kinds = [s.choice(f"unit {i}", ["COMPRESSOR", "TEMPERATURE_SETTER", "MIXER"]) for i in range(n)]
    names = [f"u{i}" for i in range(n)]
    surge, control = s.choice("strategies", [("INDIVIDUAL_ASV", "UPSTREAM_CHOKE"), ("INDIVIDUAL_ASV", "DOWNSTREAM_CHOKE"), ("INDIVIDUAL_ASV", "INDIVIDUAL_ASV_RATE"), ("COMMON_ASV", "COMMON_ASV"), ("COMMON_ASV", "DOWNSTREAM_CHOKE"), ("COMMON_ASV", "INDIVIDUAL_ASV_PRESSURE"), ("NO_ASV", "UPSTREAM_CHOKE")])
    constraints = [(x, surge, control) for x in [*names, None] if s.bool(f"a constraint at {x}")]
    if not constraints:
        return  # refused before it is divided (contract: process_that_cannot_be_drawn)
    _divide(s, kinds, names, constraints)


def _divide(s, kinds, names, constraints):
    units = []
    for i, k in enumerate(kinds):
        u = object.__new__(_cls(k))
        u._id = T("libecalc.process.process_pipeline.process_unit:ProcessUnit")._create_id()
        units.append(u)
    Y = T(YT + "process.yaml_process_simulation:YamlProcessConstraint")
    ys = [Y(process_unit=at, outlet_pressure=50 + i, pressure_control=control, anti_surge=surge) for i, (at, surge, control) in enumerate(constraints)]
    b = T(SB)()
    r = s.run(b.partition_and_validate, process_unit_map={u.get_id(): u for u in units}, unit_name_to_id={x: u.get_id() for x, u in zip(names, units) if x is not None}, pipeline_constraints=ys)
    want = _sections(kinds, names, constraints)
    if want is None:
        s.ensure("refused with a reason", r.raised(T(EV)), f"{kinds} {names} {constraints}: {r.exc!r}")
        return
    s.ensure("accepted", r.ok, f"{kinds} {names} {constraints}: {r.exc!r}")
    s.ensure("one section per constraint", len(r.value) == len(want) == len(ys))
    for got, (line, c) in zip(r.value, want):
        s.ensure("the units up to the constraint, in order", len(got.process_units) == len(line) and all(g is units[i] for g, i in zip(got.process_units, line)), f"{kinds} {names} {constraints}")
        s.ensure("the constraint of the section", got.constraint is ys[constraints.index(c)])
        s.ensure("the constraint is at its unit", got.target_process_unit_id == (units[names.index(c[0])] if c[0] is not None else units[line[-1]]).get_id())
    a = s.run(b.assemble_sections, mapped_sections=r.value, fluid_service=None)
    s.ensure("assembled", a.ok and len(a.value) == len(want), str(a.exc))
    for got, (line, c) in zip(a.value, want):
        _check_line(s, got.process_units, got.configuration_handlers, _expected(line, kinds, c[1], c[2]), units)


@contract("C24", PL + "._create_process_unit_connections", PL + ".__init__", PL + ".get_process_units", bounded="up to 3 sections of up to 4 units", cases=100)
def connections_of_a_process(s):
    """each unit is connected to the next, also from a section to the next, and to nothing else"""
    from types import SimpleNamespace as NS
    k = s.choice("sections", [0, 1, 2, 3])
    sections = [NS(get_process_units=(lambda u: lambda: list(u))([NS(get_id=(lambda v: lambda: v)((j, i))) for i in range(s.choice(f"units in {j}", [0, 1, 2, 4]))])) for j in range(k)]
    r = s.run(T(PL), name="p", process_pipeline_sections=sections, process_periods=[1, 2])
    s.ensure("does not fail", r.ok, str(r.exc))
    units = [u.get_id() for x in sections for u in x.get_process_units()]
    s.ensure("all units in order", [u.get_id() for u in r.value.get_process_units()] == units)
    links = r.value.get_process_unit_connections()
    s.ensure("a chain", [(x.get_from_process_unit_id(), x.get_to_process_unit_id()) for x in links] == list(zip(units, units[1:])))
    s.ensure("each connection is one", len({x.get_id() for x in links}) == len(links))
    s.ensure("named, for its periods, without events", r.value.get_name() == "p" and r.value.get_process_periods() == [1, 2] and list(r.value.get_events()) == [])


def _expression(s, variables, n, lo, hi):
    """an expression and its values in the periods"""
    rng = s.rng
    if rng.random() < 0.4:
        v = round(rng.uniform(lo, hi), 2)
        return v, [v] * n
    name = f"$var.v{len(variables)}"
    variables[name] = [round(rng.uniform(lo, hi), 2) for _ in range(n)]
    if rng.random() < 0.5:
        return name, variables[name]
    return f"{name} {{*}} 2", [2 * x for x in variables[name]]


def _rate(s, variables, n, name="r"):
    v, values = _expression(s, variables, n, 1000, 90000)
    y = {"value": v, "unit": "SM3_PER_DAY", "type": s.rng.choice(["STREAM_DAY", "CALENDAR_DAY"])}
    on = [1] * n
    if s.rng.random() < 0.3:
        on = [s.rng.choice([0, 1]) for _ in range(n)]
        variables[f"$var.on{len(variables)}"] = on
        x = f"$var.on{len(variables) - 1}"
        y.update(s.rng.choice([{"condition": x + " > 0"}, {"conditions": [x + " > 0", "1 > 0"]}]))
    return y, [a if b else 0.0 for a, b in zip(values, on)]


def _fluid(s, variables, n):
    if s.rng.random() < 0.4:
        return {"type": "PREDEFINED", "eos_model": s.rng.choice(["PR", "SRK", "GERG_PR", "GERG_SRK"]), "gas_type": s.rng.choice(["ULTRA_DRY", "DRY", "MEDIUM", "RICH", "ULTRA_RICH"])}, None
    given = {k: _expression(s, variables, n, 0.1, 20) for k in COMPONENTS if k == "methane" or s.rng.random() < 0.6}
    return {"type": "COMPOSITION", "eos_model": s.rng.choice(["PR", "SRK", "GERG_PR", "GERG_SRK"]), "composition": {k: v[0] for k, v in given.items()}}, {k: given[k][1] if k in given else [0.0] * n for k in COMPONENTS}


def _inlet(s, variables, n, references, name):
    """a stream in the file, by reference or in place, and what it is in each period"""
    fluid, composition = _fluid(s, variables, n)
    p, t, (r, rates) = _expression(s, variables, n, 5, 60), _expression(s, variables, n, 280, 320), _rate(s, variables, n)
    if s.rng.random() < 0.5:
        from pydantic import TypeAdapter
        references["fluid " + name] = TypeAdapter(T(YT + "process.yaml_fluid_definitions:YamlFluidDefinition")).validate_python({k.upper() if k != "composition" else k.upper(): v for k, v in fluid.items()})
        asked = "fluid " + name
    else:
        asked = {k.upper(): v for k, v in fluid.items()}
    y = T(YT + "streams.yaml_inlet_stream:YamlInletStream").model_validate({"NAME": name, "FLUID": asked, "TEMPERATURE": t[0], "PRESSURE": p[0], "RATE": {k.upper(): v for k, v in r.items()}})
    if s.rng.random() < 0.5:
        references[name] = y
        y = name
    return y, (fluid, composition, p[1], t[1], rates)


def _check_stream(s, got, want, pers):
    fluid, composition, p, t, rates = want
    s.ensure("the pressure of the stream in each period", list(got.pressure_bara.get_evaluated_expression()) == p)
    s.ensure("the temperature of the stream in each period", list(got.temperature_kelvin.get_evaluated_expression()) == t)
    s.ensure("the rate of the stream in each period, none where its condition does not hold", list(got.standard_rate_m3_per_day.get_stream_day_values()) == rates, f"{got.standard_rate_m3_per_day.get_stream_day_values()} {rates}")
    for k, period in enumerate(pers):
        m = s.run(got.fluid_model.get_value, period)
        s.ensure("a fluid in each period", m.ok, str(m.exc))
        s.ensure("the equation of state", m.value.eos_model.name == fluid["eos_model"])
        if composition is not None:
            s.ensure("the composition of the fluid in each period", all(getattr(m.value.composition, c) == composition[c][k] for c in COMPONENTS), f"{m.value.composition} {composition}")
        else:
            ready = {"ULTRA_DRY": "ULTRA_DRY_MW_17P1", "DRY": "DRY_MW_18P3", "MEDIUM": "MEDIUM_MW_19P4", "RICH": "RICH_MW_21P4", "ULTRA_RICH": "ULTRA_RICH_MW_24P6"}[fluid["gas_type"]]
            s.ensure("the composition of the gas named", m.value.composition == T(FD + ready))


def _chart(s):
    rng = s.rng
    curves, lo = [], 100.0
    for i in range(rng.choice([1, 2, 3])):
        q = [round(lo + 40 * i + 300 * j + rng.uniform(0, 50), 1) for j in range(rng.choice([2, 3, 4]))]
        curves.append({"SPEED": 5000.0 + 1000 * i, "RATE": q, "HEAD": [round(90.0 + 20 * i - 10 * j, 1) for j in range(len(q))], "EFFICIENCY": [round(rng.uniform(0.5, 0.9), 3) for _ in q]})
    margin = rng.choice([0.0, 0.1, 0.25])
    unit = rng.choice(["FRACTION", "PERCENTAGE"])
    y = {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": curves, "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": "KJ_PER_KG", "EFFICIENCY": "FRACTION"}},
                                                    "CONTROL_MARGIN": {"UNIT": unit, "VALUE": margin if unit == "FRACTION" else margin * 100}}}
    return y, (curves, margin)


def _check_chart(s, c, want):
    curves, margin = want
    got = c.compressor_chart.curves
    s.ensure("the speed curves given", [x.speed_rpm for x in got] == [x["SPEED"] for x in curves])
    for x, y in zip(got, curves):
        q = y["RATE"]
        first = q[0] + margin * (q[-1] - q[0])
        s.ensure("the rates of the curve, without the control margin", s.eq(x.rate[0], first) and s.eq(x.rate[-1], q[-1]), f"{x.rate} {q} {margin}")
        s.ensure("the heads of the curve", s.eq(x.head[-1], y["HEAD"][-1] * 1000) and (margin > 0 or all(s.eq(a, b * 1000) for a, b in zip(x.head, y["HEAD"]))))
        s.ensure("the efficiencies of the curve", s.eq(x.efficiency[-1], y["EFFICIENCY"][-1]))


@contract("C24", MA + ".map_process_simulation", MA + "._get_compressor", MA + "._get_compressor_chart", MA + "._map_rate", MA + "._map_conditions", MA + "._validate_and_map_pipeline_events", MA + "._resolve_stream_reference",
          MA + "._resolve_fluid_definition", FD + "fluid_definition_mapper", concrete_only=True, cases=160,
          bounded="generated files with up to 3 processes of up to 7 units, in place or by reference, with up to 3 periods")
def process_as_drawn(s):
    """each process has the units, charts, settings and streams of the file in the order drawn, between an inlet and an outlet; all its compressors are on one shaft; each constraint is at the outlet of its section; streams are distributed as asked for"""
    import datetime as dt
    from pydantic import TypeAdapter
    from types import SimpleNamespace as NS
    rng = s.rng
    n = rng.choice([1, 2, 3])
    Period, Periods = T("libecalc.common.time_utils:Period"), T("libecalc.common.time_utils:Periods")
    pers = [Period(start=dt.datetime(2020 + i, 1, 1), end=dt.datetime(2021 + i, 1, 1)) for i in range(n)]
    variables, references = {}, {}
    definition = TypeAdapter(T(YT + "process.yaml_process_units:YamlProcessUnitDefinition"))
    processes, sim_constraints, facts = [], {}, []
    for p in range(rng.choice([1, 1, 2, 3])):
        kinds, names, constraints = _drawn(s, refusable=False)
        while _sections(kinds, names, constraints) is None:
            kinds, names, constraints = _drawn(s, refusable=False)
        items, what = [], []
        for i, (k, name) in enumerate(zip(kinds, names)):
            if k == "COMPRESSOR":
                y, w = _chart(s)
            elif k == "PRESSURE_DROPPER":
                e, w = _expression(s, variables, n, 0, 5)
                y = {"TYPE": k, "PRESSURE_DROP": e}
            elif k == "TEMPERATURE_SETTER":
                e, w = _expression(s, variables, n, 10, 50)
                y = {"TYPE": k, "TEMPERATURE": e}
            elif k == "LIQUID_REMOVER":
                y, w = {"TYPE": k}, None
            elif k == "MIXER":
                e, w = _inlet(s, variables, n, references, f"side {p} {i}")
                y = {"TYPE": k, "SIDESTREAM": e}
            else:
                r, w = _rate(s, variables, n)
                y = {"TYPE": k, "OFFTAKE_RATE": {a.upper(): b for a, b in r.items()}}
            y = definition.validate_python(y)
            if rng.random() < 0.4:
                references[f"unit {p} {i}"] = y
                y = f"unit {p} {i}"
            items.append({"TARGET": y, **({"NAME": name} if name else {})})
            what.append(w)
        events, asked = [], []
        named = [x for x, k in zip(names, kinds) if x and k == "COMPRESSOR"]
        if named and rng.random() < 0.4:
            y, w = _chart(s)
            references[f"new {p}"] = definition.validate_python(y)
            events.append({"TYPE": "CHANGE", "CHANGE_TARGET": rng.choice(named), "CHANGE_FROM": "x", "CHANGE_TO": f"new {p}", "CHANGE_TYPE": "REBUNDLE", "REF": "more gas"})
            asked.append((events[0]["CHANGE_TARGET"], w))
        references[f"train {p}"] = T(YT + "process.yaml_process_pipeline:YamlProcessPipeline").model_validate({"NAME": f"train {p}", "PROCESS_UNITS": items, "EVENTS": events})
        pressures = [_expression(s, variables, n, 60, 120) for _ in constraints]
        sim_constraints[f"train {p}"] = [{**({"PROCESS_UNIT": at} if at is not None else {}), "OUTLET_PRESSURE": e[0], "PRESSURE_CONTROL": control, "ANTI_SURGE": surge} for (at, surge, control), e in zip(constraints, pressures)]
        facts.append((kinds, names, constraints, what, pressures, asked))
    count = len(facts)
    if rng.random() < 0.5:
        streams = [_inlet(s, variables, n, references, f"inlet {p}") for p in range(count)]
        distribution = {"METHOD": "INDIVIDUAL_STREAMS", "INLET_STREAMS": [y for y, _ in streams]}
        settings = None
    else:
        streams = [_inlet(s, variables, n, references, "common")]
        settings = []
        for _ in range(rng.choice([1, 2])):
            fractions = [_expression(s, variables, n, 0, 1) for _ in range(count)]
            over = [(a, b) for a in range(count) for b in range(a + 1, count) if rng.random() < 0.5]
            settings.append((fractions, over))
        distribution = {"METHOD": "COMMON_STREAM", "INLET_STREAM": streams[0][0], "SETTINGS": [{"RATE_FRACTIONS": [f[0] for f in fr], **({"OVERFLOW": [{"FROM_REFERENCE": f"train {a}", "TO_REFERENCE": f"train {b}"} for a, b in ov]} if ov or rng.random() < 0.5 else {})} for fr, ov in settings]}
    y = T(YT + "process.yaml_process_simulation:YamlProcessSimulation").model_validate({"NAME": "sim", "TARGETS": [f"train {p}" for p in range(count)], "STREAM_DISTRIBUTION": distribution, "CONSTRAINTS": sim_constraints})
    get = references.__getitem__
    service = NS(get_process_pipeline=lambda reference: get(reference), get_stream=lambda reference: get(reference), get_fluid_definition=lambda reference: get(reference), get_process_unit=lambda reference: get(reference))
    E = "libecalc.ecalc_model.ecalc_event:"
    happened = dt.datetime(2020, 7, 1)
    ev = T(ES)([T(E + "EcalcEvent")(name="e", type=T(E + "EcalcEventType").OTHER, start=happened, description=None, process_events=[T(E + "ProcessEvent")(name="more gas", type=T(E + "ProcessEventType").OTHER, description=None)])])
    whole = Period(start=pers[0].start, end=pers[-1].end)
    m = T(MA)(expression_evaluator=T("libecalc.common.variables:VariablesMap")(periods=Periods(pers), variables=variables), fluid_service=None, reference_service=service, process_simulation_period=whole, resources={}, ecalc_event_service=ev)
    r = s.run(m.map_process_simulation, y, pers)
    s.ensure("accepted", r.ok, repr(r.exc))
    lines, sim = r.value
    s.ensure("one process for each target, in order", [x.get_name() for x in lines] == [f"train {p}" for p in range(count)] and [x.get_process_pipeline_id() for x in sim.process_problems] == [x.get_id() for x in lines])
    s.ensure("named, for its periods", sim.get_name() == "sim" and sim.get_process_periods() == pers and all(x.get_process_periods() == pers for x in lines))
    s.ensure("settings of each process", set(sim.process_configurations) == {x.get_id() for x in lines})
    Mixer, Splitter, Choke = T(PU + "direct_mixer:DirectMixer"), T(PU + "direct_splitter:DirectSplitter"), T(PU + "choke:Choke")
    Inlet, Outlet, Shaft = T(PU + "inlet:Inlet"), T(PU + "outlet:Outlet"), T("libecalc.process.shaft:VariableSpeedShaft")
    for line, problem, (kinds, names, constraints, what, pressures, asked) in zip(lines, sim.process_problems, facts):
        units = line.get_process_units()
        s.ensure("between an inlet and an outlet", type(units[0]) is Inlet and type(units[-1]) is Outlet and sum(type(u) in (Inlet, Outlet) for u in units) == 2)
        own = [u for u in units if type(u) in [_cls(k) for k in KINDS]]
        s.ensure("the units drawn, in order", [type(u) for u in own] == [_cls(k) for k in kinds], f"{own} {kinds}")
        s.ensure("each unit is one", len({u.get_id() for u in units}) == len(units))
        sections = _sections(kinds, names, constraints)
        handlers = problem.get_configuration_handlers()
        shafts = [h for h in handlers if isinstance(h, Shaft)]
        s.ensure("all compressors on one shaft", len(shafts) == 1 and shafts[0].get_compressor_ids() == [u.get_id() for u, k in zip(own, kinds) if k == "COMPRESSOR"])
        want = [x for units_, c in sections for x in _expected(units_, kinds, c[1], c[2])]
        _check_line(s, units[1:-1], [h for h in handlers if h is not shafts[0]], want, own)
        ids = [u.get_id() for u in units]
        links = {(k.get_from_process_unit_id(), k.get_to_process_unit_id()): k.get_id() for k in line.get_process_unit_connections()}
        s.ensure("in a chain", list(links) == list(zip(ids, ids[1:])))
        parts = line.get_process_pipeline_sections()
        s.ensure("one section for each constraint", len(parts) == len(problem.get_process_problem_sections()) == len(sections))
        for k, (part, asks, (_, c)) in enumerate(zip(parts, problem.get_process_problem_sections(), sections)):
            here = part.get_process_units()
            s.ensure("the section of the constraint", asks.get_process_pipeline_section_id() == part.get_id())
            s.ensure("the strategies of the constraint", asks.get_pressure_control().type == c[2] and asks.get_anti_surge().type == c[1])
            s.ensure("the pressure of the constraint in each period", list(asks.get_constraint().outlet_pressure.get_evaluated_expression()) == pressures[constraints.index(c)][1])
            at = here[-2] if k == len(parts) - 1 else here[-1]
            s.ensure("the constraint is at the last unit of its section, before the outlet", asks.get_constraint().target_process_unit_id == at.get_id(), f"{[type(u).__name__ for u in here]} {c}")
            s.ensure("and at the connection out of it", asks.get_constraint().target_process_connection_id == links[(at.get_id(), ids[ids.index(at.get_id()) + 1])])
        conf = sim.process_configurations[line.get_id()]
        s.ensure("settings of the units that have any", list(conf) == [u.get_id() for u, k in zip(own, kinds) if k not in ("COMPRESSOR", "LIQUID_REMOVER")])
        for u, k, w in zip(own, kinds, what):
            if k == "COMPRESSOR":
                _check_chart(s, u, w)
            elif k == "PRESSURE_DROPPER":
                s.ensure("the pressure drop in each period", list(conf[u.get_id()].pressure_drop_in_bara.get_evaluated_expression()) == w)
            elif k == "TEMPERATURE_SETTER":
                s.ensure("the temperature in each period", list(conf[u.get_id()].temperature_in_celsius.get_evaluated_expression()) == w)
            elif k == "SPLITTER":
                s.ensure("the rate taken out in each period", list(conf[u.get_id()].offtake_rate.get_stream_day_values()) == w)
            elif k == "MIXER":
                _check_stream(s, conf[u.get_id()].sidestream, w, pers)
        got = line.get_events()
        s.ensure("the events of the process", [e.change_target for e in got] == [own[names.index(t)].get_id() for t, _ in asked] and all(e.change_time == happened and e.action.value == "CHANGE" and e.change_type.value == "REBUNDLE" for e in got))
        for e, (_, w) in zip(got, asked):
            _check_chart(s, e.change_to, w)
    d = sim.stream_distribution
    s.ensure("the streams of the distribution", len(sim.get_inlet_streams()) == len(streams))
    for got, (_, w) in zip(sim.get_inlet_streams(), streams):
        _check_stream(s, got, w, pers)
    if settings is not None:
        s.ensure("one setting for each", len(d.settings) == len(settings))
        for got, (fractions, over) in zip(d.settings, settings):
            s.ensure("the fractions in each period", [list(f.get_evaluated_expression()) for f in got.rate_fractions] == [f[1] for f in fractions])
            s.ensure("the overflow from and to the processes", [(o.from_id, o.to_id) for o in got.overflow] == [(lines[a].get_id(), lines[b].get_id()) for a, b in over])


@contract("C24", MA + ".map_process_simulation", MA + "._validate_and_map_pipeline_events", concrete_only=True, cases=60, bounded="generated files with one thing wrong")
def process_that_cannot_be_drawn(s):
    """what refers to nothing, is given twice or is missing is refused with a reason"""
    import datetime as dt
    from types import SimpleNamespace as NS
    rng = s.rng
    Period, Periods = T("libecalc.common.time_utils:Period"), T("libecalc.common.time_utils:Periods")
    pers = [Period(start=dt.datetime(2020, 1, 1), end=dt.datetime(2021, 1, 1))]
    wrong = rng.choice(["no constraint", "empty constraints", "constraint on another process", "two units with one name", "overflow to nothing", "overflow from nothing", "event of nothing", "event on nothing", "event to a cooler", "no units left", "nothing"])
    comp, cool = _chart(s)[0], {"TYPE": "TEMPERATURE_SETTER", "TEMPERATURE": 30}
    items = [{"TARGET": cool, "NAME": "a"}, {"TARGET": comp, "NAME": "a" if wrong == "two units with one name" else "b"}]
    from pydantic import TypeAdapter
    definition = TypeAdapter(T(YT + "process.yaml_process_units:YamlProcessUnitDefinition"))
    references = {"new": definition.validate_python(comp), "cooler": definition.validate_python(cool)}
    events = [{"TYPE": "CHANGE", "CHANGE_TARGET": "c" if wrong == "event on nothing" else "b", "CHANGE_FROM": "x", "CHANGE_TO": "cooler" if wrong == "event to a cooler" else "new", "CHANGE_TYPE": "REBUNDLE", "REF": "nothing" if wrong == "event of nothing" else "more gas"}]
    if wrong == "two units with one name":
        events = []
    references["t"] = T(YT + "process.yaml_process_pipeline:YamlProcessPipeline").model_validate({"NAME": "t", "PROCESS_UNITS": items, "EVENTS": events})
    c = {"OUTLET_PRESSURE": 80, "PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "ANTI_SURGE": "INDIVIDUAL_ASV"}
    constraints = {"t": [c]}
    if wrong == "no constraint":
        constraints = {}
    elif wrong == "empty constraints":
        constraints = {"t": []}
    elif wrong == "constraint on another process":
        constraints["u"] = [c]
    elif wrong == "no units left":
        constraints["t"] = [{**c, "PROCESS_UNIT": "b"}, c]
    inlet = {"NAME": "i", "FLUID": {"TYPE": "PREDEFINED"}, "TEMPERATURE": 300, "PRESSURE": 20, "RATE": {"VALUE": 1000, "UNIT": "SM3_PER_DAY"}}
    over = [{"FROM_REFERENCE": "u" if wrong == "overflow from nothing" else "t", "TO_REFERENCE": "u" if wrong == "overflow to nothing" else "t"}]
    y = T(YT + "process.yaml_process_simulation:YamlProcessSimulation").model_validate({"NAME": "sim", "TARGETS": ["t"], "CONSTRAINTS": constraints, "STREAM_DISTRIBUTION": {"METHOD": "COMMON_STREAM", "INLET_STREAM": inlet, "SETTINGS": [{"RATE_FRACTIONS": [1], "OVERFLOW": over}]}})
    E = "libecalc.ecalc_model.ecalc_event:"
    ev = T(ES)([T(E + "EcalcEvent")(name="e", type=T(E + "EcalcEventType").OTHER, start=pers[0].start, description=None, process_events=[T(E + "ProcessEvent")(name="more gas", type=T(E + "ProcessEventType").OTHER, description=None)])])
    get = references.__getitem__
    service = NS(get_process_pipeline=lambda reference: get(reference), get_process_unit=lambda reference: get(reference))
    m = T(MA)(expression_evaluator=T("libecalc.common.variables:VariablesMap")(periods=Periods(pers), variables={}), fluid_service=None, reference_service=service, process_simulation_period=pers[0], resources={}, ecalc_event_service=ev)
    r = s.run(m.map_process_simulation, y, pers)
    s.cover(wrong)
    if wrong == "nothing":
        s.ensure("otherwise accepted", r.ok, repr(r.exc))
    else:
        s.ensure("refused with a reason", r.raised(T(EV)), f"{wrong}: {r.exc!r}")


@contract("C24", FC + ".get_value", FM + ".get_value", cases=100, bounded="up to 3 periods (values unbounded)")
def fluid_of_a_period(s):
    """the fluid of a period has the share of each component in that period, and the equation of state given; there is none for another period"""
    from types import SimpleNamespace as NS
    n = s.choice("periods", [1, 2, 3])
    pers = [f"period {k}" for k in range(n)]
    x = {c: [s.real(f"{c}{k}", lo=0, hi=None if s.symbolic else 100) for k in range(n)] for c in COMPONENTS}
    import importlib
    s.patch(importlib.import_module(FC.split(":")[0]), "FluidComposition", lambda **k: NS(given=sorted(k), **k))
    s.patch(importlib.import_module(FC.split(":")[0]), "FluidModel", lambda **k: NS(**k))
    series = {c: NS(get_periods=lambda: list(pers), get_masked_values=(lambda v: lambda: list(v))(v), get_evaluated_expression=(lambda v: lambda: list(v))(v)) for c, v in x.items()}
    m = T(FM)(eos_model="SRK", composition=T(FC)(**series))
    for k in range(n):
        r = s.run(m.get_value, pers[k])
        s.ensure("a fluid in each period", r.ok and r.value.eos_model == "SRK", str(r.exc))
        s.ensure("the components in the period", s.and_(*[s.eq(getattr(r.value.composition, c), x[c][k]) for c in COMPONENTS]))
        s.ensure("and no others", r.value.composition.given == sorted(COMPONENTS))
    s.ensure("no fluid in another period", s.run(m.get_value, "another period").raised(T("libecalc.common.errors.exceptions:ProgrammingError")))


@contract("C24", FD + "composition_fluid_model_mapper", FD + "predefined_fluid_model_mapper", FD + "composition_fluid_definition_mapper", FD + "predefined_fluid_definition_mapper", FD + "_create_time_series_fluid_model", cases=100)
def fluid_as_given(s):
    """each component of a fluid is the component given, the equation of state the one named; the gases that are named are those"""
    from types import SimpleNamespace as NS
    import importlib
    M = importlib.import_module(FD[:-1])
    eos = s.choice("eos", ["PR", "SRK", "GERG_PR", "GERG_SRK"])
    Eos = T(YT + "models.yaml_fluid:YamlEosModel")
    x = {c: s.real(c, lo=0, hi=None if s.symbolic else 100) for c in COMPONENTS}
    rec = lambda **k: NS(given=sorted(k), **k)
    gas = s.choice("gas", ["ULTRA_DRY", "DRY", "MEDIUM", "RICH", "ULTRA_RICH"])
    Gas = T(YT + "models.yaml_fluid:YamlPredefinedFluidType")
    ready = getattr(M, {"ULTRA_DRY": "ULTRA_DRY_MW_17P1", "DRY": "DRY_MW_18P3", "MEDIUM": "MEDIUM_MW_19P4", "RICH": "RICH_MW_21P4", "ULTRA_RICH": "ULTRA_RICH_MW_24P6"}[gas])
    for name in ("FluidComposition", "FluidModel", "TimeSeriesFluidModel", "TimeSeriesFluidComposition"):
        s.patch(M, name, rec)
    s.patch(M, "TimeSeriesExpression", lambda expression, expression_evaluator: expression)
    s.patch(M, "EoSModel", M.EoSModel)
    given = NS(eos_model=Eos[eos], composition=NS(**x), gas_type=Gas[gas])
    for name in ("composition_fluid_model_mapper", "composition_fluid_definition_mapper"):
        r = s.run(getattr(M, name), given, *([None] if "definition" in name else []))
        s.ensure("accepted", r.ok, str(r.exc))
        s.ensure("the equation of state", r.value.eos_model.name == eos)
        s.ensure("each component", r.value.composition.given == sorted(COMPONENTS) and s.and_(*[s.eq(getattr(r.value.composition, c), x[c]) for c in COMPONENTS]))
    for name in ("predefined_fluid_model_mapper", "predefined_fluid_definition_mapper"):
        r = s.run(getattr(M, name), given, *([None] if "definition" in name else []))
        s.ensure("accepted", r.ok, str(r.exc))
        s.ensure("the equation of state", r.value.eos_model.name == eos)
        s.ensure("the gas named", all(getattr(r.value.composition, c) == getattr(ready, c) for c in COMPONENTS))
    parts = ["ULTRA_DRY_MW_17P1", "DRY_MW_18P3", "MEDIUM_MW_19P4", "RICH_MW_21P4", "ULTRA_RICH_MW_24P6"]
    s.ensure("the drier, the more methane", [getattr(M, a).methane for a in parts] == sorted((getattr(M, a).methane for a in parts), reverse=True))


@contract("C24", EM + ".map_events", ES + ".get_event_by_name", ES + ".get_event_by_process_name", concrete_only=True, cases=150, bounded="up to 4 events with up to 6 process events")
def events_as_given(s):
    """each event has its date and the process events that refer to it; an event by the name of its process event; names twice and references to nothing are refused"""
    import datetime as dt
    rng = s.rng
    Y = YT + "process.yaml_process_simulation:"
    n = rng.choice([0, 1, 2, 3, 4])
    twice = rng.random() < 0.15 and n > 1
    lost = rng.random() < 0.15
    E = "libecalc.ecalc_model.ecalc_event:"
    kinds, ptypes = list(T(E + "EcalcEventType")), list(T(E + "ProcessEventType"))
    es = [T(Y + "YamlEcalcEvent").model_validate({"TYPE": rng.choice(kinds).value, "START": f"20{20 + rng.randrange(9)}-0{rng.randrange(1, 9)}-01", "NAME": "e0" if twice and i == n - 1 else f"e{i}", "DESCRIPTION": rng.choice([None, f"about {i}"])}) for i in range(n)]
    ps = [T(Y + "YamlProcessEvent").model_validate({"TYPE": rng.choice(ptypes).value, "NAME": f"p{j}", "REF": "nothing" if lost and j == 0 else f"e{rng.randrange(n) if n else 0}", "DESCRIPTION": rng.choice([None, "d"])}) for j in range(rng.randrange(7))]
    r = s.run(T(EM)().map_events, es, ps)
    if twice or any(p.ref not in [e.name for e in es] for p in ps):
        s.ensure("refused with a reason", r.raised(T(EV)), repr(r.exc))
        return
    s.ensure("accepted", r.ok, repr(r.exc))
    s.ensure("each event as given, in order", [(e.name, e.type.value, e.start, e.description) for e in r.value] == [(e.name, e.type.value, e.start, e.description) for e in es])
    svc = T(ES)(r.value)
    for e in r.value:
        s.ensure("with its process events, in order", [(p.name, p.type.value, p.description) for p in e.process_events] == [(p.name, p.type.value, p.description) for p in ps if p.ref == e.name])
        s.ensure("found by name", svc.get_event_by_name(e.name) is e)
    for p in ps:
        s.ensure("found by the name of its process event", svc.get_event_by_process_name(p.name).name == p.ref)
    s.ensure("nothing by another name", svc.get_event_by_name("?") is None and svc.get_event_by_process_name("?") is None)
