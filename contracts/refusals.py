"""C27: a model file that contradicts itself is refused before anything is evaluated"""
import copy
import datetime
import io
import pathlib
import tempfile

from contracts.common import T
from vc.harness import contract

YV = "libecalc.presentation.yaml."
YM = YV + "model:YamlModel"
PY = YV + "yaml_models.pyyaml_yaml_model:PyYamlYamlModel"
MX = YV + "model_validation_exception:ModelValidationException"
RX = "libecalc.common.errors.exceptions:InvalidResourceException"
RS = YV + "yaml_reference_service:YamlReferenceService"
YT = YV + "yaml_types."
AS = YT + "components.yaml_asset:YamlAsset"
SYS = YT + "components.legacy.energy_usage_model.yaml_energy_usage_model_consumer_system:"
MR = YT + "models.model_reference_validation:"
TM = YT + "yaml_temporal_model:"
EX = YT + "components.yaml_expression_type:validate_expression"
FE = YV + "yaml_validators.file_validators:file_exists_validator"
VE = YT + "emitters.yaml_venting_emitter:"
MM = YV + "mappers.consumer_function_mapper:"

BASE = dict(
    TIME_SERIES=[dict(NAME="SIM", TYPE="DEFAULT", FILE="sim.csv")],
    FACILITY_INPUTS=[
        dict(NAME="genset", FILE="genset.csv", TYPE="ELECTRICITY2FUEL"),
        dict(NAME="tab", FILE="tab.csv", TYPE="TABULAR"),
        dict(NAME="comp", FILE="comp.csv", TYPE="COMPRESSOR_TABULAR"),
        dict(NAME="pump", FILE="pump.csv", TYPE="PUMP_CHART_SINGLE_SPEED", UNITS=dict(HEAD="M", RATE="AM3_PER_HOUR", EFFICIENCY="PERCENTAGE")),
    ],
    MODELS=[
        dict(NAME="fluid", TYPE="FLUID", FLUID_MODEL_TYPE="PREDEFINED", EOS_MODEL="SRK", GAS_TYPE="MEDIUM"),
        dict(NAME="gen_chart", TYPE="COMPRESSOR_CHART", CHART_TYPE="GENERIC_FROM_INPUT", POLYTROPIC_EFFICIENCY=0.75, UNITS=dict(EFFICIENCY="FRACTION")),
        dict(NAME="simp", TYPE="SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", FLUID_MODEL="fluid", COMPRESSOR_TRAIN=dict(STAGES=[dict(INLET_TEMPERATURE=30, COMPRESSOR_CHART="gen_chart")])),
        dict(NAME="turbine", TYPE="TURBINE", LOWER_HEATING_VALUE=38, TURBINE_LOADS=[0, 2, 4], TURBINE_EFFICIENCIES=[0, 0.2, 0.3]),
        dict(NAME="withturb", TYPE="COMPRESSOR_WITH_TURBINE", COMPRESSOR_MODEL="comp", TURBINE_MODEL="turbine"),
    ],
    FUEL_TYPES=[dict(NAME="fuel", EMISSIONS=[dict(NAME="co2", FACTOR=2)])],
    VARIABLES=dict(v=dict(VALUE="SIM;A")),
    START=datetime.date(2020, 1, 1),
    END=datetime.date(2022, 1, 1),
    INSTALLATIONS=[
        dict(
            NAME="inst", FUEL="fuel", HCEXPORT="SIM;A",
            GENERATORSETS=[dict(NAME="gs", CATEGORY="TURBINE-GENERATOR", ELECTRICITY2FUEL="genset", CONSUMERS=[
                dict(NAME="d", CATEGORY="BASE-LOAD", ENERGY_USAGE_MODEL=dict(TYPE="DIRECT", LOAD=5)),
                dict(NAME="t", CATEGORY="MISCELLANEOUS", ENERGY_USAGE_MODEL=dict(TYPE="TABULATED", ENERGYFUNCTION="tab", VARIABLES=[dict(NAME="RATE", EXPRESSION="SIM;A")])),
                dict(NAME="p", CATEGORY="PUMP", ENERGY_USAGE_MODEL=dict(TYPE="PUMP", ENERGYFUNCTION="pump", RATE=100, SUCTION_PRESSURE=1, DISCHARGE_PRESSURE=5, FLUID_DENSITY=1000)),
                dict(NAME="c", CATEGORY="COMPRESSOR", ENERGY_USAGE_MODEL=dict(TYPE="COMPRESSOR", ENERGYFUNCTION="comp", RATE="$var.v", SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20)),
                dict(NAME="cs", CATEGORY="COMPRESSOR", ENERGY_USAGE_MODEL=dict(TYPE="COMPRESSOR_SYSTEM", COMPRESSORS=[dict(NAME="a", COMPRESSOR_MODEL="comp"), dict(NAME="b", COMPRESSOR_MODEL="comp")],
                     TOTAL_SYSTEM_RATE="SIM;A", OPERATIONAL_SETTINGS=[dict(RATE_FRACTIONS=[1, 0], SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20)])),
                dict(NAME="ps", CATEGORY="PUMP", ENERGY_USAGE_MODEL=dict(TYPE="PUMP_SYSTEM", PUMPS=[dict(NAME="a", CHART="pump"), dict(NAME="b", CHART="pump")], FLUID_DENSITY=1000,
                     TOTAL_SYSTEM_RATE="SIM;A", OPERATIONAL_SETTINGS=[dict(RATE_FRACTIONS=[1, 0], SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20)])),
            ])],
            FUELCONSUMERS=[
                dict(NAME="fc", CATEGORY="COMPRESSOR", ENERGY_USAGE_MODEL=dict(TYPE="COMPRESSOR", ENERGYFUNCTION="withturb", RATE="SIM;A", SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20)),
                dict(NAME="fl", CATEGORY="FLARE", ENERGY_USAGE_MODEL=dict(TYPE="DIRECT", FUELRATE=10)),
            ],
            VENTING_EMITTERS=[
                dict(NAME="ve", TYPE="DIRECT_EMISSION", CATEGORY="COLD-VENTING-FUGITIVE", EMISSIONS=[dict(NAME="ch4", RATE=dict(VALUE=1)), dict(NAME="co2", RATE=dict(VALUE=2))]),
                dict(NAME="vo", TYPE="OIL_VOLUME", CATEGORY="STORAGE", VOLUME=dict(RATE=dict(VALUE=10), EMISSIONS=[dict(NAME="ch4", EMISSION_FACTOR=1), dict(NAME="nmvoc", EMISSION_FACTOR=2)])),
            ],
        )
    ],
)
FILES = {
    "sim.csv": "DATE,A\n2020-01-01,1000\n2021-01-01,2000\n",
    "genset.csv": "POWER,FUEL\n0,0\n10,100\n",
    "tab.csv": "RATE,POWER\n0,0\n10000,5\n",
    "comp.csv": "RATE,POWER\n0,0\n10000,5\n",
    "pump.csv": "RATE,HEAD,EFFICIENCY\n10,1000,70\n500,500,70\n",
}


def _build(m, files):
    """the model file and the files it refers to, read and checked as when running eCalc; nothing is evaluated"""
    import yaml

    stream = T(YV + "yaml_entities:ResourceStream")
    with tempfile.TemporaryDirectory() as d:
        d = pathlib.Path(d)
        for k, v in files.items():
            (d / k).write_text(v)
        conf = T(PY).read(stream(stream=io.StringIO(yaml.safe_dump(m, sort_keys=False)), name="model"), base_dir=d)
        res = T("ecalc_cli.infrastructure.file_resource_service:FileResourceService")(working_directory=d, configuration=conf)
        return T(YM)(configuration=conf, resource_service=res).validate_for_run()


def find(m, name):
    if isinstance(m, dict):
        if m.get("NAME") == name:
            return m
        m = list(m.values())
    if isinstance(m, list):
        for v in m:
            r = find(v, name)
            if r is not None:
                return r


def put(name, **kw):
    return lambda m, fs: find(m, name).update(kw)


def eum(name, **kw):
    return lambda m, fs: find(m, name)["ENERGY_USAGE_MODEL"].update(kw)


def drop(name, key):
    return lambda m, fs: find(m, name)["ENERGY_USAGE_MODEL"].pop(key)


def top(**kw):
    return lambda m, fs: m.update(kw)


def files(**kw):
    return lambda m, fs: fs.update({k + ".csv": v for k, v in kw.items()})


def _date(text):
    try:
        return datetime.date.fromisoformat(text)
    except ValueError:
        return text  # a date that does not exist


def temporal(name, key="ENERGY_USAGE_MODEL", **dates):
    """the field, given per date (d2020_01_01=...); None is the value the field has"""
    def f(m, fs):
        o = find(m, name)
        o[key] = {_date(d[1:].replace("_", "-")): o[key] if v is None else v for d, v in dates.items()}
    return f


def setting(name, **kw):
    """one more operational setting, contradicting, after the good one"""
    return lambda m, fs: find(m, name)["ENERGY_USAGE_MODEL"]["OPERATIONAL_SETTINGS"].append({k: v for k, v in {**dict(SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20), **kw}.items() if v is not None})


def _again(m, name):
    """a second installation, with only the component of that name that the first one has as well"""
    first = m["INSTALLATIONS"][0]
    if name == "inst":
        return m["INSTALLATIONS"].append(dict(NAME="inst", FUEL="fuel", FUELCONSUMERS=[dict(find(m, "fl"), NAME="other")]))
    new = dict(NAME="inst2", FUEL="fuel")
    for key in ("FUELCONSUMERS", "VENTING_EMITTERS"):
        for c in first[key]:
            if c["NAME"] == name:
                new[key] = [copy.deepcopy(c)]
    if len(new) == 2:
        gs = first["GENERATORSETS"][0]
        one = [copy.deepcopy(c) for c in gs["CONSUMERS"] if c["NAME"] == name] or [dict(copy.deepcopy(gs["CONSUMERS"][0]), NAME="other")]
        new["GENERATORSETS"] = [dict(gs, NAME="gs" if name == "gs" else "gs2", CONSUMERS=one)]
    m["INSTALLATIONS"].append(new)


def _spoil(text, column):
    """the table, with a cell that is not a number in the last row of a column"""
    rows = [r.split(",") for r in text.strip().split("\n")]
    rows[-1][column] = "x"
    return "\n".join(",".join(r) for r in rows) + "\n"


NAMES = ["inst", "gs", "d", "t", "p", "c", "cs", "ps", "fc", "fl", "ve", "vo"]
REFERENCES = ["genset", "tab", "comp", "pump", "fluid", "gen_chart", "simp", "turbine", "withturb", "fuel"]
EXPRESSIONS = {"d": "LOAD", "p": "DISCHARGE_PRESSURE", "c": "RATE", "cs": "TOTAL_SYSTEM_RATE", "ps": "FLUID_DENSITY", "fc": "SUCTION_PRESSURE", "fl": "FUELRATE"}


def _direct(load):
    return dict(TYPE="DIRECT", LOAD=load)


def contradictions(rng):
    """(what is contradictory, how the good model file is changed)"""
    pick = rng.choice
    two = lambda xs: rng.sample(xs, 2)
    for j, b in enumerate(NAMES):
        for a in NAMES[j + 1:]:
            yield f"components {a} and {b} have the same name", put(a, NAME=b)
        yield f"{b} has the name of the model", put(b, NAME="model")
        # another one of its kind, elsewhere, with its name
        yield f"two of {b}", lambda m, fs, b=b: _again(m, b)
    for a, b in [two(REFERENCES) for _ in range(4)] + [("comp", "pump"), ("simp", "turbine"), ("fuel", "tab"), ("fuel", "fluid"), ("genset", "gen_chart")]:
        yield f"models {a} and {b} have the same name", lambda m, fs, a=a, b=b: find({k: m[k] for k in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES")}, a).update(NAME=b)
    yield "two fuels of one name", lambda m, fs: m["FUEL_TYPES"].append(dict(m["FUEL_TYPES"][0]))
    yield "two time series collections of one name", lambda m, fs: m["TIME_SERIES"].append(dict(m["TIME_SERIES"][0]))
    yield "the same name twice among the compressors of a system", eum("cs", COMPRESSORS=[dict(NAME="a", COMPRESSOR_MODEL="comp")] * 2)
    yield "the same name twice among the pumps of a system", eum("ps", PUMPS=[dict(NAME="a", CHART="pump")] * 2)
    e = pick(["co2", "nox", "CH4"])
    yield f"two emissions {e} of a fuel", put("fuel", EMISSIONS=[dict(NAME=e, FACTOR=1), dict(NAME=e, FACTOR=2)])
    yield f"two emissions {e} of a venting emitter", put("ve", EMISSIONS=[dict(NAME=e, RATE=dict(VALUE=1)), dict(NAME=e.lower(), RATE=dict(VALUE=3))])
    yield f"two emissions {e} of stored oil", put("vo", VOLUME=dict(RATE=dict(VALUE=10), EMISSIONS=[dict(NAME=e.lower(), EMISSION_FACTOR=1), dict(NAME=e, EMISSION_FACTOR=3)]))
    # references to what is not there, or is something else
    for kind, good in dict(
        generator=("genset",), fuel=("fuel",), tabulated=("tab",), pump=("pump",), compressor=("comp", "simp"),
    ).items():
        for bad in [r for r in [*REFERENCES, "nope"] if r not in good]:
            yield f"{kind} refers to {bad}", {
                "generator": put("gs", ELECTRICITY2FUEL=bad), "fuel": put("inst", FUEL=bad), "tabulated": eum("t", ENERGYFUNCTION=bad), "pump": eum("p", ENERGYFUNCTION=bad),
                "compressor": eum("c", ENERGYFUNCTION=bad)}[kind]
    yield "a fuel consumer refers to a fuel that is not there", put("fl", FUEL="nope")
    yield "a generator set refers to a fuel that is not there", put("gs", FUEL="nope")
    yield "the fuel of a consumer is a model", put("fc", FUEL="fluid")
    bad = pick([r for r in [*REFERENCES, "nope"] if r != "pump"])
    yield f"a pump of a system refers to {bad}", eum("ps", PUMPS=[dict(NAME="a", CHART="pump"), dict(NAME="b", CHART=bad)])
    bad = pick([r for r in [*REFERENCES, "nope"] if r not in ("comp",)])
    yield f"a compressor of a system refers to {bad}", eum("cs", COMPRESSORS=[dict(NAME="a", COMPRESSOR_MODEL="comp"), dict(NAME="b", COMPRESSOR_MODEL=bad)])
    bad = pick([r for r in [*REFERENCES, "nope"] if r not in ("comp", "simp")])
    yield f"a compressor with turbine refers to compressor {bad}", put("withturb", COMPRESSOR_MODEL=bad)
    bad = pick([r for r in [*REFERENCES, "nope"] if r != "turbine"])
    yield f"a compressor with turbine refers to turbine {bad}", put("withturb", TURBINE_MODEL=bad)
    bad = pick([r for r in [*REFERENCES, "nope"] if r != "fluid"])
    yield f"a train refers to fluid {bad}", put("simp", FLUID_MODEL=bad)
    bad = pick(["nope", "fluid", "pump", "genset", "fuel", "turbine"])
    yield f"a stage refers to chart {bad}", lambda m, fs, bad=bad: find(m, "simp")["COMPRESSOR_TRAIN"]["STAGES"][0].update(COMPRESSOR_CHART=bad)
    bads = ["SIM;B", "OTHER;A", "$var.w", "SIM;A {+} SIM;B", "2 {*} $var.w", "SIM;A {+", "(SIM;A"]
    for a in EXPRESSIONS:
        for bad in rng.sample(bads, 3):
            yield f"the {EXPRESSIONS[a]} of {a} is {bad}", eum(a, **{EXPRESSIONS[a]: bad})
    for a in ("d", "t", "p", "c", "cs", "ps", "fc", "fl"):
        bad = pick(bads)
        yield f"the condition of {a} is {bad}", eum(a, CONDITION=bad)
        yield f"a condition of {a} is {bad}", eum(a, CONDITIONS=["SIM;A > 1", bad])
        yield f"the power loss of {a} is {bad}", eum(a, POWERLOSSFACTOR=bad)
    for name in ("cs", "ps"):
        for field in ("RATES", "RATE_FRACTIONS", "SUCTION_PRESSURES", "DISCHARGE_PRESSURES"):
            bad = pick(bads)
            one = {} if field.startswith("RATE") else {field[:-1]: None, "RATES": [1, 2]}
            yield f"{name}: {field} has {bad}", setting(name, **{**one, field: [1, bad]})
    for name, key in (("ve", "EMISSIONS"), ("vo", "VOLUME")):
        bad = pick(bads)
        yield f"{key} of {name} with {bad}", put(name, **{key: [dict(NAME="ch4", RATE=dict(VALUE=1, CONDITION=bad))] if name == "ve" else dict(RATE=dict(VALUE=10), EMISSIONS=[dict(NAME="ch4", EMISSION_FACTOR=bad)])})
    bad = pick(bads)
    yield f"the variable of a table is {bad}", eum("t", VARIABLES=[dict(NAME="RATE", EXPRESSION=bad)])
    yield f"the cable loss is {bad}", put("gs", CABLE_LOSS=bad, MAX_USAGE_FROM_SHORE=1)
    yield f"the maximum usage from shore is {bad}", put("gs", CABLE_LOSS=0.1, MAX_USAGE_FROM_SHORE=bad)
    yield "export refers to a column that is not there", put("inst", HCEXPORT="SIM;B")
    yield "regularity refers to a column that is not there", put("inst", REGULARITY="SIM;B")
    yield "an emission factor refers to a variable that is not there", put("fuel", EMISSIONS=[dict(NAME="co2", FACTOR="$var.w")])
    yield "an emission rate refers to a variable that is not there", put("ve", EMISSIONS=[dict(NAME="ch4", RATE=dict(VALUE="$var.w"))])
    yield "a variable refers to one that is not there", top(VARIABLES=dict(v=dict(VALUE="$var.w {+} 1")))
    yield "a variable refers to itself", top(VARIABLES=dict(v=dict(VALUE="$var.v {+} 1")))
    yield "variables refer to each other", top(VARIABLES=dict(v=dict(VALUE="$var.w"), w=dict(VALUE="$var.x"), x=dict(VALUE="$var.v")))
    for a in ("SIM", "genset", "tab", "comp", "pump"):
        yield f"the file of {a} is not there", put(a, FILE="nope.csv")
    # electricity and fuel
    yield "a compressor driven by a turbine uses electricity", eum("c", ENERGYFUNCTION="withturb")
    yield "a compressor that uses power uses fuel", eum("fc", ENERGYFUNCTION="comp")
    yield "a fuel rate among electricity consumers", put("d", ENERGY_USAGE_MODEL=dict(TYPE="DIRECT", FUELRATE=3))
    yield "a load among fuel consumers", put("fl", ENERGY_USAGE_MODEL=_direct(3))
    yield "a table of power used as fuel", put("fl", ENERGY_USAGE_MODEL=dict(TYPE="TABULATED", ENERGYFUNCTION="tab", VARIABLES=[dict(NAME="RATE", EXPRESSION="1")]))
    yield "a table of fuel used as power", files(tab="RATE,FUEL\n0,0\n100,5\n")
    yield "both a load and a fuel rate", eum("d", FUELRATE=3)
    # systems
    for name, unit in (("cs", "COMPRESSORS"), ("ps", "PUMPS")):
        for field in ("RATES", "SUCTION_PRESSURES", "DISCHARGE_PRESSURES", "RATE_FRACTIONS"):
            k = pick([1, 3])
            rest = {} if field.startswith("RATE") else dict(RATES=[1, 2])
            if not field.startswith("RATE"):
                rest[field[:-1]] = None
            yield f"{name}: {k} {field} of two", setting(name, **rest, **{field: [0.5] * k})
        yield f"{name}: crossover of {k} of two", setting(name, RATES=[1, 2], CROSSOVER=[0] * k)
        i, to = rng.randrange(2), pick([-1, 3, 7, None])
        cross = [0, 0]
        cross[i] = i + 1 if to is None else to
        yield f"{name}: crossover {cross}", setting(name, RATES=[1, 2], CROSSOVER=cross)
        yield f"{name}: rates and fractions", setting(name, RATES=[1, 2], RATE_FRACTIONS=[1, 0])
        yield f"{name}: neither rates nor fractions", setting(name)
        side = pick(["SUCTION", "DISCHARGE"])
        yield f"{name}: {side} pressure given twice", setting(name, RATES=[1, 2], **{side + "_PRESSURES": [10, 20]})
        yield f"{name}: no {side} pressure", setting(name, RATES=[1, 2], **{side + "_PRESSURE": None})
        yield f"{name}: fractions of no total", drop(name, "TOTAL_SYSTEM_RATE")
        yield f"{name}: no operational settings", eum(name, OPERATIONAL_SETTINGS=[])
    yield "ps: densities for one of two pumps", setting("ps", RATES=[1, 2], FLUID_DENSITIES=[1000])
    yield "ps: no density", drop("ps", "FLUID_DENSITY")
    # tables
    yield "a table has a column no variable is given for", eum("t", VARIABLES=[])
    yield "a variable the table has no column for", eum("t", VARIABLES=[dict(NAME="RATE", EXPRESSION="1"), dict(NAME=pick(["PS", "rate", "HEAD"]), EXPRESSION="1")])
    yield "a variable is given twice", eum("t", VARIABLES=[dict(NAME="RATE", EXPRESSION="1"), dict(NAME="RATE", EXPRESSION="2")])
    k = pick([1, 2, 4])
    yield f"a turbine with three efficiencies and {k} loads", put("turbine", TURBINE_LOADS=[2 * j for j in range(k)])
    yield "a turbine with an efficiency above one", put("turbine", TURBINE_EFFICIENCIES=[0, 0.2, 1 + pick([0.1, 29])])
    for a, col in [("genset", "FUEL"), ("genset", "POWER"), ("comp", "POWER"), ("pump", "HEAD"), ("pump", "RATE"), ("pump", "EFFICIENCY"), ("tab", "POWER")]:
        yield f"{a} has no column {col}", lambda m, fs, a=a, col=col: fs.update({a + ".csv": fs[a + ".csv"].replace(col, "OTHER")})
    for a in ("genset", "comp", "pump", "tab"):
        for col in range(1 + FILES[a + ".csv"].split("\n")[0].count(",")):
            yield f"{a} has a cell that is not a number in column {col}", lambda m, fs, a=a, col=col: fs.update({a + ".csv": _spoil(fs[a + ".csv"], col)})
    yield "the time series has a cell that is not a number", files(sim="DATE,A\n2020-01-01,1\n2020-06-01,x\n2021-01-01,3\n")
    yield "the time series has a date that cannot be read", files(sim="DATE,A\n2020-01-01,1\n2020-13-41,2\n2021-01-01,3\n")
    yield "a date twice in a time series", files(sim="DATE,A\n2020-01-01,1\n2020-01-01,2\n2021-01-01,3\n")
    yield "a date twice in a time series, in rows apart", files(sim="DATE,A\n2020-01-01,1\n2021-01-01,2\n2020-06-01,4\n2020-01-01,3\n")
    yield "a model that changes its kind, and back", temporal("d", d2020_01_01=_direct(1), d2021_01_01=dict(TYPE="TABULATED", ENERGYFUNCTION="tab", VARIABLES=[dict(NAME="RATE", EXPRESSION="1")]), d2021_06_01=_direct(2))
    # dates
    y = 2022 + rng.randrange(3)
    yield "the start is not before the end", top(START=datetime.date(y, 1, 1))
    key = lambda d: "d" + d.replace("-", "_")
    for a in ("d", "t", "p", "c", "cs", "ps", "fc", "fl"):
        first, then = pick([("2021-01-01", "2020-01-01"), ("2022-06-01", "2020-01-01"), ("2021-01-02", "2021-01-01"), ("2019-01-01", "2018-01-01"), ("2023-02-01", "2023-01-01")])
        yield f"the model of {a} from {first} and then from {then}", temporal(a, **{key(first): None, key(then): None})
        yield f"the model of {a} from 2017-01-01, {first} and then {then}", temporal(a, d2017_01_01=None, **{key(first): None, key(then): None})
    first, then = pick([("2021-01-01", "2020-01-01"), ("2022-06-01", "2020-01-01"), ("2021-01-02", "2021-01-01")])
    yield f"the fuel from {first} and then from {then}", temporal("inst", "FUEL", **{key(first): "fuel", key(then): "fuel"})
    yield f"the generator set model from {first} and then from {then}", temporal("gs", "ELECTRICITY2FUEL", **{key(first): "genset", key(then): "genset"})
    yield "a model that changes its kind", temporal("d", d2020_01_01=_direct(1), d2021_01_01=dict(TYPE="TABULATED", ENERGYFUNCTION="tab", VARIABLES=[dict(NAME="RATE", EXPRESSION="1")]))
    yield "a date that does not exist", temporal("d", d2020_13_01=_direct(1), d2021_01_01=_direct(2))
    bad = pick(["nope", "pump"])
    yield f"a later model refers to {bad}", temporal("c", d2020_01_01=None, d2021_01_01=dict(TYPE="COMPRESSOR", ENERGYFUNCTION=bad, RATE=1, SUCTION_PRESSURE=10, DISCHARGE_PRESSURE=20))
    # fields
    for a in [*NAMES, *REFERENCES, "SIM"]:
        yield f"{a} has a field that does not exist", put(a, FOO=1)
        yield f"{a} has no name", lambda m, fs, a=a: find(m, a).pop("NAME") and None
    for a in [c for c in NAMES if c != "inst"]:
        yield f"{a} has a category that does not exist", put(a, CATEGORY="FOO")
        yield f"{a} has no category", lambda m, fs, a=a: find(m, a).pop("CATEGORY") and None
        if a[0] != "v":
            yield f"{a} has no model", lambda m, fs, a=a: find(m, a).pop("ENERGY_USAGE_MODEL" if a != "gs" else "ELECTRICITY2FUEL") and None
    yield "no fuel", lambda m, fs: find(m, "inst").pop("FUEL") and None
    yield "no end", lambda m, fs: m.pop("END") and None
    yield "an installation with nothing in it", lambda m, fs: m["INSTALLATIONS"].append(dict(NAME="empty", FUEL="fuel"))
    yield "both CONDITION and CONDITIONS", eum("d", CONDITION="1", CONDITIONS=["1"])
    a = pick(["TIME_SERIES", "FACILITY_INPUTS", "MODELS", "FUEL_TYPES", "INSTALLATIONS"])
    yield f"{a} is a list of names", lambda m, fs, a=a: m.update({a: ["x"]})


@contract("C27", YM + ".validate_for_run", YM + "._get_periods", YM + "._get_validation_context", YM + "._get_token_references", PY + ".validate", AS + ".validate_unique_component_names", AS + ".validate_unique_references",
          AS + ".validate_unique_time_series_names", EX, FE, MR + "check_model_reference",
          concrete_only=True, weight=6, cases=2, budget=400, bounded="a good model file of twelve components, changed in each of some three hundred ways (what is changed to what drawn at random)")
def contradictory_model_files(s):
    """the good model file is accepted; with any one contradiction it is refused, by a validation error, before anything is evaluated"""
    YMc = T(YM)
    evaluated = []
    s.patch(YMc, "evaluate_energy_usage", lambda self: evaluated.append(1))
    good = s.run(lambda: _build(BASE, FILES))
    s.ensure("the good model file is accepted", good.ok, repr(good.exc))
    ordered = copy.deepcopy(BASE), dict(FILES)
    temporal("d", d2020_01_01=_direct(1), d2021_01_01=_direct(2))(*ordered)
    temporal("inst", "FUEL", d2019_01_01="fuel", d2021_01_01="fuel")(*ordered)
    setting("cs", RATES=[1, 2], CROSSOVER=[2, 0])(*ordered)
    setting("ps", RATES=[1, 2], CROSSOVER=[0, 1], FLUID_DENSITIES=[900, 1000])(*ordered)
    r = s.run(lambda: _build(*ordered))
    s.ensure("dates in order, crossovers and densities that match are accepted", r.ok, str(r.exc))
    for what, change in contradictions(s.rng):
        m, fs = copy.deepcopy(BASE), dict(FILES)
        change(m, fs)
        r = s.run(lambda: _build(m, fs))
        s.ensure("a contradictory model file is refused", not r.ok, what)
        s.ensure("it is refused by a validation error, or one of the file", r.ok or r.raised(T(MX)) or r.raised(T(RX)), f"{what}: {r.exc!r}"[:300])
    s.ensure("nothing is evaluated", not evaluated)


@contract("C27", TM + "YamlTemporalModel", weight=2)
def dates_in_order(s):
    """a temporal model is accepted, as it is, exactly when its dates are in order, each used once"""
    n = s.choice("number of dates", [1, 2, 3, 4])
    t = [s.int(f"t{k}") for k in range(n)]
    for x in t:
        s.assume(x >= 0)
        s.assume(x <= 10**6)
    lost = s.choice("keys of the same date", [0, 1])

    class Temporal:
        """the validated model: its dates, in the order of the file (those of equal keys are lost)"""

        def __len__(self):
            return n

        def __iter__(self):
            return iter(t)

    class Data:
        def __len__(self):
            return n + lost

    model, data, seen = Temporal(), Data(), []

    def handler(v):
        seen.append(v)
        return model

    from typing import get_args

    temporal_ = get_args(get_args(T(TM + "YamlTemporalModel"))[0])[1]
    check = next(a.func for a in get_args(temporal_)[1:] if hasattr(a, "func"))
    r = s.run(lambda: check(data, handler))
    ordered = s.and_(lost == 0, *[t[k] < t[k + 1] for k in range(n - 1)])
    s.ensure("the dates of the file are those checked", len(seen) == 1 and seen[0] is data)
    s.ensure("accepted exactly when the dates are in order", s.iff(r.ok, ordered))
    s.ensure("what is accepted is kept as it is", s.implies(r.ok, r.value is model))
    s.ensure("refused with a message for the user", r.ok or r.raised(ValueError))


def _system(s, kind, settings, n, total=True, density=True):
    Y = T(SYS + {"C": "YamlEnergyUsageModelCompressorSystem", "P": "YamlEnergyUsageModelPumpSystem"}[kind])
    S = T(SYS + {"C": "YamlCompressorSystemOperationalSetting", "P": "YamlPumpSystemOperationalSettings"}[kind])
    kw = dict(compressors=[object()] * n) if kind == "C" else dict(pumps=[object()] * n, fluid_density="1000" if density else None)
    y = Y.model_construct(operational_settings=[S.model_construct(**k) for k in settings], total_system_rate="1" if total else None, **kw)
    return s.run(y.validate_operational_settings_match_compressors if kind == "C" else y.validate_operational_settings_match_pumps), y


@contract("C27", SYS + "YamlEnergyUsageModelCompressorSystem.validate_operational_settings_match_compressors",
          SYS + "YamlEnergyUsageModelPumpSystem.validate_operational_settings_match_pumps", weight=3)
def system_crossovers(s):
    """the crossover of every consumer is none (0) or another consumer of the system, and there is one for each"""
    kind = s.choice("kind", ["C", "P"])
    n = s.choice("consumers", [1, 2, 3])
    m = s.choice("crossovers", [0, 1, 2, 3, 4])
    before = s.choice("settings before", [0, 1])
    x = [s.int(f"x{k}") for k in range(m)]
    for v in x:
        s.assume(v >= -5)
        s.assume(v <= 9)
    good, bad = dict(rates=["1"] * n), dict(rates=["1"] * n, crossover=x)
    r, y = _system(s, kind, [good] * before + [bad], n)
    want = s.or_(m == 0, s.and_(m == n, *[s.and_(0 <= v, v <= n, s.not_(v == k + 1)) for k, v in enumerate(x)]))
    s.ensure("accepted exactly when each crossover is 0 or another consumer", s.iff(r.ok, want))
    s.ensure("what is accepted is kept as it is", s.implies(r.ok, r.value is y))
    s.ensure("refused with a message for the user", r.ok or r.raised(ValueError))


@contract("C27", SYS + "YamlEnergyUsageModelCompressorSystem.validate_operational_settings_match_compressors", SYS + "YamlEnergyUsageModelPumpSystem.validate_operational_settings_match_pumps", weight=2)
def system_settings(s):
    """every setting of a system has a value for each consumer in what is given per consumer, fractions only of a total, and pumps have a density"""
    kind = s.choice("kind", ["C", "P"])
    field = s.choice("field", ["rates", "rate_fractions", "suction_pressures", "discharge_pressures", "fluid_densities", "none"])
    n, total, density, before = 2, s.choice("total", [True, False]), s.choice("density", [True, False]), s.choice("settings before", [0, 1, None])
    k = s.choice("values", [1, 2, 3])
    given = {field: ["1"] * k} if field != "none" and (kind == "P" or field != "fluid_densities") else {}
    setting_ = given if field in ("rates", "rate_fractions") else dict(rates=["1"] * n, **given)
    good = dict(rates=["1"] * n, **(dict(fluid_densities=["1"] * n) if kind == "P" else {}))
    settings = [] if before is None else [good] * before + [setting_]
    r, y = _system(s, kind, settings, n, total, density)
    want = before is not None and (not given or k == n) and (total or "rate_fractions" not in given) and (kind == "C" or density or "fluid_densities" in given)
    s.ensure("accepted exactly when the settings match the system", r.ok == want, str((settings, r.exc)))
    s.ensure("refused with a message for the user", r.ok or r.raised(ValueError))


@contract("C27", SYS + "YamlCompressorSystemOperationalSetting.ensure_mutually_exclusive_rates", SYS + "YamlCompressorSystemOperationalSetting.ensure_mutually_exclusive_discharge_pressures",
          SYS + "YamlCompressorSystemOperationalSetting.ensure_mutually_exclusive_suction_pressure", weight=2)
def setting_given_once(s):
    """the rates and each pressure of a setting are given once, for all consumers or for each of them"""
    S = T(SYS + s.choice("kind", ["YamlCompressorSystemOperationalSetting", "YamlPumpSystemOperationalSettings"]))
    pairs = [("RATES", "RATE_FRACTIONS"), ("SUCTION_PRESSURE", "SUCTION_PRESSURES"), ("DISCHARGE_PRESSURE", "DISCHARGE_PRESSURES")]
    many = ("RATES", "RATE_FRACTIONS", "SUCTION_PRESSURES", "DISCHARGE_PRESSURES")
    data, want = {}, True
    for pair in pairs:
        given = s.choice(pair[0] + " given", ["one", "other", "both", "neither"])
        want = want and given in ("one", "other")
        for key, which in zip(pair, ("one", "other")):
            if given in (which, "both"):
                data[key] = [0.5, 0.5] if key in many else 10
    r = s.run(lambda: S.model_validate(data))
    s.ensure("accepted exactly when each is given once", r.ok == want, str((data, r.exc)))
    s.ensure("refused by a validation error", r.ok or r.raised(ValueError))


FACILITY = ["ELECTRICITY2FUEL", "TABULAR", "COMPRESSOR_TABULAR", "PUMP_CHART_SINGLE_SPEED", "PUMP_CHART_VARIABLE_SPEED"]
MODELS = ["COMPRESSOR_CHART", "COMPRESSOR_WITH_TURBINE", "FLUID", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "SINGLE_SPEED_COMPRESSOR_TRAIN", "TURBINE", "VARIABLE_SPEED_COMPRESSOR_TRAIN",
          "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"]
TRAINS = ["SINGLE_SPEED_COMPRESSOR_TRAIN", "VARIABLE_SPEED_COMPRESSOR_TRAIN", "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN"]
ALLOWED = dict(
    GeneratorSetModelReference=["ELECTRICITY2FUEL"],
    CompressorEnergyUsageModelModelReference=["COMPRESSOR_TABULAR", *TRAINS, "COMPRESSOR_WITH_TURBINE"],
    MultipleStreamsEnergyUsageModelModelReference=["VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES", "COMPRESSOR_WITH_TURBINE"],
    TabulatedEnergyUsageModelModelReference=["TABULAR"],
    FluidModelReference=["FLUID"],
    TurbineModelReference=["TURBINE"],
)
# a pump, and the chart of a stage, may not be of another kind either: what is let through here is refused by the reference service (contract below)
LATER = dict(PumpEnergyUsageModelModelReference=["PUMP_CHART_SINGLE_SPEED", "PUMP_CHART_VARIABLE_SPEED"], CompressorStageModelReference=["COMPRESSOR_CHART"])


class _Info:
    def __init__(self, **context):
        self.context = context


class _Kind:
    """a model of the model file: its type, and the compressor model of one with a turbine"""

    def __init__(self, type, compressor_model=None):
        self.type, self.compressor_model = type, compressor_model


@contract("C27", MR + "check_model_reference", MR + "check_field_model_reference", weight=2)
def references_to_models(s):
    """a reference is accepted exactly when there is a model of that name, of a kind that belongs there (with a turbine: also its compressor), and is kept as it is"""
    from typing import get_args

    enums = [T(YT + "facility_model.yaml_facility_model_type:YamlFacilityModelType"), T(YT + "models.yaml_enums:YamlModelType")]
    kinds = {e.value: e for En in enums for e in En}
    s.ensure("the kinds of models are those known here", set(kinds) >= {*FACILITY, *MODELS})
    for field, allowed in {**ALLOWED, **LATER}.items():
        check = next(a.func for a in get_args(T(MR + field))[1:] if hasattr(a, "func"))
        for k in (*FACILITY, *MODELS):
            for inner in [*FACILITY, *MODELS, None] if k == "COMPRESSOR_WITH_TURBINE" else [None]:
                models = {"x": _Kind(kinds[k], "y")}
                if inner is not None:
                    models["y"] = _Kind(kinds[inner])
                r = s.run(lambda: check("x", _Info(model_types=models)))
                ok = k in allowed and (k != "COMPRESSOR_WITH_TURBINE" or (inner in allowed and inner != "COMPRESSOR_WITH_TURBINE"))
                s.ensure("a model of the right kind is accepted, as it is", s.implies(ok, r.ok and r.value == "x"), str((field, k, inner)))
                s.ensure("a model of another kind is refused", field in LATER or ok or not r.ok, str((field, k, inner)))
                s.ensure("a refusal is a validation error", r.ok or r.raised(ValueError), repr(r.exc))
        r = s.run(lambda: check("nope", _Info(model_types={"x": _Kind(kinds[allowed[0]])})))
        s.ensure("a model that is not there is refused", not r.ok and r.raised(ValueError), field)


@contract("C27", RS + ".__init__", *[RS + ".get_" + k for k in ("fluid", "turbine", "compressor_chart", "fuel_reference", "generator_set_model", "compressor_model", "pump_model", "tabulated_model", "yaml_path")], RS + "._resolve_yaml_reference", weight=2)
def resolved_references(s):
    """what a reference stands for is the model of that name, and only when it is of the kind asked for"""
    conf = T(PY).read(T(YV + "yaml_entities:ResourceStream")(stream=io.StringIO(_text()), name="model"))
    refs = T(RS)(conf)
    kind = s.choice("kind", ["fluid", "turbine", "compressor_chart", "fuel_reference", "generator_set_model", "compressor_model", "pump_model", "tabulated_model"])
    name = s.choice("name", [*REFERENCES, "nope"])
    right = dict(fluid=["fluid"], turbine=["turbine"], compressor_chart=["gen_chart"], fuel_reference=["fuel"], generator_set_model=["genset"], compressor_model=["comp", "simp", "withturb"],
                 pump_model=["pump"], tabulated_model=["tab"])[kind]
    r = s.run(lambda: getattr(refs, "get_" + kind)(name))
    s.ensure("a model of that kind is found", s.implies(name in right, r.ok and getattr(r.value, "name", None) == name), str((kind, name, r.exc)))
    s.ensure("what is not there, or is of another kind, is refused", name in right or (not r.ok and r.raised(T("libecalc.common.errors.exceptions:EcalcError"), ValueError)), repr((kind, name, r.exc)))
    if name != "nope":
        section = next(k for k in ("FACILITY_INPUTS", "MODELS", "FUEL_TYPES") if find(BASE[k], name))
        s.ensure("it is said to be where it is", tuple(refs.get_yaml_path(name).keys) == (section, [x["NAME"] for x in BASE[section]].index(name)))


def _text():
    import yaml

    return yaml.safe_dump(BASE, sort_keys=False)


@contract("C27", EX, weight=1)
def references_in_expressions(s):
    """an expression is accepted exactly when everything it refers to is there"""
    known = ["SIM;A", "SIM;B2", "$var.v"]
    expr = s.choice("expression", [("SIM;A", True), ("SIM;B", False), ("SIM;A {+} SIM;B2", True), ("SIM;A {+} SIM;B", False), ("SIM;B {*} SIM;A", False), ("$var.v {/} 2", True), ("$var.w {/} 2", False),
                                  ("3 {*} (2 {+} $var.vv)", False), ("5", True), (5, True), (2.5, True), ("(SIM;A > 2) {+} $var.v", True), ("SIM;A > SIM;C", False)])
    r = s.run(lambda: T(EX)(expr[0], _Info(expression_tokens=known)))
    s.ensure("accepted exactly when all references are there", r.ok == expr[1], repr((expr, r.exc)))
    s.ensure("what is accepted is kept as it is", s.implies(r.ok, r.value == expr[0]))
    s.ensure("refused by a validation error", r.ok or r.raised(ValueError))


@contract("C27", FE, weight=1)
def files_there(s):
    """a file is accepted exactly when it is among those found"""
    name = s.choice("file", ["a.csv", "b.csv", "A.csv", "a", ""])
    r = s.run(lambda: T(FE)(name, _Info(resource_file_names=["a.csv", "c.csv"])))
    s.ensure("accepted exactly when it is there", r.ok == (name == "a.csv"))
    s.ensure("refused by a validation error", r.ok or r.raised(ValueError))


@contract("C27", VE + "YamlVentingEmission.check_name", VE + "YamlVentingVolumeEmission.check_name", YT + "fuel_type.yaml_fuel_type:YamlFuelType.ensure_unique_emission_names", "libecalc.common.string.string_utils:get_duplicates", weight=1)
def emissions_once(s):
    """each emission of a fuel or venting emitter is given once; for emitters whatever the case of its letters"""
    kind = s.choice("kind", ["fuel", "direct", "oil"])
    names = [s.choice("first", ["co2", "CH4"]), s.choice("second", ["co2", "CO2", "ch4", "nox"]), s.choice("third", ["ch4", "x", None])]
    names = [x for x in names if x is not None]
    data, cls = {
        "fuel": lambda: (dict(NAME="f", EMISSIONS=[dict(NAME=x, FACTOR=1) for x in names]), T(YT + "fuel_type.yaml_fuel_type:YamlFuelType")),
        "direct": lambda: (dict(NAME="f", TYPE="DIRECT_EMISSION", CATEGORY="COLD-VENTING-FUGITIVE", EMISSIONS=[dict(NAME=x, RATE=dict(VALUE=1)) for x in names]), T(VE + "YamlDirectTypeEmitter")),
        "oil": lambda: (dict(NAME="f", TYPE="OIL_VOLUME", CATEGORY="STORAGE", VOLUME=dict(RATE=dict(VALUE=1), EMISSIONS=[dict(NAME=x, EMISSION_FACTOR=1) for x in names])), T(VE + "YamlOilTypeEmitter")),
    }[kind]()
    r = s.run(lambda: cls.model_validate(data))
    key = (lambda x: x) if kind == "fuel" else str.lower
    unique = len({key(x) for x in names}) == len(names)
    s.ensure("accepted exactly when each emission is given once", r.ok == unique, repr((kind, names, r.exc)))
    s.ensure("refused by a validation error", r.ok or r.raised(ValueError))
    if r.ok and kind != "fuel":
        emissions = r.value.emissions if kind == "direct" else r.value.volume.emissions
        s.ensure("all of them are kept, in order", [e.name for e in emissions] == [x.lower() for x in names])
