"""C13 the LTP export: categories, queries, formatting"""
from contracts.common import RA, T, TU, periods, units
from contracts.resample import _days, _frac, _overlap
from vc.harness import contract

Q = "libecalc.presentation.exporter.queries:"
EX = "libecalc.presentation.exporter.domain.exportable:"
INF = "libecalc.presentation.exporter.infrastructure:"
AP = "libecalc.presentation.exporter.appliers:"
TM = "libecalc.common.temporal_model:TemporalModel"
NAMES = ["FuelQuery", "StorageVolumeQuery", "EmissionQuery", "ElectricityGeneratedQuery", "PowerConsumptionQuery", "MaxUsageFromShoreQuery"]
CALS = "calendars: 5 fixed time vectors symbolically, generated ones concretely; up to two attributes (any values)"


class Attr:
    """stands for a TimeSeriesAttribute: any volumes for a run of periods, and its categories"""

    def __init__(self, meta, pts):
        self.meta, self.pts = meta, pts

    def get_meta(self):
        return self.meta

    def datapoints(self):
        return iter(self.pts)


class Inst:
    """stands for InstallationExportable (contracts: installation_attributes ...)"""

    def __init__(self, category, pers, attrs, unit):
        self.category, self.pers, self.attrs, self.unit = category, pers, attrs, unit

    def get_category(self):
        return self.category

    def get_periods(self):
        return self.pers

    def get_name(self):
        return "inst"

    def _get(self, unit=None):
        if unit is not None and unit != self.unit:
            raise RuntimeError("asked for another unit")
        return T(EX + "AttributeSet")(self.attrs)

    get_fuel_consumption = get_storage_volumes = get_emissions = get_electricity_production = _get
    get_power_consumption = get_maximum_electricity_production = _get


def _query(kind, inst_cat, fuel, cons, prod, em):
    args = dict(installation_category=inst_cat)
    if kind in ("FuelQuery", "EmissionQuery"):
        args.update(fuel_type_category=fuel)
    if kind in ("FuelQuery", "EmissionQuery", "StorageVolumeQuery", "PowerConsumptionQuery"):
        args.update(consumer_categories=cons)
    if kind in ("ElectricityGeneratedQuery", "PowerConsumptionQuery", "MaxUsageFromShoreQuery"):
        args.update(producer_categories=prod)
    if kind == "EmissionQuery":
        args.update(emission_type=em)
    return T(Q + kind)(**args)


def _matches(kind, m, fuel, cons, prod, em):
    ok = True
    if kind in ("FuelQuery", "EmissionQuery"):
        ok = ok and (fuel is None or m["fuel_category"] == fuel)
    if kind in ("FuelQuery", "EmissionQuery", "StorageVolumeQuery", "PowerConsumptionQuery"):
        ok = ok and (cons is None or m["consumer_category"] in cons)
    if kind in ("ElectricityGeneratedQuery", "PowerConsumptionQuery", "MaxUsageFromShoreQuery"):
        ok = ok and (prod is None or m["producer_category"] in prod)
    if kind == "EmissionQuery":
        ok = ok and (em is None or m["emission_type"] == em)
    return ok


FILTERS = [(None, None, None, None), ("DIESEL", ["FLARE", "BOILER"], ["POWER-FROM-SHORE"], "co2"), ("FUEL-GAS", ["BOILER"], ["TURBINE-GENERATOR", "POWER-FROM-SHORE"], "nox")]
METAS = [("DIESEL", "BOILER", "POWER-FROM-SHORE", "co2"), ("FUEL-GAS", "FLARE", "TURBINE-GENERATOR", "nox"), (None, "BOILER", None, None)]


@contract("C13", *[Q + n + ".query" for n in NAMES], RA + ":TimeSeriesVolumes.resample", bounded=CALS, weight=4, budget=90, cases=1500)
def query_sums(s):
    """a column holds, per reporting period, the volumes of exactly the attributes that match its categories (the highest value for the peak from shore)"""
    Period, Periods, F = T(TU + ":Period"), T(TU + ":Periods"), T(TU + ":Frequency")
    U = units()
    d = s.calendar("cal")
    n = len(d) - 1
    ps = [Period(a, b) for a, b in zip(d[:-1], d[1:])]
    kind = s.choice("query", NAMES)
    freq = s.choice("freq", [F.NONE, F.YEAR] if s.symbolic else [F.NONE, F.YEAR, F.MONTH])
    icat, iwant = s.choice("installation", [("FIXED", None), ("FIXED", "FIXED"), ("FIXED", "MOBILE"), (None, "FIXED")])
    filt = s.choice("filter", FILTERS[:2] if s.symbolic else FILTERS)
    unit = U.MEGA_WATT if kind == "MaxUsageFromShoreQuery" else U.TONS if kind == "EmissionQuery" else U.GIGA_WATT_HOURS if "lectric" in kind or "Power" in kind else U.STANDARD_CUBIC_METER
    attrs, used = [], []
    m = s.choice("attributes", [2, 0] if s.symbolic else [0, 1, 2, 3])
    for a in range(m):
        meta = dict(zip(("fuel_category", "consumer_category", "producer_category", "emission_type"), METAS[a % 3] if s.symbolic else s.choice(f"meta{a}", METAS)))
        lo, hi = (0, n) if a else (n // 2, n)
        if not s.symbolic:
            lo = s.int(f"lo{a}", lo=0, hi=n)
            hi = s.int(f"hi{a}", lo=lo, hi=n)
        v = s.array(f"v{a}", hi - lo, kind="list")
        attrs.append(Attr(T(EX + "AttributeMeta")(**meta), [(p, x) for p, x in zip(ps[lo:hi], v)]))
        used.append((_matches(kind, meta, *filt), lo, hi, v))
    q = s.run(_query(kind, iwant, *filt).query, Inst(icat, Periods(list(ps)), attrs, unit), unit, freq)
    s.ensure("does not fail", q.ok)
    if iwant is not None and iwant != icat:
        s.ensure("nothing for another kind of installation", q.value is None)
        return
    s.ensure("a result for a matching installation", q.value is not None)
    new = list(q.value.keys())
    s.ensure("periods cover the installation's", new[0].start == d[0] and new[-1].end == d[-1] and all(a.end == b.start for a, b in zip(new, new[1:])))
    if freq == F.NONE:
        s.ensure("the installation's own periods", [(p.start, p.end) for p in new] == [(p.start, p.end) for p in ps])
    for p in new:
        if kind == "MaxUsageFromShoreQuery":
            best = None
            for i in range(n):
                if _overlap(p.start, p.end, d[i], d[i + 1]):
                    t = 0.0
                    for ok, lo, hi, v in used:
                        if ok and lo <= i < hi:
                            t = v[i - lo] + t
                    best = t if best is None else s.ite(t > best, t, best)
            s.ensure("the highest value in the period", s.eq(q.value[p], best))
            continue
        want = 0.0
        for ok, lo, hi, v in used:
            if ok:
                for i in range(lo, hi):
                    o = _overlap(p.start, p.end, d[i], d[i + 1])
                    if o:
                        want = _frac(v[i - lo], o, _days((d[i], d[i + 1]))) + want
        s.ensure("the volume of the matching attributes", s.eq(q.value[p], want))


class Part:
    """stands for a component of the installation (contracts: C08, C09, C10): any rates"""

    def __init__(self, id, **k):
        self.id, self.k = id, k

    def get_id(self):
        return self.id

    def get_fuel(self):
        return self.k["fuel"]

    def get_fuel_consumption(self):
        return T("libecalc.domain.installation:FuelConsumption")(rate=self.k["rate"], fuel=self.k["fuel"])

    def get_emissions(self):
        return self.k["emissions"]

    def get_power_consumption(self):
        return self.k["rate"]

    get_power_production = get_storage_rates = get_power_requirement = get_power_consumption

    def get_maximum_power_production(self):
        return self.k["maximum"]

    def get_power_capacity_margin(self):
        return self.k["rate"]

    def get_producer_id(self):
        return self.k["producer"]


class FuelStub:
    def __init__(self, id):
        self.id = id

    def get_id(self):
        return self.id

    def get_name(self):
        return self.id


class Categories:
    def __init__(self, d):
        self.d = d

    def get_category(self, id):
        return self.d[id]


class Plant:
    def __init__(self, **k):
        self.k = k

    def get_id(self):
        return "plant"

    def get_name(self):
        return "plant"

    def __getattr__(self, n):
        if n.startswith("get_"):
            return lambda: self.k.get(n[4:], [])
        raise AttributeError(n)


def _dated_choice(s, label, d, options):
    """a temporal model over the whole range with at most two values; returns (model, value in force at index)"""
    cut = s.choice(label, [None] + ([1] if len(d) > 2 else [])) if s.symbolic else (s.choice(label, [None, 1, 2, 3]))
    if cut is not None and cut >= len(d) - 1:
        cut = None
    Period, TMod = T(TU + ":Period"), T(TM)
    if cut is None:
        return TMod({Period(d[0], d[-1]): options[0]}), lambda i: options[0]
    return TMod({Period(d[0], d[cut]): options[0], Period(d[cut], d[-1]): options[1]}), lambda i: options[0] if i < cut else options[1]


def _series(s, label, ps, n, unit):
    RT = T(RA + ":RateType")
    v, g = s.array(label, n, kind="list"), s.array(label + "_reg", n, lo=0, hi=1, kind="list")
    return T(RA + ":TimeSeriesRate")(periods=T(TU + ":Periods")(list(ps)), values=v, unit=unit, rate_type=RT.STREAM_DAY, regularity=g), v, g


def _attribute_table(s, aset):
    """{(meta, period start): summed values}"""
    out = {}
    for a in aset:
        m = a.get_meta()
        for p, v in a.datapoints():
            key = (m.fuel_category, m.consumer_category, m.producer_category, m.emission_type, p.start, p.end)
            out[key] = out[key] + v if key in out else v
    return out


IE = INF + "InstallationExportable"


@contract("C13", *[IE + "." + m for m in ("get_fuel_consumption", "get_emissions", "get_power_consumption", "get_electricity_production", "get_maximum_electricity_production", "get_storage_volumes", "_combine_categories", "_get_temporal_fuel_category")], bounded="calendars as above; up to two dated categories, fuels and producers per component; one or two components of each kind (any rates)", weight=3, budget=90, cases=600)
def installation_attributes(s):
    """every volume is attributed once, to the fuel, consumer and producer categories in force in its period"""
    Period = T(TU + ":Period")
    U, TMod = units(), T(TM)
    d = s.calendar("cal")
    n = len(d) - 1
    ps = [Period(a, b) for a, b in zip(d[:-1], d[1:])]
    kind = s.choice("kind", ["fuel", "emission", "venting", "power", "mechanical", "production", "maximum", "storage"])
    ccat, cat = _dated_choice(s, "consumer", d, ["BOILER", "FLARE"])
    cats, want = {"c": ccat}, {}
    days = [_days((d[i], d[i + 1])) for i in range(n)]
    none = lambda i: None
    fuel = prod = none
    if kind in ("fuel", "emission"):
        fm, which = _dated_choice(s, "fuel", d, [FuelStub("f0"), FuelStub("f1")])
        fcat = {"f0": s.choice("f0", [None, "DIESEL"]), "f1": s.choice("f1", ["FUEL-GAS", None])}
        for f, c in fcat.items():
            cats[f] = None if c is None else TMod({Period(d[0], d[-1]): c})
        fuel = lambda i: fcat[which(i).get_id()]
    base = {"fuel": U.STANDARD_CUBIC_METER_PER_DAY, "emission": U.TONS_PER_DAY, "venting": U.TONS_PER_DAY, "storage": U.STANDARD_CUBIC_METER_PER_DAY}.get(kind, U.MEGA_WATT)
    unit = {"fuel": None, "emission": U.TONS, "venting": U.TONS, "storage": U.STANDARD_CUBIC_METER, "maximum": U.MEGA_WATT}.get(kind, U.GIGA_WATT_HOURS)
    two = s.choice("two", [True, False])
    parts, data = [], []
    for j in range(2 if two else 1):
        ts, v, g = _series(s, f"v{j}", ps, n, base)
        data.append((v, g))
        k = dict(rate=ts, producer=None, maximum=ts, emissions={"co2": ts} if j == 0 else {"nox": ts})
        if kind in ("fuel", "emission"):
            k["fuel"] = fm
            cls = type("FuelPart", (Part, T("libecalc.domain.installation:FuelConsumer")), {})
        else:
            cls = Part
        if kind == "power":
            if j == 0:
                pcat, prod = _dated_choice(s, "producer", d, ["POWER-FROM-SHORE", "TURBINE-GENERATOR"])
                cats["p"] = pcat
            k["producer"] = "p"
        if kind == "maximum" and j == 1:
            k["maximum"] = None
        parts.append(cls("c", **k))
    where, meth = {"fuel": ("fuel_consumers", "get_fuel_consumption"), "emission": ("emitters", "get_emissions"), "venting": ("emitters", "get_emissions"), "power": ("power_consumers", "get_power_consumption"), "mechanical": ("power_consumers", "get_power_consumption"), "production": ("electricity_producers", "get_electricity_production"), "maximum": ("electricity_producers", "get_maximum_electricity_production"), "storage": ("storage_containers", "get_storage_volumes")}[kind]
    e = T(IE)(Plant(**{where: parts}), category_service=Categories(cats))
    r = s.run(getattr(e, meth), *([] if unit is None else [unit]))
    s.ensure("does not fail", r.ok)
    got = s.run(_attribute_table, s, r.value)
    s.ensure("attributes can be read", got.ok)
    for i in range(n):
        for j, (v, g) in enumerate(data):
            if kind == "maximum" and j == 1:
                continue
            c, f, p, em = cat(i), fuel(i), prod(i), None
            if kind in ("emission", "venting"):
                em = "co2" if j == 0 else "nox"
            if kind in ("production", "maximum"):
                c, p = None, c
            x = v[i] if kind == "maximum" else v[i] * g[i] * days[i]
            if unit == U.GIGA_WATT_HOURS:
                x = x * 24 / 1000
            key = (f, c, p, em, d[i], d[i + 1])
            want[key] = want[key] + x if key in want else x
    s.ensure("the categories in force, once per period", set(got.value) == set(want))
    for key, x in want.items():
        s.ensure("the volume of the period", s.eq(got.value[key], x))


FIXED, MOBILE = "FIXED", "MOBILE"
WHO = {"turbineFuelGas": (FIXED, "FUEL-GAS", ("TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR")), "flareGas": (FIXED, None, ("FLARE",)), "engineDiesel": (FIXED, "DIESEL", None), "engineNoCo2TaxDiesel": (MOBILE, "DIESEL", None), "boilerFuelGas": (FIXED, "FUEL-GAS", ("BOILER",)), "boilerDiesel": (FIXED, "DIESEL", ("BOILER",)), "heaterFuelGas": (FIXED, "FUEL-GAS", ("HEATER",)), "heaterDiesel": (FIXED, "DIESEL", ("HEATER",)), "coldVentAndFugitives": (FIXED, None, ("COLD-VENTING-FUGITIVE",)), "coldVentAndFugitivesNoCo2Tax": (MOBILE, None, ("COLD-VENTING-FUGITIVE",)), "storage": (FIXED, None, ("STORAGE",)), "loading": (FIXED, None, ("LOADING",))}
GAS = {"Co2": "co2", "Nox": "nox", "Nmvoc": "nmvoc", "Ch4": "ch4"}
# name: (what, installation, consumers, producers, emission, sign)
OTHER = {
    "co2VentingMass": ("emission", FIXED, ("COLD-VENTING-FUGITIVE",), None, "co2", 1),
    "loadedAndStoredOil": ("storage", FIXED, ("LOADING",), None, None, 1),
    "gasTurbineGeneratorConsumption": ("production", FIXED, None, ("TURBINE-GENERATOR",), None, 1),
    "gasTurbineCompressorConsumption": ("power", FIXED, ("GAS-DRIVEN-COMPRESSOR",), None, None, 1),
    "offshoreWindConsumption": ("power", FIXED, ("OFFSHORE-WIND",), None, None, -1),
    "fromShoreConsumption": ("power", None, None, ("POWER-FROM-SHORE",), None, 1),
    "powerSupplyOnshore": ("production", None, None, ("POWER-FROM-SHORE",), None, 1),
    "fromShorePeakMaximum": ("maximum", None, None, ("POWER-FROM-SHORE",), None, 1),
    "steamTurbineGeneratorConsumption": ("power", FIXED, ("STEAM-TURBINE-GENERATOR",), None, None, -1),
    "co2Emission": ("emission", FIXED, None, None, "co2", 1),
    "co2FromMobileUnits": ("emission", MOBILE, None, None, "co2", 1),
    "methaneEmission": ("emission", FIXED, None, None, "ch4", 1),
    "flare": ("fuel", FIXED, ("FLARE",), None, None, 1),
}
CONS = ["TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR", "FLARE", "BOILER", "HEATER", "COLD-VENTING-FUGITIVE", "STORAGE", "LOADING", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "MISCELLANEOUS"]
PRODS = ["TURBINE-GENERATOR", "POWER-FROM-SHORE", "OFFSHORE-WIND"]


class Whole(Inst):
    """an installation with one attribute for every combination of categories, each with its own volume"""

    def __init__(self, category, pers, vals):
        self.category, self.pers, self.vals = category, pers, vals

    def _set(self, what, unit):
        self.asked = (what, unit)
        M = T(EX + "AttributeMeta")
        return T(EX + "AttributeSet")([Attr(M(fuel_category=f, consumer_category=c, producer_category=p, emission_type=e), [(q, v) for q in self.pers]) for (w, f, c, p, e), v in self.vals.items() if w == what])

    def get_fuel_consumption(self):
        return self._set("fuel", None)

    def get_power_consumption(self, unit):
        return self._set("power", unit)

    def get_emissions(self, unit):
        return self._set("emission", unit)

    def get_electricity_production(self, unit):
        return self._set("production", unit)

    def get_maximum_electricity_production(self, unit):
        return self._set("maximum", unit)

    def get_storage_volumes(self, unit):
        return self._set("storage", unit)


CFG = "libecalc.presentation.exporter.configs.configs:"


@contract("C13", CFG + "LTPConfig.aggregator", CFG + "STPConfig.aggregator", AP + "Applier.apply", AP + "InvertValuesModifier._modify", "libecalc.presentation.exporter.aggregators:InstallationAggregator.aggregate", concrete_only=True, bounded="every column of the export against every combination of installation, fuel, consumer, producer and emission (whole-number volumes)", cases=40)
def columns(s):
    """every column of the export sums what its name says: fuel, emission and power of its categories and no other"""
    import re

    Period, Periods, F = T(TU + ":Period"), T(TU + ":Periods"), T(TU + ":Frequency")
    U = units()
    from datetime import datetime

    pers = Periods([Period(datetime(2020, 1, 1), datetime(2021, 1, 1))])
    cat = s.choice("category", [FIXED, MOBILE])
    cfg = s.choice("config", ["LTPConfig", "STPConfig"])
    vals = {}
    for f in ("FUEL-GAS", "DIESEL", None):
        for c in CONS:
            vals["fuel", f, c, None, None] = s.int("v", lo=1, hi=900)
            for e in ("co2", "nox", "nmvoc", "ch4", "other"):
                vals["emission", f, c, None, e] = s.int("v", lo=1, hi=900)
    for c in CONS:
        vals["storage", None, c, None, None] = s.int("v", lo=1, hi=900)
        for p in PRODS + [None]:
            vals["power", None, c, p, None] = s.int("v", lo=1, hi=900)
    for p in PRODS:
        vals["production", None, None, p, None] = s.int("v", lo=1, hi=900)
        vals["maximum", None, None, p, None] = s.int("v", lo=1, hi=900)
    inst = Whole(cat, pers, vals)
    agg = T(CFG + cfg).aggregator(frequency=F.YEAR)

    class Set:
        def get_from_type(self, t):
            return [inst]

    r = s.run(agg.aggregate, Set())
    s.ensure("does not fail", r.ok and len(r.value) == 1 and r.value[0].group_name == "inst")
    got = {q.name: q for q in r.value[0].query_results}
    s.ensure("columns are named once", len(got) == len(r.value[0].query_results))
    for a in agg.appliers:
        m = re.fullmatch("(.*?)(?:(Co2|Nox|Nmvoc|Ch4)Mass|Consumption)", a.name)
        if a.name in OTHER:
            what, where, cons, prods, em, sign = OTHER[a.name]
            fuel = None
        elif m and m.group(1) in WHO:
            where, fuel, cons = WHO[m.group(1)]
            what, em, prods, sign = "emission" if m.group(2) else "fuel", GAS.get(m.group(2)), None, 1
        else:
            continue  # a column this list does not know: nothing to say about it
        if where is not None and where != cat:
            s.ensure("not reported for another kind of installation", a.name not in got)
            continue
        s.ensure("reported", a.name in got)
        want = sum(v for (w, f, c, p, e), v in vals.items() if w == what and (fuel is None or f == fuel) and (cons is None or c in cons) and (prods is None or p in prods) and (em is None or e == em))
        q = got[a.name]
        s.ensure("one value per period", list(q.values) == list(pers))
        s.ensure("sum of its categories", float(list(q.values.values())[0]) == sign * want, f"{a.name}: {list(q.values.values())[0]} instead of {sign * want}")
        unit = {"emission": U.TONS, "maximum": U.MEGA_WATT, "production": U.GIGA_WATT_HOURS, "power": U.GIGA_WATT_HOURS, "storage": U.STANDARD_CUBIC_METER}.get(what)
        s.ensure("unit", unit is None or q.unit == unit)


@contract("C13", AP + "InvertValuesModifier._modify", AP + "NullModifier._modify", AP + "Modifier.modify", bounded="three periods (any values)")
def modifiers(s):
    """inverting changes the sign of every value, and nothing else does"""
    n = 3
    v = s.array("v", n)
    d = {k: v[k] for k in range(n)}
    T(CFG + "LTPConfig")
    inv, nul = T(AP + "InvertValuesModifier"), T(AP + "NullModifier")
    for m, sign in ((inv(), -1), (nul(), 1), (inv(before_modifier=inv()), 1), (nul(before_modifier=inv()), -1)):
        r = s.run(m.modify, d)
        s.ensure("does not fail", r.ok and list(r.value) == list(d))
        for k in range(n):
            s.ensure("value", s.eq(r.value[k], sign * v[k]))


NUM = "libecalc.common.math.numbers:Numbers"


@contract("C13", NUM + ".format_to_precision", NUM + ".format_results_to_precision", AP + "FormatValuesToPrecisionModifier._modify", concrete_only=True, bounded="generated numbers between 1e-9 and 1e15 of both signs, precision 0 to 8", cases=3000)
def formatting(s):
    """formatting keeps the number to the asked precision, its sign, and never writes an exponent"""
    e = s.int("exp", lo=-9, hi=15)
    p = s.int("precision", lo=0, hi=8)
    x = s.choice("sign", [1, -1]) * s.real("m", lo=1, hi=10) * 10.0**e
    if s.rng.random() < 0.2:
        x = float(round(x, 2))
    f = T(NUM)
    r = s.run(f.format_to_precision, x, p)
    s.ensure("does not fail", r.ok and isinstance(r.value, str))
    y = float(r.value)
    s.ensure("positional", "e" not in r.value.lower())
    digits = 0
    while digits < 16 and abs(x) >= 10 ** (digits + 1):
        digits += 1
    tol = 0.5 * 10.0 ** -max(0, p - digits) if abs(x) >= 1 else 0.5 * 10.0**-p
    s.ensure("within the precision", abs(y - x) <= tol * (1 + 1e-9) + 1e-9 * abs(x), f"{x} precision {p} gives {r.value}")
    s.ensure("sign kept", y == 0 or (y > 0) == (x > 0))
    s.ensure("formatting again changes nothing", float(f.format_to_precision(y, p)) == y)
    s.ensure("zero", f.format_to_precision(0.0, p) == "0")
    data = {"a": [x, "t", 3, None, True], "b": {"c": x}}
    q = s.run(f.format_results_to_precision, data, p)
    s.ensure("every number in a result is formatted, nothing else changes", q.ok and q.value == {"a": [y, "t", 3, None, True], "b": {"c": y}} and data["b"]["c"] == x and data["a"][0] == x)


DTO = "libecalc.presentation.exporter.dto.dtos:"
CSV = "libecalc.presentation.exporter.formatters.formatter:CSVFormatter"


@contract("C13", CSV + ".format", CSV + ".format_groups", DTO + "FormattableGroupedQuery", DTO + "FilteredResult.groups", concrete_only=True, bounded="generated tables of up to four columns and six periods", cases=300)
def table(s):
    """the exported table has one row per period in time order, and each value under its own column"""
    Period = T(TU + ":Period")
    U = units()
    d = s.calendar("cal")
    ps = [Period(a, b) for a, b in zip(d[:-1], d[1:])]
    m = s.int("columns", lo=0, hi=4)
    cols = []
    for j in range(m):
        order = list(ps)
        if s.choice(f"order{j}", [False, True]):
            order = order[::-1]
        cols.append(T(DTO + "QueryResult")(name=f"n{j}", title=f"t{j}", unit=U.TONS, values={p: f"{j}:{p.start.isoformat()}" for p in order}))
    G, FR = T(DTO + "GroupedQueryResult"), T(DTO + "FilteredResult")

    class Index:
        def get_id(self):
            return "id"

        def get_title(self):
            return "title"

        def format(self, row):
            return row.start.isoformat()

    sep = s.choice("sep", ["\t", ","])
    f = T(CSV)(separation_character=sep, index_formatters=[Index()])
    r = s.run(f.format_groups, FR(query_results=[G(group_name="g1", query_results=cols), G(group_name="g2", query_results=cols[:1])]))
    s.ensure("does not fail", r.ok)
    for g, cs in (("g1", cols), ("g2", cols[:1])):
        rows = [x.split(sep) for x in r.value[g]]
        s.ensure("header", rows[0] == ["id"] + [c.name for c in cs])
        s.ensure("titles", rows[1] == ["#title"] + [f"{c.title}[{c.unit}]" for c in cs])
        s.ensure("one row per period in time order", [x[0] for x in rows[2:]] == [p.start.isoformat() for p in (ps if cs else [])])
        for x in rows[2:]:
            s.ensure("values of the period and column", x[1:] == [f"{c.name[1:]}:{x[0]}" for c in cs])


@contract("C13", *[IE + "." + m for m in ("get_emissions", "get_power_consumption", "get_electricity_production", "get_maximum_electricity_production", "get_storage_volumes")], INF + "TimeSeriesAttribute.datapoints")
def attributes_any_length(s):
    """as installation_attributes, for any number of periods and any date of the change of category"""
    Period, TMod = T(TU + ":Period"), T(TM)
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    split = s.choice("split", [False, True])
    cut = s.int("cut", lo=1)
    s.assume(cut < n if split else cut >= 1)
    kind = s.choice("kind", ["venting", "mechanical", "production", "maximum", "storage"])
    base = {"venting": U.TONS_PER_DAY, "storage": U.STANDARD_CUBIC_METER_PER_DAY}.get(kind, U.MEGA_WATT)
    unit = {"venting": U.TONS, "storage": U.STANDARD_CUBIC_METER, "maximum": U.MEGA_WATT}.get(kind, U.GIGA_WATT_HOURS)
    v, g = s.array("v", n, kind="list"), s.array("g", n, lo=0, hi=1, kind="list")
    ts = T(RA + ":TimeSeriesRate")(periods=pers, values=v, unit=base, rate_type=T(RA + ":RateType").STREAM_DAY, regularity=g)
    cats = TMod({Period(d[0], d[cut]): "BOILER", Period(d[cut], d[n]): "FLARE"} if split else {Period(d[0], d[n]): "BOILER"})
    part = Part("c", rate=ts, producer=None, maximum=ts, emissions={"co2": ts})
    where, meth = {"venting": ("emitters", "get_emissions"), "mechanical": ("power_consumers", "get_power_consumption"), "production": ("electricity_producers", "get_electricity_production"), "maximum": ("electricity_producers", "get_maximum_electricity_production"), "storage": ("storage_containers", "get_storage_volumes")}[kind]
    r = s.run(getattr(T(IE)(Plant(**{where: [part]}), category_service=Categories({"c": cats})), meth), unit)
    s.ensure("does not fail", r.ok)
    got = [(a.get_meta(), a) for a in r.value]
    s.ensure("once per category in force", [m.producer_category if kind in ("production", "maximum") else m.consumer_category for m, _ in got] == (["BOILER", "FLARE"] if split else ["BOILER"]))
    s.ensure("emission", all(m.emission_type == ("co2" if kind == "venting" else None) for m, _ in got))
    lo = 0
    for j, (_, a) in enumerate(got):
        hi = cut if split and j == 0 else n
        pts = s.run(lambda a=a: list(a.datapoints()))
        s.ensure("values can be read", pts.ok)
        s.ensure("one value for each period of the category", s.len(pts.value) == hi - lo)
        for k in s.indices(hi - lo):
            p, x = pts.value[k]
            s.ensure("its period", s.and_(p.start == d[lo + k], p.end == d[lo + k + 1]))
            w = v[lo + k] if kind == "maximum" else v[lo + k] * g[lo + k] * ((d[lo + k + 1] - d[lo + k]).total_seconds() / 86400)
            s.ensure("its volume", s.eq(x, w * 24 / 1000 if unit == U.GIGA_WATT_HOURS else w))
        lo = hi
