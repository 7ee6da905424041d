"""C17 tabulated and sampled models"""
from contracts.common import T, periods, units
from vc.harness import contract

TAB = "libecalc.domain.infrastructure.energy_components.legacy_consumer.tabulated."
TEF = TAB + "tabular_energy_function:TabularEnergyFunction"
TCF = TAB + "tabular_consumer_function:TabularConsumerFunction"
SA = "libecalc.domain.process.compressor.core.sampled."
CMS = SA + "compressor_model_sampled:CompressorModelSampled"
S1 = SA + "compressor_model_sampled_1d:CompressorModelSampled1D"


class Var:
    def __init__(self, name, pers, values):
        self.name, self.pers, self.values = name, pers, values

    def get_values(self):
        return self.values

    def get_periods(self):
        return self.pers


class Res:
    def __init__(self, s, v):
        got = {a: s.run(lambda a=a: getattr(v, a)) for a in ("energy_usage", "power", "is_valid", "energy_usage_unit")}
        s.ensure("results do not fail", all(g.ok for g in got.values()))
        self.energy_usage, self.power, self.is_valid, self.unit = (got[a].value for a in ("energy_usage", "power", "is_valid", "energy_usage_unit"))


def _linear(s, X, Y, x, below=None, above=None):
    """linear between points in order; below and above are what holds outside (None: not a number)"""
    v = Y[-1]
    for i in range(len(X) - 2, -1, -1):
        v = s.ite(x <= X[i + 1], Y[i] + (Y[i + 1] - Y[i]) * ((x - X[i]) / (X[i + 1] - X[i])), v)
    return v


@contract("C17", TCF + ".evaluate", TCF + ".evaluate_variables", TEF + ".__init__", TEF + ".interpolate", TEF + ".get_variables", TEF + ".get_function_values", "libecalc.common.interpolation:setup_interpolator_1d",
          bounded="tables with 2 or 3 rows in any order (values unbounded), up to 8 in concrete runs; variable values and their number unbounded", weight=2)
def tabulated_in_one_variable(s):
    """energy usage is linear between the rows of the table in whatever order, and not a number (invalid) outside it"""
    rows = s.choice("rows", [2, 3] if s.symbolic else [2, 3, 5, 8])
    X = []
    for i in range(rows):
        X.append(s.real("x0") if i == 0 else X[-1] + s.real(f"dx{i}", lo=0, hi=None if s.symbolic else 50, lo_open=True))
    if not s.symbolic:
        s.assume(all(b - a > 1e-3 for a, b in zip(X, X[1:])))
    Y = [s.real(f"y{i}", lo=0) for i in range(rows)]
    order = s.choice("order", [[0, 1, 2], [1, 0, 2], [2, 1, 0]] if s.symbolic else [list(range(8)), [1, 0] + list(range(2, 8)), list(range(7, -1, -1))])
    order = [i for i in order if i < rows]
    head = s.choice("kind", ["FUEL", "POWER"])
    first = s.bool("function value first")
    xs, ys = [X[i] for i in order], [Y[i] for i in order]
    n = s.length("n", lo=1)
    pers, _ = periods(s, "d", n)
    q = s.array("q", n, kind="list")
    f = s.run(T(TCF), headers=[head, "V"] if first else ["V", head], data=[ys, xs] if first else [xs, ys], variables=[Var("V", pers, q)])
    s.ensure("the table is accepted", f.ok)
    r = s.run(f.value.evaluate)
    s.ensure("does not fail", r.ok)
    res = Res(s, r.value)
    U = units()
    s.ensure("unit", res.unit == (U.MEGA_WATT if head == "POWER" else U.STANDARD_CUBIC_METER_PER_DAY))
    s.ensure("power exactly for a table of power", (res.power is not None) == (head == "POWER"))
    s.ensure("one value per period", s.len(res.energy_usage) == n and s.len(res.is_valid) == n)
    for k in s.indices(n):
        v = res.energy_usage[k]
        inside = s.and_(q[k] >= X[0], q[k] <= X[-1])
        if inside:
            s.ensure("linear between the rows", s.and_(s.not_(s.isnan(v)), s.eq(v, _linear(s, X, Y, q[k]))))
            s.ensure("valid inside the table", res.is_valid[k])
        else:
            s.ensure("no number and not valid outside the table", s.and_(s.isnan(v), s.not_(res.is_valid[k])))
        if head == "POWER":
            s.ensure("power is the energy usage", s.or_(s.isnan(v), s.eq(res.power[k], v)))


@contract("C17", TCF + ".evaluate_variables", TEF + "._setup_interpolator", "libecalc.common.interpolation:setup_interpolator_n_dimensional", concrete_only=True, cases=150,
          bounded="generated tables over a grid in 2 or 3 variables with affine values; queries inside, on and outside the table")
def tabulated_in_several_variables(s):
    """with several variables each value is looked up under its own name; inside the table an affine function is reproduced, outside there is no number"""
    import itertools

    import numpy as np
    m = s.choice("variables", [2, 3])
    names = ["A", "B", "C"][:m]
    axes = [[s.real(f"{v}{i}", lo=0, hi=10) + 20 * i for i in range(3)] for v in names]
    coef = [s.real(f"c{i}", lo=0, hi=3) for i in range(m + 1)]
    pts = list(itertools.product(*axes))
    s.rng.shuffle(pts)
    f = lambda p: coef[-1] + sum(c * x for c, x in zip(coef, p))
    n = s.choice("n", [1, 2, 3, 4])
    pers, _ = periods(s, "d", n)
    q = [[s.real(f"q{v}{k}", lo=-5, hi=60) for k in range(n)] for v in names]
    heads = [*names, "POWER"]
    cols = [[p[i] for p in pts] for i in range(m)] + [[f(p) for p in pts]]
    variables = [Var(v, pers, q[i]) for i, v in enumerate(names)]
    if s.bool("variables in another order"):
        variables.reverse()
    if s.bool("function value first"):
        heads, cols = [heads[-1], *heads[:-1]], [cols[-1], *cols[:-1]]
    r = s.run(T(TCF)(headers=heads, data=cols, variables=variables).evaluate)
    s.ensure("does not fail", r.ok, str(r.exc))
    r.value = Res(s, r.value)
    s.ensure("one value per period", len(r.value.energy_usage) == n)
    for k in range(n):
        p = [q[i][k] for i in range(m)]
        v = r.value.energy_usage[k]
        if any(abs(x - e) < 1e-6 for x, a in zip(p, axes) for e in (a[0], a[-1])):
            continue
        if all(a[0] <= x <= a[-1] for x, a in zip(p, axes)):
            s.ensure("the value at the point", abs(v - f(p)) <= 1e-6 * max(1, abs(f(p))), f"{p} {v} {f(p)}")
        else:
            s.ensure("no number outside", bool(np.isnan(v)) and not r.value.is_valid[k], f"{p} {v}")


TABLES = [
    ([0.0, 10.0, 20.0], [5.0, 8.0, 9.0]),
    ([4.0, 7.0, 30.0, 31.0], [1.0, 1.0, 12.0, 2.0]),
]


@contract("C17", CMS + ".__init__", CMS + ".evaluate", CMS + "._get_indices_from_condition", S1 + ".__init__", S1 + ".evaluate", SA + "compressor_model_sampled_1d:_get_extrapolation_values",
          CMS + ".Turbine.calculate_turbine_power_usage",
          bounded="symbolically: two tables, one of them with the rows reversed, all rates and pressures and any number of them; generated tables concretely", weight=3, budget=200)
def sampled_in_one_variable(s):
    """a sampled model in one variable: linear inside, the minimum rate and discharge pressure below and the maximum suction pressure above, otherwise no number; off without rate; fixed variables are limits"""
    var = s.choice("variable", ["rate", "ps", "pd"])
    rev = s.bool("rows reversed")
    if s.symbolic:
        X, Y = TABLES[0] if rev else TABLES[1]
    else:
        m = s.choice("rows", [2, 3, 6])
        X = [s.real("x0", lo=0, hi=10)]
        for i in range(1, m):
            X.append(X[-1] + s.real(f"dx{i}", lo=0.01, hi=20))
        Y = [s.real(f"y{i}", lo=0, hi=50) for i in range(m)]
    fixed = {v: s.bool(f"{v} is fixed") for v in ("rate", "ps", "pd") if v != var}
    at = {"rate": 12.0, "ps": 15.0, "pd": 40.0}
    kind = s.choice("kind", ["POWER", "FUEL", "FUEL with power"])
    col = {v: [at[v]] * len(X) for v in fixed if fixed[v]}
    col[var] = X
    power = [0.5 * i for i in range(len(X))]
    if kind == "FUEL with power":  # power is looked up by fuel: increasing
        Y = [3.0 + 2 * i for i in range(len(X))]
    o = (lambda c: list(reversed(c))) if rev else list
    EUT = T("libecalc.common.energy_usage_type:EnergyUsageType")
    m = s.run(T(CMS), energy_usage_type=EUT.POWER if kind == "POWER" else EUT.FUEL, energy_usage_values=o(Y), rate_values=o(col["rate"]) if "rate" in col else None,
              suction_pressure_values=o(col["ps"]) if "ps" in col else None, discharge_pressure_values=o(col["pd"]) if "pd" in col else None,
              power_interpolation_values=o(power) if kind == "FUEL with power" else None)
    s.ensure("the table is accepted", m.ok, str(m.exc))
    n = s.length("n", lo=1)
    has = {v: v in col or ((v == "rate" or not s.symbolic) and s.bool(f"{v} is given")) for v in ("rate", "ps", "pd")}
    q = {v: s.array(v, n, lo=0, hi=None if s.symbolic else 60) for v in ("rate", "ps", "pd")}
    if not s.symbolic:
        for v in col:  # hit the limits exactly now and then
            for k in range(n):
                if s.rng.random() < 0.2:
                    q[v][k] = s.rng.choice([X[0], X[-1], at[v]])
    m.value.set_evaluation_input(rate=q["rate"] if has["rate"] else None, fluid_model=None, suction_pressure=q["ps"] if has["ps"] else None, discharge_pressure=q["pd"] if has["pd"] else None)
    r = s.run(m.value.evaluate)
    s.ensure("does not fail", r.ok, str(r.exc))
    res = r.value.get_energy_result()
    U = units()
    s.ensure("unit", res.energy_usage.unit == (U.MEGA_WATT if kind == "POWER" else U.STANDARD_CUBIC_METER_PER_DAY))
    s.ensure("power where it is known", (res.power is None) == (kind == "FUEL"))
    s.ensure("one value per period", s.len(res.energy_usage.values) == n and s.len(res.is_valid) == n)
    tol = 1e-6
    if has["rate"]:  # rates this close are not told apart
        s.assume_all(n, lambda k: s.or_(q["rate"][k] <= 0, s.and_(q["rate"][k] > 1e-9, *[s.or_(q["rate"][k] <= e, q["rate"][k] > e + 1e-9) for e in (X[-1], at["rate"])])))
    for k in s.indices(n):
        v = res.energy_usage.values[k]
        if has["rate"] and q["rate"][k] <= 0:
            s.ensure("no rate: off and valid", s.and_(s.not_(s.isnan(v)), s.eq(v, 0), s.implies(kind != "FUEL with power" or power[0] == 0, res.is_valid[k])))
            continue
        ok = [q["rate"][k] <= at["rate"] if fixed.get("rate") else True, q["ps"][k] >= at["ps"] if fixed.get("ps") else True, q["pd"][k] <= at["pd"] if fixed.get("pd") else True]
        x = q[var][k]
        ok.append(x >= X[0] if var == "ps" else x <= X[-1])
        if s.and_(*ok):
            want = _linear(s, X, Y, s.ite(x < X[0], X[0], s.ite(x > X[-1], X[-1], x)))
            s.ensure("the value of the table", s.and_(s.not_(s.isnan(v)), s.le(abs(v - want), tol)))
            if kind == "POWER":
                s.ensure("power is the energy usage", s.eq(res.power.values[k], v))
            elif kind == "FUEL with power":
                s.ensure("power is that of the fuel", s.le(abs(res.power.values[k] - _linear(s, Y, power, want)), tol))
            s.ensure("valid", res.is_valid[k])
        else:
            s.ensure("no number and not valid outside the table", s.and_(s.isnan(v), s.not_(res.is_valid[k])))


@contract("C17", CMS + ".__init__", CMS + ".evaluate", CMS + ".get_max_standard_rate", CMS + "._get_compressor_model", SA + "compressor_model_sampled_2d:CompressorModelSampled2DRatePd.evaluate",
          SA + "compressor_model_sampled_2d:CompressorModelSampled2DRatePs.evaluate", SA + "compressor_model_sampled_2d:CompressorModelSampled2DPsPd.evaluate", SA + "compressor_model_sampled_3d:CompressorModelSampled3D.evaluate",
          SA + "convex_hull_common:get_lower_upper_qhull", concrete_only=True, cases=160, bounded="generated tables over a box in 2 or 3 variables with affine values; queries inside, on and outside the box")
def sampled_in_several_variables(s):
    """inside the table an affine function is reproduced; a rate or discharge pressure below the table is raised and a suction pressure above it lowered to it; otherwise no number. The highest rate is that of the table where the pressures can be reached, else none"""
    import itertools

    import numpy as np
    use = s.choice("variables", [("rate", "pd"), ("rate", "ps"), ("ps", "pd"), ("rate", "ps", "pd")])
    low = {"rate": s.real("lowest rate", lo=1e5, hi=2e6), "ps": s.real("lowest ps", lo=5, hi=20), "pd": s.real("lowest pd", lo=60, hi=100)}
    step = {"rate": 1e5, "ps": 2.0, "pd": 10.0}
    axes = {v: [low[v]] for v in use}
    for v in use:
        for i in range(s.choice(f"steps {v}", [1, 2, 3])):
            axes[v].append(axes[v][-1] + step[v] * s.real(f"{v}{i}", lo=1, hi=5))
    coef = {v: s.real(f"c{v}", lo=0.1, hi=2) / step[v] for v in use}
    f = lambda p: 3 + sum(coef[v] * x * (-0.05 if v == "ps" else 1) for v, x in zip(use, p))
    pts = list(itertools.product(*[axes[v] for v in use]))
    s.rng.shuffle(pts)
    fixed = len(use) == 2 and s.bool("the third variable is constant in the table")
    at = {"rate": 3e6, "ps": 15.0, "pd": 120.0}
    third = next((v for v in at if v not in use), None)
    col = {v: [p[i] for p in pts] for i, v in enumerate(use)}
    if fixed:
        col[third] = [at[third]] * len(pts)
    EUT = T("libecalc.common.energy_usage_type:EnergyUsageType")
    m = s.run(T(CMS), energy_usage_type=EUT.POWER, energy_usage_values=[f(p) for p in pts], rate_values=col.get("rate"), suction_pressure_values=col.get("ps"), discharge_pressure_values=col.get("pd"))
    s.ensure("the table is accepted", m.ok, str(m.exc))
    n = s.choice("n", [1, 2, 4])
    q = {v: [s.real(f"q{v}{k}", lo=0.5 * low[v], hi=low[v] + step[v] * 18) for k in range(n)] for v in low}
    for k in range(n):  # now and then a point of the table
        for v in use:
            if s.rng.random() < 0.25:
                q[v][k] = s.rng.choice(axes[v])
    m.value.set_evaluation_input(rate=np.array(q["rate"]), fluid_model=None, suction_pressure=np.array(q["ps"]), discharge_pressure=np.array(q["pd"]))
    r = s.run(m.value.evaluate)
    s.ensure("does not fail", r.ok, str(r.exc))
    res = r.value.get_energy_result()
    s.ensure("one value per period", len(res.energy_usage.values) == n and len(res.is_valid) == n)
    inside = lambda k, vs=("rate", "ps", "pd"): all((q[v][k] >= axes[v][0] if v == "ps" else q[v][k] <= axes[v][-1]) for v in use if v in vs) and (
        not fixed or third not in vs or (q[third][k] >= at[third] if third == "ps" else q[third][k] <= at[third]))
    for k in range(n):
        v = res.energy_usage.values[k]
        if inside(k):
            p = [min(q[x][k], axes[x][-1]) if x == "ps" else max(q[x][k], axes[x][0]) for x in use]
            s.ensure("the value at the point brought into the table", abs(v - f(p)) <= 1e-6 * max(1, abs(f(p))), f"{use} {k} {v} {f(p)}")
            s.ensure("valid", bool(res.is_valid[k]))
        else:
            s.ensure("no number and not valid outside", bool(np.isnan(v)) and not res.is_valid[k], f"{use} {q} {v}")
    g = s.run(m.value.get_max_standard_rate, np.array(q["ps"]), np.array(q["pd"]))
    s.ensure("the highest rate does not fail", g.ok, str(g.exc))
    s.ensure("one highest rate per period", len(g.value) == n)
    for k in range(n):
        if "rate" not in col:
            s.ensure("no highest rate without rates in the table", bool(np.isnan(g.value[k])))
        elif "rate" not in use:
            s.ensure("the highest rate is the constant one", g.value[k] == at["rate"])
        elif all((q[v][k] >= axes[v][0] if v == "ps" else q[v][k] <= axes[v][-1]) for v in use if v != "rate"):
            s.ensure("the highest rate of the table", abs(g.value[k] - axes["rate"][-1]) <= 1e-6 * axes["rate"][-1], f"{use} {q} {g.value}")
        else:
            s.ensure("no rate at pressures that cannot be reached", g.value[k] == 0, f"{use} {q} {g.value}")


@contract("C17", CMS + ".validate_equal_list_lengths", CMS + ".validate_minimum_one_variable", CMS + ".validate_non_negative_values", bounded="tables of up to 3 rows; values unbounded")
def sampled_tables(s):
    """columns of a sampled model are of the same length and not negative, and there is at least one variable"""
    names = ["rate_values", "suction_pressure_values", "discharge_pressure_values", "power_interpolation_values"]
    rows = s.choice("rows", [2, 3])
    bad = s.choice("other length", [None, *names])
    m = object.__new__(T(CMS))
    cols = {"energy_usage_values": rows}
    for v in names:
        cols[v] = None
        if v == bad or s.bool(f"has {v}"):
            cols[v] = rows + 1 if v == bad else rows
    vals = {v: None if k is None else [s.real(f"{v}{i}", lo=None if s.symbolic else -1, hi=None if s.symbolic else 30) for i in range(k)] for v, k in cols.items()}
    for v, x in vals.items():
        setattr(m, v, x)
    one = s.run(m.validate_minimum_one_variable)
    s.ensure("there is a variable", s.iff(one.ok, any(cols[v] is not None for v in names[:3])))
    length = s.run(m.validate_equal_list_lengths)
    s.ensure("columns of the same length", length.ok == (bad is None))
    neg = s.run(m.validate_non_negative_values)
    s.ensure("values are not negative", s.iff(neg.ok, s.and_(*[x >= 0 for c in vals.values() if c is not None for x in c])))


CFM = "libecalc.presentation.yaml.mappers.consumer_function_mapper:CompressorModelMapper"


@contract("C17", CFM + "._create_compressor_sampled", "libecalc.presentation.yaml.mappers.facility_input:_get_float_column_or_none", "libecalc.domain.resource:Resource.get_float_column",
          "libecalc.presentation.yaml.yaml_entities:MemoryResource.get_column", concrete_only=True, cases=200, bounded="generated tables with columns in any order, some of them with a text")
def sampled_from_a_file(s):
    """each column of the file is the variable of its name; a column with a value that is no number is refused, not left out"""
    R = T("libecalc.presentation.yaml.yaml_entities:MemoryResource")
    rows = s.choice("rows", [2, 4])
    heads = ["RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE"]
    heads = [h for h in heads if s.bool(h)] or ["RATE"]
    heads += s.choice("energy", [["POWER"], ["FUEL"], ["FUEL", "POWER"]])
    s.rng.shuffle(heads)
    data = {h: [round(s.rng.uniform(1, 50), 3) for _ in range(rows)] for h in heads}
    bad = s.choice("with a text", [None, None, *heads])
    if bad:
        data[bad] = [str(x) for x in data[bad]]
        data[bad][s.rng.randrange(rows)] = s.rng.choice(["1O", "x", "12,3", "-"])
    got = {}
    import inspect
    made = inspect.signature(T(CMS).__init__)

    def make(*a, **k):
        got.update(made.bind(None, *a, **k).arguments)
        return "made"

    s.patch(T("libecalc.presentation.yaml.mappers.consumer_function_mapper"), "CompressorModelSampled", make)
    res = R(headers=heads, data=[data[h] for h in heads])
    mapper = T(CFM)(resources={"f.csv": res}, reference_service=None, configuration=None)

    class M:
        file = "f.csv"

    r = s.run(mapper._create_compressor_sampled, M(), "ref")
    if bad:
        s.ensure("a column with a text is refused", r.raised(T("libecalc.common.errors.exceptions:InvalidResourceException")), f"{bad} {got}")
        return
    s.ensure("does not fail", r.ok, str(r.exc))
    if not got:  # made elsewhere
        return
    fuel = "FUEL" in heads
    for name, h in (("rate_values", "RATE"), ("suction_pressure_values", "SUCTION_PRESSURE"), ("discharge_pressure_values", "DISCHARGE_PRESSURE")):
        s.ensure("each column under its own name", got.get(name) == data.get(h))
    s.ensure("fuel if there is fuel, else power", got["energy_usage_values"] == data["FUEL" if fuel else "POWER"] and got["energy_usage_type"].value == ("FUEL" if fuel else "POWER"))
    s.ensure("power beside fuel is kept", got.get("power_interpolation_values") == (data.get("POWER") if fuel else None))


def _edge(P, ax, x, low):
    """the lowest (highest) value in direction ax of the convex hull of P at x in the other direction, x brought into its range"""
    o = 1 - ax
    x = min(max(x, min(p[o] for p in P)), max(p[o] for p in P))
    out = []
    for a in P:
        for b in P:
            if a[o] <= x <= b[o]:
                out += [a[ax] + (b[ax] - a[ax]) * (x - a[o]) / (b[o] - a[o])] if a[o] < b[o] else [a[ax], b[ax]]
    return min(out) if low else max(out)


@contract("C17", CMS + ".evaluate", SA + "compressor_model_sampled_2d:CompressorModelSampled2DRatePd._project_variables_for_evaluation", SA + "compressor_model_sampled_2d:CompressorModelSampled2DRatePs._project_variables_for_evaluation",
          SA + "compressor_model_sampled_2d:CompressorModelSampled2DPsPd._project_variables_for_evaluation", concrete_only=True, cases=300, bounded="generated four-sided tables in 2 variables with affine values")
def sampled_over_a_slanted_table(s):
    """over a table that is not a box: first the rate (or the discharge pressure) is raised to the table at the pressure, then the pressure is brought to the table at that"""
    import numpy as np
    use = s.choice("variables", [("rate", "pd"), ("rate", "ps"), ("ps", "pd")])
    u = lambda a, b: s.rng.uniform(a, b)
    low, span = {"rate": 1e6, "ps": 10.0, "pd": 80.0}, {"rate": 2e6, "ps": 30.0, "pd": 60.0}
    at = lambda v, t: low[v] + span[v] * t
    # the highest rate falls with the discharge pressure and grows with the suction pressure
    a, b, c, d = u(0, 0.3), u(0.05, 0.3), u(0, 0.2), u(0, 0.2)
    if use == ("rate", "pd"):
        shape = [(0, 0), (1, c), (1 - b, 1), (a, 1 - d)]
    elif use == ("rate", "ps"):
        shape = [(a, 0), (1 - b, d), (1, 1), (0, 1 - c)]
    else:
        shape = [(0, 0), (1, c), (1 - d, 1), (a, 1 - b)]
    P = [(at(use[0], x), at(use[1], y)) for x, y in shape]
    pts = P + [(at(use[0], u(0.35, 0.65)), at(use[1], u(0.35, 0.65))) for _ in range(s.choice("inner", [0, 2]))]
    s.rng.shuffle(pts)
    f = lambda p: 1 + 3 * (p[0] - low[use[0]]) / span[use[0]] + 5 * (p[1] - low[use[1]]) / span[use[1]]
    col = {v: [p[i] for p in pts] for i, v in enumerate(use)}
    EUT = T("libecalc.common.energy_usage_type:EnergyUsageType")
    m = s.run(T(CMS), energy_usage_type=EUT.POWER, energy_usage_values=[f(p) for p in pts], rate_values=col.get("rate"), suction_pressure_values=col.get("ps"), discharge_pressure_values=col.get("pd"))
    s.ensure("the table is accepted", m.ok, str(m.exc))
    n = 6
    q = {v: [at(v, u(-0.4, 1.3)) for _ in range(n)] for v in ("rate", "ps", "pd")}
    m.value.set_evaluation_input(rate=np.array(q["rate"]), fluid_model=None, suction_pressure=np.array(q["ps"]), discharge_pressure=np.array(q["pd"]))
    r = s.run(m.value.evaluate)
    s.ensure("does not fail", r.ok, str(r.exc))
    res = r.value.get_energy_result()
    for k in range(n):
        x, y = q[use[0]][k], q[use[1]][k]
        if use[0] == "rate":
            X = max(x, _edge(P, 0, y, True))
            Y = max(y, _edge(P, 1, X, True)) if use[1] == "pd" else min(y, _edge(P, 1, X, False))
        else:
            Y = max(y, _edge(P, 1, x, True))
            X = min(x, _edge(P, 0, Y, False))
        ex, ey = 1e-9 * span[use[0]], 1e-9 * span[use[1]]
        out = X > max(p[0] for p in P) + ex or X < min(p[0] for p in P) - ex or Y > max(p[1] for p in P) + ey or Y < min(p[1] for p in P) - ey or \
            X > _edge(P, 0, Y, False) + ex or X < _edge(P, 0, Y, True) - ex or Y > _edge(P, 1, X, False) + ey or Y < _edge(P, 1, X, True) - ey
        v = res.energy_usage.values[k]
        if out:
            s.ensure("no number outside", bool(np.isnan(v)) and not res.is_valid[k], f"{use} {P} {x} {y} {X} {Y} {v}")
        elif (X, Y) == (x, y):
            s.ensure("the value at a point inside", abs(v - f((x, y))) <= 1e-6, f"{v}")
        else:  # on the edge of the table the interpolation may miss it by rounding
            s.ensure("the value at the point brought into the table", bool(np.isnan(v)) or abs(v - f((X, Y))) <= 1e-6, f"{use} {P} {x} {y} {X} {Y} {v} {f((X, Y))}")
