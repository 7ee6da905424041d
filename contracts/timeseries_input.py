"""C07 time series inputs"""
from contracts.common import T
from vc.harness import contract

TS = "libecalc.presentation.yaml.domain.time_series"
IT = "libecalc.dto.types:InterpolationType"


def _series(s, n, kind=None):
    d = s.dates("d", n)
    y = s.array("y", n, kind="list")
    ext = s.bool("extrapolate")
    return T(TS + ":TimeSeries")(reference_id="A;B", time_vector=d, series=y, extrapolate=ext, interpolation_type=kind), d, y, ext


@contract("C07", TS + ":split_time_vector", weight=2)
def split_time_vector(s):
    """the dates between start and end in order, and how many are before and after"""
    s.contiguous_filters()
    n = s.length("n", lo=1)
    t = s.dates("t", n)
    a, b = s.date("a"), s.date("b")
    s.assume(a <= b)
    r = s.run(T(TS + ":split_time_vector"), t, start=a, end=b)
    s.ensure("does not fail", r.ok)
    before, mid, after = r.value
    s.ensure("every date is counted once", s.eq(before + s.len(mid) + after, n))
    for k in s.indices(n):
        if t[k] < a:
            s.ensure("dates before the start", k < before)
        elif t[k] > b:
            s.ensure("dates after the end", k >= n - after)
        else:
            s.ensure("dates between", s.and_(k >= before, k < before + s.len(mid)))
            s.ensure("dates between, in order", mid[k - before] == t[k])


def _fit(s, kind_name):
    s.contiguous_filters()
    kind = getattr(T(IT), kind_name)
    n, m = s.length("n", lo=2), s.length("m", lo=1)
    ts, d, y, ext = _series(s, n, kind)
    t = s.dates("t", m)
    r = s.run(ts.fit_to_time_vector, t)
    s.ensure("does not fail", r.ok)
    out = r.value
    s.ensure("one value per date", s.and_(s.len(out.series) == m, s.len(out.time_vector) == m))
    for k in s.indices(m):
        if t[k] < d[0]:
            s.ensure("zero before the first date", s.eq(out.series[k], 0))
        elif t[k] > d[n - 1]:
            s.ensure("last value after the last date when extrapolating, else zero", s.eq(out.series[k], s.ite(ext, y[n - 1], 0.0)))
        else:
            i = s.int("i", lo=0, hi=n - 2)
            if kind_name == "RIGHT":
                if t[k] == d[n - 1]:
                    s.ensure("value at the last date", s.eq(out.series[k], y[n - 1]))
                else:
                    s.assume(s.and_(d[i] <= t[k], t[k] < d[i + 1]))
                    s.ensure("value in force since the latest date", s.eq(out.series[k], y[i]))
            elif kind_name == "LEFT":
                if t[k] == d[0]:
                    s.ensure("value at the first date", s.eq(out.series[k], y[0]))
                else:
                    s.assume(s.and_(d[i] < t[k], t[k] <= d[i + 1]))
                    s.ensure("value of the next date", s.eq(out.series[k], y[i + 1]))
            else:
                s.assume(s.and_(d[i] <= t[k], t[k] <= d[i + 1]))
                if t[k] == d[i]:
                    s.ensure("value at a date", s.eq(out.series[k], y[i]))
                elif t[k] == d[i + 1]:
                    s.ensure("value at a date", s.eq(out.series[k], y[i + 1]))
                else:
                    w = (t[k] - d[i]).total_seconds()
                    l = (d[i + 1] - d[i]).total_seconds()
                    s.ensure("linear between the dates", s.eq((out.series[k] - y[i]) * l, w * (y[i + 1] - y[i])))


@contract("C07", TS + ":TimeSeries.fit_to_time_vector", TS + ":TimeSeries._interpolate", TS + ":TimeSeries._get_interpolation_kind", weight=2)
def fit_right(s):
    """RIGHT: the value of the latest date; zero before the first date; the last value or zero after the last"""
    _fit(s, "RIGHT")


@contract("C07", TS + ":TimeSeries.fit_to_time_vector", TS + ":TimeSeries._interpolate", TS + ":TimeSeries._get_interpolation_kind", weight=2)
def fit_left(s):
    """LEFT: the value of the next date"""
    _fit(s, "LEFT")


@contract("C07", TS + ":TimeSeries.fit_to_time_vector", TS + ":TimeSeries._interpolate", TS + ":TimeSeries._get_interpolation_kind", weight=3, budget=120)
def fit_linear(s):
    """LINEAR: linear between the two dates around"""
    _fit(s, "LINEAR")


YD = "libecalc.presentation.yaml.domain."
VM = "libecalc.common.variables:VariablesMap"
RG = "libecalc.domain.regularity"
RT = "libecalc.common.utils.rates:RateType"
TSE = YD + "time_series_expression:TimeSeriesExpression"


def _evaluator(s, n, **variables):
    from contracts.common import periods

    pers, d = periods(s, "t", n)
    return T(VM)(periods=pers, variables={f"V;{k}": v for k, v in variables.items()}), d


class _Reg:
    """stands for Regularity (its contract: one value between 0 and 1 per period, see regularity_values)"""

    def __init__(self, values):
        self.values = values


def _expr(s, n, lo=None):
    x = s.array("x", n, kind="list", lo=lo)
    cond = s.choice("cond", [None, "V;C", "V;C > 2"])
    c = s.array("c", n, kind="list")
    ev, d = _evaluator(s, n, X=x, C=c)
    e = T(TSE)(expression="V;X", expression_evaluator=ev, condition=cond)
    on = (lambda k: True) if cond is None else (lambda k: c[k] != 0) if cond == "V;C" else (lambda k: c[k] > 2)
    return e, x, on, ev, d


@contract("C07", TSE + ".get_masked_values", TSE + ".get_evaluated_expression", YD + "time_series_mask:TimeSeriesMask.apply", YD + "time_series_mask:TimeSeriesMask.from_array")
def conditions(s):
    """a value is used where its condition holds, and is zero where it does not"""
    n = s.length("n", lo=1)
    e, x, on, ev, d = _expr(s, n)
    a, r = s.run(e.get_evaluated_expression), s.run(e.get_masked_values)
    s.ensure("does not fail", a.ok and r.ok)
    s.ensure("one value per period", s.and_(s.len(a.value) == n, s.len(r.value) == n))
    for k in s.indices(n):
        s.ensure("the expression's own value", s.eq(a.value[k], x[k]))
        s.ensure("value where the condition holds, else zero", s.eq(r.value[k], s.ite(on(k), x[k], 0.0)))


@contract("C07", YD + "expression_time_series_flow_rate:ExpressionTimeSeriesFlowRate._get_stream_day_values", YD + "expression_time_series_flow_rate:ExpressionTimeSeriesFlowRate._validate")
def flow_rates(s):
    """calendar-day rates become stream-day rates, stream-day rates are used as given; a negative rate is refused"""
    C, Inv, R = T(YD + "expression_time_series_flow_rate:ExpressionTimeSeriesFlowRate"), T(YD + "expression_time_series_flow_rate:InvalidFlowRateException"), T(RT)
    n = s.length("n", lo=1)
    e, x, on, ev, d = _expr(s, n)
    reg = s.array("reg", n, lo=0, hi=1, kind="list")
    rt = s.choice("rate_type", [R.CALENDAR_DAY, R.STREAM_DAY])
    r = s.run(C, time_series_expression=e, regularity=_Reg(reg), consumption_rate_type=rt)
    if r.ok:
        v = r.value.get_stream_day_values()
        s.ensure("one rate per period", s.len(v) == n)
        for k in s.indices(n):
            given = s.ite(on(k), x[k], 0.0)
            s.ensure("no negative rate is accepted", v[k] >= 0)
            if rt == R.STREAM_DAY:
                s.ensure("stream-day rate as given", s.eq(v[k], given))
            elif reg[k] == 0:
                s.ensure("zero when the regularity is zero", s.eq(v[k], 0))
            else:
                s.ensure("calendar-day rate over regularity", s.eq(v[k] * reg[k], given))
    else:
        s.ensure("only negative rates are refused", r.raised(Inv))
        s.cover("refused")
    k = s.int("neg", lo=0, hi=n - 1)
    if s.and_(on(k), x[k] < 0, s.or_(rt == R.STREAM_DAY, reg[k] > 0)):
        s.ensure("a negative rate is refused", r.raised(Inv))


@contract("C07", YD + "expression_time_series_flow_rate:ExpressionTimeSeriesFlowRate._validate")
def valid_flow_rates(s):
    """rates that are not negative are accepted (also when a condition masks a negative one)"""
    C, R = T(YD + "expression_time_series_flow_rate:ExpressionTimeSeriesFlowRate"), T(RT)
    n = s.length("n", lo=1)
    e, x, on, ev, d = _expr(s, n)
    reg = s.array("reg", n, lo=0, hi=1, kind="list")
    s.assume_all(n, lambda k: s.or_(x[k] >= 0, s.not_(on(k))))
    r = s.run(C, time_series_expression=e, regularity=_Reg(reg), consumption_rate_type=s.choice("rate_type", [R.CALENDAR_DAY, R.STREAM_DAY]))
    s.ensure("accepted", r.ok)


@contract("C07", YD + "expression_time_series_power:ExpressionTimeSeriesPower.get_stream_day_values", YD + "expression_time_series_variable:ExpressionTimeSeriesVariable.get_values")
def power_and_variables(s):
    """powers and table variables given per calendar day are converted by the regularity, others are used as given"""
    P, V, R = T(YD + "expression_time_series_power:ExpressionTimeSeriesPower"), T(YD + "expression_time_series_variable:ExpressionTimeSeriesVariable"), T(RT)
    n = s.length("n", lo=1)
    e, x, on, ev, d = _expr(s, n)
    reg = s.array("reg", n, lo=0, hi=1, kind="list")
    cal = s.choice("calendar", [True, False])
    p = s.run(P(e, _Reg(reg), R.CALENDAR_DAY if cal else R.STREAM_DAY).get_stream_day_values)
    v = s.run(V("RATE", e, _Reg(reg), is_rate=cal).get_values)
    s.ensure("does not fail", p.ok and v.ok)
    s.ensure("one value per period", s.and_(s.len(p.value) == n, s.len(v.value) == n))
    for k in s.indices(n):
        given = s.ite(on(k), x[k], 0.0)
        for nm, w in (("power", p.value[k]), ("variable", v.value[k])):
            if not cal:
                s.ensure(nm + " as given", s.eq(w, given))
            elif reg[k] == 0:
                s.ensure(nm + " is zero when the regularity is zero", s.eq(w, 0))
            else:
                s.ensure(nm + " over regularity", s.eq(w * reg[k], given))


PR = YD + "expression_time_series_pressure:"


@contract("C07", PR + "ExpressionTimeSeriesPressure._validate", PR + "ExpressionTimeSeriesPressure.get_values")
def pressures(s):
    """pressures are used as given; a negative one is refused unless it is masked"""
    C, Inv = T(PR + "ExpressionTimeSeriesPressure"), T(PR + "InvalidPressureException")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    masked = s.choice("masked", [False, True])
    mask = s.bools("mask", n) if masked else None
    r = s.run(C, T(TSE)(expression="V;X", expression_evaluator=ev), validation_mask=mask)
    if r.ok:
        v = r.value.get_values()
        s.ensure("one pressure per period", s.len(v) == n)
        for k in s.indices(n):
            s.ensure("as given", s.eq(v[k], x[k]))
            s.ensure("no negative pressure is accepted", s.or_(x[k] >= 0, s.not_(mask[k]) if masked else False))
    else:
        s.ensure("only negative pressures are refused", r.raised(Inv))
        s.cover("refused")


@contract("C07", PR + "ExpressionTimeSeriesPressure._validate")
def valid_pressures(s):
    """pressures that are not negative where the mask holds are accepted"""
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    mask = s.bools("mask", n)
    s.assume_all(n, lambda k: s.or_(x[k] >= 0, s.not_(mask[k])))
    s.ensure("accepted", s.run(T(PR + "ExpressionTimeSeriesPressure"), T(TSE)(expression="V;X", expression_evaluator=ev), validation_mask=mask).ok)


@contract("C07", RG + ":Regularity.values", RG + ":Regularity.validate", RG + ":Regularity.time_series", "libecalc.expression.temporal_expression:TemporalExpression.evaluate")
def regularity_values(s):
    """a regularity is the value of its expression in every period, 1 when not given, and refused outside [0, 1]"""
    Reg, Inv, Period = T(RG + ":Regularity"), T(RG + ":InvalidRegularity"), T("libecalc.common.time_utils:Period")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    form = s.choice("given", ["V;X", None, 0, 1, 0.25, -0.5, 1.5])
    r = s.run(Reg, expression_evaluator=ev, target_period=Period(d[0], d[n]), expression_input=form)
    want = (lambda k: x[k]) if form == "V;X" else (lambda k: 1.0 if form is None else form)
    if r.ok:
        v = s.run(lambda: r.value.values)
        s.ensure("values do not fail", v.ok)
        s.ensure("one value per period", s.len(v.value) == n)
        for k in s.indices(n):
            s.ensure("the value given", s.eq(v.value[k], want(k)))
            s.ensure("between 0 and 1", s.and_(v.value[k] >= 0, v.value[k] <= 1))
    else:
        s.ensure("only values outside [0, 1] are refused", r.raised(Inv))
        s.ensure("valid numbers are accepted", form in ("V;X", -0.5, 1.5))
        s.cover("refused")


@contract("C07", RG + ":Regularity.validate", RG + ":Regularity.get_subset")
def valid_regularities(s):
    """regularities between 0 and 1 are accepted; a subset of the periods has the values of those periods"""
    Reg, Period = T(RG + ":Regularity"), T("libecalc.common.time_utils:Period")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list", lo=0, hi=1)
    ev, d = _evaluator(s, n, X=x)
    r = s.run(Reg, expression_evaluator=ev, target_period=Period(d[0], d[n]), expression_input="V;X")
    s.ensure("accepted", r.ok)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    q = s.run(r.value.get_subset, i, j)
    s.ensure("subset does not fail", q.ok)
    v = q.value.values
    s.ensure("one value per period of the subset", s.len(v) == j - i)
    for k in s.indices(j - i):
        s.ensure("values of those periods", s.eq(v[k], x[i + k]))


@contract("C07", RG + ":Regularity.values", "libecalc.domain.hydrocarbon_export:HydrocarbonExport.time_series", VM + "._evaluate_temporal", VM + ".get_subset", "libecalc.expression.temporal_expression:TemporalExpression._normalize_expression",
          bounded="dated expressions with 1 or 2 dates; values unbounded", weight=4, budget=120)
def dated_expressions(s):
    """a dated expression uses, in every period, the expression in force, and zero before the first date"""
    Reg, HC, Period = T(RG + ":Regularity"), T("libecalc.domain.hydrocarbon_export:HydrocarbonExport"), T("libecalc.common.time_utils:Period")
    R, U = T(RT), T("libecalc.common.units:Unit")
    n = s.length("n", lo=1)
    m = s.choice("m", [1, 2])
    xs = [s.array(f"x{i}", n, kind="list", lo=0, hi=1) for i in range(m)]
    ev, d = _evaluator(s, n, **{f"X{i}": x for i, x in enumerate(xs)})
    pos, lo = [], 0
    for i in range(m):
        p = s.int(f"p{i}", lo=lo, hi=n - 1)
        pos.append(p)
        lo = p + 1
    dates = [d[p] for p in pos]
    if s.choice("early", [False, True]):
        s.assume(pos[0] == 0)
        e = s.date("early_date")
        s.assume(e < d[0])
        dates[0] = e
    model = {dt: f"V;X{i}" for i, dt in enumerate(dates)}
    g = s.run(Reg, expression_evaluator=ev, target_period=Period(d[0], d[n]), expression_input=model)
    s.ensure("accepted", g.ok)
    h = s.run(HC, expression_evaluator=ev, regularity=_RegTs(g.value.time_series), target_period=Period(d[0], d[n]), expression_input=model)
    s.ensure("export accepted", h.ok)
    rs = s.run(lambda: h.value.time_series)
    s.ensure("export does not fail", rs.ok)
    v = rs.value
    s.ensure("calendar-day rate in Sm3/d", v.rate_type == R.CALENDAR_DAY and v.unit == U.STANDARD_CUBIC_METER_PER_DAY)
    for k in s.indices(n):
        want = 0.0
        for i in range(m):
            want = s.ite(k >= pos[i], xs[i][k], want)
        s.ensure("the expression in force", s.eq(g.value.values[k], want))
        s.ensure("export: the expression in force", s.eq(v.values[k], want))
        s.ensure("export carries the regularity", s.eq(v.regularity[k], want))


class _RegTs:
    def __init__(self, ts):
        self.time_series = ts


@contract("C07", "libecalc.domain.hydrocarbon_export:HydrocarbonExport.time_series")
def export_default(s):
    """the export rate is its expression, zero when not given"""
    HC, Period = T("libecalc.domain.hydrocarbon_export:HydrocarbonExport"), T("libecalc.common.time_utils:Period")
    TSF, U = T("libecalc.common.utils.rates:TimeSeriesFloat"), T("libecalc.common.units:Unit")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    reg = s.array("reg", n, kind="list", lo=0, hi=1)
    ev, d = _evaluator(s, n, X=x)
    form = s.choice("given", ["V;X", None, 0, 7.5])
    h = s.run(HC, expression_evaluator=ev, regularity=_RegTs(TSF(periods=ev.get_periods(), values=reg, unit=U.NONE)), target_period=Period(d[0], d[n]), expression_input=form)
    s.ensure("accepted", h.ok)
    v = s.run(lambda: h.value.time_series)
    s.ensure("does not fail", v.ok)
    for k in s.indices(n):
        s.ensure("the value given", s.eq(v.value.values[k], x[k] if form == "V;X" else (form or 0.0)))
        s.ensure("the regularity given", s.eq(v.value.regularity[k], reg[k]))


PL = YD + "expression_time_series_power_loss_factor:ExpressionTimeSeriesPowerLossFactor"


@contract("C10", PL + ".apply", PL + ".get_values")
def power_loss(s):
    """usage x = power needed before losses: usage / (1 - loss factor)"""
    n = s.length("n", lo=1)
    f = s.array("f", n, kind="list")
    s.assume_all(n, lambda k: f[k] != 1)
    u = s.array("u", n)
    ev, d = _evaluator(s, n, X=f)
    form = s.choice("given", ["V;X", None, 0, 0.5])
    p = T(PL)(T(TSE)(expression=form, expression_evaluator=ev))
    g, r = s.run(p.get_values), s.run(p.apply, u)
    s.ensure("does not fail", g.ok and r.ok)
    s.ensure("one value per period", s.and_(s.len(g.value) == n, s.len(r.value) == n))
    for k in s.indices(n):
        w = f[k] if form == "V;X" else (form or 0.0)
        s.ensure("the factor given, zero when not given", s.eq(g.value[k], w))
        s.ensure("what is left after the loss is the usage", s.eq(r.value[k] * (1 - w), u[k]))


CL = YD + "expression_time_series_cable_loss:ExpressionTimeSeriesCableLoss"


@contract("C10", CL + ".get_values", bounded="categories with 1 or 2 dates; losses, dates and time vector unbounded", weight=2)
def cable_loss_only_from_shore(s):
    """cable loss applies in the periods where the category is power from shore and nowhere else"""
    Cat, TM = _category(), T("libecalc.common.temporal_model:TemporalModel")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    m = s.choice("m", [1, 2])
    cats = [s.choice(f"cat{i}", [Cat.POWER_FROM_SHORE, Cat.TURBINE_GENERATOR]) for i in range(m)]
    p = [s.int("p0", lo=0, hi=n - 1)]
    if m == 2:
        p.append(s.int("p1", lo=p[0] + 1, hi=n - 1))
    r = s.run(T(CL)(T(TSE)(expression="V;X", expression_evaluator=ev), TM({d[q]: c for q, c in zip(p, cats)})).get_values)
    s.ensure("does not fail", r.ok)
    s.ensure("one value per period", s.len(r.value) == n)
    for k in s.indices(n):
        want = 0.0
        for q, c in zip(p, cats):
            want = s.ite(k >= q, x[k] if c == Cat.POWER_FROM_SHORE else 0.0, want)
        s.ensure("loss from shore only", s.eq(r.value[k], want))


def _category():
    return T("libecalc.presentation.yaml.consumer_category:ConsumerUserDefinedCategoryType")


VP = "libecalc.presentation.yaml.mappers.variables_mapper.variables_mapper"
GT = "libecalc.presentation.yaml.mappers.variables_mapper.get_global_time_vector"


@contract("C07", VM + ".get_subset", VM + ".get_subset_for_period", VM + ".evaluate", VM + ".zeros", weight=2)
def variables_of_a_period(s):
    """the variables of a period are those of the part of the time vector inside it"""
    Period, Expr = T("libecalc.common.time_utils:Period"), T("libecalc.expression.expression:Expression")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    a, b = d[i], d[j]
    if s.choice("before", [False, True]):
        s.assume(i == 0)
        a = s.date("a")
        s.assume(a < d[0])
    if s.choice("after", [False, True]):
        s.assume(j == n)
        b = s.date("b")
        s.assume(b > d[n])
    r = s.run(ev.get_subset_for_period, Period(a, b))
    s.ensure("does not fail", r.ok)
    v = s.run(r.value.evaluate, Expr.setup_from_expression("V;X {+} 1"))
    s.ensure("evaluation does not fail", v.ok)
    ps = r.value.get_periods().periods
    s.ensure("one value per period inside", s.and_(s.len(v.value) == j - i, s.len(ps) == j - i, s.len(r.value.variables["V;X"]) == j - i))
    for k in s.indices(j - i):
        s.ensure("values of those periods", s.eq(v.value[k], x[i + k] + 1))
        s.ensure("the periods", s.and_(s.eq(ps[k].start, d[i + k]), s.eq(ps[k].end, d[i + k + 1])))


@contract("C07", VM + ".get_subset_for_period")
def variables_outside(s):
    """a period outside the time vector has no variables; one that cuts a period of the time vector is refused"""
    Period, PE = T("libecalc.common.time_utils:Period"), T("libecalc.common.errors.exceptions:ProgrammingError")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n, X=x)
    a, b = s.date("a"), s.date("b")
    s.assume(a < b)
    if s.choice("outside", [True, False]):
        s.assume(s.or_(b <= d[0], a >= d[n]))
        r = s.run(ev.get_subset_for_period, Period(a, b))
        s.ensure("does not fail", r.ok)
        s.ensure("nothing", s.and_(s.len(r.value.get_periods().periods) == 0, s.len(r.value.variables["V;X"]) == 0))
    else:
        k = s.int("k", lo=0, hi=n - 1)
        s.assume(s.and_(d[k] < a, a < d[k + 1]))
        s.ensure("refused", s.run(ev.get_subset_for_period, Period(a, b)).raised(PE))


def _single(e):
    return T("libecalc.presentation.yaml.yaml_types.yaml_variable:YamlSingleVariable").model_construct(value=T("libecalc.expression.expression:Expression").setup_from_expression(e))


@contract("C07", VP + ":VariableProcessor.process", bounded="variables with 1 to 3 dates, in any order; values and time vector unbounded", weight=4, budget=90)
def dated_variables(s):
    """a dated variable has, in every period, the value of the expression in force, and zero before the first date"""
    n = s.length("n", lo=1)
    m = s.choice("m", [1, 2, 3])
    xs = [s.array(f"x{i}", n, kind="list") for i in range(m)]
    ev, d = _evaluator(s, n)
    pos, lo = [], 0
    for i in range(m):
        p = s.int(f"p{i}", lo=lo, hi=n - 1)
        pos.append(p)
        lo = p + 1
    order = list(range(m))
    if s.choice("reverse", [False, True]):
        order.reverse()
    dates = [d[p] for p in pos]
    if s.choice("early", [False, True]):
        s.assume(pos[0] == 0)
        dates[0] = s.date("early_date")
        s.assume(dates[0] < d[0])
    var = {dates[i]: _single("V;X%d {*} 2" % i) for i in order}
    vp = T(VP + ":VariableProcessor")(reference_id="$var.a", variable=var)
    r = s.run(vp.process, variables={f"V;X{i}": x for i, x in enumerate(xs)}, periods=ev.get_periods())
    s.ensure("does not fail", r.ok)
    s.ensure("one value per period", s.len(r.value) == n)
    for k in s.indices(n):
        want = 0.0
        for i in range(m):
            want = s.ite(k >= pos[i], xs[i][k] * 2, want)
        s.ensure("the expression in force", s.eq(r.value[k], want))


CHAINS = [
    ({"a": "V;X {+} 1"}, lambda x: {"a": x + 1}),
    ({"a": "$var.b {*} 2", "b": "V;X"}, lambda x: {"a": x * 2, "b": x}),
    ({"a": "$var.b {+} $var.c", "b": "$var.c {*} 3", "c": "V;X {-} 1"}, lambda x: {"a": (x - 1) * 4, "b": (x - 1) * 3, "c": x - 1}),
    ({"c": "V;X {-} 1", "b": "$var.c {*} 3", "a": "$var.b {+} $var.c"}, lambda x: {"a": (x - 1) * 4, "b": (x - 1) * 3, "c": x - 1}),
    ({"a": "$var.d", "b": "$var.a", "c": "$var.b", "d": "V;X"}, lambda x: dict.fromkeys("abcd", x)),
    ({"d": "7", "a": "$var.d {+} $var.d"}, lambda x: {"a": 14.0, "d": 7.0}),
]
CYCLES = [{"a": "$var.a"}, {"a": "$var.b", "b": "$var.a"}, {"a": "V;MISSING"}, {"a": "$var.b", "b": "V;X", "c": "$var.missing"}, {"a": "$var.b", "b": "$var.c", "c": "$var.a", "d": "V;X"}]


@contract("C07", VP + ":_evaluate_variables", VP + ":VariableProcessor.required_variables", VP + ":VariableProcessor.process", bounded=f"{len(CHAINS)} dependency graphs in any order of definition, {len(CYCLES)} unsolvable ones; values and time vector unbounded")
def variable_dependencies(s):
    """variables that refer to each other are evaluated whatever the order they are written in; what cannot be resolved is refused"""
    F, Inv = T(VP + ":_evaluate_variables"), T(VP + ":InvalidVariablesException")
    n = s.length("n", lo=1)
    x = s.array("x", n, kind="list")
    ev, d = _evaluator(s, n)
    i = s.choice("graph", list(range(len(CHAINS) + len(CYCLES))))
    if i < len(CHAINS):
        g, want = CHAINS[i]
        r = s.run(F, {k: _single(e) for k, e in g.items()}, processed_variables={"V;X": x}, periods=ev.get_periods())
        s.ensure("does not fail", r.ok)
        v = r.value.variables
        s.ensure("every variable and the inputs", set(v) == {"V;X"} | {"$var." + k for k in g})
        for k in s.indices(n):
            for nm, w in want(x[k]).items():
                s.ensure("value of the variable", s.eq(v["$var." + nm][k], w))
            s.ensure("the inputs are kept", s.eq(v["V;X"][k], x[k]))
    else:
        r = s.run(F, {k: _single(e) for k, e in CYCLES[i - len(CHAINS)].items()}, processed_variables={"V;X": x}, periods=ev.get_periods())
        s.ensure("refused", r.raised(Inv))


@contract("C07", GT + ":get_global_time_vector", bounded="up to 2 time series dates and 1 additional date (dates unbounded); 4 and 3 in concrete runs", weight=2)
def global_time_vector(s):
    """the time vector is, in order and without repetition, the given dates from start to end, and start and end themselves"""
    F, Inv, Base = T(GT + ":get_global_time_vector"), T(GT + ":InvalidEndDate"), T("libecalc.common.errors.ecalc_validation_error:EcalcValidationException")
    n, m = s.choice("nm", [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)] + ([] if s.symbolic else [(4, 3)]))
    ts = [s.date(f"t{i}") for i in range(n)]
    ad = [s.date(f"a{i}") for i in range(m)]
    end = s.date("end")
    start = s.choice("has_start", [False, True])
    st = s.date("start") if start else None
    s.assume_distinct(ts + ad)
    r = s.run(F, time_series_time_vector=ts, end=end, start=st, additional_dates=set(ad) or None)
    if st is None:
        if n == 0:
            s.ensure("no dates and no start is refused", r.raised(Base))
            return
        st = ts[0]
        for t in ts[1:]:
            st = s.ite(t < st, t, st)
    if end <= st:
        s.ensure("an end that is not after the start is refused", r.raised(Inv))
        return
    s.ensure("does not fail", r.ok)
    v = list(r.value)
    s.ensure("starts at the start and ends at the end", s.and_(v[0] == st, v[-1] == end))
    for p, q in zip(v, v[1:]):
        s.ensure("in order, no repetition", p < q)
    for t in ts + ad:
        s.ensure("exactly the dates from start to end", s.iff(s.or_(*[t == p for p in v]), s.and_(st <= t, t <= end)))
    for p in v:
        s.ensure("no other dates", s.or_(p == st, p == end, *[p == t for t in ts + ad]))


@contract("C07", TS + ":TimeSeries.sort", "libecalc.common.list.list_utils:transpose", bounded="up to 4 dates (dates and values unbounded)")
def sorting(s):
    """sorting a time series puts the dates in order and keeps every value with its date"""
    n = s.choice("n", [1, 2, 3, 4])
    d = [s.date(f"d{i}") for i in range(n)]
    s.assume_distinct(d)
    y = s.array("y", n, kind="list")
    r = s.run(T(TS + ":TimeSeries")(reference_id="A;B", time_vector=list(d), series=list(y), extrapolate=True, interpolation_type=None).sort)
    s.ensure("does not fail", r.ok)
    v, w = r.value.time_vector, r.value.series
    s.ensure("as many", len(v) == n and len(w) == n)
    for p, q in zip(v, v[1:]):
        s.ensure("in order", p < q)
    for i in range(n):
        for k in range(n):
            s.ensure("value stays with its date", s.implies(v[i] == d[k], s.eq(w[i], y[k])))
        s.ensure("no date is lost", s.or_(*[v[q] == d[i] for q in range(n)]))


TR = YD + "time_series_resource:TimeSeriesResource"
TC = YD + "time_series_collections:TimeSeriesCollections"


def _resource(headers, data):
    from libecalc.common.errors.exceptions import InvalidResourceException

    class Res:
        def get_headers(self):
            return list(headers)

        def get_column(self, h):
            if h not in headers:
                raise InvalidResourceException("missing", h)
            return list(data[headers.index(h)])

    return Res()


def _formats():
    def two(x):
        return f"{x:02d}"

    return {
        "year": lambda d, c: f"{d.year}",
        "iso": lambda d, c: f"{d.year}{c}{two(d.month)}{c}{two(d.day)}",
        "iso time": lambda d, c: f"{d.year}-{two(d.month)}-{two(d.day)} {two(d.hour)}:{two(d.minute)}:{two(d.second)}",
        "eu": lambda d, c: f"{two(d.day)}{c}{two(d.month)}{c}{d.year}",
        "eu time": lambda d, c: f"{two(d.day)}{c}{two(d.month)}{c}{d.year} {two(d.hour)}:{two(d.minute)}:{two(d.second)}",
        "eu short": lambda d, c: f"{d.day}{c}{d.month}{c}{d.year}",
    }


@contract("C07", TR + "._parse_time_vector", TR + ".__init__", concrete_only=True, bounded="files with up to 6 dates in the documented formats, in any order", cases=400)
def dates_in_files(s):
    """the dates of a file are read as written, year-first or day-first, and never month-first; mixed formats are refused"""
    import datetime as dt

    rng = s.rng
    F, Inv = T(TR), T(YD + "time_series_resource:InvalidTimeSeriesResourceException")
    n = rng.randint(1, 6)
    fmts = _formats()
    kind = rng.choice(sorted(fmts))
    c = rng.choice("-/.")
    dates = []
    for i in range(n):
        d = dt.datetime(rng.randint(1900, 2099), rng.choice([1, 2, rng.randint(1, 12), 12]), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59))
        if kind == "year":
            d = dt.datetime(d.year, 1, 1)
        elif "time" not in kind:
            d = dt.datetime(d.year, d.month, d.day)
        dates.append(d)
    text = [fmts[kind](d, c) for d in dates]
    if kind == "year" and rng.random() < 0.5:
        text = [int(t) for t in text]
    name = rng.choice(["DATE", "DATES", "whatever"])
    pos = rng.randint(0, 2) if name != "whatever" else 0
    headers = ["A", "B"]
    data = [[float(i) for i in range(n)], [2.0 * i for i in range(n)]]
    headers.insert(pos, name)
    mix = rng.random() < 0.3 and n >= 2
    if mix:
        other = rng.choice([k for k in fmts if k.split()[0] != kind.split()[0]])
        text[rng.randrange(n)] = fmts[other](dates[0], c)
        text = [str(t) for t in text]
    us = not mix and rng.random() < 0.2
    if us:
        d = dates[0]
        text = [f"{x.month:02d}{c}{13 + x.day % 15:02d}{c}{x.year}" for x in dates]
    data.insert(pos, text)
    r = s.run(F, _resource(headers, data))
    if mix or us:
        s.ensure("mixed or month-first dates are refused", r.raised(Inv))
        return
    s.ensure("does not fail", r.ok)
    s.ensure("the dates as written, in the order of the file", r.value.get_time_vector() == dates)
    s.ensure("the other columns", r.value.get_headers() == ["A", "B"] and r.value.get_column("B") == [2.0 * i for i in range(n)])


@contract("C07", TR + ".validate", TR + "._validate_time_vector", TR + "._validate_columns", "libecalc.common.string.string_utils:get_duplicates", concrete_only=True, bounded="files with up to 6 rows and 3 columns", cases=300)
def valid_files(s):
    """a file is refused if it has no dates, no columns, a date twice, a column of another length or a value that is not a number"""
    rng = s.rng
    F, Inv = T(TR), T("libecalc.common.errors.exceptions:InvalidResourceException")
    n = rng.randint(1, 6)
    years = rng.sample(range(1990, 2090), n)
    headers = ["DATE"] + [f"C{i}" for i in range(rng.randint(1, 3))]
    data = [[f"{y}-0{rng.randint(1, 9)}-11" for y in years]] + [[rng.choice([0, 1.5, -2.0, "3.25"]) for _ in years] for _ in headers[1:]]
    bad = rng.choice([None, None, "dup", "text", "long", "short", "none", "empty"])
    if bad == "dup":
        if n < 2:
            return
        i, j = rng.sample(range(n), 2)
        data[0][i] = data[0][j]
    elif bad == "text":
        data[rng.randrange(1, len(headers))][rng.randrange(n)] = rng.choice(["x", "1,5", "", "-"])
    elif bad == "long":
        data[rng.randrange(1, len(headers))].append(1.0)
    elif bad == "short":
        data[rng.randrange(1, len(headers))].pop()
    elif bad == "none":
        headers, data = headers[:1], data[:1]
    elif bad == "empty":
        data = [[] for _ in data]
    r = s.run(lambda: F(_resource(headers, data)).validate())
    if bad is None:
        s.ensure("a valid file is accepted", r.ok)
    else:
        s.ensure("an invalid file is refused", r.raised(Inv))


@contract("C07", TC + ".create", TC + ".get_time_series", TC + ".get_time_series_references", TC + ".get_time_vector", YD + "time_series_collection:TimeSeriesCollection.from_yaml",
          YD + "time_series_collection:TimeSeriesCollection.get_time_series", VP + ":map_yaml_to_variables", concrete_only=True, bounded="up to 3 files with up to 3 columns and 5 dates", cases=250)
def files_to_variables(s):
    """every column of every file becomes the variable NAME;COLUMN with the file's own interpolation and extrapolation, and only the files that influence it give the dates of the time vector"""
    import datetime as dt
    from types import SimpleNamespace

    rng = s.rng
    Y = "libecalc.presentation.yaml.yaml_types.time_series.yaml_time_series:"
    D, M = T(Y + "YamlDefaultTimeSeriesCollection"), T(Y + "YamlMiscellaneousTimeSeriesCollection")
    Periods, NF = T("libecalc.common.time_utils:Periods"), T(YD + "time_series_exceptions:TimeSeriesNotFound")
    colls, res, info = [], {}, {}
    for i in range(rng.randint(1, 3)):
        n = rng.randint(2, 5)
        days = rng.sample(range(0, 2000), n)
        dates = [dt.datetime(2020, 1, 1) + dt.timedelta(days=x) for x in days]
        cols = [f"C{k}" for k in range(rng.randint(1, 3))]
        vals = [[float(rng.randint(-9, 9)) for _ in range(n)] for _ in cols]
        nm, inf = f"S{i}", rng.random() < 0.6
        common = dict(name=nm, file=f"f{i}.csv", influence_time_vector=inf)
        if rng.random() < 0.4:
            colls.append(D.model_construct(type="DEFAULT", **common))
            kind, ext = "RIGHT", False
        else:
            kind, ext = rng.choice(["RIGHT", "LEFT", "LINEAR"]), rng.choice([True, False, None])
            colls.append(M.model_construct(type="MISCELLANEOUS", interpolation_type=kind, extrapolation=ext, **common))
            ext = bool(ext)
        res[f"f{i}.csv"] = T(TR)(_resource(["DATE", *cols], [[d.strftime("%Y-%m-%d") for d in dates], *vals]))
        info[nm] = (dict(zip(dates, zip(*vals))), cols, kind, ext, inf)
    r = s.run(T(TC).create, colls, res)
    s.ensure("does not fail", r.ok)
    c = r.value
    want = set()
    for nm, (rows, cols, kind, ext, inf) in info.items():
        if inf:
            want |= set(rows)
    s.ensure("dates of the files that influence the time vector", c.get_time_vector() == want)
    s.ensure("all references", sorted(c.get_time_series_references()) == sorted(f"{nm};{k}" for nm, i in info.items() for k in i[1]))
    bounds = sorted({dt.datetime(2020, 1, 1) + dt.timedelta(days=rng.randint(-100, 2200)) for _ in range(5)} | set(rng.sample(sorted(want), min(2, len(want))) if want else []))
    if len(bounds) < 2:
        return
    periods = Periods.create_periods(bounds, include_before=False, include_after=False)
    v = s.run(T(VP + ":map_yaml_to_variables"), SimpleNamespace(variables={}), c, periods)
    s.ensure("mapping does not fail", v.ok)
    got = v.value.variables
    s.ensure("one variable per column", set(got) == set(c.get_time_series_references()))
    for nm, (rows, cols, kind, ext, inf) in info.items():
        ds = sorted(rows)
        for k, col in enumerate(cols):
            for p, x in zip(periods.periods, got[f"{nm};{col}"]):
                t = p.start
                if t < ds[0]:
                    w = 0.0
                elif t > ds[-1]:
                    w = rows[ds[-1]][k] if ext else 0.0
                elif t in rows:
                    w = rows[t][k]
                else:
                    a, b = max(d for d in ds if d < t), min(d for d in ds if d > t)
                    w = {"RIGHT": rows[a][k], "LEFT": rows[b][k],
                         "LINEAR": rows[a][k] + (rows[b][k] - rows[a][k]) * ((t - a) / (b - a))}[kind]
                s.ensure("value of the column at the start of the period", s.eq(x, w))
    s.ensure("an unknown reference is refused", s.run(c.get_time_series, "S0;nope").raised(NF) and s.run(c.get_time_series, "X;C0").raised(NF))
