"""C03 time series algebra keeps values aligned with their periods"""
from contracts.common import RA, TU, T, periods, rate_series, units
from vc.harness import contract


def _two(s, name="t"):
    """two adjacent stretches of one time vector: n periods then m periods"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    n, m = s.length("n", lo=1), s.length("m", lo=1)
    d = s.dates(name, n + m + 1)
    p1 = Periods([Period(start=d[k], end=d[k + 1]) for k in range(n)])
    p2 = Periods([Period(start=d[k + n], end=d[k + n + 1]) for k in range(m)])
    return n, m, d, p1, p2


@contract("C03", RA + ":TimeSeriesRate.__add__", RA + ":TimeSeriesRate.to_calendar_day", RA + ":TimeSeriesRate.to_stream_day")
def rate_addition(s):
    """adding rates adds the values period by period and keeps calendar-day volume; mixed units or rate types are refused"""
    RT = T(RA + ":RateType")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    a, va, ra, ta = rate_series(s, "a", pers, n, lo=0)
    same = s.choice("same_reg", [True, False])
    b, vb, rb, tb = rate_series(s, "b", pers, n, lo=0, regularity=ra if same else None, unit=s.choice("unit", [U.STANDARD_CUBIC_METER_PER_DAY, U.TONS_PER_DAY]))
    # a calendar-day rate is zero where nothing runs
    s.assume_all(n, lambda k: s.and_(s.implies(s.eq(ra[k], 0), s.eq(va[k], 0)), s.implies(s.eq(rb[k], 0), s.eq(vb[k], 0))))
    r = s.run(lambda: a + b)
    if a.unit != b.unit or ta != tb:
        s.ensure("mismatching unit or rate type is refused", r.raised(ValueError))
        return
    s.ensure("addition does not fail", r.ok)
    r = r.value
    s.ensure("unit and rate type kept", r.unit == a.unit and r.rate_type == ta)
    s.ensure("one value per period", s.len(r.values) == n)
    for k in s.indices(n):
        s.ensure("values are added", s.eq(r.values[k], va[k] + vb[k]))
        s.ensure("periods kept", s.and_(s.eq(r.periods.periods[k].start, d[k]), s.eq(r.periods.periods[k].end, d[k + 1])))
        if same:
            s.ensure("common regularity kept", s.eq(r.regularity[k], ra[k]))
        elif ta == RT.STREAM_DAY:
            s.ensure("calendar-day volume of the sum is the sum of the calendar-day volumes", s.eq(r.regularity[k] * r.values[k], va[k] * ra[k] + vb[k] * rb[k]))
        else:
            sa = s.ite(ra[k] == 0, 0.0, va[k] / s.ite(ra[k] == 0, 1.0, ra[k]))
            sb = s.ite(rb[k] == 0, 0.0, vb[k] / s.ite(rb[k] == 0, 1.0, rb[k]))
            s.ensure("stream-day volume of the sum is the sum of the stream-day volumes", s.eq(r.regularity[k] * (sa + sb), va[k] + vb[k]))


@contract("C03", RA + ":TimeSeriesStreamDayRate.__add__", "libecalc.common.list.list_utils:elementwise_sum")
def stream_day_addition(s):
    """stream-day rates add element by element; NaN counts as zero"""
    TS = T(RA + ":TimeSeriesStreamDayRate")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    va, vb = s.array("a", n, kind="list", nan=True), s.array("b", n, kind="list", nan=True)
    ub = s.choice("unit", [U.MEGA_WATT, U.TONS_PER_DAY])
    a, b = TS(periods=pers, values=va, unit=U.MEGA_WATT), TS(periods=pers, values=vb, unit=ub)
    r = s.run(lambda: a + b)
    if ub != U.MEGA_WATT:
        s.ensure("mismatching unit is refused", r.raised(ValueError))
        return
    s.ensure("addition does not fail", r.ok)
    s.ensure("unit kept", r.value.unit == U.MEGA_WATT)
    s.ensure("length", s.len(r.value.values) == n)
    for k in s.indices(n):
        x = s.ite(s.isnan(va[k]), 0.0, va[k])
        y = s.ite(s.isnan(vb[k]), 0.0, vb[k])
        s.ensure("values are added", s.eq(r.value.values[k], x + y))
        s.ensure("periods kept", s.eq(r.value.periods.periods[k].start, d[k]))


@contract("C03", RA + ":TimeSeries.extend", RA + ":TimeSeriesRate.extend", RA + ":TimeSeries.merge", RA + ":TimeSeriesRate.merge", weight=3)
def extend_and_merge(s):
    """joining two adjacent stretches gives every period its own value, in time order"""
    TSF, RT = T(RA + ":TimeSeriesFloat"), T(RA + ":RateType")
    U = units()
    n, m, d, p1, p2 = _two(s)
    kind = s.choice("kind", ["float", "rate"])
    op = s.choice("op", ["extend", "merge", "merge_reversed", "extend_reversed"])
    v1, v2 = s.array("v1", n, kind="list"), s.array("v2", m, kind="list")
    u2 = s.choice("unit", [U.TONS_PER_DAY, U.KILO_PER_DAY])
    g1 = g2 = None
    t1 = t2 = RT.STREAM_DAY
    if kind == "float":
        a, b = TSF(periods=p1, values=v1, unit=U.TONS_PER_DAY), TSF(periods=p2, values=v2, unit=u2)
    else:
        TSR = T(RA + ":TimeSeriesRate")
        g1, g2 = s.array("g1", n, lo=0, hi=1, kind="list"), s.array("g2", m, lo=0, hi=1, kind="list")
        t2 = s.choice("type2", [RT.STREAM_DAY, RT.CALENDAR_DAY])
        a = TSR(periods=p1, values=v1, unit=U.TONS_PER_DAY, regularity=g1, rate_type=t1)
        b = TSR(periods=p2, values=v2, unit=u2, regularity=g2, rate_type=t2)
    if op == "extend_reversed" and kind == "rate":
        return  # documented order: the extension follows
    r = s.run({"extend": lambda: a.extend(b), "merge": lambda: a.merge(b), "merge_reversed": lambda: b.merge(a), "extend_reversed": lambda: b.extend(a)}[op])
    if u2 != U.TONS_PER_DAY or t1 != t2:
        s.ensure("mismatching unit or rate type is refused", r.raised(ValueError))
        return
    s.ensure("joining does not fail", r.ok)
    r = r.value
    s.ensure("unit kept", r.unit == U.TONS_PER_DAY)
    s.ensure("length is the sum", s.and_(s.len(r.values) == n + m, s.len(r.periods.periods) == n + m))
    for k in s.indices(n):
        s.ensure("first stretch", s.and_(s.eq(r.values[k], v1[k]), s.eq(r.periods.periods[k].start, d[k])))
        if g1 is not None:
            s.ensure("first regularity", s.eq(r.regularity[k], g1[k]))
    for k in s.indices(m):
        s.ensure("second stretch", s.and_(s.eq(r.values[n + k], v2[k]), s.eq(r.periods.periods[n + k].start, d[n + k])))
        if g2 is not None:
            s.ensure("second regularity", s.eq(r.regularity[n + k], g2[k]))


@contract("C03", RA + ":TimeSeries.merge", RA + ":TimeSeriesRate.merge", RA + ":TimeSeries.extend")
def merge_refuses_gaps_and_overlap(s):
    """series that overlap or leave a gap are not merged"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    TSF, TSR, RT = T(RA + ":TimeSeriesFloat"), T(RA + ":TimeSeriesRate"), T(RA + ":RateType")
    U = units()
    n, m = s.length("n", lo=1), s.length("m", lo=1)
    d, e = s.dates("d", n + 1), s.dates("e", m + 1)
    p1 = Periods([Period(start=d[k], end=d[k + 1]) for k in range(n)])
    p2 = Periods([Period(start=e[k], end=e[k + 1]) for k in range(m)])
    v1, v2 = s.array("v1", n, kind="list"), s.array("v2", m, kind="list")
    kind = s.choice("kind", ["float", "rate"])
    if kind == "float":
        a, b = TSF(periods=p1, values=v1, unit=U.BARA), TSF(periods=p2, values=v2, unit=U.BARA)
    else:
        a = TSR(periods=p1, values=v1, unit=U.TONS_PER_DAY, regularity=[1.0] * n, rate_type=RT.STREAM_DAY)
        b = TSR(periods=p2, values=v2, unit=U.TONS_PER_DAY, regularity=[1.0] * m, rate_type=RT.STREAM_DAY)
    r = s.run(lambda: a.merge(b))
    adjacent = s.or_(s.eq(d[n], e[0]), s.eq(e[m], d[0]))
    s.ensure("merged exactly when adjacent", s.iff(r.ok, adjacent))
    if not r.ok:
        s.ensure("refused with an error", r.raised(ValueError))


@contract("C03", RA + ":TimeSeries.for_period", RA + ":TimeSeriesRate.for_period", RA + ":TimeSeries.for_periods", TU + ":Period.get_period_indices", weight=3)
def slice_for_period(s):
    """restricting a series to a period returns exactly the values of the periods inside it"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    TSF = T(RA + ":TimeSeriesFloat")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    kind = s.choice("kind", ["float", "rate", "periods"])
    v = s.array("v", n, kind="list")
    p = Period(start=d[i], end=d[j])
    if kind == "rate":
        ts, v, g, rt = rate_series(s, "r", pers, n)
        r = s.run(ts.for_period, p)
    else:
        ts = TSF(periods=pers, values=v, unit=U.BARA)
        if kind == "float":
            r = s.run(ts.for_period, p)
        else:
            r = s.run(ts.for_periods, Periods([p]))
    s.ensure("does not fail", r.ok)
    r = r.value
    s.ensure("number of periods", s.and_(s.len(r.values) == j - i, s.len(r.periods.periods) == j - i))
    s.ensure("unit kept", r.unit == ts.unit)
    for k in s.indices(j - i):
        s.ensure("value of the same period", s.eq(r.values[k], v[i + k]))
        s.ensure("same period", s.and_(s.eq(r.periods.periods[k].start, d[i + k]), s.eq(r.periods.periods[k].end, d[i + k + 1])))
        if kind == "rate":
            s.ensure("regularity of the same period", s.eq(r.regularity[k], g[i + k]))


@contract("C03", RA + ":TimeSeries.__getitem__", RA + ":TimeSeriesRate.__getitem__")
def indexing(s):
    """indexing a series by position picks values, periods and regularity at the same position"""
    TSF = T(RA + ":TimeSeriesFloat")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    ts, v, g, rt = rate_series(s, "r", pers, n)
    r = s.run(lambda: ts[i:j])
    s.ensure("slice does not fail", r.ok)
    r = r.value
    s.ensure("length", s.len(r.values) == j - i)
    for k in s.indices(j - i):
        s.ensure("slice picks the same positions", s.and_(s.eq(r.values[k], v[i + k]), s.eq(r.regularity[k], g[i + k]), s.eq(r.periods.periods[k].start, d[i + k])))
    f = TSF(periods=pers, values=v, unit=U.BARA)
    q = s.run(lambda: f[i])
    s.ensure("index does not fail", q.ok)
    s.ensure("index picks value and period", s.and_(s.eq(q.value.values[0], v[i]), s.eq(q.value.periods.periods[0].start, d[i])))
    q = s.run(lambda: ts[i])
    s.ensure("a rate can be indexed", q.ok)
    s.ensure("index picks value, regularity and period", s.and_(s.len(q.value.values) == 1, s.eq(q.value.values[0], v[i]), s.eq(q.value.regularity[0], g[i]), s.eq(q.value.periods.periods[0].start, d[i])))
    q = s.run(lambda: ts[[j - 1, i]])
    s.ensure("a rate can be indexed by several positions", q.ok)
    for k, x in ((0, j - 1), (1, i)):
        s.ensure("indices pick value, regularity and period", s.and_(s.len(q.value.values) == 2, s.eq(q.value.values[k], v[x]), s.eq(q.value.regularity[k], g[x]), s.eq(q.value.periods.periods[k].start, d[x])))


@contract("C03", RA + ":TimeSeries.period_values_one_to_one", RA + ":TimeSeriesRate.check_regularity_length")
def lengths_must_match(s):
    """a series is only built when there is one value (and one regularity) per period"""
    TSF, TSR, RT = T(RA + ":TimeSeriesFloat"), T(RA + ":TimeSeriesRate"), T(RA + ":RateType")
    U = units()
    n = s.length("n", lo=1)
    m, q = s.length("m"), s.length("q")
    pers, d = periods(s, "t", n)
    v, g = s.array("v", m, kind="list"), s.array("g", q, lo=0, hi=1, kind="list")
    r = s.run(lambda: TSF(periods=pers, values=v, unit=U.BARA))
    s.ensure("accepted exactly when lengths agree", s.iff(r.ok, m == n))
    r = s.run(lambda: TSR(periods=pers, values=v, unit=U.BARA, regularity=g, rate_type=RT.STREAM_DAY))
    s.ensure("rate accepted exactly when lengths agree", s.iff(r.ok, s.and_(m == n, q == n)))


@contract("C03", RA + ":TimeSeries.fill_values_for_new_periods")
def fill_new_periods(s):
    """filling in missing periods keeps existing values in place and uses the fill value elsewhere"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    TSF = T(RA + ":TimeSeriesFloat")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "d", n)
    a = s.int("a", lo=0, hi=n - 1)
    b = s.int("b", lo=a + 1, hi=n)
    v = s.array("v", b - a, kind="list")
    fill = s.real("fill")
    ts = TSF(periods=Periods([Period(start=d[a + k], end=d[a + k + 1]) for k in range(b - a)]), values=v, unit=U.BARA)
    r = s.run(ts.fill_values_for_new_periods, pers, fill)
    s.ensure("does not fail", r.ok)
    s.ensure("one value per new period", s.len(r.value.values) == n)
    for k in s.indices(n):
        if a <= k and k < b:
            s.ensure("existing value", s.eq(r.value.values[k], v[k - a]))
        else:
            s.ensure("fill value", s.eq(r.value.values[k], fill))


@contract("C03", RA + ":TimeSeriesRate.from_timeseries_stream_day_rate", RA + ":TimeSeriesRate.to_stream_day_timeseries")
def attach_regularity(s):
    """attaching regularity to a stream-day series uses the regularity of the same periods"""
    TSR, TSS, TSF, RT = T(RA + ":TimeSeriesRate"), T(RA + ":TimeSeriesStreamDayRate"), T(RA + ":TimeSeriesFloat"), T(RA + ":RateType")
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    m = j - i
    sub = Periods([Period(start=d[i + k], end=d[i + k + 1]) for k in range(m)])
    v = s.array("v", m, kind="list")
    g = s.array("g", n, lo=0, hi=1, kind="list")
    reg = TSF(periods=pers, values=g, unit=U.NONE)
    ts = TSS(periods=sub, values=v, unit=U.MEGA_WATT)
    r = s.run(TSR.from_timeseries_stream_day_rate, ts, reg)
    s.ensure("does not fail", r.ok)
    r = r.value
    s.ensure("stream day", r.rate_type == RT.STREAM_DAY)
    s.ensure("lengths", s.and_(s.len(r.values) == m, s.len(r.regularity) == m))
    back = s.run(r.to_stream_day_timeseries)
    s.ensure("back conversion does not fail", back.ok)
    for k in s.indices(m):
        s.ensure("values kept", s.eq(r.values[k], v[k]))
        s.ensure("regularity of the same period", s.eq(r.regularity[k], g[i + k]))
        s.ensure("round trip", s.eq(back.value.values[k], v[k]))


@contract("C03", RA + ":TimeSeriesBoolean.__mul__", RA + ":TimeSeries.fill_nan", RA + ":TimeSeries.__eq__", RA + ":TimeSeriesRate.__eq__")
def elementwise_operations(s):
    """boolean series combine by and; filling NaN touches only NaN; equality compares values, periods and unit"""
    TSB, TSF, TSR, RT = T(RA + ":TimeSeriesBoolean"), T(RA + ":TimeSeriesFloat"), T(RA + ":TimeSeriesRate"), T(RA + ":RateType")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    a, b = s.bools("a", n), s.bools("b", n)
    r = s.run(lambda: TSB(periods=pers, values=a, unit=U.NONE) * TSB(periods=pers, values=b, unit=U.NONE))
    s.ensure("combining does not fail", r.ok)
    s.ensure("length", s.len(r.value.values) == n)
    v, w = s.array("v", n, kind="list"), s.array("w", n, kind="list")
    g, h = s.array("g", n, lo=0, hi=1, kind="list"), s.array("h", n, lo=0, hi=1, kind="list")
    u2 = s.choice("unit", [U.TONS_PER_DAY, U.KILO_PER_DAY])
    e = s.run(lambda: TSF(periods=pers, values=v, unit=U.TONS_PER_DAY) == TSF(periods=pers, values=w, unit=u2))
    f = s.run(lambda: TSR(periods=pers, values=v, unit=U.TONS_PER_DAY, regularity=g, rate_type=RT.STREAM_DAY) == TSR(periods=pers, values=w, unit=u2, regularity=h, rate_type=RT.STREAM_DAY))
    s.ensure("comparison does not fail", e.ok and f.ok)
    if u2 != U.TONS_PER_DAY:
        s.ensure("different unit, different series", s.not_(e.value))
        s.ensure("different unit, different rates", s.not_(f.value))
    for k in s.indices(n):
        s.ensure("true only where both are true", s.iff(r.value.values[k], s.and_(a[k], b[k])))
        if u2 == U.TONS_PER_DAY:
            s.ensure("equal series have equal values", s.implies(e.value, s.eq(v[k], w[k])))
            s.ensure("equal rates have equal values and regularity", s.implies(f.value, s.and_(s.eq(v[k], w[k]), s.eq(g[k], h[k]))))


@contract("C03", RA + ":TimeSeries.fill_nan", bounded="series of 1 to 3 periods symbolically, of any length concretely")
def filling_nan(s):
    """filling NaN touches only NaN"""
    TSF = T(RA + ":TimeSeriesFloat")
    U = units()
    n = s.choice("n", [1, 2, 3])
    pers, d = periods(s, "t", n)
    v = s.array("v", n, kind="list", nan=True)
    fill = s.real("fill")
    r = s.run(TSF(periods=pers, values=v, unit=U.BARA).fill_nan, fill)
    s.ensure("does not fail", r.ok)
    s.ensure("length and unit", s.and_(s.len(r.value.values) == n, r.value.unit == U.BARA))
    for k in range(n):
        s.ensure("only NaN is replaced", s.eq(r.value.values[k], s.ite(s.isnan(v[k]), fill, v[k])))
