"""C01 conversion between calendar-day rates, stream-day rates and volumes"""
from contracts.common import RA, T, periods, rate_series, units
from vc.harness import contract


@contract("C01", RA + ":Rates.to_stream_day", RA + ":Rates.to_calendar_day")
def rates_calendar_stream(s):
    """calendar = stream x regularity; stream x regularity = calendar wherever regularity is not zero, 0 otherwise"""
    Rates = T(RA + ":Rates")
    n = s.length("n")
    cal = s.array("cal", n)
    reg = s.array("reg", n, lo=0, hi=1, kind="list")
    out = s.run(Rates.to_stream_day, calendar_day_rates=cal, regularity=reg)
    s.ensure("to_stream_day does not fail", out.ok)
    back = s.run(Rates.to_calendar_day, stream_day_rates=out.value, regularity=reg)
    s.ensure("to_calendar_day does not fail", back.ok)
    s.ensure("one stream-day rate per rate", s.len(out.value) == n)
    s.ensure("one calendar-day rate per rate", s.len(back.value) == n)
    for k in s.indices(n):
        st = out.value[k]
        if reg[k] == 0:
            s.ensure("stream-day rate is zero when regularity is zero", s.eq(st, 0))
        else:
            s.ensure("stream-day rate x regularity = calendar-day rate", s.eq(st * reg[k], cal[k]))
            s.ensure("round trip", s.eq(back.value[k], cal[k]))
        s.ensure("calendar-day rate = stream-day rate x regularity", s.eq(back.value[k], st * reg[k]))


@contract("C01", RA + ":Rates.to_volumes", RA + ":Rates.compute_cumulative", RA + ":Rates.compute_cumulative_volumes_from_daily_rates")
def volumes_and_cumulative(s):
    """volume = rate x days; cumulative = running sum"""
    Rates = T(RA + ":Rates")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    rates = s.array("rates", n, kind="list")
    v = s.run(Rates.to_volumes, rates=rates, periods=pers)
    s.ensure("to_volumes does not fail", v.ok)
    c = s.run(Rates.compute_cumulative, v.value)
    s.ensure("compute_cumulative does not fail", c.ok)
    c2 = s.run(Rates.compute_cumulative_volumes_from_daily_rates, rates=rates, periods=pers)
    s.ensure("cumulative volumes do not fail", c2.ok)
    s.ensure("one volume per period", s.len(v.value) == n)
    s.ensure("one cumulative volume per period", s.len(c.value) == n)
    for k in s.indices(n):
        days = (d[k + 1] - d[k]).total_seconds() / 86400
        s.ensure("volume is rate x length in days", s.eq(v.value[k], rates[k] * days))
        s.ensure("cumulative from rates = cumulative of volumes", s.eq(c2.value[k], c.value[k]))
        if k == 0:
            s.ensure("first cumulative is first volume", s.eq(c.value[k], v.value[k]))
        else:
            s.ensure("cumulative grows by the period's volume", s.eq(c.value[k], c.value[k - 1] + v.value[k]))


@contract("C01", RA + ":TimeSeriesRate.to_calendar_day", RA + ":TimeSeriesRate.to_stream_day", RA + ":TimeSeriesRate.to_volumes")
def timeseries_rate_conversions(s):
    """the conversions of a rate series keep its periods, unit and regularity; volumes are calendar-day volumes"""
    RT = T(RA + ":RateType")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    ts, vals, reg, rt = rate_series(s, "v", pers, n)
    cd = s.run(ts.to_calendar_day)
    sd = s.run(ts.to_stream_day)
    vo = s.run(ts.to_volumes)
    s.ensure("conversions do not fail", cd.ok and sd.ok and vo.ok)
    cd, sd, vo = cd.value, sd.value, vo.value
    s.ensure("calendar-day type", cd.rate_type == RT.CALENDAR_DAY)
    s.ensure("stream-day type", sd.rate_type == RT.STREAM_DAY)
    s.ensure("units kept", cd.unit == ts.unit and sd.unit == ts.unit)
    s.ensure("volume unit", vo.unit == U.STANDARD_CUBIC_METER)
    s.ensure("lengths", s.and_(s.len(cd.values) == n, s.len(sd.values) == n, s.len(vo.values) == n, s.len(cd.regularity) == n, s.len(sd.regularity) == n))
    for k in s.indices(n):
        days = (d[k + 1] - d[k]).total_seconds() / 86400
        if rt == RT.STREAM_DAY:
            s.ensure("calendar = stream x regularity", s.eq(cd.values[k], vals[k] * reg[k]))
            s.ensure("already stream-day: unchanged", s.eq(sd.values[k], vals[k]))
        else:
            s.ensure("already calendar-day: unchanged", s.eq(cd.values[k], vals[k]))
            s.ensure("stream x regularity = calendar", s.eq(sd.values[k] * reg[k], s.ite(reg[k] == 0, 0.0, vals[k])))
            s.ensure("stream is zero where regularity is zero", s.implies(reg[k] == 0, s.eq(sd.values[k], 0.0)))
        s.ensure("regularity kept", s.and_(s.eq(cd.regularity[k], reg[k]), s.eq(sd.regularity[k], reg[k])))
        s.ensure("volume = calendar-day rate x days", s.eq(vo.values[k], cd.values[k] * days))
        for x in (cd, sd, vo):
            p = x.periods.periods[k]
            s.ensure("periods kept", s.and_(s.eq(p.start, d[k]), s.eq(p.end, d[k + 1])))
