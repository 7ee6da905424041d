"""C02 resampling to a reporting frequency"""
from datetime import timedelta

from contracts.common import RA, TU, T, units
from vc.harness import contract


def _setup(s, freqs=("YEAR", "MONTH")):
    Period, Periods, F = T(TU + ":Period"), T(TU + ":Periods"), T(TU + ":Frequency")
    d = s.calendar("cal")
    pers = Periods([Period(a, b) for a, b in zip(d[:-1], d[1:])])
    freq = s.choice("freq", [getattr(F, f) for f in freqs])
    inc = s.choice("include", [(True, True), (False, True), (True, False)])
    return d, pers, freq, inc


def _days(p):
    return (p[1] - p[0]).total_seconds() / 86400


def _overlap(a0, a1, b0, b1):
    lo, hi = max(a0, b0), min(a1, b1)
    return max(0.0, (hi - lo).total_seconds() / 86400)


def _check_new_periods(s, d, new, freq, inc):
    """the new periods are contiguous, within the old range, and start at frequency boundaries"""
    s.ensure("at least one period", len(new) >= 1)
    s.ensure("starts where the data starts", new[0][0] == d[0] if inc[0] else new[0][0] >= d[0])
    s.ensure("ends where the data ends", new[-1][1] == d[-1] if inc[1] else new[-1][1] <= d[-1])
    for k, (a, b) in enumerate(new):
        s.ensure("period is not empty", a < b)
        if k:
            s.ensure("periods are contiguous", new[k - 1][1] == a)
            if str(freq) == "YS":
                s.ensure("period starts at the start of a year", (a.month, a.day) == (1, 1))
            elif str(freq) == "MS":
                s.ensure("period starts at the start of a month", a.day == 1)
        if str(freq) == "YS" and 0 < k < len(new) - 1:
            s.ensure("one year", b.year == a.year + 1)
        if str(freq) == "MS" and 0 < k < len(new) - 1:
            s.ensure("one month", (b.year * 12 + b.month) == a.year * 12 + a.month + 1)
        # every frequency boundary strictly inside the range is a period boundary
        if str(freq) == "YS":
            s.ensure("no boundary skipped", not (a.year < (b - timedelta(seconds=1)).year and (a.month, a.day) == (1, 1)))


@contract("C02", RA + ":TimeSeriesRate.resample", RA + ":TimeSeriesVolumesCumulative.resample", RA + ":TimeSeriesVolumesCumulative.to_volumes", RA + ":TimeSeriesVolumes.to_rate", TU + ":resample_periods", bounded="calendars: 5 fixed time vectors symbolically (values unbounded), generated ones concretely", weight=5, budget=90)
def resample_rate_conserves_volume(s):
    """every reporting period holds exactly the volume of the parts of the original periods it covers"""
    TSR, RT = T(RA + ":TimeSeriesRate"), T(RA + ":RateType")
    U = units()
    d, pers, freq, inc = _setup(s, ("YEAR",) if s.symbolic else ("YEAR", "MONTH"))
    n = len(d) - 1
    vals = s.array("v", n, lo=0, kind="list")
    reg = s.array("reg", n, lo=0, hi=1, kind="list")
    rt = s.choice("type", [RT.STREAM_DAY, RT.CALENDAR_DAY])
    ts = TSR(periods=pers, values=vals, unit=U.STANDARD_CUBIC_METER_PER_DAY, rate_type=rt, regularity=reg)
    if inc != (True, True):
        F = T(TU + ":resample_periods")
        if len(F(pers, freq, inc[0], inc[1]).periods) == 0:
            return
    r = s.run(ts.resample, freq, inc[0], inc[1])
    s.ensure("resample does not fail", r.ok)
    r = r.value
    new = [(p.start, p.end) for p in r.periods]
    _check_new_periods(s, d, new, freq, inc)
    s.ensure("rate type kept", r.rate_type == rt)
    s.ensure("unit kept", r.unit == ts.unit)
    s.ensure("one value and one regularity per period", len(r.values) == len(new) and len(r.regularity) == len(new))
    cal = [v * g if rt == RT.STREAM_DAY else v for v, g in zip(vals, reg)]
    for k, (a, b) in enumerate(new):
        vol = 0.0
        zero = True
        for i in range(n):
            o = _overlap(a, b, d[i], d[i + 1])
            if o:
                vol = cal[i] * o + vol
                zero = s.and_(zero, s.eq(reg[i], 0)) if rt == RT.CALENDAR_DAY else zero
        got = r.values[k] * _days((a, b))
        g = r.regularity[k]
        if rt == RT.CALENDAR_DAY:
            s.ensure("volume of the new period = volume of what it covers", s.eq(got, vol))
        else:
            s.ensure("stream-day rate x regularity x days = volume of what it covers", s.eq(got * g, vol))
        svol = 0.0
        for i in range(n):
            o = _overlap(a, b, d[i], d[i + 1])
            if o:
                if rt == RT.STREAM_DAY:
                    svol = vals[i] * o + svol
                elif reg[i] != 0:
                    svol = vals[i] / reg[i] * o + svol
        if svol == 0:
            s.ensure("regularity is zero when nothing is produced", s.eq(g, 0))
        else:
            s.ensure("regularity is calendar-day volume over stream-day volume", s.eq(g * svol, vol))
        s.ensure("regularity within [0, 1]", s.and_(s.ge(g, 0), s.le(g, 1)) if rt == RT.STREAM_DAY else s.ge(g, 0))


@contract("C02", RA + ":TimeSeriesVolumes.resample", RA + ":TimeSeriesVolumes.cumulative", RA + ":TimeSeriesVolumesCumulative.resample", bounded="calendars: 5 fixed time vectors symbolically (values unbounded), generated ones concretely", weight=3, budget=90)
def resample_volumes(s):
    """period volumes are split in proportion to time and summed; cumulative volumes are interpolated linearly"""
    TSV = T(RA + ":TimeSeriesVolumes")
    U = units()
    d, pers, freq, inc = _setup(s, ("YEAR",) if s.symbolic else ("YEAR", "MONTH"))
    n = len(d) - 1
    vals = s.array("v", n, kind="list")
    if len(T(TU + ":resample_periods")(pers, freq, inc[0], inc[1]).periods) == 0:
        return
    ts = TSV(periods=pers, values=vals, unit=U.STANDARD_CUBIC_METER)
    r = s.run(ts.resample, freq, inc[0], inc[1])
    s.ensure("resample does not fail", r.ok)
    new = [(p.start, p.end) for p in r.value.periods]
    _check_new_periods(s, d, new, freq, inc)
    s.ensure("unit kept", r.value.unit == ts.unit)
    s.ensure("one value per period", len(r.value.values) == len(new))
    for k, (a, b) in enumerate(new):
        vol = 0.0
        for i in range(n):
            o = _overlap(a, b, d[i], d[i + 1])
            if o:
                vol = vals[i] * (o / _days((d[i], d[i + 1]))) + vol if not s.symbolic else _frac(vals[i], o, _days((d[i], d[i + 1]))) + vol
        s.ensure("volume is the time-weighted share of the original volumes", s.eq(r.value.values[k], vol))


def _frac(v, o, t):
    from fractions import Fraction

    f = Fraction(o) / Fraction(t)
    return v * f.numerator / f.denominator


@contract("C02", RA + ":TimeSeries.resample", RA + ":TimeSeriesBoolean.resample", bounded="calendars: 5 fixed time vectors symbolically (values unbounded), generated ones concretely", weight=2, budget=60)
def resample_point_values(s):
    """plain series are forward-filled: a new period gets the value in force at its start; a boolean series is true for
    a new period only if it is true for every original period it covers"""
    TSF, TSB = T(RA + ":TimeSeriesFloat"), T(RA + ":TimeSeriesBoolean")
    U = units()
    d, pers, freq, inc = _setup(s, ("YEAR",) if s.symbolic else ("YEAR", "MONTH"))
    n = len(d) - 1
    if len(T(TU + ":resample_periods")(pers, freq, inc[0], inc[1]).periods) == 0:
        return
    vals = s.array("v", n, kind="list")
    bo = s.bools("b", n)
    f = s.run(TSF(periods=pers, values=vals, unit=U.BARA).resample, freq, inc[0], inc[1])
    b = s.run(TSB(periods=pers, values=bo, unit=U.NONE).resample, freq, inc[0], inc[1])
    s.ensure("resample does not fail", f.ok and b.ok)
    f, b = f.value, b.value
    new = [(p.start, p.end) for p in f.periods]
    _check_new_periods(s, d, new, freq, inc)
    s.ensure("same periods for all kinds", new == [(p.start, p.end) for p in b.periods])
    for k, (p, q) in enumerate(new):
        i = max(i for i in range(n) if d[i] <= p)
        s.ensure("value in force at the start of the period", s.eq(f.values[k], vals[i]))
        cov = [j for j in range(n) if d[j] < q and d[j + 1] > p]
        want = True
        for j in cov:
            want = s.and_(want, bo[j])
        s.ensure("true only if true throughout", s.iff(b.values[k], want))


@contract("C02", RA + ":TimeSeriesRate.resample", RA + ":TimeSeries.resample")
def resample_none_is_identity(s):
    """no frequency: the series is returned unchanged"""
    TSR, RT, F = T(RA + ":TimeSeriesRate"), T(RA + ":RateType"), T(TU + ":Frequency")
    from contracts.common import periods, rate_series

    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    ts, vals, reg, rt = rate_series(s, "v", pers, n)
    r = s.run(ts.resample, F.NONE)
    s.ensure("does not fail", r.ok)
    s.ensure("same length", s.len(r.value.values) == n)
    for k in s.indices(n):
        s.ensure("same values", s.and_(s.eq(r.value.values[k], vals[k]), s.eq(r.value.regularity[k], reg[k])))
        s.ensure("same periods", s.eq(r.value.periods.periods[k].start, d[k]))
