"""Shared input builders.  Works symbolically and concretely (see vc.harness)."""
from vc.harness import target

TU = "libecalc.common.time_utils"
RA = "libecalc.common.utils.rates"


def T(path):
    return target(path)


def periods(s, name, n):
    """n contiguous periods over an arbitrary strictly increasing time vector; returns (Periods, dates)"""
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    d = s.dates(name, n + 1)
    return Periods([Period(start=d[k], end=d[k + 1]) for k in range(n)]), d


def units():
    return T("libecalc.common.units:Unit")


def rate_series(s, name, pers, n, lo=None, hi=None, rate_type=None, regularity=None, unit=None, nan=False):
    TSR, RT = T(RA + ":TimeSeriesRate"), T(RA + ":RateType")
    U = units()
    vals = s.array(name, n, lo=lo, hi=hi, kind="list", nan=nan)
    reg = s.array(name + "_reg", n, lo=0, hi=1, kind="list") if regularity is None else regularity
    rt = s.choice(name + "_type", [RT.STREAM_DAY, RT.CALENDAR_DAY]) if rate_type is None else rate_type
    return TSR(periods=pers, values=vals, unit=unit or U.STANDARD_CUBIC_METER_PER_DAY, rate_type=rt, regularity=reg), vals, reg, rt
