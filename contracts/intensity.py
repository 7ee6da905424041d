"""C12 emission intensity"""
from contracts.common import RA, T, TU, periods, rate_series, units
from contracts.resample import _days, _frac, _overlap
from vc.harness import contract

EI = "libecalc.domain.emission.emission_intensity:EmissionIntensity"
CALC = "ecalc_cli.emission_intensity:EmissionIntensityCalculator"
ER = "libecalc.presentation.json_result.result.emission:EmissionResult"


def _ratio(s, name, got, num, den, same=None):
    """got = num / den, not a number where den is zero (same: the numerator added up in another order)"""
    if den == 0:
        s.ensure(name + ": not a number without export", s.isnan(got))
    else:
        s.ensure(name, s.eq(got * den, num) if same is None else s.or_(s.eq(got * den, num), s.eq(got * den, same)))


def _grows(s, cum, k, v):
    """lemma (C01): an accumulated volume grows by the period's volume"""
    s.ensure("lemma: accumulated volumes", s.eq(cum[k], v) if k == 0 else s.eq(cum[k], cum[k - 1] + v))


def _emission(s, name, ts):
    return T(ER)(name=name, periods=ts.periods, rate=ts, cumulative=ts.to_volumes().cumulative())


def _intensity_of(ts, co2, freq, key):
    other = T(ER)(name="other", periods=ts.periods, rate=ts, cumulative=ts.to_volumes().cumulative())
    c = T(CALC)(hydrocarbon_export_rate=ts, emissions={"methane": other, "co2_eq": other, "bio_co2": other, key: co2}, frequency=freq)
    return c.get_results()


@contract("C12", CALC + ".get_results", CALC + ".__init__", EI + ".calculate_cumulative", EI + ".calculate_for_periods", ER + ".get_cumulative_kg", RA + ":TimeSeriesVolumesCumulative.__truediv__", RA + ":TimeSeriesVolumes.__truediv__", RA + ":TimeSeriesVolumesCumulative.to_volumes", weight=3, budget=150)
def intensity_of_co2(s):
    """CO2 in kg over the exported volume in Sm3 and in boe: accumulated to the end of every period, and per year when results are yearly"""
    F, RT = T(TU + ":Frequency"), T(RA + ":RateType")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    hc, hv, hreg, hrt = rate_series(s, "export", pers, n)
    em, ev, ereg, ert = rate_series(s, "co2", pers, n, unit=U.TONS_PER_DAY)
    freq = s.choice("freq", [F.YEAR, F.NONE] if s.symbolic else [F.YEAR, F.NONE, F.MONTH])
    key = s.choice("key", ["CO2"] if s.symbolic else ["co2", "CO2"])
    r = s.run(_intensity_of, hc, _emission(s, key, em), freq, key)
    s.ensure("does not fail", r.ok)
    res = r.value.results
    s.ensure("one result, for CO2", len(res) == 1 and res[0].name == key)
    one = res[0]
    s.ensure("units", one.intensity_sm3.unit == U.KG_SM3 and one.intensity_boe.unit == U.KG_BOE)
    yearly = freq == F.YEAR
    s.ensure("per year exactly for yearly results", (one.intensity_yearly_sm3 is not None) == yearly and (one.intensity_yearly_boe is not None) == yearly)
    hcum, ecum = hc.to_volumes().cumulative().values, em.to_volumes().cumulative().values
    kg = em.to_volumes().to_unit(U.KILO).cumulative().values
    s.ensure("one value per period", s.and_(s.len(one.intensity_sm3.values) == n, s.len(one.intensity_boe.values) == n))
    for k in s.indices(n):
        _ratio(s, "accumulated kg per Sm3", one.intensity_sm3.values[k], ecum[k] * 1000, hcum[k], same=kg[k])
        _ratio(s, "accumulated kg per boe", one.intensity_boe.values[k], ecum[k] * 1000, hcum[k] * 6.29, same=kg[k])
        p = one.intensity_sm3.periods.periods[k]
        s.ensure("periods kept", s.and_(s.eq(p.start, d[k]), s.eq(p.end, d[k + 1])))
        if yearly:
            days = (d[k + 1] - d[k]).total_seconds() / 86400
            h, e = hv[k] * days, ev[k] * days
            if hrt == RT.STREAM_DAY:
                h = h * hreg[k]
            if ert == RT.STREAM_DAY:
                e = e * ereg[k]
            _grows(s, kg, k, e * 1000)
            _grows(s, hcum, k, h)
            _ratio(s, "yearly kg per Sm3", one.intensity_yearly_sm3.values[k], e * 1000, h)
            _ratio(s, "yearly kg per boe", one.intensity_yearly_boe.values[k], e * 1000, h * 6.29)


@contract("C12", EI + ".__init__", RA + ":TimeSeriesVolumesCumulative.__truediv__", RA + ":TimeSeriesVolumes.__truediv__")
def units_and_lengths(s):
    """an intensity of anything but kilograms per Sm3 or boe, or of series of different length, is refused"""
    U, C = units(), T(RA + ":TimeSeriesVolumesCumulative")
    PE = T("libecalc.common.errors.exceptions:ProgrammingError")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    pers2, _ = periods(s, "q", n + 1)
    v, w, w2 = s.array("v", n, kind="list"), s.array("w", n, kind="list"), s.array("w2", n + 1, kind="list")
    a = s.choice("emission", ["KILO", "TONS", "STANDARD_CUBIC_METER"])
    b = s.choice("export", ["STANDARD_CUBIC_METER", "BOE", "LITRES", "KILO"])
    long = s.choice("longer", [False, True])
    x = C(periods=pers, values=v, unit=getattr(U, a))
    y = C(periods=pers2 if long else pers, values=w2 if long else w, unit=getattr(U, b))
    r = s.run(T(EI), emission_cumulative=x, hydrocarbon_export_cumulative=y)
    good = a == "KILO" and b in ("STANDARD_CUBIC_METER", "BOE")
    if not good:
        s.ensure("other units are refused", r.raised(PE))
    elif long:
        s.ensure("different lengths are refused", r.raised(ValueError))
    else:
        s.ensure("kilograms per Sm3 or boe", r.ok)
    if not long:
        q = s.run(lambda: x / y)
        s.ensure("division refuses other units", q.ok if good else q.raised(PE))
        t = s.run(lambda: x.to_volumes() / y.to_volumes())
        s.ensure("division of volumes refuses other units", t.ok if good else t.raised(PE))


@contract("C12", CALC + ".get_results", CALC + ".__init__")
def no_co2(s):
    """a model that emits no CO2 has no intensity, and its other results are not affected"""
    F = T(TU + ":Frequency")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    hc, *_ = rate_series(s, "export", pers, n)
    em, *_ = rate_series(s, "ch4", pers, n, unit=U.TONS_PER_DAY)
    freq = s.choice("freq", [F.YEAR, F.NONE])
    some = s.choice("another emission", [True, False])
    r = s.run(lambda: T(CALC)(hydrocarbon_export_rate=hc, emissions={"ch4": _emission(s, "ch4", em)} if some else {}, frequency=freq).get_results())
    s.ensure("does not fail", r.ok)
    s.ensure("no intensity", len(r.value.results) == 0)


@contract("C12", "ecalc_cli.io.output:emission_intensity_to_csv", "ecalc_cli.emission_intensity:EmissionIntensityResult.to_dataframe", "libecalc.infrastructure.file_utils:dataframe_to_csv", "libecalc.common.math.numbers:Numbers.format_results_to_precision", concrete_only=True, bounded="generated results with up to 5 periods")
def written_intensity(s):
    """the written table has one row per period, in order, with the values of the result to five decimals"""
    F = T(TU + ":Frequency")
    U = units()
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    hc, *_ = rate_series(s, "export", pers, n)
    em, *_ = rate_series(s, "co2", pers, n, unit=U.TONS_PER_DAY)
    freq = s.choice("freq", [F.YEAR, F.NONE])
    res = T(CALC)(hydrocarbon_export_rate=hc, emissions={"co2": _emission(s, "co2", em)} if s.choice("co2 emitted", [True, True, True, False]) else {}, frequency=freq).get_results()
    num = s.run(T("libecalc.common.math.numbers:Numbers").format_results_to_precision, result=res, precision=6)
    s.ensure("rounding does not fail", num.ok)
    fmt = "%Y-%m-%d %H:%M:%S"
    r = s.run(T("ecalc_cli.io.output:emission_intensity_to_csv"), num.value, fmt)
    s.ensure("does not fail", r.ok)
    lines = r.value.strip().split("\n")
    if not res.results:
        s.ensure("nothing but a header", len(lines) == 1)
        return
    one = res.results[0]
    cols = ["intensity_sm3", "intensity_boe"] + (["intensity_yearly_sm3", "intensity_yearly_boe"] if freq == F.YEAR else [])
    s.ensure("header", lines[0].split(",") == ["timesteps"] + [f"co2.{c}[{'kg/Sm3' if 'sm3' in c else 'kg/BOE'}]" for c in cols])
    s.ensure("one row per period", len(lines) == n + 1)
    for k in range(n):
        cells = lines[k + 1].split(",")
        s.ensure("date of the row", cells[0] == d[k].strftime(fmt))
        for c, x in zip(cols, cells[1:]):
            v = getattr(one, c).values[k]
            x = float(x)
            s.ensure("value of the row", (x != x and v != v) or abs(x - v) <= 6e-6 + 1e-6 * abs(v))
