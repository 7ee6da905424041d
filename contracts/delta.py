"""C15 the delta profile between two models"""
from contracts.common import T, TU, units
from vc.harness import contract

SR = "libecalc.presentation.simple_result.simple:"
FN = [SR + "SimpleResultData." + m for m in ("delta_profile", "fit_to_periods", "subtract", "normalize_components", "_normalize_emissions")] + [SR + "SimpleComponentResult." + m for m in ("fit_to_periods", "__sub__")] + [SR + "SimpleEmissionResult.__sub__", SR + "_subtract_list", SR + "_create_empty_component", TU + ":Period.intersection"]


def _model(s, label, d, comps):
    """comps: {name: (unit, has power, emissions)}; returns (model, {name: values})"""
    C, E, M = T(SR + "SimpleComponentResult"), T(SR + "SimpleEmissionResult"), T(SR + "SimpleResultData")
    CT, CL = T("libecalc.common.component_type:ComponentType"), T("libecalc.common.component_info.component_level:ComponentLevel")
    Period, Periods = T(TU + ":Period"), T(TU + ":Periods")
    pers = Periods([Period(a, b) for a, b in zip(d[:-1], d[1:])])
    n = len(d) - 1
    out, vals = [], {}
    for name, (unit, power, ems) in comps.items():
        v = dict(energy=s.array(f"{label}.{name}.e", n, kind="list"), power=s.array(f"{label}.{name}.p", n, kind="list") if power else None, valid=[1 if s.choice(f"{label}.{name}.v{k}", [True] if s.symbolic else [True, False]) else 0 for k in range(n)], em={e: s.array(f"{label}.{name}.{e}", n, kind="list") for e in ems}, unit=unit)
        vals[name] = v
        out.append(C(componentType=CT.ASSET if name == "asset" else CT.GENERIC, component_level=CL.ASSET if name == "asset" else CL.CONSUMER, parent=None if name == "asset" else "asset", name=name, periods=pers, is_valid=v["valid"], emissions={e: E(name=e, rate=x) for e, x in v["em"].items()}, energy_usage=v["energy"], energy_usage_unit=unit, power=v["power"]))
    return M(periods=pers, components=out), vals


def _at(d, t):
    return max(i for i in range(len(d)) if d[i] <= t)


PAIRS = [  # (reference, changed): names -> (unit, power, emissions)
    ({"asset": (0, True, ("co2",)), "a": (0, False, ("co2",))}, {"asset": (0, True, ("co2", "nox")), "b": (1, True, ())}),
    ({"asset": (0, False, ("co2",))}, {"asset": (0, True, ("co2",)), "b": (1, True, ())}),
    ({"asset": (0, True, ("co2", "ch4")), "b": (1, True, ())}, {"asset": (0, False, ("co2",))}),
    ({"asset": (0, False, ("co2",)), "a": (0, False, ("co2",))}, {"asset": (0, False, ("co2",)), "a": (0, False, ("nox", "co2"))}),
    ({"asset": (0, True, ()), "a": (0, True, ())}, {"asset": (0, True, ()), "a": (1, True, ())}),
]


@contract("C15", *FN, bounded="pairs of fixed calendars symbolically (all values unbounded) and generated calendars concretely; two components per model", weight=4, budget=150)
def difference_between_two_models(s):
    """for every component of either model and every period of the common time range: changed minus reference, what one model lacks counting as zero"""
    U = units()
    u = [U.STANDARD_CUBIC_METER_PER_DAY, U.MEGA_WATT]
    d1, d2 = s.calendar("reference calendar"), s.calendar("changed calendar")
    if s.symbolic:
        d1, d2 = d1[:4], d2[:4]
    pair = s.choice("components", PAIRS)
    ref, changed = ({k: (u[x], p, e) for k, (x, p, e) in m.items()} for m in pair)
    m1, v1 = _model(s, "ref", d1, ref)
    m2, v2 = _model(s, "changed", d2, changed)
    lo, hi = max(d1[0], d2[0]), min(d1[-1], d2[-1])
    r = s.run(T(SR + "SimpleResultData").delta_profile, reference_model=m1, changed_model=m2)
    if lo >= hi:
        s.ensure("models without common time are refused", r.raised(T("libecalc.common.errors.exceptions:EcalcError")))
        return
    s.ensure("does not fail", r.ok)
    c, b, delta, errors = r.value
    dates = sorted({x for x in [*d1, *d2] if lo <= x <= hi})
    n = len(dates) - 1
    s.ensure("the periods are those of either model within their common time", [(p.start, p.end) for p in delta.periods] == list(zip(dates[:-1], dates[1:])))
    names = set(ref) | set(changed)
    clash = {k for k in set(ref) & set(changed) if ref[k][0] != changed[k][0]}
    s.ensure("components with different units are reported", len(errors) == len(clash))
    s.ensure("every other component of either model is compared once", sorted(x.name for x in delta.components) == sorted(names - clash))
    for comp in delta.components:
        one, two = v1.get(comp.name), v2.get(comp.name)
        s.ensure("unit of the energy usage", comp.energy_usage_unit == (one or two)["unit"])
        s.ensure("one value per period", len(comp.energy_usage) == n and len(comp.is_valid) == n)
        some = (one and one["power"] is not None) or (two and two["power"] is not None)
        if some:
            s.ensure("power is compared if either model has it", comp.power is not None and len(comp.power) == n)
        em = set(one["em"] if one else ()) | set(two["em"] if two else ())
        s.ensure("every emission of either model is compared", set(comp.emissions) == em)
        for k in range(n):
            i, j = _at(d1, dates[k]), _at(d2, dates[k])
            x = lambda f: (f(two)[j] if two and f(two) is not None else 0) - (f(one)[i] if one and f(one) is not None else 0)
            s.ensure("energy usage: changed minus reference", s.eq(comp.energy_usage[k], x(lambda q: q["energy"])))
            if some:
                s.ensure("power: changed minus reference", s.eq(comp.power[k], x(lambda q: q["power"])))
            for e in em:
                s.ensure("emission: changed minus reference", s.eq(comp.emissions[e].rate[k], x(lambda q: q["em"].get(e))))
            s.ensure("valid if both are valid", bool(comp.is_valid[k]) == bool((one["valid"][i] if one else True) and (two["valid"][j] if two else True)))
    for model, vals, d in ((b, v1, d1), (c, v2, d2)):
        for comp in model.components:
            v = vals.get(comp.name)
            for k in range(n):
                i = _at(d, dates[k])
                s.ensure("the models are given on the common periods with their own values", s.eq(comp.energy_usage[k], v["energy"][i] if v else 0))
