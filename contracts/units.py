"""C05 unit conversion"""
from contracts.common import RA, T, periods, units
from vc.harness import contract

UN = "libecalc.common.units"

# the oracle: independent of the registry. y = (x * num + off) / den
G = ("9.81", "1")
TABLE = [
    ("TONS_PER_DAY", "KILO_PER_DAY", 1000, 1, 0), ("TONS", "KILO", 1000, 1, 0), ("STANDARD_CUBIC_METER", "LITRES", 1000, 1, 0),
    ("CELSIUS", "KELVIN", 1, 1, 273.15), ("BARA", "KILO_PASCAL", 100, 1, 0), ("BARA", "PASCAL", 100000, 1, 0),
    ("FRACTION", "PERCENTAGE", 100, 1, 0), ("POLYTROPIC_HEAD_KILO_JOULE_PER_KG", "POLYTROPIC_HEAD_JOULE_PER_KG", 1000, 1, 0),
    ("POLYTROPIC_HEAD_METER_LIQUID_COLUMN", "POLYTROPIC_HEAD_JOULE_PER_KG", 9.81, 1, 0),
    ("POLYTROPIC_HEAD_METER_LIQUID_COLUMN", "POLYTROPIC_HEAD_KILO_JOULE_PER_KG", 9.81, 1000, 0),
    ("KG_BOE", "KG_SM3", 6.29, 1, 0), ("STANDARD_CUBIC_METER", "BOE", 6.29, 1, 0),
]
ONE_WAY = [("MEGA_WATT_DAYS", "GIGA_WATT_HOURS", 24, 1000, 0)]
VOLUME = [("STANDARD_CUBIC_METER_PER_DAY", "STANDARD_CUBIC_METER"), ("MEGA_WATT", "MEGA_WATT_DAYS"), ("TONS_PER_DAY", "TONS"), ("KILO_PER_DAY", "KILO"), ("LITRES_PER_DAY", "LITRES")]


@contract("C05", UN + ":Unit.to", UN + ":Unit._unit_registry", UN + ":_type_handler")
def conversion_factors(s):
    """every supported conversion is the physical one, and converting back returns the value"""
    U = units()
    for a, b, num, den, off in TABLE + ONE_WAY:
        A, B = getattr(U, a), getattr(U, b)
        x = s.real("x")
        r = s.run(lambda: A.to(B)(x))
        s.ensure(f"{a} to {b} is supported", r.ok)
        s.ensure(f"{a} to {b}", s.eq(r.value * den, x * num + off * den))
        if (a, b, num, den, off) in TABLE:
            q = s.run(lambda: B.to(A)(x))
            s.ensure(f"{b} to {a} is supported", q.ok)
            s.ensure(f"{b} to {a}", s.eq(q.value * num, (x - off) * den))
            back = s.run(lambda: B.to(A)(r.value))
            s.ensure(f"{a} to {b} and back", s.eq(back.value, x))


@contract("C05", UN + ":Unit.to")
def identity_and_unsupported(s):
    """converting to the same unit changes nothing; a conversion between units that are not related is refused"""
    U = units()
    x = s.real("x")
    known = {(a, b) for a, b, *_ in TABLE} | {(b, a) for a, b, *_ in TABLE} | {(a, b) for a, b, *_ in ONE_WAY}
    mass, vol, rate, energy = {"TONS", "KILO"}, {"STANDARD_CUBIC_METER", "LITRES", "BOE"}, {"TONS_PER_DAY", "KILO_PER_DAY", "STANDARD_CUBIC_METER_PER_DAY", "LITRES_PER_DAY"}, {"MEGA_WATT", "MEGA_WATT_DAYS"}
    for m in U:
        r = s.run(lambda: m.to(m)(x))
        s.ensure(f"{m.name} to itself", r.ok and s.eq(r.value, x))
    groups = [mass, vol, rate, energy, {"CELSIUS", "KELVIN"}, {"BARA", "PASCAL", "KILO_PASCAL"}]
    for g in groups:
        for h in groups:
            if g is h:
                continue
            a, b = sorted(g)[0], sorted(h)[0]
            if (a, b) not in known:
                r = s.run(lambda: getattr(U, a).to(getattr(U, b))(x))
                s.ensure(f"{a} to {b} is refused", r.raised(NotImplementedError))


@contract("C05", UN + ":Unit.to", UN + ":_type_handler", RA + ":TimeSeries.to_unit")
def conversion_of_series(s):
    """converting a list or a series converts every element and nothing else"""
    U = units()
    TSF = T(RA + ":TimeSeriesFloat")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    v = s.array("v", n, kind="list")
    a, b, num, den, off = s.choice("pair", TABLE)
    A, B = getattr(U, a), getattr(U, b)
    r = s.run(TSF(periods=pers, values=v, unit=A).to_unit, B)
    s.ensure("does not fail", r.ok)
    s.ensure("unit changed", r.value.unit == B)
    s.ensure("length kept", s.len(r.value.values) == n)
    same = s.run(TSF(periods=pers, values=v, unit=A).to_unit, A)
    s.ensure("same unit does not fail", same.ok and same.value.unit == A)
    for k in s.indices(n):
        s.ensure("every value converted", s.eq(r.value.values[k] * den, v[k] * num + off * den))
        s.ensure("periods kept", s.and_(s.eq(r.value.periods.periods[k].start, d[k]), s.eq(r.value.periods.periods[k].end, d[k + 1])))
        s.ensure("same unit: values kept", s.eq(same.value.values[k], v[k]))


@contract("C05", UN + ":_type_handler", bounded="lists of up to 4 values symbolically, any length concretely")
def conversion_of_lists(s):
    """a list is converted element by element"""
    U = units()
    n = s.choice("n", [0, 1, 2, 3, 4])
    v = [s.real("x") for _ in range(n)]
    a, b, num, den, off = s.choice("pair", TABLE)
    r = s.run(lambda: getattr(U, a).to(getattr(U, b))(v))
    s.ensure("does not fail", r.ok)
    s.ensure("length kept", len(r.value) == n)
    for k in range(n):
        s.ensure("every value converted", s.eq(r.value[k] * den, v[k] * num + off * den))


@contract("C05", UN + ":Unit.volume_to_rate", UN + ":Unit.rate_to_volume")
def rate_and_volume_units(s):
    """rate units and volume units correspond one to one; other units have no counterpart"""
    U = units()
    for a, b in VOLUME:
        r, v = s.run(getattr(U, b).volume_to_rate), s.run(getattr(U, a).rate_to_volume)
        s.ensure(f"{b} per day", r.ok and r.value == getattr(U, a))
        s.ensure(f"{a} over time", v.ok and v.value == getattr(U, b))
    for m in U:
        r, v = s.run(m.volume_to_rate), s.run(m.rate_to_volume)
        s.ensure("round trip", (not r.ok or r.value.rate_to_volume() == m) and (not v.ok or v.value.volume_to_rate() == m))
        s.ensure("a unit is never both a rate and a volume", not (r.ok and v.ok))
    for name in ("BARA", "KELVIN", "SPEED_RPM", "FRACTION"):
        s.ensure(f"{name} is neither", s.run(getattr(U, name).volume_to_rate).raised(NotImplementedError) and s.run(getattr(U, name).rate_to_volume).raised(NotImplementedError))
