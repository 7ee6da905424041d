"""C04 periods and temporal models"""
from contracts.common import TU, T, periods
from vc.harness import contract

TM = "libecalc.common.temporal_model"


@contract("C04", TU + ":Period.__contains__", TU + ":Period.intersects", TU + ":Period.intersection", TU + ":Period.duration")
def period_relations(s):
    """a period is [start, end); nesting, overlap and intersection follow from that"""
    Period = T(TU + ":Period")
    a0, a1, b0, b1, x = (s.date(n) for n in ("a0", "a1", "b0", "b1", "x"))
    s.assume(a0 < a1)
    s.assume(b0 < b1)
    a, b = Period(a0, a1), Period(b0, b1)
    r = s.run(lambda: (x in a, b in a, Period.intersects(a, b), Period.intersects(b, a), Period.intersection(a, b), a.duration))
    s.ensure("does not fail", r.ok)
    xin, bin_, i1, i2, cut, dur = r.value
    s.ensure("start belongs to the period, end does not", s.iff(xin, s.and_(a0 <= x, x < a1)))
    s.ensure("a period lies in another when both ends do", s.iff(bin_, s.and_(a0 <= b0, b1 <= a1)))
    overlap = s.and_(a0 < b1, b0 < a1)
    s.ensure("periods intersect when they share an instant", s.iff(i1, overlap))
    s.ensure("intersection is symmetric", s.iff(i1, i2))
    s.ensure("duration", s.eq(dur.total_seconds(), (a1 - a0).total_seconds()))
    if cut is None:
        s.ensure("no intersection only when disjoint", s.not_(overlap))
    else:
        s.ensure("an instant is in the intersection exactly when it is in both", s.iff(x in cut, s.and_(x in a, x in b)))
        s.ensure("intersection starts at the later start and ends at the earlier end", s.and_(s.or_(s.eq(cut.start, a0), s.eq(cut.start, b0)), s.or_(s.eq(cut.end, a1), s.eq(cut.end, b1)), cut.start < cut.end))


@contract("C04", TU + ":Period.get_period_indices", TU + ":Period.get_periods", TU + ":Periods.__getitem__", TU + ":Periods.period", weight=3, budget=90)
def periods_inside(s):
    """the periods of a time vector inside a given period: exactly those, also when the given period extends beyond"""
    Period = T(TU + ":Period")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    i = s.int("i", lo=0, hi=n - 1)
    j = s.int("j", lo=i + 1, hi=n)
    before, after = s.choice("before", [False, True]), s.choice("after", [False, True])
    a, b = d[i], d[j]
    if before:
        s.assume(i == 0)
        a = s.date("a")
        s.assume(a < d[0])
    if after:
        s.assume(j == n)
        b = s.date("b")
        s.assume(b > d[n])
    p = Period(a, b)
    r = s.run(p.get_period_indices, pers)
    s.ensure("does not fail", r.ok)
    s.ensure("first period inside, and one past the last", s.and_(s.eq(r.value[0], i), s.eq(r.value[1], j)))
    g = s.run(p.get_periods, pers)
    s.ensure("get_periods does not fail", g.ok)
    s.ensure("number of periods inside", s.len(g.value.periods) == j - i)
    for k in s.indices(j - i):
        s.ensure("the periods inside", s.and_(s.eq(g.value.periods[k].start, d[i + k]), s.eq(g.value.periods[k].end, d[i + k + 1])))


@contract("C04", TU + ":Period.get_periods", TU + ":Period.get_period_indices")
def periods_outside(s):
    """no periods of a time vector lie in a period before or after it; a date that is not in the vector is refused"""
    Period, PE = T(TU + ":Period"), T("libecalc.common.errors.exceptions:ProgrammingError")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    a, b = s.date("a"), s.date("b")
    s.assume(a < b)
    where = s.choice("where", ["outside", "between"])
    if where == "outside":
        s.assume(s.or_(b <= d[0], a >= d[n]))
        g = s.run(Period(a, b).get_periods, pers)
        s.ensure("does not fail", g.ok)
        s.ensure("nothing inside", s.len(g.value.periods) == 0)
    else:
        i = s.int("i", lo=0, hi=n - 1)
        s.assume(s.and_(d[i] < a, a < d[i + 1]))
        r = s.run(Period(a, b).get_period_indices, pers)
        s.ensure("a start that is not in the time vector is refused", r.raised(PE))


@contract("C04", TU + ":Periods.create_periods", TU + ":Periods.all_dates", TU + ":Periods.start_dates", TU + ":Periods.end_dates")
def creating_periods(s):
    """n dates give n-1 contiguous periods, plus one before and one after when asked for"""
    Periods, Period = T(TU + ":Periods"), T(TU + ":Period")
    n = s.length("n")
    d = s.dates("t", n)
    bef, aft = s.choice("before", [False, True]), s.choice("after", [False, True])
    r = s.run(Periods.create_periods, d, bef, aft)
    s.ensure("does not fail", r.ok)
    ps = r.value.periods
    if n == 0:
        s.ensure("no dates, no periods", s.len(ps) == 0)
        return
    o = 1 if bef else 0
    s.ensure("number of periods", s.len(ps) == n - 1 + o + (1 if aft else 0))
    if bef:
        s.ensure("period before the first date", s.and_(ps[0].start == Period().start, s.eq(ps[0].end, d[0])))
    if aft:
        s.ensure("period after the last date", s.and_(s.eq(ps[n - 1 + o].start, d[n - 1]), ps[n - 1 + o].end == Period().end))
    for k in s.indices(n - 1):
        s.ensure("periods between the dates", s.and_(s.eq(ps[k + o].start, d[k]), s.eq(ps[k + o].end, d[k + 1])))
    if not bef and not aft:
        a = s.run(lambda: r.value.all_dates)
        s.ensure("all dates does not fail", a.ok)
        s.ensure("all dates", s.len(a.value) == s.ite(n == 1, 0, n))
        for k in s.indices(s.ite(n == 1, 0, n)):
            s.ensure("all dates are the dates given", s.eq(a.value[k], d[k]))


@contract("C04", TU + ":Periods.get_period")
def finding_the_period(s):
    """looking up a sub-period returns the one period that contains it, or nothing"""
    Period = T(TU + ":Period")
    n = s.length("n", lo=1)
    pers, d = periods(s, "t", n)
    a, b = s.date("a"), s.date("b")
    s.assume(a < b)
    r = s.run(pers.get_period, Period(a, b))
    s.ensure("does not fail", r.ok)
    for k in s.indices(n):
        inside = s.and_(d[k] <= a, b <= d[k + 1])
        if r.value is None:
            s.ensure("nothing only if no period contains it", s.not_(inside))
        else:
            s.ensure("the period that contains it", s.implies(inside, s.and_(s.eq(r.value.start, d[k]), s.eq(r.value.end, d[k + 1]))))
    if r.value is not None:
        s.ensure("the period found contains it", s.and_(r.value.start <= a, b <= r.value.end))


def _keys(s, n, name="k"):
    return [s.date(f"{name}{i}") for i in range(n)]


@contract("C04", TM + ":TemporalModel.__init__", TM + ":TemporalModel.get_model", TM + ":TemporalModel.items", TM + ":TemporalModel.get_periods", bounded="models with 1 to 3 dates (dates and look-ups unbounded)", weight=3)
def temporal_model_by_date(s):
    """a model keyed by dates is in force from its date until the next; before the first date there is none; dates out of order are refused"""
    TMod, Uns = T(TM + ":TemporalModel"), T(TM + ":UnsortedKeys")
    n = s.choice("n", [1, 2, 3])
    ks = _keys(s, n)
    s.assume_distinct(ks)
    x = s.date("x")
    r = s.run(TMod, {k: f"m{i}" for i, k in enumerate(ks)})
    inorder = True
    for a, b in zip(ks, ks[1:]):
        inorder = s.and_(inorder, a < b)
    s.ensure("accepted exactly when the dates are in order", s.iff(r.ok, inorder))
    if not r.ok:
        s.ensure("refused as unsorted", r.raised(Uns))
        return
    m = r.value
    items = list(m.items())
    s.ensure("one model per date", len(items) == n and [q[1] for q in items] == [f"m{i}" for i in range(n)])
    for i in range(n):
        s.ensure("in force from its date", s.eq(items[i][0].start, ks[i]))
        if i + 1 < n:
            s.ensure("until the next", s.eq(items[i][0].end, ks[i + 1]))
    g = s.run(m.get_model, x)
    if x < ks[0]:
        s.ensure("no model before the first date", r.ok and g.raised(ValueError))
    else:
        s.ensure("a model is found", g.ok)
        want = max(i for i in range(n) if ks[i] <= x)
        s.ensure("the model in force is the latest one started", g.value == f"m{want}")


@contract("C04", TU + ":define_time_model_for_period", TU + ":default_temporal_model", TM + ":TemporalModel.create", bounded="models with 1 to 3 dates (dates unbounded)", weight=4, budget=90)
def temporal_model_for_period(s):
    """restricting a model to a period: at every instant of the period the same model is in force as before, and none outside"""
    Period, D = T(TU + ":Period"), T(TU + ":define_time_model_for_period")
    n = s.choice("n", [0, 1, 2, 3])
    a, b, x = s.date("a"), s.date("b"), s.date("x")
    s.assume(a < b)
    tp = Period(a, b)
    if n == 0:
        r = s.run(D, "m", tp)
        s.ensure("does not fail", r.ok)
        s.ensure("a constant is in force throughout", len(r.value) == 1 and list(r.value.values()) == ["m"])
        p = list(r.value)[0]
        s.ensure("over the whole period", s.and_(s.eq(p.start, a), s.eq(p.end, b)))
        none = s.run(D, None, tp)
        s.ensure("nothing stays nothing", none.ok and none.value is None)
        return
    ks = _keys(s, n)
    for i in range(n - 1):
        s.assume(ks[i] < ks[i + 1])
    r = s.run(D, {k: f"m{i}" for i, k in enumerate(ks)}, tp)
    s.ensure("does not fail", r.ok)
    before = None
    if x >= ks[0]:
        before = f"m{max(i for i in range(n) if ks[i] <= x)}"
    after = [m for p, m in r.value.items() if x in p]
    s.ensure("at most one model in force", len(after) <= 1)
    if s.and_(a <= x, x < b):
        s.ensure("the same model is in force inside the period", after == ([before] if before else []))
    else:
        s.ensure("no model outside the period", after == [])
    ps = list(r.value)
    for p, q in zip(ps, ps[1:]):
        s.ensure("in time order", p.end <= q.start)
