"""Run-time side of the instrumentation (see vc.instrument): dispatch of calls to assumed library contracts,
comprehensions and loops over sequences of symbolic length."""
from __future__ import annotations

import builtins
import collections
import functools
import inspect
import sys
import types
import typing

import numpy as np

from vc import engine as E
from vc.engine import (FALSE, TRUE, Infeasible, PathEnd, RaisedCase, Restart, SBool, SDate, SInt, SReal, STimedelta, Sym,
                       Unsupported, b_and, b_not, b_or, cur, mkbool, to_real, z3)
from vc import seq as S
from vc.seq import SSeq, add_universal, fresh_index, is_sym, ite, merged, truth, zi

STUBS: dict = {}        # function object -> replacement (callee contract); per harness
EXTRA_MODELS: dict = {}  # function object -> model(args) for further library functions
ALWAYS: set = set()     # library functions modelled also for concrete arguments
CALLED: dict = {}       # functions under contract actually executed


def _key(f):
    return getattr(f, "__func__", f)


def call(f, *a, **k):
    if E.CUR is None:
        return f(*a, **k)
    if STUBS:
        try:
            st = STUBS.get(_key(f))
        except TypeError:
            st = None
        if st is not None:
            if isinstance(f, types.MethodType):
                return st(f.__self__, *a, **k)
            return st(*a, **k)
    if f is builtins.len:
        return _len(a[0])
    if f is builtins.isinstance or f is builtins.issubclass or f is builtins.getattr or f is builtins.hasattr:
        return f(*a, **k)
    try:
        m = S.MODELS.get(f) or EXTRA_MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        if f in _ITERFNS:
            a = tuple(_iterarg(x) for x in a)
        if any(is_sym(x) for x in a) or (k and any(is_sym(x) for x in k.values())) or (ALWAYS and f in ALWAYS):
            return m(*a, **k)
        return f(*a, **k)
    if isinstance(f, type):
        if f.__module__.split(".")[0] in ("libecalc", "ecalc_cli") and hasattr(f, "__pydantic_decorators__") and hasattr(f, "model_fields"):
            if any(deep_sym(x) for x in k.values()):
                return pyd_construct(f, k)
    elif isinstance(f, (types.MethodType, types.MethodWrapperType)) and f.__self__ is not None and type(f.__self__) is SSeq and f.__name__ == "__iter__":
        return f.__self__
    elif isinstance(f, types.MethodWrapperType) and f.__name__ in ("__iter__",):
        return f(*a)
    return f(*a, **k)


class SymDict(collections.defaultdict):
    """a dict; its keys may be the elements of a sequence of symbolic length (all different)"""

    _keys = _vals = None

    @classmethod
    def over(cls, keys, vals):
        d = cls()
        d._keys, d._vals = keys, vals
        return d

    def update(self, *a, **k):
        if a and type(a[0]) is SymDict and a[0]._keys is not None:
            if self._keys is not None or dict.__len__(self) or k:
                raise Unsupported("update of a dict with symbolic keys")
            self._keys, self._vals = a[0]._keys, a[0]._vals.copy()
        elif self._keys is not None:
            raise Unsupported("update of a dict with symbolic keys")
        else:
            super().update(*a, **k)

    def __contains__(self, x):
        return super().__contains__(x) if self._keys is None else x in self._keys

    def _ix(self, x):
        w = S._witness(self._keys, x)
        if w is None:
            raise Unsupported("access to a dict with symbolic keys")
        return w

    def __getitem__(self, x):
        return super().__getitem__(x) if self._keys is None else self._vals[E.SInt(self._ix(x))]

    def get(self, x, default=None):
        if self._keys is None:
            return super().get(x, default)
        return self[x] if x in self._keys else default

    def __setitem__(self, x, v):
        if self._keys is None:
            super().__setitem__(x, v)
        else:
            self._vals[E.SInt(self._ix(x))] = v

    def values(self):
        return super().values() if self._keys is None else self._vals.copy()

    def keys(self):
        return super().keys() if self._keys is None else self._keys.copy()

    def items(self):
        return super().items() if self._keys is None else S.MODELS[zip](self._keys, self._vals.copy())

    def __iter__(self):
        if self._keys is None:
            return super().__iter__()
        raise Unsupported("native iteration over a dict with symbolic keys")

    def __len__(self):
        return super().__len__() if self._keys is None else self._keys.length

    def _no(self, *a, **k):
        raise Unsupported("operation on a dict with symbolic keys")

    pop = popitem = setdefault = __delitem__ = __or__ = __ior__ = copy = _no


def m_defaultdict(*a, **k):
    if len(a) > 1 or k:
        return collections.defaultdict(*a, **k)
    return SymDict(*a)


def m_fromkeys(keys, value=None):
    keys = symiter(keys)
    if type(keys) is not SSeq or type(keys.n) is int:
        return dict.fromkeys(keys, value)
    ex = cur()
    i, j = z3.Int(ex.fresh("key_i")), z3.Int(ex.fresh("key_j"))

    def same():
        ex.cond(z3.And(i >= 0, i < j, j < zi(keys.n)))
        return truth(keys.at(i) == keys.at(j))

    for c, v in ex.merge(same):
        if isinstance(v, RaisedCase) or ex.prove(b_not(z3.And(c, i >= 0, i < j, j < zi(keys.n), E.lift_bool(v))), 2000)[0] != "proved":
            raise Unsupported("dict keys that may be equal")
    return SymDict.over(keys.copy(), SSeq(keys.n, lambda k: value, "list"))


EXTRA_MODELS[collections.defaultdict] = m_defaultdict
ALWAYS.add(collections.defaultdict)
EXTRA_MODELS[dict.fromkeys] = m_fromkeys


def isin(a, b):
    if E.CUR is not None and not hasattr(type(b), "__contains__"):
        r = symiter(b)
        if type(r) is SSeq:
            return a in r
    return a in b


_ITERFNS = {dict.fromkeys, zip, enumerate, list, tuple, sum, all, any, sorted, max, min, iter, map, reversed}


def _iterarg(x):
    r = symiter(x)
    return r if type(r) is SSeq else x


def _len(x):
    if type(x) is SSeq:
        return x.length
    f = getattr(type(x), "__len__", None)
    if isinstance(f, types.FunctionType):
        return f(x)
    return builtins.len(x)


def deep_sym(x, depth=5, seen=None):
    if is_sym(x, 2):
        return True
    if depth <= 0:
        return False
    if isinstance(x, (list, tuple, set, type({}.values()), type({}.keys()))):
        return any(deep_sym(y, depth - 1) for y in x)
    if isinstance(x, dict):
        return any(deep_sym(y, depth - 1) or deep_sym(kk, depth - 1) for kk, y in x.items())
    mod = type(x).__module__
    if mod.startswith("libecalc") or mod.startswith("ecalc") or mod.startswith("contracts"):
        d = getattr(x, "__dict__", None)
        if d:
            return any(deep_sym(y, depth - 1) for y in d.values())
    return False


# ------------------------------------------------------------------------------------- pydantic (assumed contract)
def pyd_construct(cls, kw):
    """pydantic's constructor: assign the declared fields (defaults where absent), running the declared field and
    model validators in order.  Type coercion of the symbolic values is the identity (they have the declared type)."""
    cur().notes.add(f"pydantic construction of {cls.__name__} modelled as field assignment plus declared validators")
    dec = cls.__pydantic_decorators__
    obj = cls.__new__(cls)
    data = {}
    for d in dec.model_validators.values():
        if d.info.mode == "before":
            kw = d.func(dict(kw))
    cfg = getattr(cls, "model_config", {})
    known = set()
    for name, fi in cls.model_fields.items():
        v = _MISSING
        if name in kw:
            v = kw[name]
        elif fi.alias and fi.alias in kw:
            v = kw[fi.alias]
        elif isinstance(fi.validation_alias, str) and fi.validation_alias in kw:
            v = kw[fi.validation_alias]
        known.update({name, fi.alias, fi.validation_alias if isinstance(fi.validation_alias, str) else None})
        given = v is not _MISSING
        if not given:
            if fi.is_required():
                raise Unsupported(f"missing field {name}")
            v = fi.get_default(call_default_factory=True)
        if given:
            vs = [d for d in dec.field_validators.values() if name in d.info.fields or "*" in d.info.fields]
            for mode in ("before", "after", "plain"):
                if mode == "after" and typing.get_origin(fi.annotation) is list and type(v) is SSeq and v.kind in ("array", "gen"):
                    v = SSeq(v.n, v.at, "list")
                elif mode == "after" and typing.get_origin(fi.annotation) is list and isinstance(v, (tuple, set, frozenset, type({}.values()), type({}.keys()), np.ndarray)):
                    v = list(v)
                for d in vs:
                    if d.info.mode == mode:
                        fn = d.func if not isinstance(d.func, (classmethod, staticmethod)) else d.func.__get__(None, cls)
                        v = _call_validator(fn, v, data, name)
            if any(d.info.mode == "wrap" for d in vs):
                raise Unsupported("wrap validator")
            # types: lists become new lists (pydantic copies list inputs)
            if type(v) is list:
                v = list(v)
            elif type(v) is SSeq and v.kind in ("array", "gen"):
                v = SSeq(v.n, v.at, "list") if v.kind == "gen" else v
            elif type(v) is SSeq:
                v = v.copy()
        data[name] = v
    extra = set(kw) - known
    if extra and cfg.get("extra") == "forbid":
        raise Unsupported(f"extra fields {extra}")
    object.__setattr__(obj, "__dict__", data)
    object.__setattr__(obj, "__pydantic_fields_set__", set(data))
    object.__setattr__(obj, "__pydantic_extra__", None)
    object.__setattr__(obj, "__pydantic_private__", None)
    for d in dec.model_validators.values():
        if d.info.mode == "after":
            r = d.func(obj)
            obj = r if r is not None else obj
    return obj


_MISSING = object()


def _call_validator(fn, v, data, name):
    n = len([p for p in inspect.signature(fn).parameters.values() if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)])
    info = types.SimpleNamespace(data=dict(data), field_name=name, context=None, mode="python", config=None)
    if n >= 2:
        return fn(v, info)
    return fn(v)


# ------------------------------------------------------------------------------------- iteration
def symiter(x):
    """The symbolic-length sequence behind an iterable, or the iterable itself."""
    if E.CUR is None:
        return x
    if type(x) is SSeq:
        return x if type(x.n) is not int else list(x)
    t = type(x)
    if t in (list, tuple, dict, str, set, range, np.ndarray):
        return x
    if t is SymDict:
        return x if x._keys is None else x._keys
    f = getattr(t, "__iter__", None)
    if isinstance(f, types.FunctionType) and f.__module__ and f.__module__.split(".")[0] in ("libecalc", "ecalc_cli") and not inspect.isgeneratorfunction(f):
        r = f(x)
        if type(r) is SSeq and type(r.n) is not int:
            return r
        return r
    return x


def is_symseq(x):
    return type(x) is SSeq


def unpack(f, n, t):
    if type(t) is SSeq:
        if type(t.n) is int:
            t = tuple(t)
        else:
            raise Unsupported("unpacking a symbolic-length sequence")
    t = tuple(t)
    if len(t) != n:
        raise ValueError("unpack")
    return f(*t)


def _native(kind, it, elt, cond):
    if kind == "gen":
        return (elt(x) for x in it if cond is None or cond(x))
    if kind == "list":
        return [elt(x) for x in it if cond is None or cond(x)]
    if kind == "set":
        return {elt(x) for x in it if cond is None or cond(x)}
    if kind == "dict":
        d = {}
        for x in it:
            if cond is None or cond(x):
                k, v = elt(x)
                d[k] = v
        return d
    raise AssertionError(kind)


def _always(s, cond):
    """the condition is plainly True of any element (as `x is not None` of a number): nothing is left out"""
    seen = []

    def probe(k):
        v = cond(s.at(k))
        seen.append(v is True)
        return 0

    no_raise(s.n, probe)
    return bool(seen) and all(seen)


def comp(kind, it, elt, cond):
    if E.CUR is None:
        return _native(kind, it, elt, cond)
    s = symiter(it)
    if type(s) is not SSeq:
        return _native(kind, s, elt, cond)
    if kind in ("set", "dict"):
        raise Unsupported(f"{kind} comprehension over a symbolic-length sequence")
    if cond is None:
        no_raise(s.n, lambda k: elt(s.at(k)))
        return SSeq(s.n, total(lambda k: elt(s.at(k))), kind)
    no_raise(s.n, lambda k: elt(s.at(k)) if cond(s.at(k)) else None)
    if type(s.n) is not int and _always(s, cond):
        return SSeq(s.n, total(lambda k: elt(s.at(k))), kind if kind == "list" else "gen")
    return S.filter_seq(s, lambda k: truth(merged(lambda: truth_any(cond(s.at(k))))), value=total(lambda k: elt(s.at(k))), kind="list" if kind == "list" else "gen")


def nonempty(n):
    return bool(n != 0)


def truth_any(v):
    return truth(v) if isinstance(v, Sym) and type(v) is not SSeq else bool(v)


def flatcomp(kind, it, elt, cond):
    """outer level of a multi-generator comprehension; elt returns a list"""
    s = symiter(it) if E.CUR is not None else it
    if type(s) is SSeq:
        raise Unsupported("nested comprehension over a symbolic-length sequence")
    out = []
    for x in s:
        if cond is None or cond(x):
            r = elt(x)
            if type(r) is SSeq:
                raise Unsupported("nested comprehension over a symbolic-length sequence")
            out.extend(r)
    if kind == "list":
        return out
    if kind == "set":
        return set(out)
    if kind == "dict":
        return dict(out)
    return iter(out)


def total(f):
    """f is known not to raise on the indices of the sequence (checked by no_raise on a separate path)."""

    def g(k):
        try:
            return f(k)
        except Exception:
            raise Infeasible() from None

    return g


def no_raise(n, f):
    """Split off the paths on which some element raises."""
    ex = cur()
    k0 = z3.Int("nr_ix")

    def probe():
        ex.cond(z3.And(k0 >= 0, k0 < zi(n)))
        f(k0)
        return 0

    rs = ex.merge(probe)
    if not any(isinstance(v, RaisedCase) for _, v in rs):
        return

    def raises(k):
        """condition under which element k raises"""
        r = ex.merge(lambda: (ex.assume(mkbool(z3.And(zi(k) >= 0, zi(k) < zi(n)))), f(k))[1])
        return b_or(*[c for c, v in r if isinstance(v, RaisedCase)])

    b = z3.Bool(ex.fresh("raises"))
    k = fresh_index(n, "raise", guard=b)
    ex.fact_local(z3.Implies(b, raises(k)))
    add_universal(n, lambda kk: b_not(raises(kk)), guard=z3.Not(b))
    if ex.branch(b):
        f(k)
        raise Infeasible()


# ------------------------------------------------------------------------------------- loops
class LoopSpec:
    def __init__(self, match, templates, havoc=None):
        self.match = match
        self.templates = templates
        self.havoc = havoc


LOOPS: list[LoopSpec] = []


def display(*parts):
    """[a, *xs, b]: plain lists are runs of elements, (1, xs) is a starred part"""
    ps = [p if isinstance(p, list) and type(p) is list else p[1] for p in parts]
    if E.CUR is not None and any(type(p) is SSeq for p in ps):
        return S.concat([p if type(p) is SSeq else SSeq.conc(list(p), "list") for p in ps], "list")
    out = []
    for p in ps:
        out.extend(p)
    return out


def extend(lst, x):
    """lst.extend(x); when x has symbolic length a native list is replaced by a sequence, if nothing else refers to it"""
    if type(lst) is list and isinstance(x, SSeq):
        if sys.getrefcount(lst) > 4:
            raise Unsupported("extending an aliased list with a sequence of symbolic length")
        return S.concat([list(lst), x], "list")
    call(lst.extend, x)
    return lst


def snap(f):
    try:
        return f()
    except NameError:
        return None


def setitem(a, i, v):
    """element assignment through an attribute or a nested subscript, inside a loop over a symbolic-length sequence"""
    if type(a) is not SSeq:
        raise Unsupported(f"loop assigning to elements of a {type(a).__name__}")
    a[i] = v


def augitem(a, i, op, v):
    if type(a) is not SSeq:
        raise Unsupported(f"loop assigning to elements of a {type(a).__name__}")
    a[i] = op(a[i], v)


def loop_spec(where):
    for l in LOOPS:
        if l.match in where:
            return l
    return None


def cut(where):
    return E.CUR is not None and loop_spec(where) is not None


def default_havoc(name, pre, ex):
    if type(pre) in (SReal, float, int, SInt) or isinstance(pre, (np.floating,)):
        if type(pre) is SInt:
            return SInt(z3.Int(ex.fresh("hv_" + name)))
        return SReal(z3.Real(ex.fresh("hv_" + name)))
    if type(pre) in (bool, SBool):
        return SBool(z3.Bool(ex.fresh("hv_" + name)))
    if type(pre) is SDate:
        return SDate(z3.Int(ex.fresh("hv_" + name)))
    if pre is None:
        if ex.choose(2, "hv") == 0:
            return None
        return SReal(z3.Real(ex.fresh("hv_" + name)))
    raise Unsupported(f"loop-carried variable {name} of type {type(pre).__name__}")


def houdini(spec, where, getv, setv, live, iterate, exit_assume):
    """Loop rule with candidate invariants; candidates that are not inductive are dropped (exploration restarts)."""
    ex = cur()
    pre = {n: v for n, v in getv().items() if n in live}
    dropped = ex.houdini.setdefault(where, set())

    def cands(state):
        return [(lab, f) for lab, f in spec.templates(state) if lab not in dropped]

    def holds(state, stage):
        for lab, f in spec.templates(state):
            if lab in dropped:
                continue
            rs = ex.merge(lambda: f())
            for c, v in rs:
                if isinstance(v, RaisedCase):
                    dropped.add(lab)
                    raise Restart()
                t = truth(v)
                e = E.lift_bool(t)
                if ex.prove(z3.Implies(c, e), 5000)[0] != "proved":
                    dropped.add(lab)
                    raise Restart()

    holds(pre, "entry")
    which = ex.choose(2, "loop")
    hv = {}
    for n in sorted(live):
        p = pre[n]
        hv[n] = (spec.havoc(n, p, ex) if spec.havoc else None)
        if hv[n] is None:
            hv[n] = default_havoc(n, p, ex)
        elif hv[n] is NONE:
            hv[n] = None
    setv(hv)
    for lab, f in spec.templates(hv):
        if lab in dropped:
            continue
        for c, v in ex.merge(lambda: f()):
            if isinstance(v, RaisedCase):
                continue
            ex.cond(z3.Implies(c, E.lift_bool(truth(v))))
    if ex._check() == z3.unsat:
        raise Infeasible()
    if which == 0:
        sig = iterate()
        if sig is not None:
            return sig
        post = {n: v for n, v in getv().items() if n in live}
        for n, v in hv.items():  # an exception stands for others of its kind only
            if isinstance(v, BaseException) and n in post and type(post[n]) is not type(v):
                raise Unsupported(f"loop-carried variable {n} of type {type(post[n]).__name__} in {where}")
        holds(post, "preserved")
        ex.state["inv_" + where] = [lab for lab, _ in spec.templates(post) if lab not in dropped]
        ex.notes.add(f"loop in {where}: inductive invariants {[lab for lab, _ in spec.templates(post) if lab not in dropped]}")
        raise PathEnd()
    exit_assume()
    return None


class _None:
    pass


NONE = _None()


def contains(e, v):
    if e.eq(v):
        return True
    return any(contains(c, v) for c in e.children())


def loop(s, body, getv, setv, assigned, mutated, targets, foreign_mut, ok, where, has_else, appended=()):
    ex = cur()
    spec = loop_spec(where)
    if not ok or foreign_mut:
        if spec is None:
            raise Unsupported(f"loop with side effects in {where}")
    pre = getv()
    live = [n for n in assigned if n in pre and n not in targets]
    muts = [n for n in mutated if n in pre]
    if spec is not None:
        def iterate():
            k = fresh_index(s.n, "it")
            return body(s.at(k))

        return houdini(spec, where, getv, setv, set(live), iterate, lambda: None)

    def run(k):
        """one iteration at index k from the pre-state; returns (signal, recorders, state)"""
        st = dict(pre)
        recs = {}
        for m in muts:
            if type(pre[m]) is list and m in appended or (type(pre[m]) is SSeq and pre[m].kind == "list" and m in appended):
                recs[m] = []
                st[m] = recs[m]
            elif (type(pre[m]) is SSeq or type(pre[m]) is SymDict and pre[m]._keys is not None) and m not in appended:
                pass  # element assignments are recorded by the sequence itself
            else:
                raise Unsupported(f"loop mutating {m} of type {type(pre[m]).__name__} in {where}")
        accs = {}
        for n in live:
            p = pre[n]
            if type(p) is SSeq and p.kind == "array":
                arr = z3.Function(ex.fresh("acc_" + n), z3.IntSort(), z3.RealSort())
                st[n] = SSeq(p.n, lambda j: SReal(arr(zi(j))), "array")
                accs[n] = arr
            elif type(p) in (SReal, float, int) or isinstance(p, np.floating):
                a = z3.Real("acc_" + n)
                st[n] = SReal(a)
                accs[n] = a
            elif type(p) in (bool, SBool):
                a = z3.Bool("acc_" + n)
                st[n] = SBool(a)
                accs[n] = a
            else:
                raise Unsupported(f"loop-carried variable {n} of type {type(p).__name__} in {where}")
        saved = ex.writes
        ex.writes = {}
        now = getv()  # elements are evaluated lazily, also after the loop: leave the variables as they are
        setv(st)
        try:
            sig = body(s.at(k))
            post = getv()
        finally:
            setv(now)
            w, ex.writes = ex.writes, saved
            for q, n0, _ in w.values():
                del q._v[n0:]
        if any(not ws for _, _, ws in w.values()):
            raise Unsupported(f"loop updating a whole sequence in place in {where}")
        return sig, recs, post, accs, {i: (q, ws) for i, (q, _, ws) in w.items()}

    no_raise(s.n, run)
    k0 = z3.Int("loop_ix")

    def probe():
        ex.cond(z3.And(k0 >= 0, k0 < zi(s.n)))
        sig, recs, post, accs, w = run(k0)
        return (None if sig is None else sig[0]), {m: len(r) for m, r in recs.items()}, w

    rs = ex.merge(lambda: probe())
    rs = [(c, v) for c, v in rs if not isinstance(v, RaisedCase)]
    sigs = {v[0] for _, v in rs}
    written = {}
    for _, v in rs:
        for i, (q, ws) in v[2].items():
            for ie, _ in ws:
                off = z3.simplify(zi(ie) - k0)
                if contains(off, k0):
                    raise Unsupported(f"loop assigning elements at {ie} in {where}")
                if i in written and not written[i][1].eq(off) and ex.prove(written[i][1] == off, 1000)[0] != "proved":
                    raise Unsupported(f"loop assigning elements at several indices ({off}, {written[i][1]}) in {where}")
                written[i] = (q, off)
    if sigs - {None}:
        if live or muts or written:
            raise Unsupported(f"early exit from an accumulating loop in {where}")

        def exits(k):
            return merged(lambda: mkbool(TRUE if run(k)[0] is not None else FALSE))

        b = z3.Bool(ex.fresh("exits"))
        j = fresh_index(s.n, "exit", guard=b)
        ex.fact_local(z3.Implies(b, E.lift_bool(truth(exits(j)))))
        add_universal(s.n, lambda k: z3.Implies(zi(k) < j, b_not(E.lift_bool(truth(exits(k))))), guard=b)
        add_universal(s.n, lambda k: b_not(E.lift_bool(truth(exits(k)))), guard=z3.Not(b))
        if ex.branch(b):
            sig = run(j)[0]
            if sig is None:
                raise Infeasible()
            if sig[0] == "break":
                body(s.at(j))  # leave the locals as the breaking iteration set them
            return sig
        return None
    if written:
        # an iteration may read such a sequence only at the index it assigns itself
        def reads():
            ex.cond(z3.And(k0 >= 0, k0 < zi(s.n)))
            saved, ex.watch = ex.watch, {i: [] for i in written}
            try:
                run(k0)
                return ex.watch
            finally:
                ex.watch = saved

        for _, v in ex.merge(reads):
            if isinstance(v, RaisedCase):
                continue
            for i, ks in v.items():
                for kk in ks:
                    ro = z3.simplify(zi(kk) - k0)
                    if not ro.eq(written[i][1]) and (contains(ro, k0) or ex.prove(ro == written[i][1], 1000)[0] != "proved"):
                        raise Unsupported(f"loop reading elements assigned by other iterations in {where}")
        news = []
        for i, (q, off) in written.items():
            old = q.snapshot()

            def val(k, i=i, old=old, off=off):
                def r():
                    w = run(k)[4]
                    return w[i][1][-1][1] if i in w else old.at(z3.simplify(zi(k) + off))

                return merged(r)

            news.append((q, off, old, SSeq(s.n, total(val), "list")))
        for q, off, old, part in news:
            def get(j, off=off, old=old, part=part):
                kk = z3.simplify(zi(j) - off)
                c = z3.simplify(z3.And(kk >= 0, kk < zi(s.n)))
                if z3.is_true(c):
                    return part.at(kk)
                if z3.is_false(c):
                    return old.at(j)
                return part.at(kk) if ex.branch(c) else old.at(j)

            q.getter = get
    counts = {}
    for m in muts:
        if m not in appended and type(pre[m]) in (SSeq, SymDict):
            counts[m] = {0}
            continue
        cs = {v[1].get(m, 0) for _, v in rs}
        counts[m] = cs
    updates = {}
    for m in muts:
        cs = counts[m]
        if cs <= {0}:
            continue
        base = pre[m]
        val = total(lambda k, m=m: merged(lambda: run(k)[1][m][0]))
        if cs == {1}:
            part = SSeq(s.n, val, "list")
        elif cs == {0, 1}:
            part = S.filter_seq(s, lambda k, m=m: merged(lambda: mkbool(TRUE if len(run(k)[1][m]) == 1 else FALSE)), value=val, kind="list")
        else:
            raise Unsupported(f"loop appending several items in {where}")
        updates[m] = part if type(base) is list and not base else S.concat([base, part], "list")
    for n in live:
        p = pre[n]
        # fold: acc' = acc + f(k) with f independent of acc
        if type(p) is SSeq:
            def getj(j, n=n, p=p):
                def diff(k):
                    post, accs = run(k)[2:4]
                    a = accs[n]
                    d = to_real(post[n].at(j)) - SReal(a(zi(j)))
                    e = z3.simplify(d.e)
                    if a.name() in e.sexpr():
                        raise Unsupported(f"non-additive accumulator {n} in {where}")
                    return SReal(e, d.nan)

                return p.at(j) + S.sum_term(s.n, diff)

            updates[n] = SSeq(p.n, getj, "array")
        elif type(p) in (bool, SBool):
            # acc' = acc and f(k)   (or acc or f(k))
            def f_at(k, val, n=n):
                def r():
                    post, accs = run(k)[2:4]
                    return mkbool(z3.simplify(z3.substitute(E.lift_bool(truth(post[n])), (accs[n], val))))
                return merged(r)

            t = SSeq(s.n, lambda k, n=n: f_at(k, TRUE), "array")
            q = fresh_probe_all(s.n, lambda k: f_at(k, FALSE))
            if q == "false":  # and-accumulator
                updates[n] = truth(p) if type(p) is bool and not p else _and(truth(p), S.seq_all(t))
            elif fresh_probe_all(s.n, lambda k: f_at(k, TRUE)) == "true":  # or-accumulator
                hit = S.seq_any(SSeq(s.n, lambda k, n=n: f_at(k, FALSE), "array"))
                updates[n] = True if p is True else E.not_(_and(E.not_(truth(p)), E.not_(truth(hit))))
            else:
                raise Unsupported(f"boolean accumulator {n} in {where}")
        else:
            # is it really carried? if every iteration overwrites it independently it is the last value
            def diff(k, n=n):
                post, accs = run(k)[2:4]
                d = to_real(post[n]) - SReal(accs[n])
                e = z3.simplify(d.e)
                if f"acc_{n}" in e.sexpr():
                    raise Unsupported(f"non-additive accumulator {n} in {where}")
                return SReal(e, d.nan)

            updates[n] = p + S.sum_term(s.n, diff)
    setv(updates)
    # loop variable values after the loop are not modelled
    return None


def extended(out, it):
    """out + the items of it (yield from)"""
    s = symiter(it) if E.CUR is not None else it
    if type(s) is SSeq and type(s.n) is not int:
        part = SSeq(s.n, s.at, "list")
        return part if type(out) is list and not out else S.concat([out, part], "list")
    if type(out) is SSeq:
        return S.concat([out, SSeq.conc(list(s), "list")], "list")
    return out + list(s)


def items(out):
    """what a generator function returns"""
    if type(out) is SSeq:
        return SSeq(out.n, out.at, "gen")
    return iter(out)


def _and(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return mkbool(b_and(E.lift_bool(a), E.lift_bool(b)))


def fresh_probe_all(n, f):
    ex = cur()
    k = z3.Int("fp_ix")

    def g():
        ex.cond(z3.And(k >= 0, k < zi(n)))
        return f(k)

    vals = [truth(v) for _, v in ex.merge(g) if not isinstance(v, RaisedCase)]
    if all(v is False for v in vals):
        return "false"
    if all(v is True for v in vals):
        return "true"
    return "mixed"


def wloop(cond, body, getv, setv, assigned, mutated, ok, where):
    ex = cur()
    spec = loop_spec(where)
    pre = getv()
    live = {n for n in assigned if n in pre} | {n for n in mutated if n in pre}

    def iterate():
        ex.assume(truth_any(cond()))
        return body()

    def exit_assume():
        ex.assume(E.not_(truth_any(cond())))

    return houdini(spec, where, getv, setv, live, iterate, exit_assume)
