"""Runs the contracts of one property: `prove` (instrumented, symbolic), `concrete` (native, generated inputs) or
`replay` (native, one given input)."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(prop):
    """import the contract modules that mention the property"""
    from vc import harness

    d = os.path.join(ROOT, "contracts")
    errors = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py") or f.startswith("_"):
            continue
        src = open(os.path.join(d, f)).read()
        if f'"{prop}"' not in src and prop != "ALL":
            continue
        try:
            importlib.import_module("contracts." + f[:-3])
        except harness.NoTarget as e:
            errors.append({"module": f, "error": f"no target: {e}"})
        except (ImportError, AttributeError) as e:
            errors.append({"module": f, "error": repr(e)})
    if prop == "ALL":
        return [c for v in harness.REGISTRY.values() for c in v], errors
    return harness.REGISTRY.get(prop, []), errors


# ------------------------------------------------------------------------------------------------ prove
def prove_one(c, budget, bound=None, max_paths=6000):
    from vc import engine as E
    from vc import harness, rt

    ex = E.Explorer(max_paths=max_paths, deadline_s=budget)
    called = set()

    def h():
        rt.STUBS.clear()
        rt.LOOPS.clear()
        s = harness.Symbolic(ex, bound)
        try:
            c.fn(s)
        except harness.NoTarget as e:
            raise E.Unsupported(f"no target: {e}") from None
        except E.SKIP_TYPES:
            raise
        except Exception as e:  # the specification itself could not be evaluated on this result
            tb = traceback.extract_tb(e.__traceback__)
            at = f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}" if tb else "?"
            mid = next((f"{t.filename.split('/')[-1]}:{t.lineno}" for t in reversed(tb) if "/contracts/" in t.filename), "?")
            raise E.Unsupported(f"specification not evaluable: {type(e).__name__}: {e} at {at} (from {mid})") from None
        finally:
            s.unpatch()

    t = time.monotonic()
    err = None
    try:
        ex.explore(h)
    except BaseException as e:  # noqa: BLE001
        err = f"{type(e).__name__}: {e}"
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
        ex.undecided.append(f"engine: {err}")
    by = {}
    for o in ex.obligations:
        d = by.setdefault(o.name, {"proved": 0, "refuted": 0, "unknown": 0, "time": 0.0, "models": []})
        d[o.status] += 1
        d["time"] += o.time
        if o.status == "refuted" and len(d["models"]) < 4:
            d["models"].append(o.model)
    refuted = any(d["refuted"] for d in by.values())
    undecided = list(dict.fromkeys(ex.undecided))
    vacuous = not by
    if vacuous and not undecided:
        undecided.append("no obligation was reached")
    status = "refuted" if refuted else ("undecided" if undecided else "proved")
    return {"contract": c.name, "status": status, "bound": bound, "obligations": by, "undecided": undecided[:12],
            "paths": ex.paths, "completed": ex.completed_paths, "covers": ex.covers, "solver_time": ex.solver_time,
            "queries": ex.queries, "notes": sorted(ex.notes), "wall": time.monotonic() - t}


def prove_job(c, tier, q):
    if c.concrete_only:
        q.put({"contract": c.name, "status": "concrete-only", "obligations": {}, "undecided": [c.bounded or "bounded by design"], "paths": 0,
               "covers": {}, "solver_time": 0.0, "queries": 0, "notes": [], "wall": 0.0, "completed": 0, "bound": None})
        return
    budget = (c.budget or 45) * (4 if tier == "thorough" else 1)
    r = prove_one(c, budget)
    if r["status"] == "undecided":
        r2 = None
        for b in (2,) if tier == "quick" else (2, 3):
            rb = prove_one(c, budget * 0.6, bound=b)
            if rb["status"] == "undecided" and r2 is not None:
                break
            r2 = rb
            if rb["status"] == "refuted":
                break
        r["fallback"] = r2
        if r2["status"] == "refuted":
            r["status"] = "refuted"
            for k, d in r2["obligations"].items():
                if d["refuted"]:
                    r["obligations"][k] = d
    q.put(r)


# ------------------------------------------------------------------------------------------------ concrete
SPEC_SHAPE = (TypeError, ValueError, IndexError, KeyError, ZeroDivisionError, OverflowError)


def concrete_case(c, seed=None, given=None, size=5):
    """-> (verdict, name, detail, inputs)   verdict: ok | skip | fail | notarget"""
    from vc import harness

    s = harness.Concrete(seed, given, size)
    try:
        c.fn(s)
        return "ok", None, None, s
    except harness.Skip:
        return "skip", None, None, s
    except harness.Failed as e:
        return "fail", e.name, e.detail, s
    except harness.NoTarget as e:
        return "notarget", None, str(e), s
    except AttributeError as e:
        return "notarget", None, f"{type(e).__name__}: {e}", s
    except SPEC_SHAPE as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = f"{tb[-1].filename.split('/')[-1]}:{tb[-1].lineno}" if tb else "?"
        return "fail", "result has the specified shape", f"{type(e).__name__}: {e} at {at}", s
    except Exception as e:  # noqa: BLE001
        return "notarget", None, f"{type(e).__name__}: {e}", s
    finally:
        s.unpatch()


def concrete_job(c, tier, seed, q):
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    n = (c.cases or 400) * (10 if tier == "thorough" else 1)
    limit = (120.0 if tier == "thorough" else 20.0)
    t0 = time.monotonic()
    ok = skip = 0
    fails = []
    checked = {}
    covered = {}
    notarget = None
    i = 0
    while ok < n and i < 8 * n and time.monotonic() - t0 < limit:
        v, name, detail, s = concrete_case(c, seed=f"{seed}-{c.name}-{i}", size=1 + i % 6)
        i += 1
        for k, m in s.checked.items():
            checked[k] = checked.get(k, 0) + m
        for k, m in s.covered.items():
            covered[k] = covered.get(k, 0) + m
        if v == "ok":
            ok += 1
        elif v == "skip":
            skip += 1
        elif v == "notarget":
            notarget = detail
            if i > 20 and ok == 0:
                break
        else:
            fails.append({"obligation": name, "detail": detail, "inputs": s.drawn})
            if len(fails) >= 5:
                break
    q.put({"contract": c.name, "ok": ok, "skip": skip, "fails": fails, "checked": checked, "covered": covered,
           "notarget": notarget, "wall": time.monotonic() - t0})


# ------------------------------------------------------------------------------------------------ pool
def pool(jobs, limit, workers):
    """jobs: [(name, fn(q))] -> {name: result or {'lost': reason}} with a hard per-job limit"""
    ctx = mp.get_context("fork")
    pending = list(jobs)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < workers:
            name, fn, lim = pending.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_guard, args=(fn, q))
            p.start()
            running[name] = (p, q, time.monotonic(), lim)
        time.sleep(0.02)
        for name in list(running):
            p, q, t, lim = running[name]
            if not q.empty():
                out[name] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[name]
            elif not p.is_alive():
                if not q.empty():
                    continue
                out[name] = {"lost": f"worker ended with code {p.exitcode}"}
                del running[name]
            elif time.monotonic() - t > lim:
                p.kill()
                p.join()
                out[name] = {"lost": "hard time limit"}
                del running[name]
    return out


def _guard(fn, q):
    try:
        import resource

        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    try:
        fn(q)
    except BaseException as e:  # noqa: BLE001
        if os.environ.get("VC_DEBUG"):
            traceback.print_exc()
        q.put({"lost": f"{type(e).__name__}: {e}"})


def main():
    mode = sys.argv[1]
    if mode == "prove":
        prop, tier, out = sys.argv[2:5]
        only = sys.argv[5] if len(sys.argv) > 5 else None
        from vc import instrument

        instrument.install()
        import vc.pd  # noqa: F401  (assumed pandas contracts)
        import vc.sp  # noqa: F401  (assumed scipy contracts)

        cs, errors = load(prop)
        cs = [c for c in cs if (not c.thorough_only or tier == "thorough") and (only is None or c.name == only)]
        cs.sort(key=lambda c: -c.weight)
        res = pool([(c.name, (lambda q, c=c: prove_job(c, tier, q)), (c.budget or 45) * (4 if tier == "thorough" else 1) * (2.8 if tier == "thorough" else 1.8) + 60) for c in cs], 0, int(os.environ.get("VC_WORKERS", "5")))
        json.dump({"results": res, "errors": errors, "stats": instrument.STATS,
                   "contracts": {c.name: {"functions": list(c.functions), "summary": c.summary, "bounded": c.bounded} for c in cs}}, open(out, "w"))
    elif mode == "concrete":
        prop, tier, seed, out = sys.argv[2:6]
        only = sys.argv[6] if len(sys.argv) > 6 else None
        cs, errors = load(prop)
        cs = [c for c in cs if (not c.thorough_only or tier == "thorough") and (only is None or c.name == only)]
        res = pool([(c.name, (lambda q, c=c: concrete_job(c, tier, seed, q)), 60 if tier == "quick" else 300) for c in cs], 0, 3)
        json.dump({"results": res, "errors": errors}, open(out, "w"))
    elif mode == "replay":
        # FILE: {"property":, "contract":, "inputs": {...}} or a list of those
        f = sys.argv[2]
        data = json.load(open(f))
        items = data if isinstance(data, list) else [data]
        outs = []
        for it in items:
            cs, _ = load(it["property"])
            c = next((c for c in cs if c.name == it["contract"]), None)
            if c is None or it.get("inputs") is None:
                outs.append({"verdict": "notarget", "obligation": None, "detail": "no such contract or no input"})
                continue
            import warnings

            import numpy as np

            warnings.simplefilter("ignore")
            np.seterr(all="ignore")
            v, name, detail, s = concrete_case(c, given=it["inputs"])
            outs.append({"verdict": v, "obligation": name, "detail": detail})
        if len(sys.argv) > 3:
            json.dump(outs, open(sys.argv[3], "w"))
        else:
            print(json.dumps(outs, indent=1))
            sys.exit(1 if any(o["verdict"] == "fail" for o in outs) else 0)


if __name__ == "__main__":
    main()
