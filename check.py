#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough -- decides one property against /repo's current working tree.

1. `prove`    : the repository's current source is compiled through vc.instrument and every contract of the property is
                explored symbolically; each s.ensure is an obligation for the solver (z3).  A contract is proved when
                every path was explored and every obligation discharged.
2. `concrete` : the same contracts are run, un-instrumented, on generated inputs: a cross-check of the engine and of the
                assumed library contracts, and the bounded stand-in for what the engine could not decide.
3. a refuted obligation is replayed, un-instrumented, on the solver's counterexample.

exit 0: held (every contract proved, or undecided ones covered by the bounded stand-in -- the evidence says which)
exit 1: VIOLATION line"""
import json
import os
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if not os.path.exists(PY):
    PY = sys.executable


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TZ="UTC", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             PYTHONPATH=ROOT + os.pathsep + os.environ.get("VERIF_REPO_SRC", "/repo/src"))
    e.pop("VERIF_REPO_HOOKS", None)
    return e


def known_findings():
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#") and line.startswith("{"):
                out.append(json.loads(line))
    return out


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    limit = 800 if tier == "quick" else 3 * 3600
    tmp = tempfile.mkdtemp(prefix="vc_")
    po, co = os.path.join(tmp, "prove.json"), os.path.join(tmp, "concrete.json")
    p1 = subprocess.Popen([PY, "-B", os.path.join(ROOT, "vc/worker.py"), "prove", prop, tier, po], env=env(), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    p2 = subprocess.Popen([PY, "-B", os.path.join(ROOT, "vc/worker.py"), "concrete", prop, tier, str(seed), co], env=env(), cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    logs = []
    for p in (p1, p2):
        try:
            o, _ = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            o, _ = p.communicate()
            o = (o or "") + "\n[time limit]"
        logs.append(o or "")
    prove = json.load(open(po)) if os.path.exists(po) else {"results": {}, "errors": [{"error": "prover did not finish: " + logs[0][-400:]}], "contracts": {}, "stats": {}}
    conc = json.load(open(co)) if os.path.exists(co) else {"results": {}, "errors": [{"error": "concrete run did not finish: " + logs[1][-400:]}]}

    # ---- refuted obligations: replay
    replays, meta = [], []
    for cname, r in prove["results"].items():
        for oname, d in r.get("obligations", {}).items():
            for m in d.get("models", [])[:4]:
                replays.append({"property": prop, "contract": cname, "inputs": m})
                meta.append((cname, oname))
    verdicts = []
    if replays:
        rin, rout = os.path.join(tmp, "r.json"), os.path.join(tmp, "ro.json")
        json.dump(replays, open(rin, "w"))
        try:
            subprocess.run([PY, "-B", os.path.join(ROOT, "vc/worker.py"), "replay", rin, rout], env=env(), cwd=tmp, timeout=120, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        except subprocess.TimeoutExpired:
            pass
        verdicts = json.load(open(rout)) if os.path.exists(rout) else [{"verdict": "notarget", "detail": "replay did not finish"}] * len(replays)

    violations = []   # (contract, obligation, inputs or None, detail, replayed)
    undecided = {}
    refuted_unreplayed = {}
    for (cname, oname), rp, v in zip(meta, replays, verdicts):
        if v["verdict"] == "fail":
            violations.append((cname, v["obligation"] or oname, rp["inputs"], v.get("detail"), True))
        elif v["verdict"] == "notarget":
            refuted_unreplayed.setdefault(cname, []).append((oname, rp["inputs"], v.get("detail")))
        else:
            undecided.setdefault(cname, []).append(f"refuted by the solver for '{oname}', but the counterexample satisfies the contract on the real code (abstraction too coarse)")
    for cname, r in conc["results"].items():
        for f in r.get("fails", []):
            violations.append((cname, f["obligation"], f["inputs"], f["detail"], True))
    # refuted, and no replayable input at all
    for cname, items in refuted_unreplayed.items():
        if not any(v[0] == cname for v in violations):
            oname, inp, det = items[0]
            if inp is None:
                violations.append((cname, oname, None, "the solver's counterexample could not be written as an input", False))
            else:
                undecided.setdefault(cname, []).append(f"'{oname}' refuted, counterexample not executable: {det}")

    # ---- known findings
    known = [k for k in known_findings() if k.get("property") == prop and k.get("status") == "open"]
    reported = []
    seen_known = {}
    for v in violations:
        hit = next((k for k in known if k["contract"] == v[0] and k["obligation"] == v[1] and (not k.get("detail") or k["detail"] in str(v[3]))), None)
        if hit:
            seen_known[json.dumps(hit, sort_keys=True)] = hit
        else:
            reported.append(v)
    for k in known:
        print(f"KNOWN-FINDING: property={prop} {k['what']}")

    # ---- evidence
    contracts = {}
    nob = ndis = nbd = 0
    solver = 0.0
    notes = set()
    total_proved = total = 0
    for cname, info in prove.get("contracts", {}).items():
        r = prove["results"].get(cname, {"lost": "not run"})
        c = conc["results"].get(cname, {})
        if "lost" in r:
            contracts[cname] = {"functions": info["functions"], "summary": info["summary"], "status": "bounded", "reason": r["lost"]}
            total += 1
            continue
        obl = sum(d["proved"] + d["refuted"] + d["unknown"] for d in r["obligations"].values())
        dis = sum(d["proved"] for d in r["obligations"].values())
        st = r["status"]
        fb = r.get("fallback")
        if st == "proved" and info.get("bounded"):
            st = "bounded"
            r["undecided"] = ["every obligation discharged within the stated bound"]
        label = "proved" if st == "proved" else ("refuted" if st == "refuted" and any(v[0] == cname for v in reported) else "bounded")
        if st == "proved":
            nob += obl
            ndis += dis
            total_proved += 1
        total += 1
        solver += r["solver_time"]
        notes.update(r["notes"])
        contracts[cname] = {
            "functions": info["functions"], "summary": info["summary"], "status": label, "obligations": obl, "discharged": dis if st == "proved" else 0,
            "distinct_obligations": sorted(r["obligations"]), "paths": r["paths"], "solver_queries": r["queries"], "solver_s": round(r["solver_time"], 2),
            "concrete_cases": c.get("ok", 0), "concrete_skipped": c.get("skip", 0),
        }
        if st == "bounded":
            contracts[cname]["discharged_within_bound"] = dis
            nbd += dis
        if label == "bounded":
            contracts[cname]["reason"] = (r["undecided"] + undecided.get(cname, []))[:6]
            if info.get("bounded"):
                contracts[cname]["bound"] = info["bounded"]
            if fb:
                contracts[cname]["bounded_symbolic"] = {"status": fb["status"], "max_length": fb["bound"], "paths": fb["paths"]}
        if c.get("notarget"):
            contracts[cname]["not_evaluable"] = c["notarget"]
    funcs = sorted({f for i in prove.get("contracts", {}).values() for f in i["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": nob, "discharged": ndis, "discharged_within_stated_bounds": nbd,
            "checker_cmd": f"python3 check.py {prop} {tier}",
            "trusted_base": [
                "z3 5.3 (obligations), CPython 3.12 (executes the code under contract)",
                "vc/: symbolic values, instrumentation of calls, comprehensions and loops, loop summarisation",
                "assumed contracts of library functions: vc/seq.py (numpy, builtins), vc/rt.py (pydantic construction), vc/pd.py (pandas), vc/sp.py (scipy interp1d)",
            ],
            "contracts_proved": total_proved, "contracts_total": total, "functions_under_contract": funcs,
            "contracts": contracts, "back_end": "z3", "solver_s": round(solver, 2), "instrumented": prove.get("stats", {}),
            "concrete_cases": sum(c.get("ok", 0) for c in conc["results"].values()),
            "errors": prove["errors"] + conc["errors"],
        },
        "assumptions": [
            "floating point numbers are read as mathematical reals (NaN tracked where stated); rounding is not modelled",
            "dates have whole-second resolution between 1900 and 2200",
            "symbolic inputs range over all values, sequences over all lengths, unless a contract is labelled bounded",
            *sorted(notes),
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(reported),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w"), indent=1, default=str)

    for f in os.listdir(tmp):
        os.unlink(os.path.join(tmp, f))
    os.rmdir(tmp)

    if reported:
        rd = os.path.join(ROOT, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        done = set()
        rank = sorted(reported, key=lambda v: not v[4])
        for cname, oname, inp, det, replayed in rank:
            if cname in done:
                continue
            done.add(cname)
            path = os.path.join(rd, f"{prop}_{cname}.json")
            json.dump({"property": prop, "contract": cname, "failed_obligation": oname, "inputs": inp, "detail": det,
                       "verifier": prove["results"].get(cname, {}).get("status"),
                       "obligations_refuted": [k for k, d in prove["results"].get(cname, {}).get("obligations", {}).items() if d.get("refuted")],
                       "rerun": f"{PY} -B {ROOT}/vc/worker.py replay {path}"}, open(path, "w"), indent=1, default=str)
            print(f"failed obligation: {cname}: {oname}  ({det})")
            if replayed or not rank[0][4]:  # one with a failing input speaks for the others
                print(f"VIOLATION property={prop} replay={path}" + ("" if replayed else " no-failing-input-found"))
        sys.exit(1)
    und = [k for k, v in contracts.items() if v["status"] == "bounded"]
    print(f"{prop}: {total_proved}/{total} contracts proved, {ndis} obligations discharged (+{nbd} within stated bounds), {ev['coverage']['concrete_cases']} concrete cases, {ev['wall_s']} s" + (f"; bounded: {', '.join(und)}" if und else ""))
    sys.exit(0)


if __name__ == "__main__":
    main()
