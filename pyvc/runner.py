"""Runs the contracts of one property and reports."""
import importlib
import io
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


def _quiet():
    sys.stdout = open(os.devnull, "w")
    warnings.simplefilter("ignore")


def load_harnesses(prop, symbolic):
    from . import loader
    path = os.path.join(VERIF, "contracts", prop + ".py")
    reg = []

    def harness(name=None, **opts):
        def deco(f):
            reg.append((name or f.__name__, f, opts))
            return f
        return deco
    lib = {}
    libdir = os.path.join(VERIF, "contracts", "lib")
    m = loader.load_contract(path, symbolic, {"harness": harness, "use": lambda n: _use(n, symbolic)})
    return reg, m


_libs = {}


def _use(name, symbolic):
    """shared specification module contracts/lib/<name>.py"""
    from . import loader
    k = (name, symbolic)
    if k not in _libs:
        _libs[k] = loader.load_contract(os.path.join(VERIF, "contracts", "lib", name + ".py"), symbolic,
                                        {"use": lambda n: _use(n, symbolic)})
    return _libs[k]


# ------------------------------------------------------------------ concrete execution
def run_concrete(f, values=None, choices=None, seed=0, rtol=1e-6):
    """-> (status, ctx) ; status ok / discard / fail"""
    from . import api
    import random as _r
    import numpy as np
    ctx = api.ConcreteCtx(values, choices, _r.Random(seed), rtol)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = np.seterr(all="ignore")
        try:
            f(ctx)
        except api.Discard:
            np.seterr(**old)
            return "discard", ctx
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [x for x in tb if "/metku/" in x.filename]
            loc = where[-1] if where else tb[-1]
            ctx.failures.append(("no exception", "%s: %s at %s:%s" % (
                type(e).__name__, e, loc.filename.split("/repo/")[-1], loc.lineno)))
        finally:
            ctx.restore()
            np.seterr(**old)
    return ("fail" if ctx.failures else "ok"), ctx


def robust_fail(f, values, choices, names, rng, tries=12):
    """does the failure persist under tiny input changes?"""
    hits = total = 0
    for k in range(tries):
        v = {}
        for n, x in values.items():
            if isinstance(x, int):
                v[n] = x
            else:
                v[n] = x * (1 + rng.uniform(-1, 1) * 1e-6) + (rng.uniform(-1, 1) * 1e-9 if x == 0 else 0)
        st, c = run_concrete(f, v, choices)
        if st == "discard":
            continue
        total += 1
        if st == "fail" and any(nm in names for nm, _ in c.failures):
            hits += 1
    return total > 0 and hits >= max(1, total // 4)


# ------------------------------------------------------------------ one harness
def work(args):
    prop, idx, tier, seed = args
    t0 = time.time()
    _quiet()
    from . import loader, terms, engine
    loader.start_monitor()
    sys.setrecursionlimit(20000)
    res = {"idx": idx, "problems": [], "vcs": [], "violations": []}
    try:
        reg, _ = load_harnesses(prop, True)
        name, f, opts = reg[idx]
    except BaseException as e:
        # a contract file that cannot even load the code
        res.update(name="load", load_error="%s: %s" % (type(e).__name__, e), wall=time.time() - t0)
        res["problems"].append("load: " + "".join(traceback.format_exception(e))[-1500:])
        res["vcs"].append({"name": "code loads", "status": "unknown", "backend": "engine", "time": 0, "model": None,
                           "detail": res["load_error"], "choices": {}})
        return finish_concrete(prop, idx, tier, seed, res, None)
    res["name"] = name
    res["opts"] = {k: v for k, v in opts.items() if isinstance(v, (int, str, float, bool))}
    th = tier == "thorough"
    known = opts.get("timeout", 8)
    eng = engine.Engine(goal_timeout_ms=int(known * 1000 * (3 if th else 1)),
                        branch_timeout_ms=opts.get("branch_ms", 400),
                        max_paths=opts.get("max_paths", 4000),
                        budget_s=opts.get("budget", 400) * (3 if th else 1))

    def wrapped(c):
        try:
            f(c)
        finally:
            c.restore()
    bounded = opts.get("bounded")
    if not opts.get("concrete_only"):
        eng.run(wrapped)
    res["paths"] = eng.stats.paths
    res["solver_s"] = eng.stats.solver_s
    res["solver_calls"] = eng.stats.calls
    res["backends"] = eng.stats.by
    res["problems"] += eng.problems[:20]
    for v in eng.vcs:
        res["vcs"].append({"name": v.name, "status": v.status, "backend": v.backend, "time": round(v.time, 4),
                           "model": v.model, "detail": v.detail, "choices": v.choices})
    res["executed"] = sorted("%s:%s" % (a, b) for a, b in loader.EXECUTED)
    res["bounded"] = bounded
    if not any(v["name"] != "no exception" for v in res["vcs"]) and not opts.get("concrete_only"):
        res["vcs"].append({"name": "obligations generated", "status": "unknown", "backend": "engine", "time": 0,
                           "model": None, "detail": "zero obligations generated", "choices": {}})
    res["path_models"] = eng.path_models
    if eng.problems and any("budget" in p for p in eng.problems):
        res["vcs"].append({"name": "all paths explored", "status": "unknown", "backend": "engine", "time": 0,
                           "model": None, "detail": "; ".join(eng.problems[-1:]), "choices": {}})
    return finish_concrete(prop, idx, tier, seed, res, opts)


def finish_concrete(prop, idx, tier, seed, res, opts):
    t0 = time.time()
    try:
        reg, _ = load_harnesses(prop, False)
        name, f, opts = reg[idx]
    except BaseException as e:
        res["concrete_error"] = "%s: %s" % (type(e).__name__, e)
        res["violations"].append({"harness": res.get("name"), "obligation": "code loads",
                                  "detail": res["concrete_error"], "values": {}, "choices": {}, "found_by": "import"})
        return res
    rng = random.Random(seed * 1000 + idx)
    found = {}
    bad = [v for v in res["vcs"] if v["status"] != "discharged"]
    names_bad = {v["name"] for v in bad}
    rtol = opts.get("rtol", 1e-6)
    tried = 0
    # 1. verifier counterexamples replayed on the real code
    per = {}
    for v in bad:
        if v["model"] is None:
            continue
        if v["name"] in found or per.get(v["name"], 0) > 25:
            continue
        per[v["name"]] = per.get(v["name"], 0) + 1
        for attempt in range(3):
            vals = dict(v["model"])
            if attempt:
                vals = {n: (x if isinstance(x, int) else x * (1 + rng.uniform(-1, 1) * 10 ** -(9 - 3 * attempt)))
                        for n, x in vals.items()}
            st, c = run_concrete(f, vals, v["choices"], seed, rtol)
            tried += 1
            if st == "fail":
                for nm, msg in c.failures:
                    if nm == v["name"] or nm in names_bad or nm == "no exception":
                        found.setdefault(nm, {"harness": res["name"], "obligation": nm, "detail": msg,
                                              "values": c.inputs, "choices": c.choice_log, "found_by": "counterexample"})
                if v["name"] in found:
                    break
    # 2. CPython cross-check: path witnesses and random inputs
    n = opts.get("samples", 60) * (6 if tier == "thorough" else 1)
    limit = time.time() + (opts.get("sample_s", 20) if not bad else max(30, opts.get("sample_s", 20)))
    if bad:
        n = max(n * 8, 800)
    evals = ok = disc = 0
    digests = set()
    samples = []
    cases = [(dict(m), ch) for ch, m in res.get("path_models", [])]
    base = list(cases)
    i = 0
    tot = n + len(cases)
    while i < tot and time.time() < limit:
        if i < len(cases):
            vals, ch = cases[i]
        elif base and i % 3 == 0:
            # jitter around a path witness: reaches narrow paths
            m, ch = base[rng.randrange(len(base))]
            s = rng.choice([0.001, 0.03, 0.2])
            vals = {k: (x if isinstance(x, int) else x * (1 + rng.uniform(-s, s))) for k, x in m.items()}
        else:
            vals, ch = {}, {}
        st, c = run_concrete(f, vals, ch, seed * 7919 + i * 31 + idx, rtol)
        i += 1
        if st == "discard":
            disc += 1
            continue
        evals += c.evals
        ok += 1
        digests.add(tuple(sorted(c.inputs.items())) + tuple(sorted(c.choice_log.items())))
        if len(samples) < 2:
            samples.append({"harness": res["name"], "inputs": c.inputs, "choices": c.choice_log})
        if st == "fail":
            nms = {nm for nm, _ in c.failures}
            new = [nm for nm in nms if nm not in found]
            if new and robust_fail(f, c.inputs, c.choice_log, set(new), rng):
                for nm, msg in c.failures:
                    if nm in new:
                        found.setdefault(nm, {"harness": res["name"], "obligation": nm, "detail": msg,
                                              "values": c.inputs, "choices": c.choice_log,
                                              "found_by": "bounded CPython cross-check"})
            if bad and names_bad <= set(found):
                break
    res["concrete"] = {"runs": ok, "evaluations": evals, "discarded": disc, "distinct": len(digests), "samples": samples}
    if ok == 0:
        res["problems"].append("no concrete run satisfied the precondition")
    # verdicts
    for nm, v in found.items():
        res["violations"].append(v)
    for v in bad:
        if v["name"] in found:
            continue
        if found and v["name"] in ("no exception", "path reaches only supported code", "all paths explored",
                                   "obligations generated", "code loads"):
            continue
        if any(x["obligation"] == v["name"] for x in res["violations"]):
            continue
        res["violations"].append({"harness": res["name"], "obligation": v["name"], "detail": v["detail"],
                                  "values": v["model"] or {}, "choices": v["choices"], "found_by": None,
                                  "verifier": v["status"] + " by " + v["backend"]})
    res.pop("path_models", None)
    return res


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)
    return {"findings": [], "fixed": []}


def main(prop, tier, seed, only=None):
    t0 = time.time()
    reg = _count(prop)
    idxs = [i for i in range(len(reg)) if only is None or only in reg[i]]
    jobs = [(prop, i, tier, seed) for i in idxs]
    nproc = min(len(jobs), int(os.environ.get("PYVC_JOBS", max(2, (os.cpu_count() or 4)))))
    limit = 3000 if tier == "thorough" else 840
    results = []
    with mp.get_context("fork").Pool(nproc, maxtasksperchild=1) as pool:
        pend = [(j, pool.apply_async(_safe_work, (j,))) for j in jobs]
        for j, r in pend:
            left = max(1, limit - (time.time() - t0))
            try:
                results.append(r.get(timeout=left))
            except mp.TimeoutError:
                results.append({"idx": j[1], "name": reg[j[1]], "vcs": [
                    {"name": "finished in time", "status": "unknown", "backend": "engine", "time": 0, "model": None,
                     "detail": "time limit", "choices": {}}], "problems": ["time limit"], "violations": [
                    {"harness": reg[j[1]], "obligation": "finished in time", "detail": "time limit", "values": {},
                     "choices": {}, "found_by": None}]})
        pool.terminate()
    return report(prop, tier, seed, results, time.time() - t0, partial=only is not None)


def _safe_work(j):
    try:
        t = time.time()
        r = work(j)
        r["wall"] = round(time.time() - t, 1)
        return r
    except BaseException as e:
        return {"idx": j[1], "name": "harness %d" % j[1], "vcs": [], "problems": [], "violations": [],
                "crash": "".join(traceback.format_exception(e))[-3000:]}


def _count(prop):
    """names of harnesses without loading metku in this process"""
    import ast
    src = open(os.path.join(VERIF, "contracts", prop + ".py")).read()
    p, c = mp.Pipe(False)

    def child(q):
        _quiet()
        try:
            reg, _ = load_harnesses(prop, False)
            q.send([r[0] for r in reg])
        except BaseException as e:
            q.send(None)
    pr = mp.get_context("fork").Process(target=child, args=(c,))
    pr.start()
    names = p.recv()
    pr.join()
    if names is None:
        # module-level import failure: count decorators
        names = [n.name for n in ast.parse(src).body if isinstance(n, ast.FunctionDef) and n.decorator_list]
    return names


def report(prop, tier, seed, results, wall, partial=False):
    out = []
    crash = [r for r in results if r.get("crash")]
    obligations = discharged = 0
    bounded_ob = bounded_ok = 0
    backends, funcs = {}, set()
    solver_s = calls = paths = 0
    per_h = []
    conc = {"runs": 0, "evaluations": 0, "distinct": 0, "discarded": 0}
    samples = []
    problems = []
    for r in results:
        d = sum(1 for v in r["vcs"] if v["status"] == "discharged")
        if r.get("bounded"):
            bounded_ob += len(r["vcs"])
            bounded_ok += d
        else:
            obligations += len(r["vcs"])
            discharged += d
        for k, n in r.get("backends", {}).items():
            backends[k] = backends.get(k, 0) + n
        funcs.update(r.get("executed", []))
        solver_s += r.get("solver_s", 0)
        calls += r.get("solver_calls", 0)
        paths += r.get("paths", 0)
        c = r.get("concrete") or {}
        for k in conc:
            conc[k] += c.get(k, 0)
        samples += c.get("samples", [])
        problems += ["%s: %s" % (r["name"], p) for p in r["problems"]]
        names = {}
        for v in r["vcs"]:
            s = names.setdefault(v["name"], [0, 0])
            s[0] += 1
            s[1] += v["status"] == "discharged"
        per_h.append({"harness": r["name"], "paths": r.get("paths", 0), "bounded": r.get("bounded") or False,
                      "obligations": {k: "%d/%d" % (b, a) for k, (a, b) in names.items()},
                      "solver_s": round(r.get("solver_s", 0), 2)})
    if os.environ.get("PYVC_V"):
        for r in sorted(results, key=lambda r: r.get("wall", 0))[-8:]:
            print("  %6.1fs %s paths=%s solver=%.1f" % (r.get("wall", 0), r["name"], r.get("paths"), r.get("solver_s", 0)))
    known = load_known()
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    seen_known = set()
    viols = [dict(v) for r in results for v in r["violations"]]
    viols.sort(key=lambda v: v["found_by"] is None)
    for k, v in enumerate(viols):
        kf = match_known(known, prop, v)
        if kf:
            seen_known.add(kf["id"])
            continue
        nviol += 1
        path = os.path.join(rdir, "%s_%d.json" % (prop, k))
        with open(path, "w") as f:
            json.dump(dict(v, property=prop), f, indent=1, default=str)
        if nviol <= 20:
            print("  %s / %s: %s %s" % (v["harness"], v["obligation"], v["detail"],
                                        json.dumps(v["values"], default=str)[:300]))
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if v["found_by"] else " no-failing-input-found"))
    for kf in known.get("findings", []):
        if kf["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    for r in crash:
        print("CHECK CRASHED in %s:\n%s" % (r["name"], r["crash"]), file=sys.stderr)
    meta = json.load(open(os.path.join(VERIF, "contracts", "meta.json"))).get(prop, {}) if os.path.exists(
        os.path.join(VERIF, "contracts", "meta.json")) else {}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": meta.get("level", "proof"),
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": "cd /verif && ./check.sh %s" % prop,
            "trusted_base": TRUSTED + meta.get("trusted", []),
            "backends": backends, "solver_seconds": round(solver_s, 2), "solver_calls": calls, "paths": paths,
            "bounded_obligations": bounded_ob, "bounded_discharged": bounded_ok,
            "functions_under_contract": sorted(funcs),
            "functions_count": len(funcs),
            "harnesses": per_h,
            "cpython_crosscheck": conc,
            "evaluations": conc["evaluations"], "distinct_nontrivial": conc["distinct"],
            "rule": "concrete runs of the same contracts on the real uninstrumented code: one witness input per proved "
                    "path, jittered witnesses and seeded random inputs; non-trivial = precondition satisfied and at "
                    "least one obligation evaluated; distinct by input values",
            "samples": samples[:6],
            "engine_problems": problems[:40],
        },
        "assumptions": ASSUMPTIONS + meta.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": nviol,
    }
    if bounded_ob:
        ev["coverage"]["explanation"] = "%d of the obligations come from harnesses with a stated bound and are not counted as proved: %s" % (
            bounded_ob, "; ".join(sorted({"%s" % h.get("bounded") for h in per_h if h.get("bounded")})))
    if not partial:
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d/%d obligations discharged (+%d/%d bounded), %d paths, %d functions, %d solver calls %.1fs, "
          "%d concrete runs, %.1fs wall" % (prop, discharged, obligations, bounded_ok, bounded_ob, paths, len(funcs),
                                            calls, solver_s, conc["runs"], wall))
    if crash:
        return 2 if not nviol else 1
    if obligations == 0 and not nviol:
        print("no obligations were generated", file=sys.stderr)
        return 2
    return 1 if nviol else 0


def match_known(known, prop, v):
    for k in known.get("findings", []):
        if k["property"] == prop and k["harness"] == v["harness"] and k["obligation"] == v["obligation"]:
            return k
    return None


TRUSTED = ["CPython 3.12 executing the instrumented source", "pyvc VC generator (/verif/pyvc)",
           "polynomial normal form of pyvc", "z3 5.x / cvc5 1.1.2"]
ASSUMPTIONS = [
    "floating-point arithmetic is treated as exact real arithmetic; a float literal means its shortest decimal reading",
    "instrumentation (exact literals and division, shimmed builtins/math/numpy) preserves the meaning of the source",
    "numpy array operations behave as their mathematical definition on object arrays of reals",
]
