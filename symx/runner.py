"""Run all cases of one property, write its evidence file, set the exit status."""
from __future__ import annotations

import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON_ASSUMPTIONS = [
    "arithmetic is decided over the reals; results are compared to the specification up to the relative tolerance stated per case (default 1e-9), "
    "and coefficients/arguments equal to 1e-11 are identified, so rounding behaviour is only covered where a case says so (rounding mode)",
    "numpy/scipy/cv2 primitives are replaced by models (symx/npmodel.py) during symbolic runs; every explored path with a known model is replayed on "
    "the unpatched code and compared with the symbolic result",
    "transcendental functions are uninterpreted with axioms (range, monotonicity, tangent bounds, Pythagoras); sat answers are replayed before being reported",
    "array sizes are those listed per case; values are symbolic over the stated ranges",
]


def load(prop):
    return importlib.import_module("checks." + prop.lower())


def _work(args):
    prop, idx, seed, tier = args
    from symx import harness
    mod = load(prop)
    case = cases_for(mod, tier)[idx]
    try:
        r = harness.run_case(case, seed=seed, tier=tier)
        return idx, r.as_dict()
    except Exception:
        return idx, {"name": case["name"], "inconclusive": ["engine error: " + traceback.format_exc()[-1500:]], "violation": None}


def _child(q, args):
    try:
        import resource
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except Exception:
        pass
    sys.setrecursionlimit(20000)
    q.put(_work(args))


def cases_for(mod, tier):
    cs = []
    for c in mod.CASES:
        if c.get("tier", "quick") == "thorough" and tier != "thorough":
            continue
        c = dict(c)
        if tier == "thorough":
            c["budget"] = c.get("budget", 240) * 4
            c["timeout"] = c.get("timeout", 5000) * 3
        cs.append(c)
    return cs


def run_parallel(jobs, limit, nproc=8, bad=None, total=None):
    """each case in its own process, killed at its wall limit (30 s after a violation is known)"""
    stop = None
    begin = time.time()
    pend = list(jobs)
    run = []
    out = {}
    while pend or run:
        while pend and len(run) < nproc:
            j = pend.pop(0)
            q = mp.Queue()
            p = mp.Process(target=_child, args=(q, j))
            p.start()
            run.append([p, q, j, time.time()])
        nr = []
        for p, q, j, t0 in run:
            got = None
            try:
                got = q.get(timeout=0.02)
            except Exception:
                pass
            if got is not None:
                out[got[0]] = got[1]
                p.join(5)
                if p.is_alive():
                    p.kill()
            elif not p.is_alive():
                try:
                    got = q.get(timeout=0.5)
                    out[got[0]] = got[1]
                except Exception:
                    out[j[1]] = {"name": "?", "inconclusive": ["worker died (exit %s)" % p.exitcode], "violation": None}
            elif time.time() - t0 > limit:
                p.kill()
                p.join()
                out[j[1]] = {"name": "?", "inconclusive": ["case exceeded its wall limit"], "violation": None}
            else:
                nr.append([p, q, j, t0])
        run = nr
        if stop is None and bad and any(bad(k, o) for k, o in out.items()):
            stop = time.time() + 30
        if stop is None and total and time.time() - begin > total:
            stop = time.time()
        if stop and time.time() > stop:
            for p, q, j, t0 in run:
                p.kill()
                p.join()
            for j in [x[2] for x in run] + pend:
                out[j[1]] = {"name": "?", "inconclusive": ["not finished: a violation was already found, or the time for the whole check ran out"], "violation": None}
            break
    return out


def known_findings(prop):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop and d.get("status") == "open":
                    out.append(d)
    return out


def matches(kf, case, v):
    if kf["case"] != case:
        return False
    if kf.get("label") and not v["label"].startswith(kf["label"]):
        return False
    if kf.get("when"):
        try:
            return bool(eval(kf["when"], {"__builtins__": {}}, dict(v["env"])))
        except Exception:
            return False
    return True


def selftest():
    """the tools and the code under test can be loaded here"""
    import z3
    from symx import harness  # noqa: F401
    x = z3.Real("x")
    s = z3.Solver()
    s.add(x * x < 0)
    assert s.check() == z3.unsat
    print("ok: z3", z3.get_version_string())
    return 0


def main(argv=None):
    if (argv or sys.argv[1:])[:1] == ["--selftest"]:
        return selftest()
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--case", default=None)
    ap.add_argument("--replay", default=None)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    prop = a.prop
    if a.replay:
        return replay(prop, a.replay)
    t0 = time.time()
    mod = load(prop)
    cs = cases_for(mod, a.tier)
    jobs = [(prop, i, a.seed, a.tier) for i, c in enumerate(cs) if a.case is None or a.case == c["name"]]
    jobs.sort(key=lambda j: -cs[j[1]].get("weight", 1))
    limit = 240 if a.tier == "quick" else 6 * 3600
    kfs = known_findings(prop)

    def bad(i, o):
        v = o.get("violation")
        return bool(v) and not any(matches(k, cs[i]["name"], v) for k in kfs)
    outs = run_parallel(jobs, limit, bad=bad, total=780 if a.tier == "quick" else None)
    for kf in kfs:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf["what"]))
    viol = []
    inconc = []
    tot = dict(paths=0, decisions=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, assertions=0, witness=0, cross=0, infeasible=0, weak=0, unrep=0)
    lines = {}
    percase = []
    samples = []
    conc = []
    for j in jobs:
        i = j[1]
        r = outs[i]
        name = cs[i]["name"]
        if r.get("violation"):
            v = r["violation"]
            if not any(matches(k, name, v) for k in kfs):
                viol.append((name, v))
        for w in r.get("inconclusive", []):
            inconc.append(("%s: %s" % (name, w))[:600])
        s = r.get("stats") or {}
        tot["paths"] += r.get("paths", 0)
        tot["infeasible"] += r.get("infeasible", 0)
        tot["witness"] += r.get("witness", 0)
        tot["weak"] += r.get("weak", 0)
        tot["unrep"] += r.get("unreproduced", 0)
        for k in ("decisions", "queries", "unsat", "sat", "unknown", "solver_s", "assertions", "cross"):
            tot[k] += s.get(k, 0)
        for k, ls in (r.get("lines") or {}).items():
            lines.setdefault(k, set()).update(ls)
        for x in r.get("concretised", []):
            conc.append({"case": name, **x})
        if r.get("sample"):
            samples.append({"case": name, **r["sample"]})
        percase.append({"case": name, "bounds": cs[i].get("bounds", ""), "paths": r.get("paths", 0), "assertions": s.get("assertions", 0),
                        "queries": s.get("queries", 0), "unsat": s.get("unsat", 0), "solver_s": round(s.get("solver_s", 0.0), 3),
                        "wall_s": round(r.get("wall", 0.0), 2), "witness_replays": r.get("witness", 0)})
        if a.v and (len(jobs) < 4 or r.get('violation') or r.get('inconclusive') or r.get('concretised') or r.get('wall', 0) > 15):
            print(str(percase[-1])[:250], *[str(r.get(k))[:600] for k in ("violation", "inconclusive", "concretised")])
    funcs = sorted({"%s:%s" % (k[0], k[1]) for k in lines if k[1] != "<module>"})
    nlines = sum(len(v) for k, v in lines.items() if k[1] != "<module>")
    wall = time.time() - t0
    ev = {
        "property": prop, "tier": a.tier, "seed": a.seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"], "transitions": tot["decisions"] + tot["assertions"],
            "traces_validated_against_impl": tot["witness"],
            "samples": samples[:6],
            "technique": "symbolic execution of the imported source with z3 (see DESIGN.md)",
            "states_meaning": "feasible symbolic paths explored to the end; transitions = branch decisions + assertions on them",
            "functions_encoded": funcs, "source_lines_executed_symbolically": nlines,
            "queries_discharged": tot["unsat"], "queries_total": tot["queries"], "queries_sat": tot["sat"], "queries_unknown": tot["unknown"],
            "solver_s": round(tot["solver_s"], 3), "assertions": tot["assertions"], "infeasible_paths": tot["infeasible"],
            "paths_without_sample": tot["weak"], "rounding_candidates_not_reproduced": tot["unrep"], "cvc5_cross_checked": tot["cross"],
            "cases": percase, "concretised": conc, "inconclusive": inconc,
            "outside_bounds": getattr(mod, "OUTSIDE", ""),
        },
        "assumptions": COMMON_ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2), "violations": len(viol),
    }
    if os.environ.get("PYBSM_REPO", "/repo") == "/repo" or os.environ.get("SYMX_EVIDENCE"):
        evd = os.path.join(VERIF, "evidence")
    else:
        evd = os.path.join("/tmp", "symx_ev_%d" % os.getpid())
    os.makedirs(os.path.join(evd, "replays"), exist_ok=True)
    with open(os.path.join(evd, prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for name, v in viol:
        rp = os.path.join(evd, "replays", "%s-%s.json" % (prop, name))
        with open(rp, "w") as fh:
            json.dump({"property": prop, "case": name, "inputs": v["env"], "label": v["label"], "message": v["msg"],
                       "run": "cd /verif && ./check %s --replay %s" % (prop, os.path.relpath(rp, VERIF))}, fh, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(rp, VERIF)))
        print("  case %s, %s: %s" % (name, v["label"], v["msg"]))
        if a.v:
            print("  inputs", str(v["env"])[:400])
    print("%s: %d cases, %d paths, %d assertions, %d queries (%d unsat), %d witnesses replayed, %d violations, %d inconclusive, %.1fs"
          % (prop, len(jobs), tot["paths"], tot["assertions"], tot["queries"], tot["unsat"], tot["witness"], len(viol), len(inconc), wall))
    for w in inconc:
        print("  INCONCLUSIVE:", w[:400])
    for c in conc:
        print("  concretised:", c)
    if viol:
        return 1
    if inconc and os.environ.get("SYMX_STRICT"):
        return 2
    # obligations left undecided are listed above and in the evidence; they are not counted as explored
    return 0 if tot["paths"] or conc else 2


def replay(prop, path):
    from symx import harness
    d = json.load(open(path))
    mod = load(prop)
    case = [c for c in mod.CASES if c["name"] == d["case"]][0]
    r = harness.concrete_run(case["fn"], d["inputs"])
    print("replay of %s/%s on the unpatched code:" % (prop, d["case"]), r if r else "property holds")
    return 1 if r else 0
