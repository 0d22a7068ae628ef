#!/usr/bin/env python3-vt
"""
check.py PROPERTY: decide one property on the current working tree of /repo.

The units of the property are verified deductively (each in its own process); at the same time the real code is run
against recording fakes (replay/), which provides the failing input for a failed obligation and a stand-in, labelled
bounded, for units that leave the verifier's reach.
"""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"


def unit_names(prop):
    from pyvc.run import units_of
    return [u.name for u in units_of(prop)]


def verify(name, budget):
    from pyvc.run import units_of, run_unit
    for u in units_of():
        if u.name == name:
            return run_unit(u(), REPO, budget)
    raise KeyError(name)


def start_replay(prop, tier, seed, out):
    env = dict(os.environ, PYTHONPATH=HERE, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    return subprocess.Popen([VENV, "-m", "replay.run", prop, tier, str(seed), out], cwd=HERE, env=env,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith(f"known: property={prop} "):
                out.append(line.split(" ", 2)[2].strip())
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    budget = 600.0 if tier == "quick" else 1500.0
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    rout = os.path.join(HERE, "evidence", f"{prop}.concrete.json")
    if os.path.exists(rout):
        os.unlink(rout)
    rp = start_replay(prop, tier, seed, rout)
    names = unit_names(prop)
    results = []
    with cf.ProcessPoolExecutor(max_workers=8, mp_context=mp.get_context("fork")) as ex:
        futs = {n: ex.submit(verify, n, budget) for n in names}
        for n, f in futs.items():
            try:
                results.append(f.result(timeout=budget + 120))
            except Exception as e:      # pylint: disable=broad-except
                results.append({"unit": n, "status": "error", "detail": f"{type(e).__name__}: {e}", "obligations": [],
                                "functions": [], "wall": 0, "target": "?"})
    try:
        err = rp.communicate(timeout=max(5.0, budget + 200 - (time.time() - t0)))[1]
    except subprocess.TimeoutExpired:
        rp.kill()
        err = "timeout"
    concrete = {"cases": 0, "violations": [], "error": None}
    if os.path.exists(rout):
        concrete = json.load(open(rout, encoding="utf-8"))
        os.unlink(rout)
    else:
        concrete["error"] = (err or "no output")[-2000:]
    code = report(prop, tier, seed, results, concrete, t0)
    sys.exit(code)


def report(prop, tier, seed, results, concrete, t0):
    from pyvc.assumptions import GENERAL, of_property
    obligations = sum(o["instances"] for r in results for o in r["obligations"])
    discharged = sum(o["proved"] for r in results for o in r["obligations"])
    failed = [(r, o) for r in results for o in r["obligations"] if o["proved"] != o["instances"]]
    undecided = [r for r in results if r["status"] != "ok"]
    violations = list(concrete["violations"])
    lines = []
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}.json")
    for what in known_findings(prop):
        if concrete.get("known", {}).get(what.split(":")[0]):
            lines.append(f"KNOWN-FINDING: property={prop} {what}")
    code = 0
    if failed or violations:
        code = 1
        doc = {"property": prop,
               "failed_obligations": [{"unit": r["unit"], "function": r["target"], "obligation": o["name"],
                                       "instances": o["instances"], "not_discharged": o["instances"] - o["proved"],
                                       "verifier_output": o["detail"]} for r, o in failed],
               "failing_inputs": violations,
               "how_to_replay": f"cd /verif && PYTHONPATH=/verif {VENV} -m replay.run --replay {path}"}
        json.dump(doc, open(path, "w", encoding="utf-8"), indent=1)
        lines.append(f"VIOLATION property={prop} replay={path}" + ("" if violations else " no-failing-input-found"))
    for r, o in failed:
        lines.append(f"  failed obligation {o['name']} in {r['unit']} ({r['target']}): {o['failed']} refuted, "
                     f"{o['unknown']} unknown of {o['instances']}")
    for v in violations[:5]:
        lines.append(f"  failing input: {v.get('summary')}")
    for r in undecided:
        lines.append(f"  undecided unit {r['unit']}: {r['status']}: {r['detail'][:300]} "
                     "(bounded concrete exploration stands in)")
    proved = not failed and not undecided and obligations > 0
    coverage = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": f"python3-vt check.py {prop}",
        "trusted_base": ["z3 " + z3_version() + " (array extensionality off: weaker, sound)", "pyvc (the verification "
                         "condition generator in /verif/pyvc)"] + GENERAL,
        "units": [{k: r.get(k) for k in ("unit", "target", "status", "detail", "paths", "passes", "queries",
                                         "solver_time", "unknowns", "wall")} |
                  {"obligations": [{k: o[k] for k in ("name", "instances", "proved")} for o in r["obligations"]]}
                  for r in results],
        "functions_under_contract": sorted({r["target"] for r in results}),
        "functions_executed_symbolically": sorted({f for r in results for f in r.get("functions", [])}),
        "back_end": "z3", "solver_time_s": round(sum(r.get("solver_time", 0) for r in results), 2),
        "undecided_units": [{"unit": r["unit"], "status": r["status"], "detail": r["detail"]} for r in undecided],
        "bounded_concrete": {k: concrete.get(k) for k in ("cases", "distinct_nontrivial", "rule", "samples", "error",
                                                          "bound")},
        "evaluations": concrete.get("cases", 0),
        "distinct_nontrivial": concrete.get("distinct_nontrivial", 0),
        "rule": concrete.get("rule") or "none", "samples": concrete.get("samples") or [],
    }
    level = "proof" if results else "exploration"
    json.dump({"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
               "assumptions": GENERAL + of_property(prop), "wall_s": round(time.time() - t0, 2),
               "violations": len(violations) + (1 if failed and not violations else 0)},
              open(os.path.join(HERE, "evidence", f"{prop}.json"), "w", encoding="utf-8"), indent=1)
    status = "held (all obligations discharged)" if proved else "broken" if code else \
        "held on everything explored (not every obligation was within reach)"
    print(f"{prop}: {status}: {discharged}/{obligations} obligations of {len(results)} units, "
          f"{concrete.get('cases', 0)} concrete executions, {time.time() - t0:.1f} s")
    if concrete.get("error"):
        print("  concrete side: " + str(concrete["error"]).strip().splitlines()[-1][:300])
    for x in lines:
        print(x)
    if results and obligations == 0 and not undecided:
        print("  no obligations were generated")
        return 2
    return code


def z3_version():
    import z3
    return z3.get_version_string()


if __name__ == "__main__":
    main()
