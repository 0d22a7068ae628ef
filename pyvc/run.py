"""Run verification units and collect their obligations."""
import gc
import importlib
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)


HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "hints")


def hints_of(name):
    """
    Loop invariant candidates that an earlier run refuted. Starting without them saves the work of refuting them again;
    as it can only make fewer invariants available, it has no influence on what a proof is worth.
    """
    p = os.path.join(HINTS, name + ".json")
    if not os.path.exists(p):
        return []
    with open(p, encoding="utf-8") as f:
        return json.load(f)


def complete(res):
    return res["status"] == "ok" and all(o["proved"] == o["instances"] for o in res["obligations"])


def run_unit(unit, repo_root="/repo", budget=600.0, use_hints=True):
    """Verify one unit; returns a plain dictionary."""
    t0 = time.time()
    hints = hints_of(unit.name) if use_hints else []
    if hints:
        res = attempt(unit, repo_root, t0 + budget, hints, t0)
        if complete(res) or res["status"] in ("unsupported", "budget"):
            return res
        unit = type(unit)()
    res = attempt(unit, repo_root, t0 + budget, [], time.time() + 60)
    res["wall"] = round(time.time() - t0, 2)
    return res


def attempt(unit, repo_root, deadline, hints, stop_after):
    from .repo import Repo
    from .interp import Interp
    from .engine import Budget, Impure, Refuted
    from .values import Unsupported
    t0 = time.time()
    gc.disable()        # terms are not cyclic
    res = {"unit": unit.name, "prop": unit.prop, "target": unit.target, "status": "ok", "detail": "",
           "obligations": [], "functions": []}
    E = None

    def count(obls):
        agg = {}
        for o in obls:
            a = agg.setdefault(o.name, {"name": o.name, "instances": 0, "proved": 0, "failed": 0, "unknown": 0,
                                        "detail": ""})
            a["instances"] += 1
            a[o.status] += 1
            if o.status != "proved" and not a["detail"]:
                a["detail"] = o.detail
        res["obligations"] = list(agg.values())
        return agg
    try:
        repo = Repo(repo_root)
        E = Interp(unit, repo, deadline=deadline)
        E.hints, E.stop_after = hints, stop_after
        E.run()
        agg = count(E.results)
        res["covers"] = sorted(E.covers)
        missing = set(unit.expect_covers) - E.covers
        if missing and not any(a["failed"] or a["unknown"] for a in agg.values()):
            res["status"], res["detail"] = "vacuous", f"never reached: {sorted(missing)}"
        for n in unit.expect_obligations:
            if n not in agg and res["status"] == "ok":
                res["status"], res["detail"] = "vacuous", f"obligation {n} was never generated"
    except Refuted:
        count(E.results)
        res["detail"] = "stopped at the first refuted obligation"
    except (Unsupported, Impure, Budget) as e:
        res["status"] = "unsupported" if not isinstance(e, Budget) else "budget"
        res["detail"] = f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-1500:]
        if isinstance(e, Budget) and E is not None and E.refuted_obls:
            count(E.refuted_obls)
            res["status"] = "ok"
    except RecursionError as e:
        res["status"], res["detail"] = "unsupported", "recursion"
    except Exception as e:      # pylint: disable=broad-except
        res["status"], res["detail"] = "error", f"{type(e).__name__}: {e}"
        res["trace"] = traceback.format_exc()[-3000:]
    if E is not None:
        res.update(queries=E.queries, solver_time=round(E.solver_time, 2), paths=E.paths_total, passes=E.passes,
                   unknowns=E.unknowns, functions=sorted({f"{m}.{q}" for m, q in E.functions}))
        if complete(res):
            res["hints"] = [sorted(x for x in i.dead if isinstance(x, str)) for i in E.loops.values()]
    res["wall"] = round(time.time() - t0, 2)
    return res


def units_of(prop=None):
    from . import specs
    out = []
    d = os.path.dirname(specs.__file__)
    for f in sorted(os.listdir(d)):
        if f.endswith(".py") and f != "__init__.py":
            m = importlib.import_module(f"pyvc.specs.{f[:-3]}")
            for u in m.UNITS:
                if prop is None or u.prop == prop:
                    out.append(u)
    return out


def main():
    """python3-vt -m pyvc.run UNIT-NAME-PREFIX: verify units in this process and print the result (development)."""
    pref = sys.argv[1]
    root = sys.argv[2] if len(sys.argv) > 2 else "/repo"
    for u in units_of():
        if u.name.startswith(pref):
            r = run_unit(u(), root, float(os.environ.get("BUDGET", "600")), not os.environ.get("NOHINTS"))
            if os.environ.get("WRITEHINTS") and r.get("hints") is not None:
                os.makedirs(HINTS, exist_ok=True)
                with open(os.path.join(HINTS, u.name + ".json"), "w", encoding="utf-8") as f:
                    json.dump(r["hints"], f, indent=0)
            print(u.name, r["status"], r["detail"], f"paths={r.get('paths')} passes={r.get('passes')} "
                  f"q={r.get('queries')} st={r.get('solver_time')} wall={r['wall']} unk={r.get('unknowns')}")
            for o in r["obligations"]:
                print("   ", "ok  " if o["proved"] == o["instances"] else "FAIL", o["name"], o["instances"],
                      o["detail"] if os.environ.get("V") else "")
            if r.get("trace"):
                print(r["trace"])


if __name__ == "__main__":
    main()
