#!/usr/bin/env python3-vt
"""Record which loop invariant candidates of the unchanged code are refuted (see pyvc/run.py); [UNIT-PREFIX ...]."""
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from pyvc.run import HINTS, run_unit, units_of     # noqa: E402


def one(name):
    u = next(u for u in units_of() if u.name == name)
    r = run_unit(u(), budget=1500, use_hints=False)
    h = r.get("hints")
    p = os.path.join(HINTS, name + ".json")
    if h and any(h):
        with open(p, "w", encoding="utf-8") as f:
            json.dump(h, f, indent=0)
    elif os.path.exists(p):
        os.unlink(p)
    bad = [o["name"] for o in r["obligations"] if o["proved"] != o["instances"]]
    return f"{name} {r['status']} {r['detail']} {r['wall']} {'FAILED ' + str(bad) if bad else ''}"


def main():
    os.makedirs(HINTS, exist_ok=True)
    names = [u.name for u in units_of() if any(u.name.startswith(p) for p in sys.argv[1:] or [""])]
    with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("spawn"), max_tasks_per_child=1) as ex:
        for f in cf.as_completed([ex.submit(one, n) for n in names]):
            print(f.result(), flush=True)


if __name__ == "__main__":
    main()
