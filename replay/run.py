"""
python -m replay.run PROPERTY TIER SEED OUT.json: run the scenarios of a property and judge them.
python -m replay.run --replay FILE: run the failing inputs recorded in FILE again.
"""
import asyncio
import json
import os
import sys
import time
import random
import logging

HASHSEED = "1"
if os.environ.get("PYTHONHASHSEED") != HASHSEED:
    os.environ["PYTHONHASHSEED"] = HASHSEED     # sets are iterated in a reproducible order
    os.execv(sys.executable, [sys.executable, "-m", "replay.run"] + sys.argv[1:])

sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
logging.disable(logging.CRITICAL)

from . import oracle as o, pure as p, scen as s     # noqa: E402
from .fakes import World                            # noqa: E402
from omemo.storage import NothingException          # noqa: E402

ENC, DEC = s.encrypt, s.decrypt
LIST = s.update_list
ALL = [ENC, DEC, LIST, s.information, s.trust, s.label, s.ensure, s.replace, s.purge_backend, s.purge_jid, s.create, s.history,
       s.chain_length]
TABLE = {
    "C01": (o.c01, [ENC]), "C02": (o.c02, [ENC]), "C03": (o.c03, [ENC]), "C04": (o.c04, [ENC]),
    "C05": (o.c05, [ENC, DEC, s.replace]), "C06": (o.c06, [ENC, DEC, s.replace, s.history]),
    "C07": (o.c07, [DEC]), "C08": (o.c08, [DEC]), "C09": (o.c09, [DEC]), "C10": (o.c10, [DEC, DEC, s.history]),
    "C11": (o.c11, [DEC, s.history]), "C12": (o.c12, [LIST]), "C13": (o.c13, [LIST]), "C14": (o.c14, [s.information]),
    "C15": (o.c15, ALL), "C16": (p.c16, [p.key_pair]), "C17": (o.c17, [s.create]), "C18": (o.c18, [s.create]),
    "C19": (o.c19, [s.purge_backend]), "C20": (o.c20, [s.purge_jid]), "C21": (p.c21, [p.cache, p.cache, p.cache_reads]),
    "C22": (p.c22, [p.typed, p.maybe]), "C23": (o.c23, [s.replace]), "C24": (o.c24, [s.rotation]),
    "C25": (p.c25, [p.config, p.config, p.default_config, s.create]), "C26": (p.c26, [p.fingerprint]),
    "C27": (o.c27, [s.ensure, s.label]),
}
# An operation that fails with an internal error does not do what the property promises for it.
OWNER = {"encrypt": ("C02", "C03"), "decrypt": ("C07", "C08"), "after_history_sync": ("C11",), "update_device_list": ("C12",),
         "refresh_device_list": ("C13",), "get_device_information": ("C14",), "set_trust": ("C15",), "set_own_label": ("C27",),
         "ensure_data_consistency": ("C27",), "replace_sessions": ("C23",), "purge_backend": ("C19",),
         "purge_bare_jid": ("C20",), "create": ("C17", "C18")}
INTERNAL = (NameError, AttributeError, KeyError, IndexError, TypeError, AssertionError, RuntimeError, ArithmeticError,
            StopIteration, StopAsyncIteration, NothingException)
NO_FAULTS = (s.rotation, p.cache, p.cache_reads, p.typed, p.maybe, p.config, p.default_config, p.fingerprint)


def verdict(prop, judge, c):
    bad = judge(c)
    if isinstance(c.exc, INTERNAL) and prop in OWNER.get(c.op, ()) and (
            prop not in ("C12", "C13") or o.consistent(c.pre)):
        bad.append(f"{c.op} failed with {type(c.exc).__name__}: {c.exc}")
    return bad


async def one(scenario, seed, fault, pick):
    w = World(seed * 7919 + 1)
    w.fault_rel, w.fault_pick = fault, pick
    return await scenario(w, random.Random(seed))


async def known_c18():
    """The recorded defect of create: a first run that fails while uploading never publishes afterwards."""
    from .fakes import manager_class, FakeStorage
    for seed in range(1, 30):
        w, r = World(seed), random.Random(seed)
        w.fault_rel = None
        bs = await s.setup(w, r, loaded=["urn:a"], known=["urn:a"])
        w.kv.clear()
        w.storage = FakeStorage(w, True)
        cls = manager_class(w)
        w.on_event = lambda e, w=w: setattr(w, "fault_at", e.i) if e.op == "upload_bundle" and not w.injected else None
        try:
            await cls.create(bs, w.storage, s.OWN, None, "undecided")
            return False
        except Exception:               # pylint: disable=broad-except
            pass
        n0 = len(w.log)
        w.on_event, w.fault_at = None, None
        await cls.create(bs, w.storage, s.OWN, None, "undecided")
        await s.stop_tasks()
        return not [e for e in w.log[n0:] if e.op == "upload_bundle"]
    return False


async def search(prop, tier, seed):
    judge, scenarios = TABLE[prop]
    limit = {"quick": 45.0, "thorough": 420.0}[tier]
    cap = {"quick": 6000, "thorough": 120000}[tier]
    t0, cases, shapes, found, samples, skipped = time.time(), 0, {}, [], [], 0
    kinds, crashed, error = set(), 0, None

    def judged(scenario, c, sd, fault, pick):
        nonlocal cases
        cases += 1
        ops = tuple(e.op for e in c.w.log[c.start:])
        shape = (c.op, ops if len(ops) < 60 else len(ops), type(c.exc).__name__, repr(c.args)[:80] if not ops else "")
        if len(shapes) < 200000 and shape not in shapes:
            shapes[shape] = 1
            if len(samples) < 8 and c.exc is None:
                samples.append(f"{scenario.__name__} seed={sd} fault={fault}: {c.op} made {len(ops)} calls")
        try:
            bad = verdict(prop, judge, c)
        except Exception as e:          # pylint: disable=broad-except
            import traceback
            tb = traceback.extract_tb(e.__traceback__)[-1]
            bad = [f"the outcome cannot be judged ({type(e).__name__}: {e} in {os.path.basename(tb.filename)}:{tb.lineno})"]
        if not bad:
            return
        try:
            story = [str(x)[:400] for x in c.story()][:120]
        except Exception as e:          # pylint: disable=broad-except
            story = [f"{c.op}{c.args!r} -> {c.res!r} {c.exc!r}"[:2000]]
        for b in bad:
            k = (scenario.__name__, "".join(x for x in b if x.isalpha())[:40])
            if k not in kinds and len(found) < 12:
                kinds.add(k)
                found.append({"summary": b, "scenario": scenario.__name__, "seed": sd, "fault": fault, "pick": pick,
                              "story": story})

    i = 0
    while time.time() - t0 < limit and cases < cap and len(found) < 12 and crashed < 200:
        scenario = scenarios[i % len(scenarios)]
        sd = seed * 1000003 + i
        i += 1
        try:
            c = await one(scenario, sd, None, 0)
        except s.SetupFailed:
            skipped += 1
            continue
        except Exception as e:          # pylint: disable=broad-except
            crashed += 1
            error = f"{type(e).__name__}: {e}"
            continue
        judged(scenario, c, sd, None, 0)
        if scenario in NO_FAULTS:
            continue
        n = len(c.w.log) - c.start
        rr = random.Random(sd)
        ks = rr.sample(range(n), min(n, 4)) if tier == "quick" else rr.sample(range(n), min(n, 12))
        for k in ks:
            pick = rr.randrange(4)
            try:
                f = await one(scenario, sd, k, pick)
            except Exception:           # pylint: disable=broad-except
                continue
            judged(scenario, f, sd, k, pick)
    out = {"cases": cases, "distinct_nontrivial": len(shapes), "violations": found, "error": f"{crashed} scenarios could not be run: {error}" if crashed else None, "samples": samples,
           "skipped_setups": skipped,
           "rule": "distinct by operation, sequence of calls made to the environment, and outcome",
           "bound": f"random states with up to 3 backends and 4 accounts of up to 3 devices, each operation also with a "
                    f"failure injected at up to {4 if tier == 'quick' else 12} of its calls; at most {cap} executions or "
                    f"{limit:.0f} s", "known": {}}
    if prop == "C18":
        try:
            out["known"]["retry-after-failed-first-run"] = await known_c18()
        except Exception:               # pylint: disable=broad-except
            pass
    return out


async def replay(path):
    doc = json.load(open(path, encoding="utf-8"))
    judge, scenarios = TABLE[doc["property"]]
    by = {x.__name__: x for x in scenarios}
    bad = False
    for v in doc["failing_inputs"]:
        c = await one(by[v["scenario"]], v["seed"], v["fault"], v["pick"])
        for line in c.story():
            print("  ", line)
        for b in verdict(doc["property"], judge, c):
            bad = True
            print("VIOLATED:", b)
    return 1 if bad else 0


def main():
    if sys.argv[1] == "--replay":
        sys.exit(asyncio.run(replay(sys.argv[2])))
    prop, tier, seed, out = sys.argv[1:5]
    json.dump(asyncio.run(search(prop, tier, int(seed))), open(out, "w", encoding="utf-8"))


if __name__ == "__main__":
    main()
