"""Scenarios and judgements for the parts without a session manager: configuration, keys, storage, Maybe."""
import asyncio
import base64
import copy
import itertools

import xeddsa
from omemo.backend import Backend
from omemo.identity_key_pair import IdentityKeyPair
from omemo.session_manager import SessionManager
from omemo.storage import Just, Maybe, Nothing, NothingException, Storage, StorageException

from .fakes import FakeBackend, FakeStorage, World, b64, manager_class
from .scen import Case, OWN, setup, stop_tasks, IKPS


# ---------------------------------------------------------------------------------------------------------------- C25

class Bare(FakeBackend):
    def __init__(self, *a, **k):        # pylint: disable=super-init-not-called
        Backend.__init__(self, *a, **k)


async def config(w, r):
    c = Case("config", w)
    vals = [0, 1, 2, 3, 5, 999, 1000, 1001]
    S, M = r.choice(vals), r.choice(vals + [None])
    c.args = {"per_session": S, "per_message": M}
    form = r.randrange(3)
    try:
        b = Bare(S, M) if form == 0 else Bare(max_num_per_session_skipped_keys=S, max_num_per_message_skipped_keys=M) \
            if form == 1 or M is not None else Bare(S)
        c.res = (b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys)
    except Exception as e:              # pylint: disable=broad-except
        c.exc = e
    return c


async def default_config(w, r):
    c = Case("config", w)
    c.args = {"per_session": 1000, "per_message": None}
    try:
        b = Bare()
        c.res = (b.max_num_per_session_skipped_keys, b.max_num_per_message_skipped_keys)
    except Exception as e:              # pylint: disable=broad-except
        c.exc = e
    return c


def c25(c):
    out = []
    if c.op == "config":
        S, M = c.args["per_session"], c.args["per_message"]
        ok = M is None or (M <= S and (M != 0 or S == 0))
        if ok and (c.exc is not None or c.res != (S, S if M is None else M)):
            out.append(f"limits {S}, {M}: {c.exc!r}, exposed {c.res}")
        if not ok and not isinstance(c.exc, ValueError):
            out.append(f"limits {S}, {M} were not rejected with ValueError: {c.exc!r}")
    if c.op == "create":
        ns, t = c.args["namespaces"], c.args["threshold"]
        bad = len(set(ns)) != len(ns) or not 25 <= t <= 99
        if bad and (not isinstance(c.exc, ValueError) or c.evs):
            out.append(f"create accepted {ns} with threshold {t}, or had effects before rejecting it: {c.exc!r}")
        if not bad and isinstance(c.exc, ValueError):
            out.append(f"create rejected {ns} with threshold {t}: {c.exc!r}")
    return out


# ---------------------------------------------------------------------------------------------------------------- C26

async def fingerprint(w, r):
    c = Case("format_identity_key", w)
    seed = bytes(r.randrange(256) for _ in range(32)) if r.random() < .9 else bytes([r.randrange(256)]) * 32
    ik = xeddsa.seed_to_ed25519_pub(seed)
    c.args = {"identity_key": ik}
    try:
        c.res = SessionManager.format_identity_key(ik)
    except Exception as e:              # pylint: disable=broad-except
        c.exc = e
    return c


def c26(c):
    if c.op != "format_identity_key":
        return []
    if c.exc is not None:
        return [f"failed with {c.exc!r}"]
    want = xeddsa.ed25519_pub_to_curve25519_pub(c.args["identity_key"]).hex()
    g = c.res
    if len(g) != 8 or any(len(x) != 8 for x in g) or "".join(g) != want:
        return [f"{g} is not {want} in eight groups"]
    return []


# ---------------------------------------------------------------------------------------------------------------- C16

async def key_pair(w, r):
    c = Case("IdentityKeyPair.get", w)
    seed = bytes(r.randrange(256) for _ in range(32))
    what = r.choice(["none", "none", "seed", "priv", "flag", "key"])
    flag = True if what != "priv" else False
    if what in ("flag", "key"):
        flag = r.random() < .5
    if what in ("seed", "priv", "flag"):
        w.kv["/ikp/is_seed"] = flag
    if what in ("seed", "priv", "key"):
        w.kv["/ikp/key"] = b64(seed if flag else xeddsa.seed_to_priv(seed))
    c.args = {"stored": what}
    w.own_id, w.undecided_name = 1, "undecided"
    c.start, c.pre = 0, dict(w.kv)
    c.x.update(loaded=[], draws=[])
    w.fault_at = w.fault_rel
    import secrets
    real = secrets.token_bytes

    def draw(n=None):
        v = real(n)
        c.x["draws"].append(v)
        return v
    secrets.token_bytes = draw
    try:
        disable = r.random() < .5
        st = FakeStorage(w, disable)
        try:
            c.res = await IdentityKeyPair.get(st)
        except Exception as e:          # pylint: disable=broad-except
            c.exc = e
        c.x["mid"] = len(w.log)
        c.x["kv"] = dict(w.kv)
        w.fault_at = None
        c.x["again"] = []
        if c.exc is None:
            for s2 in (st, FakeStorage(w, disable)):
                try:
                    c.x["again"].append(await IdentityKeyPair.get(s2))
                except Exception as e:  # pylint: disable=broad-except
                    c.x["again"].append(e)
    finally:
        secrets.token_bytes = real
    return c


def shown(p):
    """What a key pair exposes."""
    if isinstance(p, Exception):
        return repr(p)
    q = p.as_priv()
    return (p.is_seed, p.is_priv, p.seed if p.is_seed else p.priv, p.identity_key, q.is_priv, q.is_seed, q.priv,
            q.identity_key)


def c16(c):
    if c.op != "IdentityKeyPair.get":
        return []
    out = []
    evs = c.w.log[:c.x["mid"]]
    stores = [e for e in evs if e.op in ("_store", "_delete")]
    complete = "/ikp/is_seed" in c.pre and "/ikp/key" in c.pre
    kv = c.x["kv"]
    if c.exc is not None:
        if not c.w.injected:
            out.append(f"failed with {c.exc!r}")
        if complete and stores:
            out.append("a complete key pair was rewritten")
        return out
    if complete:
        if stores or kv != c.pre or c.x["draws"]:
            out.append("a complete key pair was replaced")
        flag, key = c.pre["/ikp/is_seed"], c.pre["/ikp/key"]
    else:
        if len(c.x["draws"]) != 1 or len(c.x["draws"][0]) != 32:
            out.append("the key was not generated from 32 fresh random bytes")
        elif kv.get("/ikp/is_seed") is not True or kv.get("/ikp/key") != b64(c.x["draws"][0]):
            out.append("the generated seed was not stored completely")
        if c.w.injected and any(e.exc is not None and e.op == "_store" for e in evs):
            out.append("a key pair that could not be stored was returned")
        flag, key = kv.get("/ikp/is_seed"), kv.get("/ikp/key")
    if key is None:
        return out
    secret = base64.urlsafe_b64decode(key)
    if flag:
        priv, pub = xeddsa.seed_to_priv(secret), xeddsa.seed_to_ed25519_pub(secret)
    else:
        priv, pub = secret, xeddsa.priv_to_ed25519_pub(secret)
    want = (bool(flag), not flag, secret, pub, True, False, priv, xeddsa.priv_to_ed25519_pub(priv))
    try:
        got = shown(c.res)
    except Exception as e:              # pylint: disable=broad-except
        got = repr(e)
    if got != want:
        out.append("the returned key pair does not expose the stored secret")
    for p in c.x["again"]:
        if isinstance(p, Exception) or shown(p) != got:
            out.append("a later retrieval yields another key pair")
    if [e for e in c.w.log[c.x["mid"]:] if e.op in ("_store", "_delete")]:
        out.append("a later retrieval writes to the storage")
    return out


# ---------------------------------------------------------------------------------------------------------------- C21

VALUES = [None, 0, 1, False, True, "", "x", 1.5, [], [1], ["a", "b"], {}, {"k": True}, {"k": [1, {"z": None}]}]


class GateStorage(Storage):
    """Every operation of the underlying storage waits until the schedule lets it go on."""

    def __init__(self, disable_cache):
        super().__init__(disable_cache)
        self.kv, self.waiting, self.log, self.fail = {}, [], [], set()

    async def gate(self, what, key):
        n = len(self.log)
        self.log.append([what, key, None])
        f = asyncio.get_running_loop().create_future()
        self.waiting.append(f)
        await f
        if n in self.fail:
            self.log[n][2] = "failed"
            raise StorageException("injected")
        return n

    async def _load(self, key):
        n = await self.gate("load", key)
        v = Just(self.kv[key]) if key in self.kv else Nothing()
        # the value is read; getting it back takes another while
        f = asyncio.get_running_loop().create_future()
        self.waiting.append(f)
        await f
        self.log[n][2] = "done"
        return v

    async def _store(self, key, value):
        n = await self.gate("store", key)
        self.kv[key] = copy.deepcopy(value)
        self.log[n][2] = "done"

    async def _delete(self, key):
        n = await self.gate("delete", key)
        self.kv.pop(key, None)
        self.log[n][2] = "done"


MISSING = "<missing>"


def plain(m):
    return MISSING if m.is_nothing else m.from_just()


async def cache(w, r):
    """Overlapping and sequential accesses to some keys."""
    c = Case("storage", w)
    disable = r.random() < .25
    st = GateStorage(disable)
    keys = ["/a", "/b"]
    for k in keys:
        if r.random() < .6:
            st.kv[k] = copy.deepcopy(r.choice(VALUES))
    model = dict(copy.deepcopy(st.kv))           # last completed store or delete
    overlap = r.random() < .6
    hist, pending, bad = [f"initially {st.kv!r}, caching {not disable}"], [], []
    nstep = r.randint(2, 10)
    written = {k: [] for k in keys}

    async def settle():
        for _ in range(6):
            await asyncio.sleep(0)

    def finish(p):
        op, k, v, t, snap, begun = p
        pending.remove(p)
        try:
            res = t.result()
        except StorageException:
            hist.append(f"{op} {k} failed")
            if op != "load":
                written[k].append(("failed",))
            return
        except Exception as e:          # pylint: disable=broad-except
            bad.append(f"{op} {k} raised {e!r}")
            return
        if op == "load":
            got = plain(res)
            hist.append(f"load {k} returned {got!r}")
            # acceptable: the value of any store/delete completed since the load began, or the last one before it
            if not any(same(got, x) for x in snap):
                bad.append(f"load of {k} returned {got!r} instead of {snap[-1]!r}")
        else:
            new = copy.deepcopy(v) if op == "store" else MISSING
            hist.append(f"{op} {k} completed")
            if new is MISSING or new == MISSING:
                model.pop(k, None)
            else:
                model[k] = new
            if not same(st.kv.get(k, MISSING), model.get(k, MISSING)) and not any(
                    q[0] in ("store", "delete") and q[1] == k for q in pending):
                bad.append(f"{op} of {k} returned before it reached the underlying storage")
            for q in pending:
                if q[0] == "load" and q[1] == k:
                    q[4].append(model.get(k, MISSING))

    loads_done = {k: 0 for k in keys}
    steps = 0
    while steps < nstep or pending:
        if steps < nstep and (not pending or (overlap and r.random() < .5)):
            steps += 1
            k = r.choice(keys) if r.random() < .3 else keys[0]
            op = r.choice(["load", "load", "store", "delete"])
            if op != "load" and any(p[1] == k and p[0] != "load" for p in pending):
                continue                # writes of one key do not overlap each other
            v = copy.deepcopy(r.choice(VALUES))
            before = len(st.log)
            if r.random() < .15:
                st.fail.add(before)
            coro = st.load(k) if op == "load" else st.store(k, v) if op == "store" else st.delete(k)
            snap = [model.get(k, MISSING)]
            # a write already under way may take effect at any time
            t = asyncio.ensure_future(coro)
            p = (op, k, v, t, snap, before)
            if op == "load":
                for q in pending:
                    if q[1] == k and q[0] != "load":
                        snap.append(MISSING if q[0] == "delete" else q[2])
            else:
                for q in pending:
                    if q[1] == k and q[0] == "load":
                        q[4].append(MISSING if op == "delete" else copy.deepcopy(v))
            hist.append(f"{op} {k}" + (f" {v!r}" if op == "store" else "") + " begins")
            pending.append(p)
        else:
            live = [f for f in st.waiting if not f.done()]
            if live:
                live[r.randrange(len(live)) if overlap else 0].set_result(None)
        await settle()
        for p in [p for p in pending if p[3].done()]:
            finish(p)
        if not pending and any(not f.done() for f in st.waiting):
            st.waiting = []
    # everything is quiet: all keys show the last completed write
    for k in keys:
        n0 = len(st.log)
        t = asyncio.ensure_future(st.load(k))
        await settle()
        while not t.done():
            for f in st.waiting:
                if not f.done():
                    f.set_result(None)
            await settle()
        try:
            got = plain(t.result())
            if not same(got, model.get(k, MISSING)):
                bad.append(f"in the end load of {k} returned {got!r} instead of {model.get(k, MISSING)!r}")
        except StorageException:
            continue
        n1 = len(st.log)
        t = asyncio.ensure_future(st.load(k))
        await settle()
        if not disable and len(st.log) != n1:
            bad.append(f"{k} was read again from the underlying storage")
        while not t.done():
            for f in st.waiting:
                if not f.done():
                    f.set_result(None)
            await settle()
        if disable and len(st.log) == n1:
            bad.append("a value was cached although caching is disabled")
        if not same(st.kv.get(k, MISSING), model.get(k, MISSING)):
            bad.append(f"the underlying storage has {st.kv.get(k, MISSING)!r} for {k}")
    c.args = {"history": hist}
    c.x["bad"] = bad
    await stop_tasks()
    return c


def same(a, b):
    """Equality of JSON values that tells True from 1."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


async def cache_reads(w, r):
    """Sequential use: reads of the underlying storage, mutation of stored and loaded objects, foreign keys."""
    c = Case("storage", w)
    w.own_id, w.undecided_name = 1, ""
    disable = r.random() < .3
    st = FakeStorage(w, disable)
    keys = ["/k%d" % i for i in range(3)]
    for k in keys:
        if r.random() < .6:
            w.kv[k] = copy.deepcopy(r.choice(VALUES))
    cached, bad, hist = set(), [], [f"initially {w.kv!r}, caching {not disable}"]
    model = copy.deepcopy(w.kv)
    for _ in range(r.randint(1, 12)):
        k, op = r.choice(keys), r.choice(["load", "load", "store", "delete"])
        n0 = len(w.log)
        fail = r.random() < .15
        w.fault_at = n0 if fail else None
        v = copy.deepcopy(r.choice(VALUES))
        hist.append(f"{op} {k}" + (f" {v!r}" if op == "store" else "") + (" (failing)" if fail else ""))
        try:
            if op == "load":
                m = await st.load(k)
                got = plain(m)
                if not same(got, model.get(k, MISSING)):
                    bad.append(f"load of {k} returned {got!r} instead of {model.get(k, MISSING)!r}")
                if isinstance(got, list):
                    got.append("changed")
                elif isinstance(got, dict):
                    got["changed"] = 1
            elif op == "store":
                await st.store(k, v)
                model[k] = copy.deepcopy(v)
            else:
                await st.delete(k)
                model.pop(k, None)
        except StorageException:
            if not fail:
                bad.append(f"{op} failed by itself")
        except Exception as e:          # pylint: disable=broad-except
            bad.append(f"{op} raised {e!r}")
        calls = [(e.op, e.a["key"]) for e in w.log[n0:]]
        want = [] if op == "load" and k in cached else [("_" + op, k)]
        if calls != want:
            bad.append(f"{op} of {k} called {calls} instead of {want}")
        if not fail or (op == "load" and k in cached):
            if not disable:
                cached.add(k)
            if op == "store" and isinstance(v, (list, dict)) and not disable:
                (v.append("later") if isinstance(v, list) else v.update(later=1))   # must not show
    w.fault_at = None
    if not same(w.kv, model):
        bad.append(f"the underlying storage has {w.kv!r} instead of {model!r}")
    c.args = {"history": hist}
    c.x["bad"] = bad
    return c


def c21(c):
    return list(c.x["bad"]) if c.op == "storage" else []


# ---------------------------------------------------------------------------------------------------------------- C22

PRIMS = [type(None), float, int, str, bool]


def has_type(v, p):
    return isinstance(v, p)


async def typed(w, r):
    c = Case("typed", w)
    bad = []
    st = FakeStorage(w, r.random() < .5)
    pool = VALUES + [[True], [1, True], ["a", None], [None], {"a": 1}, {"a": "b", "c": None}, {"a": True, "b": 1}, [1.5],
                     ["a", 1], {"a": 1.5}, [[1]], [{"a": 1}], {"a": [1]}, "abc=", "YWJj", -1, 10 ** 12]
    k = "/key"
    stored = r.random() < .9
    v = copy.deepcopy(r.choice(pool))
    if stored:
        await st.store(k, copy.deepcopy(v))
    what = r.choice(["primitive", "optional", "list", "dict", "bytes", "roundtrip"])
    p = r.choice(PRIMS)
    c.args = {"stored": v if stored else MISSING, "load": what, "type": p.__name__}

    async def attempt(coro):
        try:
            return "ok", await coro
        except TypeError:
            return "TypeError", None
        except Exception as e:          # pylint: disable=broad-except
            return repr(e), None
    if what == "roundtrip":
        data = bytes(r.randrange(256) for _ in range(r.choice([0, 1, 2, 3, 16, 31, 32, 33, 64])))
        c.args["data"] = data
        await st.store_bytes(k, data)
        s, m = await attempt(st.load_bytes(k))
        if s != "ok" or not m.is_just or m.from_just() != data or type(m.from_just()) is not bytes:
            bad.append(f"bytes {data!r} came back as {s} {m and m.from_just()!r}")
        if not isinstance(w.kv[k], str):
            bad.append("bytes were not stored as a JSON value")
    else:
        if what == "primitive":
            ok, s_m = has_type(v, p), await attempt(st.load_primitive(k, p))
        elif what == "optional":
            ok, s_m = v is None or has_type(v, p), await attempt(st.load_optional(k, p))
        elif what == "list":
            ok, s_m = isinstance(v, list) and all(has_type(x, p) for x in v), await attempt(st.load_list(k, p))
        elif what == "dict":
            ok, s_m = isinstance(v, dict) and all(has_type(x, p) for x in v.values()), await attempt(st.load_dict(k, p))
        else:
            if isinstance(v, str) and v not in ("", "YWJj"):
                c.x["bad"] = []
                return c
            ok, s_m = isinstance(v, str), await attempt(st.load_bytes(k))
        s, m = s_m
        want = base64.urlsafe_b64decode(v.encode()) if what == "bytes" and ok else v
        if not stored:
            if s != "ok" or not m.is_nothing:
                bad.append(f"a missing value was loaded as {s}")
        elif ok:
            if s != "ok" or m.is_nothing or not same(m.from_just(), want):
                bad.append(f"{v!r} loaded as {what} of {p.__name__}: {s} {m and plain(m)!r}")
        elif s != "TypeError":
            bad.append(f"{v!r} loaded as {what} of {p.__name__}: {s} instead of TypeError")
    c.x["bad"] = bad
    return c


async def maybe(w, r):
    c = Case("maybe", w)
    bad = []
    v = copy.deepcopy(r.choice([x for x in VALUES] + [[[1], [2]], {"a": {"b": []}}]))
    orig = copy.deepcopy(v)
    c.args = {"value": orig}

    def mutate(x):
        if isinstance(x, list):
            if x and isinstance(x[0], list):
                x[0].append(7)
            x.append("m")
        elif isinstance(x, dict):
            for y in x.values():
                if isinstance(y, (dict, list)):
                    mutate(y)
            x["m"] = "m"
    j, n = Just(v), Nothing()
    calls = []

    def f(x):
        calls.append(copy.deepcopy(x))
        mutate(x)
        return ["mapped", x]
    kept = []
    for step in [r.choice(["orig", "from_just", "maybe", "fmap"]) for _ in range(5)]:
        if step == "orig":
            mutate(v)
        elif step == "from_just":
            x = j.from_just()
            if not same(x, orig):
                bad.append(f"from_just yields {x!r} instead of {orig!r}")
            mutate(x)
        elif step == "maybe":
            x = j.maybe("default")
            if not same(x, orig):
                bad.append(f"maybe yields {x!r} instead of {orig!r}")
            mutate(x)
        else:
            del calls[:]
            g = j.fmap(f)
            exp = copy.deepcopy(orig)
            mutate(exp)
            if len(calls) != 1 or not same(calls[0], orig) or not g.is_just or g.from_just() != ["mapped", exp]:
                bad.append(f"fmap applied the function {len(calls)} times, to {calls}, giving {g.maybe(None)!r}")
            res = [1]
            h = j.fmap(lambda x: res)
            res.append(2)
            if h.from_just() != [1]:
                bad.append("the result of fmap is not isolated")
    if not (j.is_just and not j.is_nothing and n.is_nothing and not n.is_just):
        bad.append("is_just/is_nothing")
    try:
        n.from_just()
        bad.append("from_just of Nothing")
    except NothingException:
        pass
    except Exception as e:              # pylint: disable=broad-except
        bad.append(f"from_just of Nothing raises {e!r}")
    d = object()
    if n.maybe(d) is not d:
        bad.append("maybe of Nothing does not yield the default")
    del calls[:]
    m = n.fmap(f)
    if calls or not m.is_nothing:
        bad.append("fmap of Nothing")
    c.x["bad"] = bad
    return c


def c22(c):
    return list(c.x["bad"]) if c.op in ("typed", "maybe") else []
