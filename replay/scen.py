"""Scenarios: a random but reproducible state of the world, one operation of the library, and what happened."""
import asyncio
import copy
import random

import xeddsa
from omemo.message import Message
from omemo.session import Initiation
from omemo.types import DeviceInformation, OMEMOException
from omemo.session_manager import BundleDownloadFailed, BundleNotFound, TrustDecisionFailed, UnknownNamespace

from .fakes import World, FakeStorage, FakeBackend, FakeBundle, FakeSession, FakeKex, FakeEKM, FakeContent, Recs, \
    manager_class, b64, evaluate, LEVELS

NSS = ["urn:a", "urn:b", "urn:c"]
GHOST = "urn:gone"                      # a namespace no loaded backend handles
OWN = "own@x"
PEERS = ["al@x", "bo@x", "ce@x"]
SEED_R = random.Random(7)
IKPS = [bytes(SEED_R.randrange(256) for _ in range(32)) for _ in range(4)]
IKP_PUBS = [xeddsa.seed_to_ed25519_pub(s) for s in IKPS]
IKS = [bytes([i]) + bytes(SEED_R.randrange(256) for _ in range(31)) for i in range(12)]
NAMES = list(LEVELS) + ["device"]


class Case:
    """One executed operation."""

    def __init__(self, op, w):
        self.op, self.w, self.args, self.res, self.exc = op, w, {}, None, None
        self.start, self.pre, self.x = 0, {}, {}

    @property
    def evs(self):
        """The calls made by the operation itself."""
        return [e for e in self.w.log[self.start:] if not e.nested]

    @property
    def allevs(self):
        return self.w.log[self.start:]

    def of(self, *ops):
        return [e for e in self.evs if e.op in ops]

    @property
    def R0(self):
        return Recs(self.pre, self.w)

    @property
    def R1(self):
        return Recs(self.w.kv, self.w)

    def R(self, e):
        return Recs(e.before, self.w)

    def backend(self, ns):
        return next((b for b in self.x["loaded"] if b.ns == ns), None)

    @property
    def faulted(self):
        return bool(self.w.injected)

    def story(self):
        out = [f"{self.op} {({k: v for k, v in self.args.items()})!r}",
               f"loaded backends {self.x.get('loaded')!r}, own device {OWN}/{getattr(self.w, 'own_id', None)}"]
        out += [f"record {k} = {v!r}" for k, v in sorted(self.pre.items())]
        out += [repr(e) for e in self.w.log[self.start:]]
        out.append(f"outcome: {type(self.exc).__name__}: {self.exc}" if self.exc is not None else f"outcome: {self.res!r}")
        return out


def level_name(r):
    return r.choices(NAMES, [6, 1, 2, 2, 1, 2])[0]


def populate(w, r, jid, dids, nss, own=False):
    """Records of an account, in a state the library itself can have produced."""
    for d in dids:
        known = r.sample(nss, r.randint(1, len(nss)))
        act = {n: r.random() < .8 for n in known}
        ik = r.choice(IKS[:6]) if r.random() < .3 else r.choice(IKS)
        if r.random() < .15 and len(known) < len(nss):  # as left behind by a crash between the two writes
            act[next(n for n in nss if n not in known)] = r.random() < .8
        w.kv[f"/devices/{jid}/{d}/namespaces"] = known
        w.kv[f"/devices/{jid}/{d}/active"] = act
        w.kv[f"/devices/{jid}/{d}/label"] = r.choice([None, "lbl%d" % d, ""])
        if r.random() < .75:
            w.kv[f"/devices/{jid}/{d}/identity_key"] = b64(ik)
            if r.random() < .15 and len(known) > 1:
                act.pop(known[-1])      # support without activity, as written by old versions
        if r.random() < .8:
            w.kv[f"/trust/{jid}/{b64(ik)}"] = level_name(r)
        for n in known:
            if r.random() < .75:
                other = r.random() < .15
                w.bundles[n, jid, d] = FakeBundle(n, jid, d, r.choice(IKS) if other else ik, r.randint(0, 3))
            elif r.random() < .3:
                w.bad_bundle[n, jid, d] = r.choice([BundleDownloadFailed, BundleNotFound])
            if r.random() < .1:
                w.bad_build.add((n, jid, d))
    if dids or r.random() < .3:
        w.kv[f"/devices/{jid}/list"] = list(dids)


def sessions(w, r, b):
    for jid in [OWN] + PEERS:
        for d in w.kv.get(f"/devices/{jid}/list", []):
            if d == w.own_id and jid == OWN:
                continue
            if r.random() < .5:
                ini = r.choice([Initiation.ACTIVE, Initiation.PASSIVE])
                ik = Recs(w.kv, w).ik(jid, d) or IKS[0]
                kex = FakeKex(w, b.ik if ini is Initiation.ACTIVE else ik, r.randint(1, 3))
                b.sessions[jid, d] = FakeSession(w, b.ns, jid, d, ini, r.random() < .5, kex,
                                                 r.choice([None, 0, 52, 53, 54, 54, 99]), r.randint(0, 5))


async def setup(w, r, fault=None, loaded=None, known=None):
    """An account that has been in use for some time."""
    w.own_jid, w.undecided_name = OWN, r.choice(["undecided", "later"])
    k = r.randrange(len(IKPS))
    w.own_id = r.choice([1, 7, 2 ** 31 - 1, 4])
    w.own_ik = IKP_PUBS[k]
    nss = loaded if loaded is not None else r.sample(NSS, r.choice([1, 2, 2, 3, 3]))
    w.kv["/ikp/is_seed"], w.kv["/ikp/key"] = True, b64(IKPS[k])
    w.kv["/own_device_id"] = w.own_id
    mine = known if known is not None else nss
    for f, v in (("namespaces", list(mine)), ("active", {n: True for n in mine}), ("label", r.choice([None, "me", ""])),
                 ("identity_key", b64(w.own_ik))):
        w.kv[f"/devices/{OWN}/{w.own_id}/{f}"] = v
    w.kv[f"/trust/{OWN}/{b64(w.own_ik)}"] = w.undecided_name
    pool = list(nss) + ([GHOST] if r.random() < .5 or not nss else [])
    dids = [2, 3, 4, 5, 7, 9]
    own_others = [d for d in r.sample(dids, r.randint(0, 2)) if d != w.own_id]
    own = {k: v for k, v in w.kv.items() if k.startswith(f"/devices/{OWN}/")}
    populate(w, r, OWN, own_others, pool)
    w.kv.update(own)
    w.kv[f"/devices/{OWN}/list"] = [w.own_id] + own_others
    for jid in PEERS:
        populate(w, r, jid, r.sample(dids, r.choice([0, 1, 1, 2, 2, 3])), pool)
    for n in pool:
        for jid in [OWN] + PEERS:
            ids = [d for d in w.kv.get(f"/devices/{jid}/list", []) if r.random() < .8]
            if r.random() < .4:
                ids.append(r.choice([11, 12]))
            w.lists[n, jid] = {d: r.choice([None, "lbl%d" % d, "new"]) for d in ids}
            for d in ids:
                if (n, jid, d) not in w.bundles and r.random() < .5:
                    w.bundles[n, jid, d] = FakeBundle(n, jid, d, r.choice(IKS))
    backends = [FakeBackend(w, n, w.own_ik) for n in nss]
    for b in backends:
        b.visible = r.choice([100, 100, 99, 50, 26, 25, 1, 0])
        b.hidden = r.choice([0, 3])
        b.change_on_use = r.random() < .7
        b.age = r.choice([0, 10, 1000])
        sessions(w, r, b)
        w.bundles[b.ns, OWN, w.own_id] = FakeBundle(b.ns, OWN, w.own_id, w.own_ik, 0)
    return backends


async def make(w, r, backends, threshold=None, period=7 * 24 * 3600, cls=None):
    w.storage = FakeStorage(w, r.random() < .4)
    threshold = threshold if threshold is not None else r.choice([25, 26, 50, 99])
    w.threshold = threshold
    sm = await (cls or manager_class(w)).create(backends, w.storage, OWN, r.choice([None, "me"]), w.undecided_name, period,
                                                threshold)
    await stop_tasks()
    return sm


async def stop_tasks():
    me = asyncio.current_task()
    ts = [t for t in asyncio.all_tasks() if t is not me]
    for t in ts:
        t.cancel()
    if ts:
        await asyncio.gather(*ts, return_exceptions=True)


class SetupFailed(Exception):
    pass


async def ready(w, r, **kw):
    """A manager of an account in use, with recording starting now."""
    backends = await setup(w, r, **kw)
    w.recording = False
    try:
        sm = await make(w, r, backends)
    except Exception as e:              # pylint: disable=broad-except
        raise SetupFailed() from e
    w.recording = True
    return sm, backends


async def run_op(c, sm, backends, coro):
    """Run the operation of the case; with the fault plan in effect."""
    w = c.w
    c.start = len(w.log)
    c.pre = dict(copy.deepcopy(w.kv))
    c.x["loaded"] = list(backends)
    c.x["sessions"] = {b.ns: {k: s.copy() for k, s in b.sessions.items()} for b in backends}
    c.x["visible"] = {b.ns: b.visible for b in backends}
    c.x["lists"] = copy.deepcopy(w.lists)
    c.x["bundles"] = dict(w.bundles)
    if w.fault_rel is not None:
        w.fault_at = c.start + w.fault_rel
    try:
        c.res = await coro
    except Exception as e:              # pylint: disable=broad-except
        c.exc = e
    await stop_tasks()
    return c


def decision(w, r, everything):
    async def decide(sm, devices):
        for d in sorted(devices, key=lambda d: (d.bare_jid, d.device_id)):
            x = r.random()
            if everything or x < .9:
                await sm.set_trust(d.bare_jid, d.identity_key, r.choices(["trusted", "distrusted", "later", "device"],
                                                                          [6, 2, 0 if everything else 1, 1])[0])
        if not everything and r.random() < .1:
            raise TrustDecisionFailed("the user gave up")
    return decide


# ------------------------------------------------------------------------------------------------------- operations

async def encrypt(w, r):
    sm, bs = await ready(w, r)
    c = Case("encrypt", w)
    w.decide = decision(w, r, r.random() < .8)
    nss = [b.ns for b in bs]
    order = None
    if r.random() < .6:
        order = r.sample(nss, r.randint(0 if r.random() < .1 else 1, len(nss)))
        if r.random() < .1:
            order.insert(r.randint(0, len(order)), GHOST)
    jids = frozenset(r.sample(PEERS + [OWN], r.choice([0, 1, 1, 2, 3])))
    c.args = {"bare_jids": jids, "plaintext": {n: b"text of " + n.encode() for n in nss}, "order": order,
              "identifier": r.choice([None, "id42"])}
    if r.random() < .5:                 # make success likely
        for k in list(w.kv):
            if k.startswith("/trust/") and w.kv[k] in ("distrusted",):
                w.recording = False
                await w.storage.store(k, "trusted")
                w.recording = True
    return await run_op(c, sm, bs, sm.encrypt(jids, dict(c.args["plaintext"]), None if order is None else list(order),
                                              c.args["identifier"]))


async def decrypt(w, r, many=False):
    sm, bs = await ready(w, r)
    c = Case("decrypt", w)
    jid = r.choice(PEERS + [OWN])
    R = Recs(w.kv, w)
    ids = sorted(R.ids(jid) - ({w.own_id} if jid == OWN else set()))
    did = r.choice(ids) if ids and r.random() < .85 else r.choice([11, 12, 13])
    ns = r.choice([b.ns for b in bs]) if r.random() < .93 else GHOST
    ik = R.ik(jid, did)
    if ik is None:
        cand = [bu.identity_key for k, bu in w.bundles.items() if k[1:] == (jid, did)]
        ik = r.choice(cand) if cand else r.choice(IKS)
    kex = None
    if r.random() < .55:
        kex = FakeKex(w, ik if r.random() < .85 else r.choice(IKS), r.randint(1, 3))
    mine = FakeEKM(w, OWN, w.own_id)
    keys = set()
    if r.random() < .93:
        keys.add((mine, kex))
    for _ in range(r.randint(0, 3)):
        keys.add((FakeEKM(w, *r.choice([(OWN, w.own_id + 1), ("al@x", w.own_id), ("bo@x", 3)])),
                  FakeKex(w, ik, r.randint(1, 3)) if r.random() < .5 else None))
    content = FakeContent(w, r.random() < .3)
    msg = Message(ns, jid, did, content, frozenset(keys))
    c.args = {"message": msg}
    c.x["mine"], c.x["kex"] = (mine if any(k is mine for k, _ in keys) else None), kex
    sync = r.random() < .5
    w.recording = False
    if not sync:
        await sm.after_history_sync()
        if r.random() < .2:
            await sm.after_history_sync()
    elif r.random() < .3:
        await sm.after_history_sync()
        sm.before_history_sync()
    if r.random() < .3:
        for n in [b.ns for b in bs]:
            await w.storage.store(f"/queue/{n}", [jid] if r.random() < .5 else ["al@x"])
            await w.storage.store(f"/queue/{n}/{jid}", [did] if r.random() < .5 else [99])
    for b in bs:
        b.sessions = b.sessions or {}
        if r.random() < .3:
            b.change_on_use = True
    w.recording = True
    c.x["sync"] = sync
    return await run_op(c, sm, bs, sm.decrypt(msg))


async def history(w, r):
    sm, bs = await ready(w, r)
    c = Case("after_history_sync", w)
    if r.random() < .2:
        w.recording = False
        await sm.after_history_sync()
        sm.before_history_sync()
        w.recording = True
    queue = {}
    for n in [b.ns for b in bs] + ([GHOST] if r.random() < .5 else []):
        js = r.sample(PEERS + [OWN], r.randint(0, 3))
        if js or r.random() < .3:
            w.kv[f"/queue/{n}"] = list(js)
        for j in js:
            ids = [d for d in r.sample([2, 3, 4, 5, 7, 9], r.randint(1, 3)) if not (j == OWN and d == w.own_id)]
            w.kv[f"/queue/{n}/{j}"] = list(ids)
            for d in ids:
                queue.setdefault(n, set()).add((j, d))
                b = next((b for b in bs if b.ns == n), None)
                if b is not None and r.random() < .6 and (j, d) not in b.sessions:
                    b.sessions[j, d] = FakeSession(w, n, j, d, r.choice(list(Initiation)), r.random() < .5,
                                                   FakeKex(w, w.own_ik, 1), r.choice([None, 1]))
    # a fresh manager over the prepared records, so that nothing of them is cached
    w.recording = False
    sm = await make(w, r, bs)
    w.recording = True
    c.x["queue"] = queue
    return await run_op(c, sm, bs, sm.after_history_sync())


async def update_list(w, r):
    sm, bs = await ready(w, r)
    c = Case("update_device_list", w)
    ns = r.choice([b.ns for b in bs]) if r.random() < .93 else GHOST
    jid = r.choice(PEERS + [OWN, OWN, "new@x"])
    R = Recs(w.kv, w)
    ids = [d for d in R.ids(jid) if r.random() < .7]
    ids += r.sample([21, 22, 23], r.randint(0, 2))
    r.shuffle(ids)
    lst = {d: r.choice([None, "lbl%d" % d, "new", ""]) for d in ids}
    c.args = {"namespace": ns, "bare_jid": jid, "device_list": dict(lst)}
    c.x["passed"] = lst
    how = r.choice(["update", "update", "refresh", "refresh_all"])
    if how != "update":
        w.lists[ns, jid] = dict(lst)
    if how == "refresh_all":
        c.op = "refresh_device_lists"
        return await run_op(c, sm, bs, sm.refresh_device_lists(jid))
    if how == "refresh":
        c.op = "refresh_device_list"
        return await run_op(c, sm, bs, sm.refresh_device_list(ns, jid))
    return await run_op(c, sm, bs, sm.update_device_list(ns, jid, lst))


async def information(w, r):
    sm, bs = await ready(w, r)
    jid = r.choice(PEERS + [OWN, "new@x"])
    if jid == OWN and r.random() < .5:
        c = Case("get_own_device_information", w)
        return await run_op(c, sm, bs, sm.get_own_device_information())
    c = Case("get_device_information", w)
    if r.random() < .4:
        # a backend asked for a namespace it does not know
        for k in list(w.bundles) + [(GHOST, jid, d) for d in Recs(w.kv, w).ids(jid)]:
            if k[0] == GHOST:
                w.bad_bundle[k] = UnknownNamespace
    c.args = {"bare_jid": jid}
    return await run_op(c, sm, bs, sm.get_device_information(jid))


async def trust(w, r):
    sm, bs = await ready(w, r)
    c = Case("set_trust", w)
    jid = r.choice(PEERS + [OWN])
    c.args = {"bare_jid": jid, "identity_key": r.choice(IKS + [w.own_ik]), "trust_level_name": level_name(r)}
    return await run_op(c, sm, bs, sm.set_trust(**c.args))


async def label(w, r):
    sm, bs = await ready(w, r)
    c = Case("set_own_label", w)
    c.args = {"own_label": r.choice([None, "shiny", ""])}
    return await run_op(c, sm, bs, sm.set_own_label(c.args["own_label"]))


async def ensure(w, r):
    sm, bs = await ready(w, r)
    c = Case("ensure_data_consistency", w)
    for b in bs:
        x = r.random()
        if x < .3:
            del w.bundles[b.ns, OWN, w.own_id]
        elif x < .5:
            w.bad_bundle[b.ns, OWN, w.own_id] = r.choice([BundleDownloadFailed, BundleNotFound])
        elif x < .7:
            b.version = 5
    return await run_op(c, sm, bs, sm.ensure_data_consistency())


async def replace(w, r):
    sm, bs = await ready(w, r)
    c = Case("replace_sessions", w)
    w.recording = False
    devs = []
    for j in PEERS + [OWN]:
        devs += [d for d in await sm.get_device_information(j) if not (j == OWN and d.device_id == w.own_id)]
    w.recording = True
    devs.sort(key=lambda d: (d.bare_jid, d.device_id))
    if not devs:
        raise SetupFailed()
    d = r.choice(devs)
    if r.random() < .3:
        d = d._replace(namespaces=frozenset(r.sample(NSS, 1)), active=frozenset())
    c.args = {"device": d}
    return await run_op(c, sm, bs, sm.replace_sessions(d))


async def chain_length(w, r):
    sm, bs = await ready(w, r)
    c = Case("get_sending_chain_length", w)
    w.recording = False
    devs = [d for j in PEERS for d in await sm.get_device_information(j)]
    w.recording = True
    if not devs:
        raise SetupFailed()
    devs.sort(key=lambda d: (d.bare_jid, d.device_id))
    c.args = {"device": r.choice(devs)}
    return await run_op(c, sm, bs, sm.get_sending_chain_length(c.args["device"]))


async def purge_backend(w, r):
    loaded = r.sample(NSS, r.choice([1, 2, 3]))
    sm, bs = await ready(w, r, loaded=loaded)
    c = Case("purge_backend", w)
    ns = r.choice(loaded) if r.random() < .7 else GHOST
    if ns == GHOST and r.random() < .7:
        for f, v in (("namespaces", loaded + [GHOST]), ("active", {n: True for n in loaded + [GHOST]})):
            w.kv[f"/devices/{OWN}/{w.own_id}/{f}"] = v
            await w.storage.store(f"/devices/{OWN}/{w.own_id}/{f}", v)
        w.log.clear()
    for n in NSS + [GHOST]:
        if r.random() < .7:
            w.lists[n, OWN] = {**w.lists.get((n, OWN), {}), w.own_id: r.choice([None, "me"])}
        else:
            w.lists.setdefault((n, OWN), {}).pop(w.own_id, None)
    c.args = {"namespace": ns}
    await run_op(c, sm, bs, sm.purge_backend(ns))
    # which backends are still loaded is visible in what a refresh fetches
    if c.exc is None:
        w.fault_at = None
        n0 = len(w.log)
        try:
            await sm.refresh_device_lists("nobody@x")
        except Exception:               # pylint: disable=broad-except
            pass
        c.x["still"] = [e.a["ns"] for e in w.log[n0:] if e.op == "download_device_list"]
        del w.log[n0:]
    return c


async def purge_jid(w, r):
    sm, bs = await ready(w, r)
    c = Case("purge_bare_jid", w)
    jid = r.choice(PEERS + ["new@x"])
    ids = r.sample([1, 2, 3, 33], r.randint(0, 2))
    if jid in PEERS and r.random() < .3:
        # near misses
        w.kv[f"/devices/{jid}x/list"] = ids
        w.kv["/trust/%sx/abc" % jid] = "trusted"
    c.args = {"bare_jid": jid}
    return await run_op(c, sm, bs, sm.purge_bare_jid(jid))


async def create(w, r):
    """Creation on an account in any state: unused, in use, or with other backends loaded than before."""
    first = r.random() < .4
    loaded = r.sample(NSS, r.choice([0, 1, 2, 2, 3]) if r.random() < .2 else r.choice([1, 2, 3]))
    known = loaded if r.random() < .3 else r.sample(NSS + [GHOST], r.randint(0, 4))
    bs = await setup(w, r, loaded=loaded, known=known)
    c = Case("create", w)
    if first:
        keep = {}
        if r.random() < .3:
            keep = {k: v for k, v in w.kv.items() if k.startswith("/ikp")}
        if r.random() < .5:
            keep.update({k: v for k, v in w.kv.items() if OWN not in k and k.startswith(("/devices", "/trust"))})
        w.kv.clear()
        w.kv.update(keep)
    elif r.random() < .5:
        w.kv[f"/trust/{OWN}/{b64(w.own_ik)}"] = level_name(r)
    for b in bs:
        b.visible = 0 if first else r.choice([0, 25, 26, 50, 99, 100])
    threshold, period = r.choice([25, 26, 50, 99]), r.choice([7 * 24 * 3600, 3600])
    bad = r.random()
    if bad < .08:
        threshold = r.choice([24, 100, 0, -1])
    elif bad < .12 and bs:
        bs = bs + [FakeBackend(w, bs[0].ns, w.own_ik)]
    cache = r.random() < .4
    c.args = {"namespaces": [b.ns for b in bs], "threshold": threshold, "period": period, "label": r.choice([None, "me"]),
              "first": first}
    w.threshold = threshold
    w.storage = FakeStorage(w, cache)
    cls = manager_class(w)

    async def go():
        import omemo.session_manager as m
        sleeps = []
        c.x["sleeps"] = sleeps
        sm = await cls.create(bs, w.storage, OWN, c.args["label"], w.undecided_name, period, threshold)
        c.x["end"] = len(w.log)
        return sm
    prev = w.own_id
    if first:
        w.own_id = None
    await run_op(c, None, bs, go())
    end = c.x.get("end", len(w.log))
    c.x["tail"] = w.log[end:]
    del w.log[end:]
    c.x["kv"] = dict(w.kv)
    c.x["version"] = {b.ns: b.version for b in bs}
    w.own_id = w.kv.get("/own_device_id", prev)
    c.x["sm"] = c.res
    if c.res is not None:
        # synchronization mode: a message with a key exchange queues its answer
        w.recording = False
        c.x["queued"] = None
        if bs:
            jid, did = "sync@x", 5
            n = bs[0].ns
            await w.storage.store(f"/devices/{jid}/list", [did])
            await w.storage.store(f"/devices/{jid}/{did}/namespaces", [n])
            await w.storage.store(f"/devices/{jid}/{did}/active", {n: True})
            await w.storage.store(f"/devices/{jid}/{did}/label", None)
            await w.storage.store_bytes(f"/devices/{jid}/{did}/identity_key", IKS[3])
            sent = []
            w.recording, n0 = True, len(w.log)
            w.fault_at = None
            try:
                await c.res.decrypt(Message(n, jid, did, FakeContent(w, True), frozenset({
                    (FakeEKM(w, OWN, w.own_id), FakeKex(w, IKS[3], 9))})))
                c.x["queued"] = not [e for e in w.log[n0:] if e.op in ("send", "delete_pre_key")] and \
                    bool([e for e in w.log[n0:] if e.op == "hide_pre_key"])
            except Exception as e:      # pylint: disable=broad-except
                c.x["queued"] = repr(e)
            del w.log[n0:]
    return c


class Enough(BaseException):
    pass


async def rotation(w, r):
    """Some passes of the signed pre key rotation, under a virtual clock."""
    import omemo.session_manager as m
    from omemo.types import AsyncFramework
    loaded = r.sample(NSS, r.choice([1, 2, 3]))
    bs = await setup(w, r, loaded=loaded)
    c = Case("rotation", w)
    period = r.choice([7 * 24 * 3600, 3600, 100, 60, 10])
    start = {}
    for b in bs:
        b.age = r.choice([0, 1, period - 70, period - 60, period - 1, period, period + 1, 2 * period, r.randrange(2 * period)])
        b.age = max(0, b.age)
        start[b.ns] = b.age
    fails = [r.random() < .45 for _ in range(40)] if r.random() < .7 else [True] * 9 + [False] * 31
    c.args = {"period": period, "ages": start, "upload failures": fails[:10]}
    c.pre = dict(w.kv)
    c.x.update(loaded=list(bs), period=period)
    w.threshold = 50
    w.storage = FakeStorage(w, True)
    left = [r.randint(2, 14)]
    twisted = r.random() < .25 and hasattr(m, "reactor")
    c.args["framework"] = "TWISTED" if twisted else "ASYNCIO"

    def slept(seconds):
        e = w.call("sleep", seconds=seconds)
        left[0] -= 1
        for b in bs:
            b.age += int(seconds)
        return e

    n = [0]

    def plan(e):
        if e.op == "upload_bundle":
            n[0] += 1
            if n[0] <= len(fails) and fails[n[0] - 1]:
                w.fault_at, w.fault_pick = e.i, 0
    w.on_event = plan
    w.fault_rel = None
    real = asyncio.sleep

    async def fake_sleep(seconds, *a, **k):
        slept(seconds)
        if left[0] <= 0:
            raise asyncio.CancelledError()
        await real(0)
    c.start = 0
    try:
        if twisted:
            from twisted.internet import task
            clock = task.Clock()
            old, m.reactor = m.reactor, clock
            try:
                await manager_class(w).create(bs, w.storage, OWN, None, w.undecided_name, period, 50,
                                              AsyncFramework.TWISTED)
                while left[0] > 0 and clock.getDelayedCalls():
                    d = min(x.getTime() for x in clock.getDelayedCalls()) - clock.seconds()
                    slept(d)
                    if left[0] > 0:
                        clock.advance(d)
            finally:
                m.reactor = old
        else:
            asyncio.sleep = fake_sleep
            try:
                await manager_class(w).create(bs, w.storage, OWN, None, w.undecided_name, period, 50)
                me = asyncio.current_task()
                ts = [t for t in asyncio.all_tasks() if t is not me]
                res = await asyncio.wait_for(asyncio.gather(*ts, return_exceptions=True), 10) if ts else []
                c.x["died"] = [x for x in res if isinstance(x, Exception)]
            finally:
                asyncio.sleep = real
    except Exception as e:              # pylint: disable=broad-except
        c.exc = e
    await stop_tasks()
    return c
