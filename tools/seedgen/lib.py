"""Helpers of the demonstrations."""
import asyncio
import os
import sys

sys.path.insert(0, os.getcwd())
import xeddsa                                                            # noqa: E402
from omemo.message import Message                                        # noqa: E402
from omemo.session import Initiation                                     # noqa: E402
from fakes import *                                                      # noqa: E402,F403
from fakes import World, FakeStorage, FakeBackend, FakeBundle, FakeSession, FakeKex, FakeEKM, FakeContent, \
    manager_class, b64                                                   # noqa: E402

OWN, OWN_ID = "own@x", 77
SEED = bytes(range(32))
OWN_IK = xeddsa.seed_to_ed25519_pub(SEED)


def key(n):
    return bytes([n]) * 32


def world():
    w = World(1)
    w.own_jid, w.own_id, w.undecided_name, w.own_ik = OWN, OWN_ID, "undecided", OWN_IK
    return w


def own(w, nss, others=()):
    w.kv["/ikp/is_seed"], w.kv["/ikp/key"], w.kv["/own_device_id"] = True, b64(SEED), OWN_ID
    device(w, OWN, OWN_ID, nss, OWN_IK, "undecided", bundles=False)
    for n in nss:
        w.lists[n, OWN] = {OWN_ID: None}


def device(w, jid, did, nss, ik, trust="trusted", active=None, label=None, known_ik=True, bundles=True):
    w.kv.setdefault(f"/devices/{jid}/list", []).append(did)
    w.kv[f"/devices/{jid}/{did}/namespaces"] = list(nss)
    w.kv[f"/devices/{jid}/{did}/active"] = {n: n in (nss if active is None else active) for n in nss}
    w.kv[f"/devices/{jid}/{did}/label"] = label
    if known_ik:
        w.kv[f"/devices/{jid}/{did}/identity_key"] = b64(ik)
    if trust is not None:
        w.kv[f"/trust/{jid}/{b64(ik)}"] = trust
    for n in nss:
        w.lists.setdefault((n, jid), {})[did] = label
        if bundles:
            w.bundles[n, jid, did] = FakeBundle(n, jid, did, ik)


def session(w, b, jid, did, ini=Initiation.PASSIVE, confirmed=True, tag=1, rcl=0, ik=None):
    s = FakeSession(w, b.ns, jid, did, ini, confirmed, FakeKex(w, ik or OWN_IK, tag), rcl)
    b.sessions[jid, did] = s
    return s


async def manager(w, nss, backends=None, cache=True, threshold=99, period=7 * 24 * 3600):
    w.storage = FakeStorage(w, not cache)
    bs = backends or [FakeBackend(w, n, OWN_IK) for n in nss]
    for b in bs:
        w.bundles.setdefault((b.ns, OWN, w.own_id), FakeBundle(b.ns, OWN, w.own_id, OWN_IK))
    sm = await manager_class(w).create(bs, w.storage, OWN, None, "undecided", period, threshold)
    await stop()
    w.log.clear()
    return sm, bs


async def stop():
    ts = [t for t in asyncio.all_tasks() if t is not asyncio.current_task()]
    for t in ts:
        t.cancel()
    await asyncio.gather(*ts, return_exceptions=True)


def ops(w, *names):
    return [e for e in w.log if not names or e.op in names]


def run(main):
    asyncio.run(main())
    print("ok")


async def raises(coro, *excs):
    try:
        await coro
    except excs as e:
        return e
    raise AssertionError(f"expected {excs}")


def message(w, ns, jid, did, kex=None, to=(OWN, OWN_ID), empty=False, more=()):
    return Message(ns, jid, did, FakeContent(w, empty), frozenset({(FakeEKM(w, *to), kex), *more}))
