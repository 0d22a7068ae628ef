"""
Recording fakes for everything the library calls: storage, backends, sessions, the XMPP server and the user.

Every call is an event of the world's log, with a copy of the stored records as they were before the call; an event can
be made to fail with any exception documented for it. Everything is deterministic for a given seed.
"""
import base64
import copy
import random

import omemo
from omemo.backend import Backend, KeyExchangeFailed, DecryptionFailed, TooManySkippedMessageKeys
from omemo.bundle import Bundle
from omemo.message import Content, EncryptedKeyMaterial, KeyExchange, PlainKeyMaterial
from omemo.session import Session, Initiation
from omemo.session_manager import (
    SessionManager, BundleUploadFailed, BundleDownloadFailed, BundleNotFound, BundleDeletionFailed, DeviceListUploadFailed,
    DeviceListDownloadFailed, MessageSendingFailed, TrustDecisionFailed, UnknownTrustLevel)
from omemo.storage import Storage, Just, Nothing, StorageException
from omemo.types import TrustLevel

FAILS = {
    "_load": [StorageException], "_store": [StorageException], "_delete": [StorageException],
    "upload_bundle": [BundleUploadFailed], "download_bundle": [BundleDownloadFailed, BundleNotFound],
    "delete_bundle": [BundleDeletionFailed], "upload_device_list": [DeviceListUploadFailed],
    "download_device_list": [DeviceListDownloadFailed], "evaluate": [UnknownTrustLevel], "decide": [TrustDecisionFailed],
    "send": [MessageSendingFailed],
    "build_session_active": [KeyExchangeFailed, StorageException],
    "build_session_passive": [KeyExchangeFailed, DecryptionFailed, TooManySkippedMessageKeys, StorageException],
    "decrypt_plaintext": [DecryptionFailed], "decrypt_key_material": [DecryptionFailed, TooManySkippedMessageKeys],
}


class Ev:
    """One call made by the library."""

    def __init__(self, op, a, before, nested):
        self.op, self.a, self.before, self.nested = op, a, before, nested
        self.res, self.exc, self.i = None, None, -1

    @property
    def ok(self):
        return self.exc is None

    def __repr__(self):
        a = ", ".join(f"{k}={v!r}" for k, v in self.a.items())
        return f"{self.op}({a})" + (f" !{type(self.exc).__name__}" if self.exc else f" -> {self.res!r}"
                                    if self.res is not None else "")


class World:
    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.log = []
        self.fault_at = None            # index of the event that fails
        self.fault_pick = 0
        self.injected = []              # exceptions raised by the fault plan
        self.uid = 0
        self.nest = 0
        self.kv = {}                    # the persisted records
        self.lists = {}                 # (ns, jid) -> {id: label}
        self.bundles = {}               # (ns, jid, id) -> FakeBundle
        self.bad_bundle = {}            # (ns, jid, id) -> exception class
        self.bad_build = set()          # (ns, jid, id)
        self.levels = {}
        self.decide = None              # async function(sm, devices)
        self.on_event = None
        self.recording = True

    def new(self):
        self.uid += 1
        return self.uid

    def call(self, op, **a):
        """Record a call; raises if the fault plan says so."""
        e = Ev(op, a, dict(self.kv), self.nest > 0)
        if not self.recording:
            return e
        e.i = len(self.log)
        self.log.append(e)
        if self.on_event is not None:
            self.on_event(e)
        if self.fault_at == e.i and not e.nested:
            excs = FAILS.get(op, [StorageException])
            e.exc = excs[self.fault_pick % len(excs)](f"injected failure of {op}")
            self.injected.append(e.exc)
            raise e.exc
        return e

    def fail(self, e, exc):
        e.exc = exc
        raise exc


class FakeStorage(Storage):
    def __init__(self, w, disable_cache):
        if disable_cache:
            super().__init__(True)
        else:
            super().__init__()          # caching is the default
        self.w = w

    async def _load(self, key):
        e = self.w.call("_load", key=key)
        e.res = copy.deepcopy(self.w.kv[key]) if key in self.w.kv else None
        return Just(self.w.kv[key]) if key in self.w.kv else Nothing()

    async def _store(self, key, value):
        self.w.call("_store", key=key, value=copy.deepcopy(value))
        self.w.kv[key] = copy.deepcopy(value)

    async def _delete(self, key):
        self.w.call("_delete", key=key)
        self.w.kv.pop(key, None)


class Tagged:
    """Objects with an identity; hashed by it so that runs are reproducible."""
    uid = 0

    def __hash__(self):
        return self.uid

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return f"{type(self).__name__[4:]}#{self.uid}"


class FakePKM(Tagged, PlainKeyMaterial):
    def __init__(self, w):
        self.uid = w.new()


class FakeContent(Tagged, Content):
    def __init__(self, w, empty, ns="", text=None, pkm=None):
        self.uid, self._empty, self.ns, self.text, self.pkm = w.new(), empty, ns, text, pkm

    @property
    def empty(self):
        return self._empty


class FakeEKM(Tagged, EncryptedKeyMaterial):
    def __init__(self, w, jid, did, pkm=None, session=None):
        self.uid, self._jid, self._id, self.pkm, self.session = w.new(), jid, did, pkm, session

    @property
    def bare_jid(self):
        return self._jid

    @property
    def device_id(self):
        return self._id


class FakeKex(Tagged, KeyExchange):
    def __init__(self, w, ik, tag):
        self.uid, self._ik, self.tag = w.new(), ik, tag

    @property
    def identity_key(self):
        return self._ik

    def builds_same_session(self, other):
        return self.tag == other.tag


class FakeBundle(Bundle):
    def __init__(self, ns, jid, did, ik, version=0):
        self.v = (ns, jid, did, ik, version)

    namespace = property(lambda s: s.v[0])
    bare_jid = property(lambda s: s.v[1])
    device_id = property(lambda s: s.v[2])
    identity_key = property(lambda s: s.v[3])

    def __eq__(self, o):
        return isinstance(o, FakeBundle) and o.v == self.v

    def __hash__(self):
        return hash((self.v[0], self.v[1], self.v[2], self.v[3], self.v[4]))

    def __repr__(self):
        return f"Bundle{self.v[:3] + (self.v[3][:2].hex(), self.v[4])}"


class FakeSession(Tagged, Session):
    def __init__(self, w, ns, jid, did, initiation, confirmed, kex, rcl, scl=0):
        self.w, self.uid, self.version = w, w.new(), 0
        self.ns, self.jid, self.did, self.ini, self.conf, self.kex, self.rcl, self.scl = \
            ns, jid, did, initiation, confirmed, kex, rcl, scl

    namespace = property(lambda s: s.ns)
    bare_jid = property(lambda s: s.jid)
    device_id = property(lambda s: s.did)
    initiation = property(lambda s: s.ini)
    confirmed = property(lambda s: s.conf)
    key_exchange = property(lambda s: s.kex)
    receiving_chain_length = property(lambda s: s.rcl)
    sending_chain_length = property(lambda s: s.scl)

    def copy(self):
        c = copy.copy(self)
        return c

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return self.uid


class FakeBackend(Backend):
    def __init__(self, w, ns, ik):
        super().__init__()
        self.w, self.ns, self.ik = w, ns, ik
        self.sessions = {}              # (jid, id) -> FakeSession as stored
        self.visible, self.hidden = 100, 0
        self.version = 0                # of the public bundle
        self.age = 0
        self.change_on_use = True       # whether hiding/deleting a pre key changes the bundle
        self.purged = False

    namespace = property(lambda s: s.ns)

    def __repr__(self):
        return f"<{self.ns}>"

    async def load_session(self, bare_jid, device_id):
        e = self.w.call("load_session", ns=self.ns, jid=bare_jid, id=device_id)
        s = self.sessions.get((bare_jid, device_id))
        e.res = None if s is None else s.copy()
        return e.res

    async def store_session(self, session):
        self.w.call("store_session", ns=self.ns, session=session, uid=session.uid, version=session.version,
                    jid=session.jid, id=session.did)
        self.sessions[session.jid, session.did] = session.copy()

    async def build_session_active(self, bare_jid, device_id, bundle, plain_key_material):
        e = self.w.call("build_session_active", ns=self.ns, jid=bare_jid, id=device_id, bundle=bundle,
                        pkm=plain_key_material)
        if (self.ns, bare_jid, device_id) in self.w.bad_build:
            self.w.fail(e, KeyExchangeFailed("broken bundle"))
        s = FakeSession(self.w, self.ns, bare_jid, device_id, Initiation.ACTIVE, self.w.rng.random() < .2,
                        FakeKex(self.w, self.ik, self.w.new()), None)
        e.res = (s, FakeEKM(self.w, bare_jid, device_id, plain_key_material, s))
        return e.res

    async def build_session_passive(self, bare_jid, device_id, key_exchange, encrypted_key_material):
        e = self.w.call("build_session_passive", ns=self.ns, jid=bare_jid, id=device_id, kex=key_exchange,
                        ekm=encrypted_key_material)
        rcl = self.w.rng.choice([None, 0, 1, 53, 54, 60])
        s = FakeSession(self.w, self.ns, bare_jid, device_id, Initiation.PASSIVE, self.w.rng.random() < .5, key_exchange,
                        rcl)
        s.via = encrypted_key_material
        e.res = (s, FakePKM(self.w))
        return e.res

    async def encrypt_plaintext(self, plaintext):
        e = self.w.call("encrypt_plaintext", ns=self.ns, text=plaintext)
        p = FakePKM(self.w)
        e.res = (FakeContent(self.w, False, self.ns, plaintext, p), p)
        return e.res

    async def encrypt_empty(self):
        e = self.w.call("encrypt_empty", ns=self.ns)
        p = FakePKM(self.w)
        e.res = (FakeContent(self.w, True, self.ns, None, p), p)
        return e.res

    async def encrypt_key_material(self, session, plain_key_material):
        e = self.w.call("encrypt_key_material", ns=self.ns, session=session, jid=session.jid, id=session.did,
                        pkm=plain_key_material)
        session.version += 1
        e.res = FakeEKM(self.w, session.jid, session.did, plain_key_material, session)
        return e.res

    async def decrypt_plaintext(self, content, plain_key_material):
        e = self.w.call("decrypt_plaintext", ns=self.ns, content=content, pkm=plain_key_material)
        e.res = f"{content!r}/{plain_key_material!r}".encode()
        return e.res

    async def decrypt_key_material(self, session, encrypted_key_material):
        e = self.w.call("decrypt_key_material", ns=self.ns, session=session, ekm=encrypted_key_material)
        session.version += 1
        session.conf = True
        e.res = FakePKM(self.w)
        return e.res

    async def signed_pre_key_age(self):
        e = self.w.call("signed_pre_key_age", ns=self.ns)
        e.res = self.age
        return self.age

    async def rotate_signed_pre_key(self):
        self.w.call("rotate_signed_pre_key", ns=self.ns)
        self.version += 1
        self.age = 0

    async def _use(self, op, session):
        e = self.w.call(op, ns=self.ns, session=session)
        e.res = self.change_on_use
        if e.res:
            self.version += 1
            self.visible = max(0, self.visible - 1)
            if op == "hide_pre_key":
                self.hidden += 1
        return e.res

    async def hide_pre_key(self, session):
        return await self._use("hide_pre_key", session)

    async def delete_pre_key(self, session):
        return await self._use("delete_pre_key", session)

    async def delete_hidden_pre_keys(self):
        self.w.call("delete_hidden_pre_keys", ns=self.ns)
        self.hidden = 0

    async def get_num_visible_pre_keys(self):
        e = self.w.call("get_num_visible_pre_keys", ns=self.ns)
        e.res = self.visible
        return e.res

    async def generate_pre_keys(self, num_pre_keys):
        self.w.call("generate_pre_keys", ns=self.ns, num=num_pre_keys)
        self.visible += num_pre_keys
        self.version += 1

    async def get_bundle(self, bare_jid, device_id):
        e = self.w.call("get_bundle", ns=self.ns, jid=bare_jid, id=device_id)
        e.res = FakeBundle(self.ns, bare_jid, device_id, self.ik, self.version)
        return e.res

    async def purge(self):
        self.w.call("backend_purge", ns=self.ns)
        self.sessions.clear()
        self.purged = True

    async def purge_bare_jid(self, bare_jid):
        self.w.call("backend_purge_bare_jid", ns=self.ns, jid=bare_jid)
        for k in [k for k in self.sessions if k[0] == bare_jid]:
            del self.sessions[k]


LEVELS = {"trusted": TrustLevel.TRUSTED, "blind": TrustLevel.TRUSTED, "distrusted": TrustLevel.DISTRUSTED,
          "undecided": TrustLevel.UNDECIDED, "later": TrustLevel.UNDECIDED}


def evaluate(name, jid, did, ik):
    """The trust system of the tests: a function of the level's name, the device and its key."""
    if name == "device":
        return TrustLevel.TRUSTED if (did + len(jid) + ik[0]) % 3 else TrustLevel.DISTRUSTED
    return LEVELS[name]


def manager_class(w):
    class SM(SessionManager):
        @staticmethod
        async def _upload_bundle(bundle):
            w.call("upload_bundle", bundle=bundle, ns=bundle.namespace)
            w.bundles[bundle.namespace, bundle.bare_jid, bundle.device_id] = bundle

        @staticmethod
        async def _download_bundle(namespace, bare_jid, device_id):
            e = w.call("download_bundle", ns=namespace, jid=bare_jid, id=device_id)
            bad = w.bad_bundle.get((namespace, bare_jid, device_id))
            if bad is not None:
                w.fail(e, bad("unavailable"))
            if (namespace, bare_jid, device_id) not in w.bundles:
                w.fail(e, BundleNotFound("no such bundle"))
            e.res = w.bundles[namespace, bare_jid, device_id]
            return e.res

        @staticmethod
        async def _delete_bundle(namespace, device_id):
            w.call("delete_bundle", ns=namespace, id=device_id)

        @staticmethod
        async def _upload_device_list(namespace, device_list):
            w.call("upload_device_list", ns=namespace, list=dict(device_list))
            w.lists[namespace, w.own_jid] = dict(device_list)

        @staticmethod
        async def _download_device_list(namespace, bare_jid):
            e = w.call("download_device_list", ns=namespace, jid=bare_jid)
            e.res = dict(w.lists.get((namespace, bare_jid), {}))
            return dict(e.res)

        async def _evaluate_custom_trust_level(self, device):
            e = w.call("evaluate", device=device)
            e.res = evaluate(device.trust_level_name, device.bare_jid, device.device_id, device.identity_key)
            return e.res

        async def _make_trust_decision(self, undecided, identifier):
            w.call("decide", undecided=undecided, identifier=identifier)
            w.nest += 1
            try:
                if w.decide is not None:
                    await w.decide(self, undecided)
            finally:
                w.nest -= 1

        @staticmethod
        async def _send_message(message, bare_jid):
            w.call("send", message=message, jid=bare_jid)
    return SM


def b64(x):
    return base64.urlsafe_b64encode(x).decode("ASCII")


class Recs:
    """The records of the library, read from a copy of the persisted values."""

    def __init__(self, kv, w):
        self.kv, self.w = kv, w

    def ids(self, jid):
        return frozenset(self.kv.get(f"/devices/{jid}/list", []))

    def field(self, jid, did, name, default=None):
        return self.kv.get(f"/devices/{jid}/{did}/{name}", default)

    def ns(self, jid, did):
        return frozenset(self.field(jid, did, "namespaces", []))

    def active(self, jid, did):
        return dict(self.field(jid, did, "active", {}))

    def ik(self, jid, did):
        v = self.field(jid, did, "identity_key")
        return None if v is None else base64.urlsafe_b64decode(v.encode("ASCII"))

    def trust(self, jid, ik):
        return self.kv.get(f"/trust/{jid}/{b64(ik)}", self.w.undecided_name)

    def level(self, jid, did):
        ik = self.ik(jid, did)
        return evaluate(self.trust(jid, ik), jid, did, ik)

    def jids(self):
        return {k.split("/")[2] for k in self.kv if k.startswith("/devices/") and k.endswith("/list")}

    def devices(self):
        return {(j, d) for j in self.jids() for d in self.ids(j)}
