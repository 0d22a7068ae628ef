seed("trust-refresh-partial", "C01", "a trust decision callback that also changes the trust of a device that was not undecided",
     "after the trust decision, only devices that were undecided get their new trust level; a device distrusted by the user in the same dialog still receives key material",
     [(SM, ")).maybe(self.__undecided_trust_level_name)) for device in devices }", ")).maybe(self.__undecided_trust_level_name)) if device in undecided_devices else device for device in devices }")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1), "undecided")
    device(w, "al@x", 2, ["urn:a"], key(2), "trusted")
    async def decide(sm, devices):
        await sm.set_trust("al@x", key(1), "trusted")
        await sm.set_trust("al@x", key(2), "distrusted")
    w.decide = decide
    sm, bs = await manager(w, ["urn:a"])
    msgs, errs = await sm.encrypt(frozenset({"al@x"}), {"urn:a": b"hi"})
    got = {k.device_id for m in msgs for k, _ in m.keys}
    assert got == {1}, got
run(main)
''')
seed("inactive-priority", "C02", "a device that is inactive for the namespace of highest priority but active for a lower one",
     "the namespace a device is served with is chosen without regard to activity, so devices are served through a namespace they are not active for",
     [(SM, "                if dict(device.active)[namespace] and namespace in backend_priority_order\n", "                if namespace in backend_priority_order\n")],
'''
async def main():
    w = world(); own(w, ["urn:a", "urn:b"])
    device(w, "al@x", 1, ["urn:a", "urn:b"], key(1), active=["urn:b"])
    sm, bs = await manager(w, ["urn:a", "urn:b"])
    msgs, errs = await sm.encrypt(frozenset({"al@x"}), {"urn:a": b"hi", "urn:b": b"ho"})
    assert {m.namespace for m in msgs} == {"urn:b"}, msgs
run(main)
''')
seed("failed-device-counts", "C03", "a recipient all of whose devices fail (no session and no usable bundle)",
     "a device whose encryption failed still counts as served, so encrypt returns a message nobody at the recipient can read instead of raising NoEligibleDevices",
     [(SM, "                    devices.remove(device)\n                    encryption_errors.add(EncryptionError(", "                    encryption_errors.add(EncryptionError(")],
'''
from omemo.session_manager import NoEligibleDevices
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1), bundles=False)
    device(w, "bo@x", 1, ["urn:a"], key(2))
    sm, bs = await manager(w, ["urn:a"])
    e = await raises(sm.encrypt(frozenset({"al@x", "bo@x"}), {"urn:a": b"hi"}), NoEligibleDevices)
    assert e.bare_jids == {"al@x"}
run(main)
''')
seed("store-while-encrypting", "C04", "one recipient that can be served and another one without any usable device",
     "sessions are persisted while other recipients are still being processed; when encrypt then fails with NoEligibleDevices, ratchets have been advanced for a message that is never sent",
     [(SM, "                    sessions.add((backend, session))\n", "                    await backend.store_session(session)\n"),
      (SM, "        for backend, session in sessions:\n            # Persist the session as the final step\n            await backend.store_session(session)\n\n", "")],
'''
from omemo.session_manager import NoEligibleDevices
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1), bundles=False)
    device(w, "bo@x", 1, ["urn:a"], key(2))
    sm, bs = await manager(w, ["urn:a"])
    await raises(sm.encrypt(frozenset({"al@x", "bo@x"}), {"urn:a": b"hi"}), NoEligibleDevices)
    assert not ops(w, "store_session"), w.log
run(main)
''')
seed("kex-key-check-late", "C05", "a message with a key exchange that carries a foreign identity key but is otherwise equivalent to the one of the existing passive session",
     "the identity key of a received key exchange is only compared if there is no session yet",
     [(SM, "            # Check whether the identity key matches the one we know\n            if key_exchange.identity_key != device.identity_key:\n", "            # Check whether the identity key matches the one we know\n            session = await backend.load_session(device.bare_jid, device.device_id)\n            if session is None and key_exchange.identity_key != device.identity_key:\n"),
      (SM, "            # Check whether there is a session with the sending device already\n            session = await backend.load_session(device.bare_jid, device.device_id)\n", "            # Check whether there is a session with the sending device already\n")],
'''
from omemo.session_manager import PublicDataInconsistency
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    session(w, bs[0], "al@x", 1, tag=5, ik=key(1))
    await raises(sm.decrypt(message(w, "urn:a", "al@x", 1, FakeKex(w, key(9), 5))), PublicDataInconsistency)
run(main)
''')
seed("empty-message-kex", "C06", "an empty message sent for a session that was actively initiated, is unconfirmed, and is older than this run (after history synchronization)",
     "automatically sent empty messages omit the key exchange of actively initiated sessions",
     [(SM, "                session.key_exchange\n                if session.initiation is Initiation.ACTIVE and not session.confirmed\n                else None\n            )) })\n", "                session.key_exchange\n                if session.initiation is Initiation.ACTIVE and session.confirmed\n                else None\n            )) })\n")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    w.kv["/queue/urn:a"] = ["al@x"]; w.kv["/queue/urn:a/al@x"] = [1]
    sm, bs = await manager(w, ["urn:a"])
    s = session(w, bs[0], "al@x", 1, Initiation.ACTIVE, confirmed=False)
    await sm.after_history_sync()
    (e,) = ops(w, "send")
    assert [k for _, k in e.a["message"].keys] == [s.kex]
run(main)
''')
seed("first-key-for-us", "C07", "a group message with key material for a device of another account that has the same device id as ours",
     "key material is taken to be addressed to us if only the device id matches",
     [(SM, "lambda k: k[0].bare_jid == self.__own_bare_jid and k[0].device_id == self.__own_device_id,", "lambda k: k[0].device_id == self.__own_device_id,")],
'''
from omemo.session_manager import MessageNotForUs
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    session(w, bs[0], "al@x", 1)
    await raises(sm.decrypt(message(w, "urn:a", "al@x", 1, to=("bo@x", OWN_ID))), MessageNotForUs)
run(main)
''')
seed("active-session-reuse", "C08", "both sides initiated a session at the same time and the received key exchange is equivalent to the one of the own active session",
     "an actively initiated session is reused for a received key exchange",
     [(SM, "                if (\n                    session.initiation is Initiation.PASSIVE\n                    and session.key_exchange.builds_same_session(key_exchange)\n                ):", "                if session.key_exchange.builds_same_session(key_exchange):")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    session(w, bs[0], "al@x", 1, Initiation.ACTIVE, tag=5)
    await sm.decrypt(message(w, "urn:a", "al@x", 1, FakeKex(w, key(1), 5)))
    assert ops(w, "build_session_passive") and not ops(w, "decrypt_key_material")
run(main)
''')
seed("store-before-content", "C09", "a message whose key material decrypts but whose content does not (tampered or truncated payload)",
     "the session is stored before the content is decrypted, so a forged payload advances the stored ratchet",
     [(SM, "        # Decrypt the message\n        plaintext = None", "        # Persist the session following successful decryption\n        await backend.store_session(session)\n\n        # Decrypt the message\n        plaintext = None"),
      (SM, "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Message decrypted: {plaintext}\")\n\n        # Persist the session following successful decryption\n        await backend.store_session(session)\n", "        logging.getLogger(SessionManager.LOG_TAG).debug(f\"Message decrypted: {plaintext}\")\n")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    session(w, bs[0], "al@x", 1)
    async def bad(content, pkm):
        raise DecryptionFailed()
    bs[0].decrypt_plaintext = bad
    await raises(sm.decrypt(message(w, "urn:a", "al@x", 1)), DecryptionFailed)
    assert not ops(w, "store_session")
run(main)
''')
seed("upload-only-on-refill", "C10", "a key exchange while the number of visible pre keys is above the refill threshold",
     "the changed bundle is uploaded only if pre keys were refilled; otherwise the server keeps offering a pre key that no longer exists",
     [(SM, "                    await backend.generate_pre_keys(100 - num_visible_pre_keys)\n\n                bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                await self._upload_bundle(bundle)\n", "                    await backend.generate_pre_keys(100 - num_visible_pre_keys)\n\n                    bundle = await backend.get_bundle(self.__own_bare_jid, self.__own_device_id)\n                    await self._upload_bundle(bundle)\n")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"], threshold=25)
    await sm.decrypt(message(w, "urn:a", "al@x", 1, FakeKex(w, key(1), 5)))
    assert len(ops(w, "upload_bundle")) == 1
run(main)
''')
seed("queue-overwritten", "C11", "two devices of the same account each start a session while history synchronization is going on",
     "queueing an empty message for a second device of an account forgets the first one",
     [(SM, "                queued_device_ids = set((await storage.load_list(\n                    f\"/queue/{session.namespace}/{session.bare_jid}\",\n                    int\n                )).maybe([]))\n\n                queued_device_ids.add(session.device_id)\n", "                queued_device_ids = { session.device_id }\n")],
'''
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    device(w, "al@x", 2, ["urn:a"], key(2))
    sm, bs = await manager(w, ["urn:a"])
    await sm.decrypt(message(w, "urn:a", "al@x", 1, FakeKex(w, key(1), 5)))
    await sm.decrypt(message(w, "urn:a", "al@x", 2, FakeKex(w, key(2), 6)))
    await sm.after_history_sync()
    got = {k.device_id for e in ops(w, "send") for k, _ in e.a["message"].keys}
    assert got == {1, 2}, got
run(main)
''')
seed("label-erased", "C12", "a device list of a namespace without labels for a device whose label is known from another namespace",
     "a missing label in a device list erases the label on record",
     [(SM, "                if device_list[device_id] is not None and device_list[device_id] != label:", "                if device_list[device_id] != label:")],
'''
async def main():
    w = world(); own(w, ["urn:a", "urn:b"])
    device(w, "al@x", 1, ["urn:a", "urn:b"], key(1), label="phone")
    sm, bs = await manager(w, ["urn:a", "urn:b"])
    await sm.update_device_list("urn:b", "al@x", {1: None})
    assert w.kv["/devices/al@x/1/label"] == "phone"
run(main)
''')

seed("announce-without-label", "C13", "another client removes this device from the published list, and this device has a label",
     "the own device is republished without its stored label",
     [(SM, """            device_list[self.__own_device_id] = (await storage.load_optional(
                f"/devices/{self.__own_bare_jid}/{self.__own_device_id}/label",
                str
            )).from_just()
            await self""", """            device_list[self.__own_device_id] = device_list.get(self.__own_device_id)
            await self""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    w.kv[f"/devices/{OWN}/{OWN_ID}/label"] = "me"
    sm, bs = await manager(w, ["urn:a"])
    await sm.update_device_list("urn:a", OWN, {5: "other"})
    (e,) = ops(w, "upload_device_list")
    assert e.a["list"] == {5: "other", OWN_ID: "me"}
run(main)
""")
seed("missing-bundle-drops-namespace", "C14", "a device without known identity key that has a bundle for one of its namespaces only, tried last",
     "namespaces whose bundle could not be found are dropped from the reported information",
     [(SM, "                    except BundleNotFound:\n                        logging.getLogger(SessionManager.LOG_TAG).warning(\n                            f\"Bundle not available for device {device_id} of bare JID {bare_jid} for\"\n                            f\" namespace {namespace}.\",\n                            exc_info=True\n                        )\n", "                    except BundleNotFound:\n                        logging.getLogger(SessionManager.LOG_TAG).warning(\n                            f\"Bundle not available for device {device_id} of bare JID {bare_jid} for\"\n                            f\" namespace {namespace}.\",\n                            exc_info=True\n                        )\n                        namespaces = namespaces - { namespace }\n")],
'''
async def main():
    for missing in (["urn:a"], ["urn:b"]):
        w = world(); own(w, ["urn:a", "urn:b"])
        device(w, "al@x", 1, ["urn:a", "urn:b"], key(1), known_ik=False)
        for m in missing:
            del w.bundles[m, "al@x", 1]
        sm, bs = await manager(w, ["urn:a", "urn:b"])
        (d,) = await sm.get_device_information("al@x")
        assert d.namespaces == {"urn:a", "urn:b"}, d
run(main)
''')

seed("own-trust-reset", "C15", "a trust level other than the initial one set for the own identity key, and a later run",
     "every run records the undecided level for the own identity key, discarding a level that was set",
     [(SM, """            identity_key_b64 = base64.urlsafe_b64encode(self.__identity_key_pair.identity_key)
            await self.__storage.store(
                f"/trust/{self.__own_bare_jid}/{identity_key_b64.decode('ASCII')}",
                undecided_trust_level_name
            )

""", ""), (SM, """        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
""", """        identity_key_b64 = base64.urlsafe_b64encode(self.__identity_key_pair.identity_key)
        await self.__storage.store(
            f"/trust/{self.__own_bare_jid}/{identity_key_b64.decode('ASCII')}",
            undecided_trust_level_name
        )

        # If there a mismatch between loaded and active namespaces, look for changes in the loaded backends.
""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    sm, bs = await manager(w, ["urn:a"])
    await sm.set_trust(OWN, OWN_IK, "trusted")
    sm, bs = await manager(w, ["urn:a"], bs)
    d, _ = await sm.get_own_device_information()
    assert d.trust_level_name == "trusted", d
run(main)
""")

seed("key-then-flag", "C16", "a storage failure or crash between the two writes of the first run",
     "the key is stored before the flag telling its kind and a missing flag is read as private key: after an interrupted first run, the seed is used as a private key",
     [("omemo/identity_key_pair.py", 'is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).from_just()', 'is_seed = (await storage.load_primitive("/ikp/is_seed", bool)).maybe(False)'),
      ("omemo/identity_key_pair.py", """            await storage.store("/ikp/is_seed", is_seed)
            await storage.store_bytes("/ikp/key", key)
""", """            await storage.store_bytes("/ikp/key", key)
            await storage.store("/ikp/is_seed", is_seed)
""")],
"""
from omemo.identity_key_pair import IdentityKeyPair
from omemo.storage import StorageException
async def main():
    for n in range(6):
        w = world()
        w.fault_at = n
        try:
            await IdentityKeyPair.get(FakeStorage(w, True))
        except StorageException:
            pass
        w.fault_at = None
        p = await IdentityKeyPair.get(FakeStorage(w, True))
        assert p.is_seed, n
run(main)
""")
seed("id-before-record", "C17", "a crash or storage failure during the first run, between storing the device id and storing the record of the device",
     "the device id is stored before the record of the device is complete, so an interrupted first run leaves an account that can never be loaded",
     [(SM, """            # Store the device information for this device
            await storage.store(
""", """            # Store the device id and the device information for this device
            await self.__storage.store("/own_device_id", self.__own_device_id)
            await storage.store(
"""), (SM, """            # Finally store the device id once the other setup is done
            await self.__storage.store("/own_device_id", self.__own_device_id)

""", "")],
"""
from omemo.storage import StorageException
async def main():
    for n in range(40):
        w = world()
        w.lists["urn:a", OWN] = {}
        w.fault_at = n
        st = FakeStorage(w, True)
        b = FakeBackend(w, "urn:a", OWN_IK)
        try:
            await manager_class(w).create([b], st, OWN, None, "undecided")
            await stop()
        except Exception:
            if "/own_device_id" in w.kv:
                i = w.kv["/own_device_id"]
                for f in ("namespaces", "active", "label", "identity_key"):
                    assert f"/devices/{OWN}/{i}/{f}" in w.kv, (n, f)
run(main)
""")
seed("announce-before-bundle", "C18", "a backend added to an existing account",
     "the device is announced for the added namespace before its bundle is available there",
     [(SM, """                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))

                    # Trigger""", """                    # Trigger"""),
      (SM, """                    # device being added to the lists and the lists republished.
                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)
""", """                    # device being added to the lists and the lists republished.
                    await self.refresh_device_list(backend.namespace, self.__own_bare_jid)

                    # Publish the bundle of the new backend
                    await self._upload_bundle(await backend.get_bundle(
                        self.__own_bare_jid,
                        self.__own_device_id
                    ))
""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    w.lists["urn:b", OWN] = {}
    w.storage = FakeStorage(w, False)
    bs = [FakeBackend(w, n, OWN_IK) for n in ("urn:a", "urn:b")]
    await manager_class(w).create(bs, w.storage, OWN, None, "undecided")
    await stop()
    got = [e.op for e in ops(w, "upload_bundle", "upload_device_list")]
    assert got == ["upload_bundle", "upload_device_list"], got
run(main)
""")
seed("purge-keeps-activity", "C19", "purging a backend, then looking at the record of the own device",
     "purging a backend by namespace leaves the activity record of the namespace behind",
     [(SM, "        active.pop(namespace, None)\n        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))\n", "        if namespace not in device.namespaces:\n            active.pop(namespace, None)\n        device = device._replace(namespaces=device.namespaces - frozenset([ namespace ]))\n")],
"""
async def main():
    w = world(); own(w, ["urn:a", "urn:b"])
    sm, bs = await manager(w, ["urn:a", "urn:b"])
    await sm.purge_backend("urn:a")
    assert w.kv[f"/devices/{OWN}/{OWN_ID}/active"] == {"urn:b": True}, w.kv
run(main)
""")
seed("purge-stops-collecting", "C20", "an account with a device whose identity key was never obtained, processed before one whose key is known",
     "collecting the identity keys to forget stops at the first device without one, leaving trust levels behind",
     [(SM, """                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                pass
""", """                    f"/devices/{bare_jid}/{device_id}/identity_key"
                )).from_just())
            except NothingException:
                break
""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    for i in range(1, 9):
        device(w, "al@x", i, ["urn:a"], key(i), known_ik=i % 2 == 0, trust="trusted" if i % 2 == 0 else None)
    sm, bs = await manager(w, ["urn:a"])
    await sm.purge_bare_jid("al@x")
    left = [k for k in w.kv if "al@x" in k]
    assert not left, left
run(main)
""")
seed("cache-before-write", "C21", "a store that fails",
     "the cache is updated before the underlying storage; after a failed store, loads return a value that was never persisted",
     [("omemo/storage.py", """        await self._store(key, value)

        if self.__cache is not None:
            self.__cache[key] = Just(value)
""", """        if self.__cache is not None:
            self.__cache[key] = Just(value)
        await self._store(key, value)
""")],
"""
from omemo.storage import StorageException
async def main():
    w = world()
    st = FakeStorage(w, False)
    await st.store("k", 1)
    w.fault_at = len(w.log)
    await raises(st.store("k", 2), StorageException)
    assert (await st.load("k")).from_just() == 1
run(main)
""")
seed("maybe-shares-value", "C22", "a caller that modifies a list obtained with maybe and then loads the key again",
     "Maybe.maybe hands out the cached object itself, so modifying a loaded list changes what later loads return",
     [("omemo/storage.py", """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return copy.deepcopy(self.__value)
""", """    def maybe(self, default: DefaultTypeT) -> ValueTypeT:
        return self.__value
""")],
"""
async def main():
    w = world()
    st = FakeStorage(w, False)
    await st.store("k", [1])
    j = await st.load("k")
    j.maybe([]).append(2)
    assert (await st.load("k")).from_just() == [1]
run(main)
""")
seed("replace-store-first", "C23", "a notification that cannot be sent",
     "the new session is stored before the other side was notified; if sending fails, the old session is lost",
     [(SM, """                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)

                    # Store the replacement
                    await backend.store_session(session)
""", """                    # Store the replacement
                    await backend.store_session(session)

                    # Send the notification message
                    await self._send_message(Message(
                        backend.namespace,
                        self.__own_bare_jid,
                        self.__own_device_id,
                        content,
                        frozenset({ (encrypted_key_material, session.key_exchange) })
                    ), device.bare_jid)
""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    old = session(w, bs[0], "al@x", 1)
    async def bad(message, jid):
        raise MessageSendingFailed()
    sm._send_message = bad
    (d,) = await sm.get_device_information("al@x")
    res = await sm.replace_sessions(d)
    assert set(res) == {"urn:a"} and bs[0].sessions["al@x", 1].uid == old.uid
run(main)
""")
seed("rotation-next-check", "C24", "two backends whose signed pre keys have different ages",
     "the delay until the next check only takes the last backend into account, so other keys are rotated late",
     [(SM, "                    next_check = min(next_check, next_rotation)\n", "                    next_check = next_rotation\n")],
"""
async def main():
    w = world(); own(w, ["urn:a", "urn:b"])
    sm, bs = await manager(w, ["urn:a", "urn:b"])
    bs[0].age, bs[1].age = 900, 10
    slept = []
    async def sleep(s):
        slept.append(s)
        raise KeyboardInterrupt()
    import omemo.session_manager as m
    old, m.asyncio.sleep = m.asyncio.sleep, sleep
    try:
        await sm._SessionManager__manage_signed_pre_key_rotation(1000, m.AsyncFramework.ASYNCIO)
    except KeyboardInterrupt:
        pass
    m.asyncio.sleep = old
    assert slept[0] <= 160, slept
run(main)
""")

seed("threshold-bound", "C25", "the smallest allowed refill threshold",
     "create rejects the refill threshold 25, which is within the documented range",
     [(SM, "        if not 25 <= pre_key_refill_threshold <= 99:", "        if not 25 < pre_key_refill_threshold <= 99:")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    await manager(w, ["urn:a"], threshold=25)
run(main)
""")
seed("retrieval-only-missing", "C27", "a temporary failure while downloading the own bundle",
     "a failed download of the own bundle is taken as agreement: the local bundle is uploaded only if none is published",
     [(SM, """            except (BundleDownloadFailed, BundleNotFound):
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = True
""", """            except (BundleDownloadFailed, BundleNotFound) as e:
                logging.getLogger(SessionManager.LOG_TAG).warning(
                    "Couldn't download own bundle.",
                    exc_info=True
                )

                upload_bundle = not isinstance(e, BundleDownloadFailed)
""")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    sm, bs = await manager(w, ["urn:a"])
    w.bad_bundle["urn:a", OWN, OWN_ID] = BundleDownloadFailed
    await sm.ensure_data_consistency()
    assert len(ops(w, "upload_bundle")) == 1
run(main)
""")
seed("stale-chain-none", "C11", "a session whose receiving chain is exactly one longer than the limit",
     "a ratchet is considered stale one message too late",
     [(SM, "            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER\n", "            or (session.receiving_chain_length or 0) > self.__class__.STALENESS_MAGIC_NUMBER + 1\n")],
"""
async def main():
    w = world(); own(w, ["urn:a"])
    device(w, "al@x", 1, ["urn:a"], key(1))
    sm, bs = await manager(w, ["urn:a"])
    await sm.after_history_sync()
    session(w, bs[0], "al@x", 1, rcl=54)
    await sm.decrypt(message(w, "urn:a", "al@x", 1))
    assert len(ops(w, "send")) == 1
run(main)
""")
seed("fingerprint-short", "C26", "an identity key whose Curve25519 form starts with a zero nibble",
     "leading zeros of the fingerprint are lost",
     [(SM, "        ik_hex_string = xeddsa.ed25519_pub_to_curve25519_pub(identity_key).hex()\n", "        ik_hex_string = f\"{int.from_bytes(xeddsa.ed25519_pub_to_curve25519_pub(identity_key), 'big'):x}\"\n")],
"""
async def main():
    import random
    from omemo.session_manager import SessionManager
    r = random.Random(5)
    for _ in range(400):
        ik = xeddsa.seed_to_ed25519_pub(bytes(r.randrange(256) for _ in range(32)))
        g = SessionManager.format_identity_key(ik)
        assert len(g) == 8 and all(len(x) == 8 for x in g), g
        assert bytes.fromhex("".join(g)) == xeddsa.ed25519_pub_to_curve25519_pub(ik)
run(main)
""")
