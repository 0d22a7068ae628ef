import json
P=[]
SM="omemo/session_manager.py"
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=None
    P.append(d)

T2="The two existing tests run one happy-path conversation between two accounts with everything blindly trusted and no failures"

p("C01","Only trusted devices receive key material",
 "In every encrypt call, key material is produced for a device only if the trust level on record for that device's bare JID and identity key, as it stands after any trust decision made during the same call, evaluates to trusted. All selected recipient devices that evaluate to undecided are submitted together, exactly once and with the caller's identifier, to the trust decision callback (which is not called if there are none). If any selected device still evaluates to undecided afterwards, the call fails with StillUndecided without producing key material or storing any session.",
 ["inputs","histories","fault_sequences"],"Every stored device/trust state, every set of recipients, every outcome of the trust callbacks, every failure of a storage or network call.",
 T2+", so no distrusted or undecided device ever reaches the filter.",
 [SM,"omemo/types.py"],[("encrypt: undecided collection, decision, re-load, StillUndecided, trusted filter",SM+":SessionManager.encrypt")],
 observe=["_make_trust_decision","_evaluate_custom_trust_level","Backend.build_session_active","Backend.encrypt_key_material"])

p("C02","Recipient selection and backend priority",
 "A message is encrypted for exactly those known devices of the requested bare JIDs and of the own account that are marked active for at least one permitted namespace and are trusted, and never for the sending device itself. Each such device is served exactly once, by the loaded backend whose namespace comes first in the effective priority order (the given list, else the order of loaded backends) among the namespaces the device is marked active for. A priority order naming a backend that is not loaded is rejected with UnknownNamespace before anything else happens.",
 ["inputs","configurations","histories"],"Every device/namespace/activity state, every set of loaded backends and every priority order.",
 T2+" and one device per account, with a single-entry priority list.",
 [SM],[("is_valid_recipient_device / apply_backend_priorty_order",SM+":SessionManager.encrypt")],
 observe=["result of SessionManager.encrypt","Backend.encrypt_key_material","Backend.build_session_active"])

p("C03","Every selected recipient device is served or reported",
 "When encrypt returns, every selected trusted device has key material in the returned message of its backend, or is listed in the returned errors with its namespace, bare JID, device id and the failure, and a failed bundle download or key exchange for one device does not keep other devices from being served. If a requested recipient other than the own account ends up without any device holding key material, encrypt raises NoEligibleDevices naming exactly those recipients. Each returned message carries the own bare JID and device id, the content encrypted by its backend from the plaintext supplied for that namespace, no key material other than that produced for it, and is mapped to the plain key material belonging to that content.",
 ["inputs","fault_sequences","histories"],"Every set of recipients and devices, every pattern of bundle download/key exchange failures.",
 T2+"; no download or key exchange ever fails in them.",
 [SM],[("encrypt: per-device try/except, errors, NoEligibleDevices, Message construction",SM+":SessionManager.encrypt")],
 observe=["result of SessionManager.encrypt"])

p("C04","Encryption persists sessions only once success is certain",
 "Every session that was used or built to produce key material in an encrypt call is stored before the call returns, and no other session is. No session is stored while any other step of the call can still fail: if encrypt raises for any reason other than a failing session storage operation, no session has been stored.",
 ["fault_sequences","crash_points","inputs"],"Every point at which a storage, network, trust or backend operation of an encrypt call can fail.",
 T2+", so the order of persistence relative to failures is never observed.",
 [SM],[("encrypt: deferred store_session loop",SM+":SessionManager.encrypt")],
 observe=["Backend.store_session"])

p("C05","Sessions are bound to the identity key on record",
 "A session with a device is actively built only from a bundle that carries the identity key on record for that device (the key trust decisions apply to), and a key exchange received with a message is only processed if it carries that identity key. A mismatch is reported as a per-device error by encrypt, as a failure of the respective backend by replace_sessions and as PublicDataInconsistency by decrypt, and in each case no session is built, used or stored.",
 ["inputs","histories"],"Every bundle a server may return, every key exchange a sender may include, every stored identity key.",
 T2+" with honest bundles; no test substitutes a bundle or key exchange.",
 [SM],[("handle_key_exchange identity check",SM+":SessionManager.decrypt"),("bundle identity key check",SM+":SessionManager.encrypt, replace_sessions")],
 observe=["Backend.build_session_active","Backend.build_session_passive"])

p("C06","Key exchange data accompanies key material until confirmed",
 "Outgoing key material, in encrypted messages as well as in automatically sent empty messages, is accompanied by the session's key exchange information if and only if the session was actively initiated and is not yet confirmed. A session replacement notification always carries the new session's key exchange information.",
 ["inputs","histories"],"Every session state (active/passive, confirmed/unconfirmed), new or loaded.",
 T2+", covering one session life cycle.",
 [SM,"omemo/session.py"],[("key exchange selection",SM+":SessionManager.encrypt, __send_empty_message, replace_sessions")],
 observe=["Message.keys in encrypt results","Message.keys in _send_message"])

p("C07","Decryption admission control",
 "decrypt lets a backend process a message only if the backend for its namespace is loaded, it contains key material addressed to the own bare JID and device id, the sending device is known together with its identity key (after at most one device list refresh), and the trust level on record for the sender's bare JID and identity key does not evaluate to distrusted. Otherwise it raises UnknownNamespace, MessageNotForUs, SenderNotFound or SenderDistrusted respectively, and no session or pre key is touched and no message is sent. Messages from devices with undecided trust are decrypted.",
 ["inputs","histories","configurations"],"Every message, every stored device/trust state, every set of loaded backends.",
 T2+"; none of the rejection branches is executed.",
 [SM],[("decrypt: backend lookup, key lookup, sender lookup, trust check",SM+":SessionManager.decrypt")],
 observe=["Backend.decrypt_key_material","Backend.build_session_passive"])

p("C08","Decryption uses the right session and returns the right data",
 "Without key exchange information, decrypt uses the stored session with the sending device, or fails with NoSession if there is none; with key exchange information it reuses the stored session only if that session was passively initiated from an equivalent key exchange, and otherwise builds a new one from that key exchange and the key material addressed to this device. The returned plaintext is absent exactly for empty messages and otherwise the result of decrypting the content with the key material obtained from that session; it is returned together with the information about the sending device and that key material.",
 ["inputs","histories"],"Every combination of message type, stored session and key exchange.",
 T2+"; session replacement by a second key exchange is not exercised.",
 [SM],[("decrypt_key_material / handle_key_exchange",SM+":SessionManager.decrypt")],
 observe=["result of SessionManager.decrypt","Backend.decrypt_key_material","Backend.build_session_passive"])

p("C09","Decryption persists state only after successful decryption",
 "decrypt stores a session only after both the key material and the content (if any) were decrypted successfully, and stores exactly the session it used, before any pre key is consumed, any bundle is uploaded and any empty message is sent or queued. If decrypt fails before that, no session is stored, no pre key is hidden or deleted, nothing is uploaded and nothing is sent or queued.",
 ["fault_sequences","crash_points","inputs"],"Every point at which an operation of a decrypt call can fail.",
 T2+"; no decryption fails.",
 [SM],[("decrypt: store_session after decrypt_plaintext",SM+":SessionManager.decrypt")],
 observe=["Backend.store_session","Backend.hide_pre_key","Backend.delete_pre_key","_upload_bundle","_send_message"])

p("C10","Used pre keys are retired, refilled and republished",
 "After a message with a key exchange is decrypted, the pre key used by the session is hidden during history synchronization and deleted otherwise; messages without key exchange never affect pre keys. If that changed the bundle, pre keys are refilled to exactly 100 visible ones if their number is at or below the configured threshold (and not otherwise), and then the updated bundle of that backend is uploaded; if it did not change, neither happens. Leaving history synchronization deletes the hidden pre keys of every loaded backend.",
 ["inputs","histories","configurations"],"Every decrypt in either mode, every pre key count and every allowed threshold.",
 T2+" with the default threshold, outside history synchronization.",
 [SM],[("pre key hiding/deletion, refill, upload",SM+":SessionManager.decrypt"),("delete_hidden_pre_keys",SM+":SessionManager.after_history_sync")],
 observe=["Backend.hide_pre_key","Backend.delete_pre_key","Backend.generate_pre_keys","_upload_bundle"])

p("C11","Handshakes and stale ratchets trigger exactly one empty message",
 "A successful decrypt triggers an empty message to the sending device if and only if the message carried a key exchange or the session's receiving chain is longer than 53. During history synchronization (which holds from creation until after_history_sync, and again after before_history_sync) the message is queued persistently instead of sent; after_history_sync ends that mode, sends one empty message for each queued device of each loaded backend whose session still exists, none for any other, and leaves the queues of loaded backends empty. An empty message is encrypted with that session by its backend, addressed to the session's bare JID, sent before the session is stored, and the session is then stored.",
 ["histories","inputs","fault_sequences"],"Every sequence of decrypts and mode changes, every chain length, every queue content.",
 T2+"; the queue is empty whenever after_history_sync is called and chains stay short.",
 [SM],[("empty message trigger and queueing",SM+":SessionManager.decrypt"),("queue draining",SM+":SessionManager.after_history_sync"),("__send_empty_message",SM+":SessionManager.__send_empty_message")],
 state=[("/queue/<namespace>, /queue/<namespace>/<jid>","persistent queue of empty messages",SM)],
 observe=["_send_message","Storage"])

p("C12","Device list updates merge losslessly into the cached device data",
 "After a device list update for a namespace and bare JID, exactly the listed devices and the previously known ones are known; listed devices support and are active for that namespace, previously known unlisted devices that supported it are inactive for it, and labels change only to a provided label (a missing label never erases one). Support and activity for other namespaces, identity keys, and all data of other bare JIDs are unchanged, the passed list is not modified, and an update for a namespace whose backend is not loaded is rejected with UnknownNamespace without effect. At every intermediate write, every device in the stored list has complete records and activity information for every namespace it supports.",
 ["inputs","histories","crash_points"],"Every stored state, every incoming list, every failing or crashing write.",
 T2+"; lists only ever gain a single device.",
 [SM],[("update_device_list merge",SM+":SessionManager.update_device_list")],
 state=[("/devices/<jid>/list","known device ids",SM),("/devices/<jid>/<id>/{namespaces,active,label,identity_key}","per-device record",SM)],
 observe=["get_device_information","Storage"])

p("C13","The own device is always announced",
 "Whenever a device list of the own account for a loaded backend is processed that lacks this device, the complete list plus this device with its stored label is published for that namespace; in all other cases processing a device list publishes nothing. Refreshing fetches the current list of exactly that namespace and bare JID and processes it (for all loaded backends when refreshing across backends).",
 ["inputs","histories"],"Every incoming list for every account and namespace.",
 T2+"; only the initial announcement happens.",
 [SM],[("own device re-announcement",SM+":SessionManager.update_device_list"),("refresh",SM+":SessionManager.refresh_device_list, refresh_device_lists")],
 observe=["_upload_device_list"])

p("C14","Device information is complete and faithful to the records",
 "get_device_information returns exactly one entry for every known device of the bare JID whose identity key is on record or obtainable from a bundle of one of its namespaces, with device id, bare JID, identity key, supported namespaces, per-namespace activity, label and trust level equal to what is on record (the undecided level if no trust level is recorded for that bare JID and identity key). A device is omitted only if its identity key is not on record and no bundle of its namespaces could be downloaded, and such failures never affect other devices. Supported namespaces without activity information are dropped from the result and the record.",
 ["inputs","fault_sequences","histories"],"Every stored state and every pattern of bundle download failures.",
 T2+"; bundles are always available.",
 [SM],[("__get_device_information",SM+":SessionManager.__get_device_information"),("get_own_device_information",SM+":SessionManager.get_own_device_information")],
 observe=["get_device_information","get_own_device_information"])

p("C15","Trust records and recorded identity keys change only when asked to",
 "The trust level on record for a bare JID and identity key changes only by setting it for that bare JID and identity key (to exactly the given level), by purging that bare JID, or, for the own identity key, by the initial setup. The identity key on record for a device, once recorded, is never changed or removed except by purging its bare JID. No other operation (en-/decryption, device list handling, device information, labels, session replacement, backend changes, history synchronization) affects either.",
 ["histories","inputs","fault_sequences"],"Every sequence of public operations on every stored state, including failing ones.",
 T2+" and never look at unrelated records.",
 [SM],[("set_trust",SM+":SessionManager.set_trust"),("storage writes of all operations",SM)],
 state=[("/trust/<jid>/<identity key>","trust level on record",SM),("/devices/<jid>/<id>/identity_key","identity key on record",SM)],
 observe=["get_device_information","Storage"])

p("C16","One persistent identity key pair",
 "The identity key pair is generated from 32 fresh random bytes as a seed and stored if and only if no complete key pair is stored yet; once stored, every later retrieval yields the same key in the same representation (seed or private key) and writes nothing. A key pair that could not be stored completely is not returned. Seed and private key representations expose exactly the stored secret, and the public identity key and private key derived from it.",
 ["histories","fault_sequences","inputs"],"Every stored state, every failing write, every number of retrievals.",
 T2+"; a stored private-key representation is only covered by the migration test.",
 ["omemo/identity_key_pair.py"],[("IdentityKeyPair.get","omemo/identity_key_pair.py:IdentityKeyPair.get"),("IdentityKeyPairSeed/IdentityKeyPairPriv","omemo/identity_key_pair.py")],
 state=[("/ikp/is_seed, /ikp/key","the identity key pair","omemo/identity_key_pair.py")],
 observe=["IdentityKeyPair.get","Storage"])

p("C17","Device id generation and first-run setup",
 "On the first run, a device id within [1, 2^31-1] is chosen that occurs in none of the own account's current device lists of the loaded backends; the complete record of this device (all loaded namespaces, all active, initial label, identity key, known device list) is stored first and the device id is stored only after that. On later runs the stored device id is used and neither the device id nor the record of this device's label and identity key is rewritten (except for a label taken over from a published device list).",
 ["inputs","histories","crash_points"],"Every content of the published device lists, every random outcome, every failing write.",
 T2+" with empty or absent device lists, and never restart a manager with a stored id except in the migration test.",
 [SM],[("first run block",SM+":SessionManager.create")],
 state=[("/own_device_id","id of this device",SM)],
 observe=["Storage","_download_device_list"])

p("C18","Creation publishes bundles before announcing and syncs backend changes",
 "A successful create has generated 100 pre keys (refilled to 100 for a backend added later, if at or below the threshold) and uploaded the bundle of every backend that is new to this device, and only after that has its device list refreshed to announce the device. If the loaded backends differ from those on record, the record is set to exactly the loaded namespaces, all active, and every backend that is no longer loaded is purged; if they do not differ and it is not the first run, create publishes nothing. Creation leaves the library in history synchronization mode and starts signed pre key rotation with the configured period.",
 ["configurations","histories","fault_sequences"],"Every set of previously and currently loaded backends, every failure during creation.",
 T2+"; the set of backends never changes between runs.",
 [SM],[("create",SM+":SessionManager.create")],
 observe=["_upload_bundle","_upload_device_list","Backend.generate_pre_keys","Storage"])

p("C19","Purging a backend removes it consistently and touches nothing else",
 "purge_backend first removes this device, and only this device, from the published device list of that namespace (publishing only if it was listed), then removes exactly that namespace from the record of this device, unloads the backend if it was loaded and has it purge its own data, and last deletes this device's bundle for that namespace. Other loaded backends stay loaded in their order, and records of other devices, other namespaces and other accounts are unchanged. If a step fails, no later step has been performed.",
 ["inputs","configurations","fault_sequences"],"Every namespace (loaded or not), every device list, every failing step.",
 "No existing test purges a backend.",
 [SM],[("purge_backend",SM+":SessionManager.purge_backend")],
 observe=["_upload_device_list","_delete_bundle","Backend.purge","Storage"])

p("C20","Purging an account removes all of its data and nothing else",
 "After purge_bare_jid, no device list, device record (namespaces, activity, label, identity key of any known device) or trust level of any identity key known for that account's devices remains in storage, and every loaded backend was asked to purge the account. No record of any other account, and no other stored data, is changed or removed.",
 ["inputs","histories","configurations"],"Every stored state and every bare JID.",
 "No existing test purges an account.",
 [SM],[("purge_bare_jid",SM+":SessionManager.purge_bare_jid")],
 observe=["Storage","Backend.purge_bare_jid"])

p("C21","The storage cache is transparent and write-through",
 "Every load returns the value of the last successfully completed store or delete of that key (or the persisted value if there was none), with and without caching, and with caching a key is read from the underlying storage at most once until then. Stores and deletes reach the underlying storage before they return and before the cache changes, a failed operation leaves the cache as it was, and other keys are never affected. This also holds when loads of a key overlap with a store or delete of the same key.",
 ["histories","schedules","fault_sequences"],"Every sequence of operations on any keys, every interleaving of loads with one writer per key, every failing underlying operation.",
 "The existing tests use a storage with the cache disabled.",
 ["omemo/storage.py"],[("Storage.load/store/delete","omemo/storage.py:Storage")],
 state=[("__cache","optional write-through cache","omemo/storage.py:Storage")],
 observe=["Storage.load","Storage.store","Storage.delete"])

p("C22","Typed storage access is faithful, type-checked and isolated",
 "Typed loads return exactly the stored value if it has the requested type (primitive, optional primitive, list or dict of primitives, bytes), raise TypeError if it does not, and report a missing value as Nothing, distinct from a stored None; bytes stored are loaded back unchanged. Values held by a Maybe are isolated: mutating the object it was built from, or an object obtained from it, never changes what it yields later. from_just fails with NothingException exactly on Nothing, maybe yields the default exactly on Nothing, and fmap applies the function exactly once exactly on Just.",
 ["inputs","histories"],"Every JSON value, every type, every byte string, every mutation by the caller.",
 "The existing tests never store a value of a wrong type and never mutate returned values.",
 ["omemo/storage.py"],[("load_primitive/load_optional/load_list/load_dict/load_bytes/store_bytes","omemo/storage.py:Storage"),("Maybe/Just/Nothing","omemo/storage.py")],
 observe=["Storage.load_*","Maybe"])

p("C23","Session replacement only takes effect after notification",
 "replace_sessions replaces the session of exactly those loaded backends among the device's namespaces that already have a session with it, each with a newly built session, and stores the new session only after a notification message built from it was sent to the device's bare JID. A failure for one backend is reported under its namespace, leaves its old session in place unless storing itself failed, and does not affect the other backends; the result lists no backend whose replacement succeeded.",
 ["fault_sequences","inputs","configurations"],"Every combination of existing sessions, every failing step for every backend.",
 "No existing test replaces a session.",
 [SM],[("replace_sessions",SM+":SessionManager.replace_sessions")],
 observe=["_send_message","Backend.store_session","result of replace_sessions"])

p("C24","Signed pre keys are rotated on time and republished",
 "In every pass, the age of every loaded backend's signed pre key is checked, and it is rotated exactly if it is older than the configured period. After each rotation the backend's new bundle is uploaded before anything else happens, retrying failed uploads after 60 seconds, doubling the delay up to one hour, until it succeeds. The delay between the end of a pass and the next check is at least 60 seconds, and exceeds neither the period nor the remaining time, as found in that pass, until a key that was not rotated reaches the configured age by more than 60 seconds.",
 ["schedules","fault_sequences","inputs"],"Every age of every backend's key, every number of consecutive upload failures, every number of passes.",
 "The existing tests end within seconds, long before any rotation or retry is due.",
 [SM],[("__manage_signed_pre_key_rotation",SM+":SessionManager.__manage_signed_pre_key_rotation")],
 observe=["Backend.rotate_signed_pre_key","_upload_bundle","asyncio.sleep"])

p("C25","Configuration limits are validated exactly",
 "A backend accepts every per-session limit of skipped message keys together with an absent per-message limit (which then equals the per-session limit), or with a per-message limit that does not exceed it and is zero only if it is zero; every per-message limit that is too large, or zero while the per-session limit is not, is rejected with ValueError, and accepted limits are exposed unchanged. create rejects with ValueError, before any effect, a refill threshold outside 25 to 99 and backends with duplicate namespaces, and accepts all others.",
 ["inputs","configurations"],"Every combination of limits, thresholds and backend lists.",
 "The existing tests only use the default limits and threshold.",
 ["omemo/backend.py",SM],[("Backend.__init__","omemo/backend.py:Backend.__init__"),("create argument checks",SM+":SessionManager.create")],
 observe=["Backend constructor","SessionManager.create"])

p("C26","Fingerprints are the complete Curve25519 identity key in eight groups",
 "format_identity_key returns exactly eight groups of eight lowercase hexadecimal characters whose concatenation is the complete hexadecimal form of the Curve25519 form of the given identity key.",
 ["inputs"],"Every identity key.",
 "No existing test formats a fingerprint.",
 [SM],[("format_identity_key",SM+":SessionManager.format_identity_key")],
 observe=["SessionManager.format_identity_key"])

p("C27","Published data is brought in line with local data on request",
 "When ensure_data_consistency returns, for every loaded backend the own device list of that namespace was refreshed and the local bundle was uploaded if and only if the published bundle of this device could not be retrieved or differs from it. When set_own_label returns, the label is stored for this device and, for every loaded backend, the current own device list was republished with this device carrying exactly that label and all other entries unchanged. Both act on every loaded backend and nothing else.",
 ["inputs","configurations","fault_sequences"],"Every published bundle and device list, every set of loaded backends.",
 "No existing test calls either operation.",
 [SM],[("ensure_data_consistency",SM+":SessionManager.ensure_data_consistency"),("set_own_label",SM+":SessionManager.set_own_label")],
 observe=["_upload_bundle","_upload_device_list","Storage"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(d)+"\n" for d in P))
import sys
sys.path.insert(0,"/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,s)
print(len(P))
