"""The properties, as judgements about one executed operation. Each returns a list of what is wrong."""
import copy

from omemo.message import Message
from omemo.session import Initiation
from omemo.types import TrustLevel
from omemo.backend import KeyExchangeFailed
from omemo.session_manager import (
    BundleDownloadFailed, BundleNotFound, BundleUploadFailed, NoEligibleDevices, StillUndecided, UnknownNamespace,
    MessageNotForUs, SenderNotFound, SenderDistrusted, NoSession, PublicDataInconsistency)

from .fakes import Recs, evaluate, b64, FakeBundle
from .scen import OWN, PEERS, GHOST

T, D, U = TrustLevel.TRUSTED, TrustLevel.DISTRUSTED, TrustLevel.UNDECIDED
PRODUCE = ("build_session_active", "encrypt_key_material")
READS = ("_load", "load_session", "get_bundle", "get_num_visible_pre_keys", "signed_pre_key_age", "evaluate",
         "download_bundle", "download_device_list")
DEVICE_FAILURES = (BundleDownloadFailed, BundleNotFound, KeyExchangeFailed)


def escaped(c):
    """Whether the operation failed because of a failure put in by the fault plan."""
    return c.exc is not None and any(c.exc is x or c.exc.__cause__ is x or c.exc.__context__ is x for x in c.w.injected)


# ------------------------------------------------------------------------------------------------------------ encrypt

def known_devices(R, c):
    """Known recipient devices with an identity key on record, without this device."""
    jids = set(c.args["bare_jids"]) | {OWN}
    return {(j, d) for j in jids for d in R.ids(j) if R.ik(j, d) is not None and (j, d) != (OWN, c.w.own_id)}


def permitted(R, c, j, d):
    """The namespaces the device is active for, in the order of priority."""
    order = c.args["order"] if c.args["order"] is not None else c.args_ns
    a = R.active(j, d)
    return [n for n in order if n in R.ns(j, d) and a.get(n)]


def selected(R, c):
    return {k for k in known_devices(R, c) if permitted(R, c, *k)}


def prep(c):
    c.args_ns = [b.ns for b in c.x["loaded"]]
    o = c.args["order"]
    return o is None or set(o) <= set(c.args_ns)


def failed_devices(c):
    """Devices for which producing key material failed: (ns, jid, id) -> exception."""
    out = {}
    for e in c.evs:
        if e.op == "build_session_active" and isinstance(e.exc, DEVICE_FAILURES):
            out[e.a["ns"], e.a["jid"], e.a["id"]] = e.exc
    return out


def produced(c):
    """Successful productions: event, ekm, session."""
    out = []
    for e in c.of(*PRODUCE):
        if e.ok:
            s, m = e.res if e.op == "build_session_active" else (e.a["session"], e.res)
            out.append((e, m, s))
    return out


def c01(c):
    if c.op != "encrypt":
        return []
    out = []
    valid = prep(c)
    decs = c.of("decide")
    if len(decs) > 1:
        out.append("the trust decision callback was called more than once")
    for e in decs:
        R = c.R(e)
        want = {k for k in selected(R, c) if R.level(*k) is U}
        got = {(d.bare_jid, d.device_id) for d in e.a["undecided"]}
        if want != got or len(got) != len(e.a["undecided"]):
            out.append(f"trust decision was asked for {sorted(got)}, but {sorted(want)} are undecided")
        for d in e.a["undecided"]:
            if d.bare_jid and (d.identity_key != R.ik(d.bare_jid, d.device_id)):
                out.append("the trust decision was asked for a different identity key than the one on record")
        if not got:
            out.append("the trust decision callback was called without undecided devices")
        if e.a["identifier"] != c.args["identifier"]:
            out.append("the trust decision callback did not get the caller's identifier")
    for e in c.of(*PRODUCE):
        R, k = c.R(e), (e.a["jid"], e.a["id"])
        if R.ik(*k) is None or R.level(*k) is not T:
            out.append(f"key material is produced for {k}, which is not trusted")
    for e in c.of(*PRODUCE, "store_session", "encrypt_plaintext"):
        R = c.R(e)
        und = {k for k in selected(R, c) if R.level(*k) is U}
        if und:
            out.append(f"{e.op} although {sorted(und)} are undecided")
            break
    if isinstance(c.exc, StillUndecided):
        if not decs:
            out.append("StillUndecided without asking for a trust decision")
        if not any(c.R1.level(*k) is U for k in selected(c.R1, c)):
            out.append("StillUndecided although no device is undecided")
    if (c.exc is None or isinstance(c.exc, NoEligibleDevices)) and valid:
        if any(c.R1.level(*k) is U for k in selected(c.R1, c)):
            out.append("no failure although a selected device is undecided")
    return out


def c02(c):
    if c.op != "encrypt":
        return []
    out = []
    if not prep(c):
        if not isinstance(c.exc, UnknownNamespace) or c.evs:
            out.append("a priority order with a namespace that is not loaded was not rejected at once")
        return out
    if isinstance(c.exc, UnknownNamespace) and not escaped(c):
        out.append("a valid priority order was rejected")
    if c.exc is not None and not escaped(c) and not isinstance(c.exc, (NoEligibleDevices, StillUndecided)) and not c.faulted \
            and type(c.exc).__name__ != "TrustDecisionFailed":
        out.append(f"encrypt failed with {type(c.exc).__name__}: {c.exc}")
    seen = {}
    for e in c.of(*PRODUCE):
        R, k = c.R(e), (e.a["jid"], e.a["id"])
        if k == (OWN, c.w.own_id):
            out.append("key material is produced for the sending device")
            continue
        if k not in selected(R, c):
            out.append(f"key material is produced for {k}, which is not a known, active recipient device")
        elif permitted(R, c, *k)[0] != e.a["ns"]:
            out.append(f"{k} is served by {e.a['ns']} instead of {permitted(R, c, *k)[0]}")
        seen[k] = seen.get(k, 0) + 1
    out += [f"{k} is served {n} times" for k, n in seen.items() if n > 1]
    if c.exc is None:
        messages, errors = c.res
        got = [(m.namespace, k.bare_jid, k.device_id) for m in messages for k, _ in m.keys]
        got += [(e.namespace, e.bare_jid, e.device_id) for e in errors]
        R = c.R1
        want = {(permitted(R, c, *k)[0],) + k for k in selected(R, c) if R.level(*k) is T}
        if set(got) != want or len(got) != len(want):
            out.append(f"devices served or reported: {sorted(got)}; to be served: {sorted(want)}")
    return out


def c03(c):
    if c.op != "encrypt" or not prep(c):
        return []
    out = []
    prod = produced(c)
    served = {(e.a["jid"], e.a["id"]) for e, _, _ in prod}
    R = c.R1
    want = {k for k in selected(R, c) if R.level(*k) is T}
    if isinstance(c.exc, DEVICE_FAILURES):
        if not any(e.exc is c.exc and e.op == "download_bundle" and not any(
                x.op in ("encrypt_plaintext",) for x in c.evs[:c.evs.index(e)]) for e in c.evs):
            out.append(f"{type(c.exc).__name__} of one device made the whole call fail")
    reached = [e for e in c.evs if e.op in ("encrypt_plaintext",)]
    without = {j for j in set(c.args["bare_jids"]) - {OWN} if not any(k[0] == j for k in served)}
    if isinstance(c.exc, NoEligibleDevices):
        if set(c.exc.bare_jids) != without or not without:
            out.append(f"NoEligibleDevices names {sorted(c.exc.bare_jids)}, without key material are {sorted(without)}")
        for k in want:
            if k not in served and not any(e.op in PRODUCE + ("download_bundle", "load_session") and
                                           (e.a["jid"], e.a["id"]) == k for e in c.evs):
                out.append(f"{k} was not tried before NoEligibleDevices")
    if c.exc is not None:
        return out
    if without:
        out.append(f"recipients {sorted(without)} have no device with key material, but NoEligibleDevices was not raised")
    messages, errors = c.res
    errs = {(e.bare_jid, e.device_id): e for e in errors}
    inmsg = {}
    for m, pkm in messages.items():
        if (m.bare_jid, m.device_id) != (OWN, c.w.own_id):
            out.append("a message does not carry the own bare JID and device id")
        ev = next((e for e in c.of("encrypt_plaintext") if e.ok and e.res[0] is m.content), None)
        if ev is None or ev.a["ns"] != m.namespace or ev.a["text"] != c.args["plaintext"][m.namespace]:
            out.append(f"the content of the message for {m.namespace} is not the one encrypted from its plaintext")
            continue
        if ev.res[1] is not pkm:
            out.append("a message is mapped to key material of another content")
        for k, _ in m.keys:
            inmsg[k] = m
            p = next((x for x in prod if x[1] is k), None)
            if p is None or p[0].a["pkm"] is not pkm or p[0].a["ns"] != m.namespace:
                out.append(f"{k!r} in the message for {m.namespace} was not produced for it")
    for e, k, _ in prod:
        if k not in inmsg:
            out.append(f"key material produced for {(e.a['jid'], e.a['id'])} is missing from the messages")
    for k in want:
        if k not in served:
            x = errs.get(k)
            if x is None:
                out.append(f"{k} is neither served nor reported")
            elif x.namespace != permitted(R, c, *k)[0] or not isinstance(x.exception, DEVICE_FAILURES):
                out.append(f"{k} is reported with the wrong namespace or failure: {x}")
    for k, x in errs.items():
        if k in served or k not in want:
            out.append(f"{k} is reported as failed, but did not fail")
        i0 = next((i for i, e in enumerate(c.evs) if e.op == "encrypt_plaintext" and e.a["ns"] == x.namespace), 0)
        f = [e.exc for e in c.evs[i0:] if e.exc is not None and e.op in PRODUCE + ("download_bundle",) and
             (e.a["jid"], e.a["id"]) == k and e.a["ns"] == x.namespace]
        bu = c.x["bundles"].get((x.namespace, *k))
        if not f and bu is not None and bu.identity_key == R.ik(*k):
            out.append(f"{k} is reported with a failure, but nothing failed for it")
        if f and x.exception is not f[-1] and x.exception.__cause__ is not f[-1] and type(x.exception) is not type(f[-1]):
            out.append(f"{k} is reported with a failure that is not its own")
    return out


def c04(c):
    if c.op != "encrypt":
        return []
    out = []
    stores = c.of("store_session")
    if stores:
        i0 = c.evs.index(stores[0])
        later = [e.op for e in c.evs[i0:] if e.op != "store_session" and e.op != "_load"]
        if later:
            out.append(f"{later[0]} after sessions have been stored")
        if c.exc is not None and not any(e.exc is c.exc for e in stores):
            out.append(f"{type(c.exc).__name__} although sessions have been stored")
    used = {(e.a["ns"], s.uid): s for e, _, s in produced(c)}
    for e in stores:
        k = e.a["ns"], e.a["uid"]
        if k not in used:
            out.append("a session is stored that was not used")
        elif used[k].version != e.a["version"]:
            out.append("a session is stored in another state than after its use")
    if c.exc is None:
        got = {(e.a["ns"], e.a["uid"]) for e in stores if e.ok}
        if set(used) - got:
            out.append("a session that was used is not stored")
    return out


def c05(c):
    out = []
    for e in c.of("build_session_active"):
        bu = e.a["bundle"]
        R = c.R(e)
        if bu.v[:3] != (e.a["ns"], e.a["jid"], e.a["id"]):
            out.append("a session is built from the bundle of another device")
        if bu.identity_key != R.ik(e.a["jid"], e.a["id"]):
            out.append(f"a session with {(e.a['jid'], e.a['id'])} is built from a bundle with another identity key than "
                       "the one on record")
    if c.op == "decrypt" and c.x["mine"] is not None:
        m, kex = c.args["message"], c.x["kex"]
        touched = c.of("build_session_passive", "decrypt_key_material", "store_session", "hide_pre_key", "delete_pre_key",
                       "decrypt_plaintext", "send")
        for e in touched:
            if kex is not None and kex.identity_key != c.R(e).ik(m.bare_jid, m.device_id):
                out.append("a key exchange with another identity key than the one on record is processed")
                break
        if kex is not None and not c.faulted and admitted(c) and kex.identity_key != c.R1.ik(m.bare_jid, m.device_id) and \
                not isinstance(c.exc, PublicDataInconsistency):
            out.append(f"identity key mismatch ended as {c.exc!r}, not PublicDataInconsistency")
        if isinstance(c.exc, PublicDataInconsistency) and (kex is None or
                                                           kex.identity_key == c.R1.ik(m.bare_jid, m.device_id)):
            out.append("PublicDataInconsistency without a mismatch")
    if c.op in ("encrypt", "replace_sessions") and c.exc is None:
        # the bundle fetched for the device does not carry the recorded key: a failure of that device
        errs = {(x.namespace, x.bare_jid, x.device_id) for x in c.res[1]} if c.op == "encrypt" else \
            {(n, c.args["device"].bare_jid, c.args["device"].device_id) for n in c.res}
        for e in c.of("download_bundle"):
            k = e.a["ns"], e.a["jid"], e.a["id"]
            if e.ok and e.res.identity_key != c.R1.ik(*k[1:]) and k not in errs and (
                    c.op == "replace_sessions" or any(x.op == "encrypt_plaintext" for x in c.evs[:c.evs.index(e)])):
                out.append(f"identity key mismatch of {k} was not reported")
    return out


def kex_right(s, kex):
    want = s.initiation is Initiation.ACTIVE and not s.confirmed
    return (kex is s.key_exchange) if want else kex is None


def c06(c):
    out = []
    by = {e.res[1] if e.op == "build_session_active" else e.res: (e, e.res[0] if e.op == "build_session_active" else
                                                                   e.a["session"]) for e in c.of(*PRODUCE) if e.ok}
    msgs = list(c.res[0]) if c.op == "encrypt" and c.exc is None else []
    msgs += [e.a["message"] for e in c.of("send")]
    for m in msgs:
        for k, kex in m.keys:
            if k not in by:
                continue
            e, s = by[k]
            if c.op == "replace_sessions":
                if kex is not s.key_exchange:
                    out.append("a session replacement notification lacks the new session's key exchange")
            elif not kex_right(s, kex):
                out.append(f"key material for {(k.bare_jid, k.device_id)} (session {s.initiation.name}, confirmed="
                           f"{s.confirmed}) is accompanied by {kex!r}")
    return out


# ------------------------------------------------------------------------------------------------------------ decrypt

TOUCH = ("load_session", "build_session_passive", "build_session_active", "decrypt_key_material", "decrypt_plaintext",
         "store_session", "hide_pre_key", "delete_pre_key", "generate_pre_keys", "upload_bundle", "send",
         "encrypt_empty", "encrypt_key_material", "delete_hidden_pre_keys", "rotate_signed_pre_key")


def admitted(c):
    """Whether the backend may process the message, judged at the end (admission changes no trust and no keys later)."""
    m = c.args["message"]
    if c.backend(m.namespace) is None or c.x["mine"] is None:
        return False
    R = c.R1
    return m.device_id in R.ids(m.bare_jid) and R.ik(m.bare_jid, m.device_id) is not None and \
        R.level(m.bare_jid, m.device_id) is not D


def c07(c):
    if c.op != "decrypt":
        return []
    out = []
    m = c.args["message"]
    k = m.bare_jid, m.device_id
    for e in c.of(*TOUCH):
        R = c.R(e)
        if c.backend(m.namespace) is None or c.x["mine"] is None or m.device_id not in R.ids(m.bare_jid) or \
                R.ik(*k) is None or R.level(*k) is D:
            out.append(f"{e.op} for a message that is not admitted")
            break
    refreshes = c.of("download_device_list")
    if len(refreshes) > 1 or any((e.a["ns"], e.a["jid"]) != (m.namespace, m.bare_jid) for e in refreshes):
        out.append("more than one device list refresh, or of another list")
    known0 = m.device_id in c.R0.ids(m.bare_jid) and c.R0.ik(*k) is not None
    if known0 and refreshes:
        out.append("a device list refresh for a known sender")
    R = c.R1
    if c.faulted:
        if c.exc is None and not admitted(c):
            out.append("a message that is not admitted was decrypted")
        return out
    if c.backend(m.namespace) is None:
        want = UnknownNamespace
    elif c.x["mine"] is None:
        want = MessageNotForUs
    elif m.device_id not in R.ids(m.bare_jid) or R.ik(*k) is None:
        want = SenderNotFound
        if not refreshes:
            out.append("SenderNotFound without a device list refresh")
        listed = m.device_id in c.x["lists"].get((m.namespace, m.bare_jid), {})
        nss = c.R0.ns(*k) | ({m.namespace} if listed else set())
        if (listed or m.device_id in c.R0.ids(m.bare_jid)) and any(
                (n, *k) in c.x["bundles"] and (n, *k) not in c.w.bad_bundle for n in nss):
            out.append("SenderNotFound although the device is listed and its bundle is available")
    elif R.level(*k) is D:
        want = SenderDistrusted
    else:
        want = None
    if want is not None:
        if not isinstance(c.exc, want):
            out.append(f"decrypt ended as {c.exc!r}, not {want.__name__}")
    elif isinstance(c.exc, (UnknownNamespace, MessageNotForUs, SenderNotFound, SenderDistrusted)):
        out.append(f"decrypt ended as {c.exc!r} for an admissible message")
    return out


def use_of_session(c):
    """The event that yielded key material, the session it used, the resulting key material."""
    for e in c.of("build_session_passive", "decrypt_key_material"):
        if e.ok:
            return (e, e.res[0], e.res[1]) if e.op == "build_session_passive" else (e, e.a["session"], e.res)
    return None


def c08(c):
    if c.op != "decrypt" or c.x["mine"] is None:
        return []
    out = []
    m, kex, mine = c.args["message"], c.x["kex"], c.x["mine"]
    k = m.bare_jid, m.device_id
    b = c.backend(m.namespace)
    if b is None:
        return out
    stored = c.x["sessions"][m.namespace].get(k)
    uses = c.of("build_session_passive", "decrypt_key_material")
    if len(uses) > 1:
        out.append("the message was processed twice")
    reuse = stored is not None and (kex is None or (stored.initiation is Initiation.PASSIVE and
                                                    stored.key_exchange.builds_same_session(kex)))
    for e in uses:
        if e.a["ns"] != m.namespace or e.a["ekm"] is not mine:
            out.append("the wrong key material or backend was used")
        if e.op == "decrypt_key_material":
            if not reuse or e.a["session"].uid != stored.uid:
                out.append("a session was used that is not the one for this message")
        else:
            if reuse or kex is None:
                out.append("a new session was built although the stored one serves")
            if e.a["kex"] is not kex or (e.a["jid"], e.a["id"]) != k:
                out.append("a session was built from another key exchange or for another device")
    if admitted(c) and not c.faulted and kex is None and stored is None and not isinstance(c.exc, NoSession):
        out.append(f"without a session decrypt ended as {c.exc!r}")
    if isinstance(c.exc, NoSession) and (kex is not None or stored is not None):
        out.append("NoSession although there is one")
    if admitted(c) and not c.faulted and (stored is not None or kex is not None) and \
            (kex is None or kex.identity_key == c.R1.ik(*k)) and c.exc is not None:
        out.append(f"decrypt failed with {c.exc!r}")
    if c.exc is None:
        u = use_of_session(c)
        if u is None:
            return out + ["a result without processing the message"]
        pt, dev, pkm = c.res
        if pkm is not u[2]:
            out.append("the returned key material is not that of the session")
        dp = c.of("decrypt_plaintext")
        if m.content.empty:
            if pt is not None or dp:
                out.append("an empty message has a plaintext")
        elif len(dp) != 1 or pt != dp[0].res or dp[0].a["content"] is not m.content or dp[0].a["pkm"] is not u[2] or \
                dp[0].a["ns"] != m.namespace:
            out.append("the returned plaintext is not the decrypted content")
        if (dev.bare_jid, dev.device_id) != k or dev.identity_key != c.R1.ik(*k):
            out.append("the returned device information is not that of the sender")
    return out


EFFECTS9 = ("hide_pre_key", "delete_pre_key", "generate_pre_keys", "upload_bundle", "send", "encrypt_empty",
            "encrypt_key_material", "delete_hidden_pre_keys")


def queue_stores(c):
    return [e for e in c.of("_store", "_delete") if e.a["key"].startswith("/queue/")]


def c09(c):
    if c.op != "decrypt":
        return []
    out = []
    m = c.args["message"]
    u = use_of_session(c)
    dp = [e for e in c.of("decrypt_plaintext") if e.ok]
    stores = c.of("store_session")
    done = u is not None and (m.content.empty or bool(dp))
    own = []                            # the store of the session that was used
    if stores:
        e = stores[0]
        i = c.evs.index(e)
        if u is None or c.evs.index(u[0]) > i or (not m.content.empty and (not dp or c.evs.index(dp[0]) > i)):
            out.append("a session is stored before the message was decrypted")
        elif e.a["uid"] != u[1].uid or e.a["ns"] != m.namespace or e.a["version"] != (
                u[1].version if not [x for x in c.of("encrypt_key_material") if c.evs.index(x) < i] else -1) and \
                not c.of("encrypt_key_material"):
            out.append("another session than the one used is stored")
        own = [e] if e.ok else []
    for e in c.of(*EFFECTS9) + queue_stores(c):
        if not own or c.evs.index(own[0]) > c.evs.index(e):
            out.append(f"{e.op} before the session was stored")
            break
    for e in stores:
        if u is not None and e.a["uid"] != u[1].uid:
            out.append("a session is stored that was not used")
    if not done and (stores or c.of(*EFFECTS9) or queue_stores(c)):
        out.append("effects although decryption did not succeed")
    if c.exc is None and not own:
        out.append("the session was not stored")
    return out


def c10(c):
    out = []
    if c.op == "decrypt":
        m, kex = c.args["message"], c.x["kex"]
        use = c.of("hide_pre_key", "delete_pre_key")
        u = use_of_session(c)
        if kex is None and use:
            out.append("a message without key exchange affects pre keys")
        for e in use:
            if e.op != ("hide_pre_key" if c.x["sync"] else "delete_pre_key"):
                out.append(f"{e.op} {'during' if c.x['sync'] else 'outside'} history synchronization")
            if u is None or e.a["session"] is not u[1] and e.a["session"].uid != u[1].uid or e.a["ns"] != m.namespace:
                out.append("the pre key of another session is retired")
        if len(use) > 1:
            out.append("more than one pre key is retired")
        gens, ups = c.of("generate_pre_keys"), c.of("upload_bundle")
        changed = bool(use) and use[0].ok and use[0].res
        vis = None
        if changed:
            vis = max(0, c.x["visible"][m.namespace] - 1)
        if not changed and (gens or ups):
            out.append("pre keys are generated or a bundle is uploaded although the bundle did not change")
        for e in gens:
            if changed and (e.a["ns"] != m.namespace or vis > c.w.threshold or e.a["num"] != 100 - vis):
                out.append(f"{e.a['num']} pre keys are generated with {vis} visible ones and a threshold of "
                           f"{c.w.threshold}")
        if len(gens) > 1 or len(ups) > 1:
            out.append("pre keys are refilled or the bundle is uploaded more than once")
        for e in ups:
            bu = e.a["bundle"]
            if changed and bu != FakeBundle(m.namespace, OWN, c.w.own_id, c.w.own_ik,
                                            c.backend(m.namespace).version if e is ups[-1] else -1):
                out.append("the uploaded bundle is not the current one of that backend")
            if changed and vis <= c.w.threshold and not [x for x in gens if x.ok and c.evs.index(x) < c.evs.index(e)]:
                out.append("the bundle is uploaded without refilling the pre keys")
        if c.exc is None:
            if kex is not None and not use:
                out.append("the used pre key was not retired")
            if changed and not ups:
                out.append("the changed bundle was not uploaded")
    if c.op == "after_history_sync":
        gone = [e.a["ns"] for e in c.of("delete_hidden_pre_keys") if e.ok]
        if c.exc is None and sorted(gone) != sorted(b.ns for b in c.x["loaded"]):
            out.append(f"hidden pre keys deleted for {gone}")
        if c.of("delete_pre_key", "hide_pre_key", "generate_pre_keys"):
            out.append("leaving history synchronization affects other pre keys")
    return out


def empty_right(c, e, ns, key):
    """Problems with the sending of one empty message."""
    out = []
    m = e.a["message"]
    if e.a["jid"] != key[0]:
        out.append("an empty message is sent to the wrong bare JID")
    if m.namespace != ns or (m.bare_jid, m.device_id) != (OWN, c.w.own_id):
        out.append("an empty message carries the wrong namespace or sender")
    ev = next((x for x in c.of("encrypt_empty") if x.ok and x.res[0] is m.content), None)
    if ev is None or ev.a["ns"] != ns:
        out.append("an empty message has other than empty content of its backend")
    ks = list(m.keys)
    if len(ks) != 1:
        return out + ["an empty message does not have exactly one key"]
    p = next((x for x in c.of("encrypt_key_material") if x.ok and x.res is ks[0][0]), None)
    if p is None or p.a["ns"] != ns or (ev is not None and p.a["pkm"] is not ev.res[1]):
        out.append("the key material of an empty message does not belong to it")
    elif (p.a["jid"], p.a["id"]) != key:
        out.append("an empty message is encrypted for another device")
    else:
        i = c.evs.index(e)
        st = [x for x in c.of("store_session") if x.a["uid"] == p.a["session"].uid and
              x.a["version"] == p.a["session"].version]
        if any(c.evs.index(p) < c.evs.index(x) < i for x in c.of("store_session") if x.a["uid"] == p.a["session"].uid):
            out.append("the session of an empty message is stored before it was sent")
        if e.ok and c.exc is None and not [x for x in st if c.evs.index(x) > i and x.a["ns"] == ns]:
            out.append("the session of an empty message is not stored afterwards")
        if not e.ok and [x for x in st if c.evs.index(x) > i]:
            out.append("the session of an empty message that was not sent is stored")
    return out


def c11(c):
    out = []
    if c.op == "decrypt":
        m, kex = c.args["message"], c.x["kex"]
        k = m.bare_jid, m.device_id
        u = use_of_session(c)
        sends = c.of("send")
        stale = u is not None and (u[1].receiving_chain_length or 0) > 53
        want = u is not None and (kex is not None or stale)
        for e in sends:
            if not want or c.x["sync"]:
                out.append("an empty message is sent that must not be sent")
            else:
                out += empty_right(c, e, m.namespace, k)
        if len(sends) > 1:
            out.append("more than one empty message")
        qs = queue_stores(c)
        if qs and (not want or not c.x["sync"]):
            out.append("an empty message is queued that must not be queued")
        if c.exc is None and want and not c.x["sync"] and not sends:
            out.append("no empty message was sent")
        q0 = {j: set(c.pre.get(f"/queue/{m.namespace}/{j}", [])) for j in c.pre.get(f"/queue/{m.namespace}", [])}
        kv = c.w.kv
        q1 = {j: set(kv.get(f"/queue/{m.namespace}/{j}", [])) for j in kv.get(f"/queue/{m.namespace}", [])}
        if c.exc is None and want and c.x["sync"]:
            old = set(c.pre.get(f"/queue/{m.namespace}/{k[0]}", []))
            exp = dict(q0)
            exp[k[0]] = old | {k[1]}
            if q1 != exp:
                out.append(f"the queue is {q1} instead of {exp}")
        for x in set(kv) | set(c.pre):
            if x.startswith("/queue/") and x not in (f"/queue/{m.namespace}", f"/queue/{m.namespace}/{k[0]}") and \
                    kv.get(x) != c.pre.get(x):
                out.append(f"queue record {x} changed")
    if c.op == "after_history_sync":
        loaded = {b.ns for b in c.x["loaded"]}
        want = {(n, j, d) for n, q in c.x["queue"].items() if n in loaded for j, d in q if (j, d) in c.x["sessions"][n]}
        got = []
        for e in c.of("send"):
            m = e.a["message"]
            p = next((x for x in c.of("encrypt_key_material") if x.ok and any(x.res is kk for kk, _ in m.keys)), None)
            key = (p.a["jid"], p.a["id"]) if p else (e.a["jid"], None)
            out += empty_right(c, e, m.namespace, key)
            got.append((m.namespace,) + key)
        if len(set(got)) != len(got) or not set(got) <= want:
            out.append(f"empty messages sent to {sorted(map(str, got))}, queued with a session are {sorted(want)}")
        for e in c.of("store_session"):
            if not any(x.a["message"].keys and x.ok and c.evs.index(x) < c.evs.index(e) and
                       any(kk.session.uid == e.a["uid"] for kk, _ in x.a["message"].keys) for x in c.of("send")):
                out.append("a session is stored for which no empty message was sent")
        if c.exc is None:
            if set(got) != want:
                out.append(f"empty messages sent to {sorted(map(str, got))} instead of {sorted(want)}")
            left = [x for x in c.w.kv if x.startswith("/queue/") and x.split("/")[2] in loaded]
            if left:
                out.append(f"the queue still has {left}")
        for x in set(c.w.kv) | set(c.pre):
            if x.startswith("/queue/") and x.split("/")[2] not in loaded and c.w.kv.get(x) != c.pre.get(x):
                out.append(f"queue record {x} of a backend that is not loaded changed")
        if c.of("hide_pre_key", "delete_pre_key"):
            out.append("pre keys are retired on leaving history synchronization")
    return out


# ------------------------------------------------------------------------------------------------------- device lists

def merge(R, c, ns, jid, lst, own_id):
    """Records after processing a list: id -> (namespaces, active, label, set of acceptable labels)."""
    out = {}
    old = R.ids(jid)
    full = dict(lst)
    if jid == OWN and own_id not in full:
        full[own_id] = R.field(OWN, own_id, "label")
    for d in old | set(lst) | (set(full) if jid == OWN else set()):
        n0, a0 = set(R.ns(jid, d)) if d in old else set(), R.active(jid, d) if d in old else {}
        l0 = R.field(jid, d, "label") if d in old else None
        if d in full:
            n1, a1 = n0 | {ns}, {**a0, ns: True}
            l1 = full[d] if full[d] is not None else l0
        else:
            n1, a1, l1 = n0, ({**a0, ns: False} if ns in n0 else a0), l0
        out[d] = (n1, a1, l1)
    return out


def crash_invariant(kv, what):
    """Every listed device has complete records and activity information for every namespace it supports."""
    for key, ids in kv.items():
        if key.startswith("/devices/") and key.endswith("/list"):
            j = key.split("/")[2]
            for d in ids:
                p = f"/devices/{j}/{d}/"
                miss = [f for f in ("namespaces", "active", "label") if p + f not in kv]
                if miss:
                    return [f"{what}: device {j}/{d} is listed but lacks {miss}"]
                lack = [n for n in kv[p + "namespaces"] if n not in kv[p + "active"]]
                if lack:
                    return [f"{what}: device {j}/{d} supports {lack} without activity information"]
    return []


def consistent(kv):
    return not crash_invariant(kv, "")


def c12(c):
    if c.op not in ("update_device_list", "refresh_device_list", "refresh_device_lists"):
        return []
    out = []
    jid, own = c.args["bare_jid"], c.w.own_id
    good = consistent(c.pre)
    if good:
        for e in c.of("_store", "_delete", "upload_device_list"):
            bad = crash_invariant(e.before, f"before {e!r}")
            if bad:
                out += bad
                break
        out += crash_invariant(c.w.kv, "afterwards")[:1]
    kv = c.w.kv
    for x in set(kv) | set(c.pre):
        if kv.get(x) != c.pre.get(x) and not (x.startswith(f"/devices/{jid}/") and not x.endswith("/identity_key")):
            out.append(f"record {x} changed")
    if c.op == "update_device_list":
        if c.x["passed"] != c.args["device_list"]:
            out.append("the passed device list was modified")
    ns = c.args["namespace"]
    if c.op != "refresh_device_lists" and c.backend(ns) is None:
        if not isinstance(c.exc, UnknownNamespace) and not c.faulted or c.of("_store", "_delete", "upload_device_list"):
            out.append("an update for a namespace that is not loaded was not rejected")
        return out
    if c.exc is None and good:
        R0, R1 = c.R0, c.R1
        order = [ns] if c.op != "refresh_device_lists" else [b.ns for b in c.x["loaded"]]
        recs, w2 = None, copy.deepcopy(c.pre)
        for n in order:
            lst = c.args["device_list"] if c.op == "update_device_list" else c.x["lists"].get((n, jid), {})
            exp = merge(Recs(w2, c.w), c, n, jid, lst, own)
            if exp:
                w2[f"/devices/{jid}/list"] = sorted(exp)
            for d, (nn, aa, ll) in exp.items():
                for f, v in (("namespaces", sorted(nn)), ("active", aa), ("label", ll)):
                    w2[f"/devices/{jid}/{d}/{f}"] = v
        E = Recs(w2, c.w)
        if R1.ids(jid) != E.ids(jid):
            out.append(f"known devices of {jid} are {sorted(R1.ids(jid))} instead of {sorted(E.ids(jid))}")
        for d in E.ids(jid) & R1.ids(jid):
            for what, g, e in (("namespaces", R1.ns(jid, d), E.ns(jid, d)), ("activity", R1.active(jid, d), E.active(jid, d)),
                               ("label", R1.field(jid, d, "label"), E.field(jid, d, "label"))):
                if g != e:
                    out.append(f"{what} of {jid}/{d} is {g!r} instead of {e!r}")
    elif not c.faulted and good:
        out.append(f"the update failed with {c.exc!r}")
    return out


def c13(c):
    if c.op not in ("update_device_list", "refresh_device_list", "refresh_device_lists"):
        return []
    out = []
    jid, ns, own = c.args["bare_jid"], c.args["namespace"], c.w.own_id
    loaded = [b.ns for b in c.x["loaded"]]
    downs = [(e.a["ns"], e.a["jid"]) for e in c.of("download_device_list")]
    want = {"update_device_list": [], "refresh_device_list": [(ns, jid)],
            "refresh_device_lists": [(n, jid) for n in loaded]}[c.op]
    if c.exc is None and sorted(downs) != sorted(want) or not set(downs) <= set(want):
        out.append(f"fetched device lists {downs} instead of {want}")
    exp = {}
    for n in ([ns] if c.op != "refresh_device_lists" else loaded):
        lst = c.args["device_list"] if c.op == "update_device_list" else c.x["lists"].get((n, jid), {})
        if jid == OWN and n in loaded and own not in lst:
            exp[n] = {**lst, own: c.R0.field(OWN, own, "label")}
    ups = c.of("upload_device_list")
    for e in ups:
        if exp.get(e.a["ns"]) != e.a["list"]:
            # a label published for this device may have come with an earlier list of the same operation
            alt = exp.get(e.a["ns"])
            if alt is None or {k: v for k, v in alt.items() if k != own} != {k: v for k, v in e.a["list"].items()
                                                                             if k != own} or own not in e.a["list"] or \
                    e.a["list"][own] != c.R(e).field(OWN, own, "label"):
                out.append(f"published {e.a['list']} for {e.a['ns']}, expected {exp.get(e.a['ns'])}")
    if c.exc is None and sorted(e.a["ns"] for e in ups) != sorted(exp):
        out.append(f"published lists for {[e.a['ns'] for e in ups]} instead of {sorted(exp)}")
    if c.of("upload_bundle", "delete_bundle", "send"):
        out.append("processing a device list published something else")
    return out


def c14(c):
    if c.op not in ("get_device_information", "get_own_device_information"):
        return []
    out = []
    jid = c.args.get("bare_jid", OWN)
    if c.of("upload_device_list", "upload_bundle", "delete_bundle", "send", "store_session"):
        out.append("getting device information published something")
    for e in c.of("download_bundle"):
        if e.a["jid"] != jid or e.a["id"] not in c.R0.ids(jid) or c.R(e).ik(jid, e.a["id"]) is not None:
            out.append("a bundle was downloaded that was not needed")
        elif e.a["ns"] not in c.R0.ns(jid, e.a["id"]):
            out.append("a bundle of a namespace that the device does not support was downloaded")
    for x in set(c.pre) | set(c.w.kv):
        if c.pre.get(x) != c.w.kv.get(x):
            p = x.split("/")
            if not (len(p) == 5 and p[1] == "devices" and p[2] == jid and p[4] in ("identity_key", "namespaces")):
                out.append(f"record {x} changed")
            elif p[4] == "identity_key" and (x in c.pre or not any(
                    e.ok and str(e.a["id"]) == p[3] and b64(e.res.identity_key) == c.w.kv[x] for e in c.of("download_bundle"))):
                out.append(f"record {x} changed to something else than the bundle's identity key")
            elif p[4] == "namespaces":
                want = set(c.pre[x]) & set(c.pre[x[:-10] + "active"])
                if x not in c.w.kv or set(c.w.kv[x]) != want:
                    out.append(f"record {x} changed to {c.w.kv.get(x)}")
    if c.exc is not None:
        if not escaped(c):
            out.append(f"failed with {c.exc!r}")
        elif isinstance(c.exc, (BundleDownloadFailed, BundleNotFound)):
            out.append("a failed bundle download made the whole query fail")
        return out
    if c.op == "get_own_device_information":
        me, others = c.res
        if me.device_id != c.w.own_id or any(d.device_id == c.w.own_id for d in others):
            out.append("own device information is not that of this device")
        devs = list(others) + [me]
    else:
        devs = list(c.res)
    ids = [d.device_id for d in devs]
    if len(set(ids)) != len(ids) or not set(ids) <= c.R0.ids(jid):
        out.append(f"entries {sorted(ids)} for known devices {sorted(c.R0.ids(jid))}")
    R = c.R1
    for i in c.R0.ids(jid):
        got = next((d for d in devs if d.device_id == i), None)
        if c.R0.ik(jid, i) is None:
            tried = {e.a["ns"]: e for e in c.of("download_bundle") if e.a["id"] == i}
            obtained = [e for e in tried.values() if e.ok]
            if got is None and (obtained or set(tried) != set(c.R0.ns(jid, i))):
                out.append(f"device {i} was omitted without trying every bundle")
        elif got is None:
            out.append(f"device {i} is missing")
        if got is not None:
            ns = set(c.R0.ns(jid, i)) & set(c.R0.active(jid, i))
            want = (ns, c.R0.active(jid, i), jid, R.ik(jid, i), c.R0.field(jid, i, "label"))
            have = (set(got.namespaces), dict(got.active), got.bare_jid, got.identity_key, got.label)
            if want != have or R.ik(jid, i) is None or got.trust_level_name != R.trust(jid, R.ik(jid, i)) or \
                    len(dict(got.active)) != len(got.active):
                out.append(f"device {i}: {got} does not match the records {want}")
            if set(R.ns(jid, i)) != ns:
                out.append(f"device {i}: the record supports {sorted(R.ns(jid, i))} instead of {sorted(ns)}")
    return out


def c15(c):
    """Frame of trust levels and identity keys, for every operation."""
    out = []
    kv = c.x.get("kv", c.w.kv)
    events = c.allevs
    snaps = [e.before for e in events] + [kv]
    prev = c.pre
    for i, s in enumerate(snaps):
        for x in set(prev) | set(s):
            a, b = prev.get(x), s.get(x)
            if a == b and (x in prev) == (x in s):
                continue
            p = x.split("/")
            if p[1] == "trust":
                ok = False
                if c.op == "set_trust":
                    ok = x == f"/trust/{c.args['bare_jid']}/{b64(c.args['identity_key'])}" and \
                        b == c.args["trust_level_name"]
                elif c.op == "purge_bare_jid":
                    ok = p[2] == c.args["bare_jid"] and x not in s
                elif c.op == "create":
                    ok = c.args["first"] and p[2] == OWN and b == c.w.undecided_name and \
                        p[3] == kv.get(f"/devices/{OWN}/{c.w.own_id}/identity_key", p[3])
                elif events and i > 0 and events[i - 1].nested and events[i - 1].op == "_store":
                    ok = True           # the user's decision
                if not ok:
                    out.append(f"{c.op} changed {x} from {a!r} to {b!r}")
            elif p[1] == "devices" and p[-1] == "identity_key" and x in prev:
                if not (c.op == "purge_bare_jid" and p[2] == c.args["bare_jid"] and x not in s):
                    out.append(f"{c.op} changed {x} from {a!r} to {b!r}")
        prev = s
    if c.op == "set_trust" and c.exc is None:
        if kv.get(f"/trust/{c.args['bare_jid']}/{b64(c.args['identity_key'])}") != c.args["trust_level_name"]:
            out.append("the trust level was not set")
    return out


# -------------------------------------------------------------------------------------------------- setup and purging

def c17(c):
    if c.op != "create":
        return []
    out = []
    kv, own = c.x["kv"], c.x["kv"].get("/own_device_id")
    rejected = isinstance(c.exc, ValueError)
    if "/own_device_id" in c.pre:
        own0 = c.pre["/own_device_id"]
        for e in c.of("_store", "_delete"):
            k = e.a["key"]
            if k.endswith("/label") and any(x.res and own0 in x.res and x.res[own0] == e.a.get("value")
                                            for x in c.of("download_device_list")):
                continue                # taken over from a published list
            if k == "/own_device_id" or k in (f"/devices/{OWN}/{own0}/label", f"/devices/{OWN}/{own0}/identity_key"):
                out.append(f"{k} was rewritten on a later run")
        for e in c.of("get_bundle", "upload_bundle"):
            d = e.a["id"] if e.op == "get_bundle" else e.a["bundle"].device_id
            if d != own0:
                out.append("another device id than the stored one is used")
        return out
    st = [e for e in c.of("_store") if e.a["key"] == "/own_device_id"]
    if c.exc is None and len(st) != 1:
        out.append("the device id was not stored exactly once")
    for e in st:
        d = e.a["value"]
        used = set()
        for n in c.args["namespaces"]:
            used |= set(c.x["lists"].get((n, OWN), {}))
        if not (isinstance(d, int) and not isinstance(d, bool) and 1 <= d <= 2 ** 31 - 1) or d in used:
            out.append(f"device id {d} with {sorted(used)} in use")
        R = c.R(e)
        want = {"namespaces": set(c.args["namespaces"]), "active": {n: True for n in c.args["namespaces"]},
                "label": c.args["label"], "identity_key": kv.get(f"/devices/{OWN}/{d}/identity_key")}
        for f, v in want.items():
            x = R.field(OWN, d, f, "missing")
            if (set(x) if f == "namespaces" and x != "missing" else x) != v:
                out.append(f"the device id is stored while the record's {f} is {x!r} instead of {v!r}")
        if R.ids(OWN) != {d}:
            out.append("the device id is stored without the own device list")
        import xeddsa
        import base64
        key = e.before.get("/ikp/key")
        if key is not None and want["identity_key"] is not None:
            secret = base64.urlsafe_b64decode(key)
            pub = xeddsa.seed_to_ed25519_pub(secret) if e.before.get("/ikp/is_seed") else xeddsa.priv_to_ed25519_pub(secret)
            if want["identity_key"] != b64(pub):
                out.append("the identity key on record is not the own one")
        for x in c.of("generate_pre_keys", "upload_bundle", "upload_device_list"):
            pass
    return out


def c18(c):
    if c.op != "create":
        return []
    out = []
    kv = c.x["kv"]
    loaded = list(c.args["namespaces"])
    first = "/own_device_id" not in c.pre
    own = kv.get("/own_device_id")
    prev = set(loaded) if first else c.R0.ns(OWN, own) & set(c.R0.active(OWN, own))
    new = set(loaded) if first else set(loaded) - prev
    gone = set() if first else prev - set(loaded)
    if isinstance(c.exc, ValueError):
        return out
    vis = c.x["visible"]
    evs = c.evs
    for e in c.of("generate_pre_keys", "upload_bundle"):
        if e.a["ns"] not in new:
            out.append(f"{e.op} for {e.a['ns']}, which is not new")
    for e in c.of("upload_device_list"):
        n = e.a["ns"]
        if n not in new | gone:
            out.append(f"a device list was published for {n}, which is neither new nor gone")
        if n in new and own in e.a["list"]:
            if not [x for x in c.of("upload_bundle") if x.ok and x.a["ns"] == n and evs.index(x) < evs.index(e)]:
                out.append(f"the device was announced for {n} before its bundle was uploaded")
    for e in c.of("download_device_list"):
        n = e.a["ns"]
        if first and not [x for x in c.of("_store") if x.a["key"] == "/own_device_id"
                          and evs.index(x) < evs.index(e)]:
            continue                    # choosing the device id
        if n in new and not [x for x in c.of("upload_bundle") if x.ok and x.a["ns"] == n and evs.index(x) < evs.index(e)]:
            out.append(f"the device list of {n} is refreshed before its bundle was uploaded")
    for n in new:
        gens = [e for e in c.of("generate_pre_keys") if e.a["ns"] == n]
        ups = [e for e in c.of("upload_bundle") if e.a["ns"] == n]
        need = 100 if first else (100 - vis[n] if vis[n] <= c.args["threshold"] else None)
        if any(e.a["num"] != need for e in gens) or len(gens) > 1:
            out.append(f"{[e.a['num'] for e in gens]} pre keys generated for {n} with {vis[n]} visible ones")
        for u in ups:
            if need and not [e for e in gens if e.ok and evs.index(e) < evs.index(u)]:
                out.append(f"the bundle of {n} is uploaded before its pre keys were generated")
            b = c.backend(n)
            if u.a["bundle"] != FakeBundle(n, OWN, own, b.ik, c.x["version"][n]):
                out.append(f"the uploaded bundle of {n} is not the current one")
        if c.exc is None:
            if len(ups) != 1:
                out.append(f"the bundle of {n} was uploaded {len(ups)} times")
            if need and not gens:
                out.append(f"no pre keys were generated for {n}")
            if n not in c.x["lists"] or True:
                ref = [e for e in c.of("download_device_list") if e.a["ns"] == n and ups and
                       evs.index(e) > evs.index(ups[0])]
                if not ref:
                    out.append(f"the device list of {n} was not refreshed")
    dels = [e.a["ns"] for e in c.of("delete_bundle")]
    if not set(dels) <= gone or len(set(dels)) != len(dels):
        out.append(f"bundles of {dels} deleted, gone are {sorted(gone)}")
    if c.exc is None:
        if set(dels) != gone:
            out.append(f"purged {dels} instead of {sorted(gone)}")
        R = Recs(kv, c.w)
        if R.ns(OWN, own) != set(loaded) or R.active(OWN, own) != {n: True for n in loaded}:
            out.append(f"the record has {sorted(R.ns(OWN, own))}, {R.active(OWN, own)}; loaded are {loaded}")
        if c.x.get("queued") not in (None, True):
            out.append("creation does not leave the library in history synchronization mode: " + str(c.x["queued"]))
    elif not escaped(c) and not c.faulted:
        out.append(f"create failed with {c.exc!r}")
    if first is False and not new and not gone and c.exc is None and c.of(
            "upload_bundle", "upload_device_list", "delete_bundle", "generate_pre_keys", "download_device_list", "_store",
            "_delete", "send"):
        bad = [e for e in c.of("upload_bundle", "upload_device_list", "delete_bundle", "generate_pre_keys", "send")]
        if bad:
            out.append(f"{bad[0]!r} although nothing changed")
    return out


def c19(c):
    if c.op != "purge_backend":
        return []
    out = []
    ns, own = c.args["namespace"], c.w.own_id
    lst = c.x["lists"].get((ns, OWN), {})
    ups = c.of("upload_device_list")
    want = [{k: v for k, v in lst.items() if k != own}] if own in lst else []
    got = [e.a["list"] for e in ups]
    if any(e.a["ns"] != ns for e in ups) or (got != want and (c.exc is None or got)):
        out.append(f"published {[(e.a['ns'], e.a['list']) for e in ups]}, the list was {lst}")
    evs = c.evs
    recs = [e for e in c.of("_store", "_delete")]
    for e in recs:
        if e.a["key"] not in (f"/devices/{OWN}/{own}/namespaces", f"/devices/{OWN}/{own}/active") and not (
                e.op == "_store" and e.a["key"].endswith("/identity_key") and e.a["key"] not in c.pre) and not (
                e.op == "_store" and e.a["key"].startswith(f"/devices/{OWN}/") and e.a["key"].endswith("/namespaces")):
            out.append(f"record {e.a['key']} is written")
    for x in set(c.pre) | set(c.w.kv):
        if x.startswith("/devices/") and not x.startswith(f"/devices/{OWN}/") and c.pre.get(x) != c.w.kv.get(x):
            out.append(f"record {x} changed")
    for j, d in c.R0.devices():
        if (j, d) != (OWN, own):
            n0 = c.R0.ns(j, d) & set(c.R0.active(j, d))
            if c.R1.ns(j, d) & set(c.R1.active(j, d)) != n0 or c.R0.active(j, d) != c.R1.active(j, d):
                out.append(f"the record of {j}/{d} changed")
    ownrec = [e for e in recs if e.a["key"].startswith(f"/devices/{OWN}/{own}/")]
    purge, dele = c.of("backend_purge"), c.of("delete_bundle")
    ordered = ups + ownrec + purge + dele
    idx = [evs.index(e) for e in ordered]
    if idx != sorted(idx):
        out.append("the steps are out of order: " + ", ".join(e.op for e in sorted(ordered, key=evs.index)))
    if any(e.a["ns"] != ns for e in purge) or any(e.a["ns"] != ns or e.a["id"] != own for e in dele) or \
            len(purge) > 1 or len(dele) > 1:
        out.append("another backend or bundle was purged")
    if dele and (own in lst and not [e for e in ups if e.ok] or ns in c.R(dele[0]).ns(OWN, own) or
                 (c.backend(ns) is not None and not [e for e in purge if e.ok])):
        out.append("the bundle is deleted before the other steps succeeded")
    if purge and (own in lst and not [e for e in ups if e.ok] or ns in c.R(purge[0]).ns(OWN, own)
                  or ns in c.R(purge[0]).active(OWN, own)):
        out.append("the backend is purged before the other steps succeeded")
    if ownrec and own in lst and not [e for e in ups if e.ok]:
        out.append("the record is changed before the device list")
    if c.exc is None:
        if not dele or (c.backend(ns) is not None and not purge):
            out.append("purging is incomplete")
        n1, a1 = c.R1.ns(OWN, own), c.R1.active(OWN, own)
        a0 = c.R0.active(OWN, own)
        n0 = c.R0.ns(OWN, own) & set(a0)
        if n1 != n0 - {ns} or a1 != {k: v for k, v in a0.items() if k != ns}:
            out.append(f"the record of this device is {sorted(n1)}, {a1}, was {sorted(n0)}, {a0}")
        left = [b.ns for b in c.x["loaded"] if b.ns != ns]
        if c.x.get("still") is not None and c.x["still"] != left:
            out.append(f"loaded afterwards are {c.x['still']} instead of {left}")
    elif not escaped(c):
        out.append(f"purging failed with {c.exc!r}")
    return out


def c20(c):
    if c.op != "purge_bare_jid":
        return []
    out = []
    j = c.args["bare_jid"]
    iks = {c.R0.ik(j, d) for d in c.R0.ids(j)} - {None}
    mine = {f"/trust/{j}/{b64(i)}" for i in iks} | {f"/devices/{j}/list"} | {
        f"/devices/{j}/{d}/{f}" for d in c.R0.ids(j) for f in ("namespaces", "active", "label", "identity_key")}
    for e in c.of("_store", "_delete"):
        if e.op == "_store" or e.a["key"] not in mine and e.a["key"] in c.pre:
            out.append(f"{e.op} of {e.a['key']}")
    for x in set(c.pre) | set(c.w.kv):
        if x not in mine and c.pre.get(x) != c.w.kv.get(x):
            out.append(f"record {x} changed")
    asked = [(e.a["ns"]) for e in c.of("backend_purge_bare_jid") if e.ok and e.a["jid"] == j]
    if len(c.of("backend_purge_bare_jid")) != len(asked) and not c.faulted:
        out.append("a backend was asked to purge another account")
    if c.of("backend_purge", "delete_bundle", "upload_device_list", "upload_bundle", "send", "store_session"):
        out.append("purging an account has other effects")
    if c.exc is None:
        left = [x for x in mine if x in c.w.kv]
        if left:
            out.append(f"{left} remain in storage")
        if sorted(asked) != sorted(b.ns for b in c.x["loaded"]):
            out.append(f"backends asked to purge the account: {asked}")
    elif not escaped(c):
        out.append(f"purging failed with {c.exc!r}")
    return out


def c23(c):
    if c.op != "replace_sessions":
        return []
    out = []
    d = c.args["device"]
    k = d.bare_jid, d.device_id
    R = c.R0
    act = R.active(*k)
    want = {b.ns for b in c.x["loaded"] if b.ns in R.ns(*k) and b.ns in act and k in c.x["sessions"][b.ns]}
    evs = c.evs
    for e in c.of("build_session_active"):
        if e.a["ns"] not in want or (e.a["jid"], e.a["id"]) != k:
            out.append(f"a session is built for {e.a['ns']}, {(e.a['jid'], e.a['id'])}")
    new = {e.res[0].uid: e for e in c.of("build_session_active") if e.ok}
    for e in c.of("store_session"):
        if e.a["uid"] not in new or e.a["ns"] != new[e.a["uid"]].a["ns"]:
            out.append("another session than the new one is stored")
            continue
        ekm = new[e.a["uid"]].res[1]
        sent = [x for x in c.of("send") if x.ok and evs.index(x) < evs.index(e) and
                any(m is ekm for m, _ in x.a["message"].keys)]
        if not sent:
            out.append("the new session is stored before the notification was sent")
        elif sent[0].a["jid"] != k[0]:
            out.append("the notification was sent to another bare JID")
    for e in c.of("send"):
        m = e.a["message"]
        ev = next((x for x in c.of("encrypt_empty") if x.ok and x.res[0] is m.content), None)
        if ev is None or ev.a["ns"] != m.namespace or len(m.keys) != 1 or (m.bare_jid, m.device_id) != (OWN, c.w.own_id) or \
                m.namespace not in want or e.a["jid"] != k[0]:
            out.append("the notification is not an empty message of that backend to the device")
            continue
        ekm, kex = list(m.keys)[0]
        b = next((x for x in new.values() if x.res[1] is ekm), None)
        if b is None or b.a["pkm"] is not ev.res[1] or b.a["ns"] != m.namespace or kex is not b.res[0].key_exchange:
            out.append("the notification is not built from the new session")
    if c.exc is None:
        stored = {e.a["ns"] for e in c.of("store_session") if e.ok}
        if stored & set(c.res) or stored | set(c.res) != want or not set(c.res) <= want:
            out.append(f"replaced {sorted(stored)}, reported {sorted(c.res)}, to be replaced {sorted(want)}")
        for n, x in c.res.items():
            f = [e.exc for e in evs if e.exc is not None and e.a.get("ns", n) == n]
            if f and x not in f and x.__cause__ not in f and not isinstance(x, KeyExchangeFailed):
                out.append(f"{n} is reported with another failure than its own")
    for b in c.x["loaded"]:
        old = c.x["sessions"][b.ns]
        for key, s in old.items():
            now = b.sessions.get(key)
            if now is None or (now.uid, now.version) != (s.uid, s.version):
                if key != k or b.ns not in want or not [e for e in c.of("store_session") if e.ok and e.a["ns"] == b.ns]:
                    out.append(f"the session {key} of {b.ns} changed")
        if set(b.sessions) - set(old):
            out.append(f"{b.ns} has additional sessions")
    if c.exc is not None and c.of("build_session_active", "send", "store_session"):
        out.append(f"replacement of one backend's session made the call fail with {c.exc!r}")
    return out


def c24(c):
    if c.op != "rotation":
        return []
    out = []
    P = c.x["period"]
    if c.exc is not None:
        return [f"rotation failed with {c.exc!r}"]
    if c.x.get("died"):
        out.append(f"rotation ended with {c.x['died'][0]!r}")
    evs = [e for e in c.evs if e.op in ("signed_pre_key_age", "rotate_signed_pre_key", "upload_bundle", "sleep", "get_bundle",
                                        "generate_pre_keys", "upload_device_list", "_store")]
    evs = [e for e in evs if e.op != "_store" and e.op != "get_bundle"]
    nss = [b.ns for b in c.x["loaded"]]
    if not evs:
        return out + ["signed pre key rotation was not started"]
    i = 0
    ages = dict(c.args["ages"])
    since = 0                           # time passed since the pass began
    first = True
    while i < len(evs):
        # one pass
        seen, kept = [], {}             # ns -> (age when checked, time of the check)
        now = 0
        while i < len(evs) and evs[i].op != "sleep":
            e = evs[i]
            if e.op != "signed_pre_key_age":
                out.append(f"unexpected {e!r} in a rotation pass")
                return out
            n, age = e.a["ns"], e.res
            seen.append(n)
            i += 1
            if age > P:
                if i >= len(evs) or evs[i].op != "rotate_signed_pre_key" or evs[i].a["ns"] != n:
                    if i >= len(evs):
                        return out
                    out.append(f"the signed pre key of {n}, {age} s old, was not rotated with a period of {P} s")
                    kept[n] = (age, now)
                    continue
                i += 1
                delay = 60
                while True:
                    if i >= len(evs):
                        return out
                    e = evs[i]
                    if e.op != "upload_bundle" or e.a["ns"] != n:
                        out.append(f"after the rotation of {n} comes {e!r} instead of the upload of its bundle")
                        return out
                    b = c.backend(n)
                    i += 1
                    if e.ok:
                        break
                    if i >= len(evs):
                        return out
                    if evs[i].op != "sleep" or evs[i].a["seconds"] != delay:
                        out.append(f"after a failed upload comes {evs[i]!r} instead of a delay of {delay} s")
                        return out
                    now += delay
                    delay = min(delay * 2, 3600)
                    i += 1
            else:
                kept[n] = (age, now)
                if i < len(evs) and evs[i].op == "rotate_signed_pre_key":
                    out.append(f"the signed pre key of {evs[i].a['ns']}, {age} s old, was rotated with a period of {P} s")
                    return out
        if i >= len(evs):
            break
        if sorted(seen) != sorted(nss):
            out.append(f"a pass checked {seen} of {nss}")
        s = evs[i].a["seconds"]
        i += 1
        due = min([P - a for a, _ in kept.values()] + [P])
        if not 60 <= s <= due + 60:
            out.append(f"the next check is after {s} s, the next rotation is due in {due} s")
    for e in c.of("upload_bundle"):
        if e.a["bundle"].v[:4] != (e.a["ns"], OWN, c.w.own_id, c.w.own_ik):
            out.append("the uploaded bundle is not that of this device")
    ver = {}
    for e in c.evs:
        if e.op == "rotate_signed_pre_key":
            ver[e.a["ns"]] = ver.get(e.a["ns"], 0) + 1
        if e.op == "upload_bundle" and e.a["bundle"].v[4] != ver.get(e.a["ns"], 0):
            out.append("an old bundle was uploaded")
    return out


def c27(c):
    out = []
    loaded = [b.ns for b in c.x.get("loaded", [])]
    own = c.w.own_id
    if c.op == "ensure_data_consistency":
        ref = [e.a["ns"] for e in c.of("download_device_list")]
        ups = c.of("upload_bundle")
        if any(e.a["jid"] != OWN for e in c.of("download_device_list")) or not set(ref) <= set(loaded):
            out.append(f"refreshed {ref}")
        for e in ups:
            b = c.backend(e.a["ns"])
            local = FakeBundle(e.a["ns"], OWN, own, c.w.own_ik, b.version) if b else None
            remote = c.x["bundles"].get((e.a["ns"], OWN, own))
            tried = [x for x in c.of("download_bundle") if (x.a["ns"], x.a["jid"], x.a["id"]) == (e.a["ns"], OWN, own)]
            if e.a["bundle"] != local:
                out.append("another bundle than the local one is uploaded")
            if not tried or (tried[-1].ok and tried[-1].res == local):
                out.append(f"the bundle of {e.a['ns']} is uploaded although the published one equals it")
        if c.of("delete_bundle", "send", "store_session", "generate_pre_keys", "rotate_signed_pre_key", "backend_purge"):
            out.append("other effects")
        if c.exc is None:
            if sorted(ref) != sorted(loaded):
                out.append(f"refreshed {ref} of {loaded}")
            for b in c.x["loaded"]:
                tried = [x for x in c.of("download_bundle") if (x.a["ns"], x.a["jid"], x.a["id"]) == (b.ns, OWN, own)]
                local = FakeBundle(b.ns, OWN, own, c.w.own_ik, b.version)
                need = not tried or not tried[-1].ok or tried[-1].res != local
                n = len([e for e in ups if e.a["ns"] == b.ns])
                if n != (1 if need else 0):
                    out.append(f"the bundle of {b.ns} was uploaded {n} times, needed: {need}")
        elif not escaped(c):
            out.append(f"failed with {c.exc!r}")
        elif isinstance(c.exc, (BundleDownloadFailed, BundleNotFound)):
            out.append("a bundle that could not be retrieved was not uploaded")
    if c.op == "set_own_label":
        v = c.args["own_label"]
        if c.exc is None:
            if c.w.kv.get(f"/devices/{OWN}/{own}/label", "missing") != v:
                out.append("the label was not stored")
            ups = {e.a["ns"]: e.a["list"] for e in c.of("upload_device_list")}
            want = {n: {**c.x["lists"].get((n, OWN), {}), own: v} for n in loaded}
            if ups != want or len(c.of("upload_device_list")) != len(loaded):
                out.append(f"published {ups} instead of {want}")
        elif not escaped(c):
            out.append(f"failed with {c.exc!r}")
        for e in c.of("upload_device_list"):
            want = {**c.x["lists"].get((e.a["ns"], OWN), {}), own: v}
            if e.a["ns"] not in loaded or e.a["list"] != want:
                out.append(f"published {e.a['list']} for {e.a['ns']} instead of {want}")
        for x in set(c.pre) | set(c.w.kv):
            if c.pre.get(x) != c.w.kv.get(x) and x != f"/devices/{OWN}/{own}/label":
                out.append(f"record {x} changed")
    return out
