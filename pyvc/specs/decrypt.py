"""decrypt: C05, C06, C07, C08, C09, C10, C11."""
import z3
from ..values import *     # noqa: F401,F403
from ..engine import PathEnd, PyRaise
from ..env import *        # noqa: F401,F403
from ..env import Unit, Recs

EKM, KEX = TObj("EncryptedKeyMaterial"), TObj("KeyExchange")
KEYT = TTup([EKM, TOpt(KEX)])
OS = opt_sort(OBJ["Session"])


def kex_of(E, c):
    """The single (key material, key exchange) pair of an outgoing message with exactly one, else None."""
    c = E.as_coll(c)
    if c.items is not None and len(c.items) == 1:
        x = c.items[0]
        if isinstance(x, VTuple) and len(x.items) == 2:
            return x.items
    return None


def as_opt(v):
    if isinstance(v, VNone):
        return VOpt(TRUE, None)
    return v if isinstance(v, VOpt) else VOpt(FALSE, v)


def kex_right(E, unit, ekm, kex):
    """Key exchange information accompanies key material iff its session is active and unconfirmed."""
    s = ek_s(ekm.t)
    want = And(unit.s_init(s) == ENUMS["Initiation"][1]["ACTIVE"], Not(sel(E.st.comps["SC"], s)))
    k = as_opt(kex)
    return And(Iff(want, Not(k.isnone)), Implies(Not(k.isnone), k.val.t == s_ke(s)) if k.val is not None else TRUE)


def empty_message_ok(E, unit, a, b, s):
    """The message is an empty message for session s of backend b, from this device."""
    m = a["message"]
    if not isinstance(m, VRec) or m.cls != "Message":
        raise Unsupported("message sent")
    p = kex_of(E, m.fields["keys"])
    if p is None:
        raise Unsupported("keys of the message sent")
    c = m.fields["content"].t
    return And(eqt(m.fields["namespace"].t, ns_of(b)), eqt(m.fields["bare_jid"].t, unit.own_jid),
               eqt(m.fields["device_id"].t, unit.own_id), c_empty(c), c_b(c) == b, ek_b(p[0].t) == b,
               ek_s(p[0].t) == s, ek_p(p[0].t) == c_p(c), eqt(a["jid"], s_jid(s)))


BACKEND_EFFECTS = ("decrypt_key_material", "build_session_passive", "build_session_active", "decrypt_plaintext",
                   "store_session", "hide_pre_key", "delete_pre_key", "generate_pre_keys", "encrypt_empty",
                   "encrypt_plaintext", "encrypt_key_material", "purge", "purge_bare_jid", "rotate_signed_pre_key",
                   "delete_hidden_pre_keys")
OUTSIDE = ("_send_message", "_upload_bundle", "_upload_device_list", "_delete_bundle", "_make_trust_decision")


class Decrypt(Unit):
    target = "SessionManager.decrypt"
    expect_covers = ("exit:return", "exit:raise")

    def body(self, E):
        sm = self.manager(E)
        self.ns, self.j, self.i = z3.Const("m_ns", Str), z3.Const("m_jid", Str), z3.Const("m_id", I)
        self.content = z3.Const("m_content", OBJ["Content"])
        self.keys = arr_coll(KEYT, z3.Const("m_keys", z3.ArraySort(KEYT.sort(), B)))
        # the key material addressed to this device; a message carries at most one per device
        self.own0 = z3.Const("own_pair", KEYT.sort())
        E.add_pool(self.own0)
        p0 = KEYT.frm(self.own0)
        self.ekm0, self.kex0 = p0.items
        self.forus = And(self.keys.smem(p0), ek_jid(self.ekm0.t) == self.own_jid, ek_id(self.ekm0.t) == self.own_id)
        q = z3.Const("qpair", KEYT.sort())
        x = KEYT.frm(q)
        E.add_forall(q, Implies(And(self.keys.smem(x), ek_jid(x.items[0].t) == self.own_jid,
                                        ek_id(x.items[0].t) == self.own_id), q == self.own0))
        self.has_kex = Not(self.kex0.isnone)
        self.b = BE(self.ns)
        self.loaded = And(loadedB(self.b), ns_of(self.b) == self.ns)
        g = E.st.ghosts
        g["refreshed"] = z3.IntVal(0)
        g["any"] = FALSE
        self.ghosts(E)
        m = VRec("Message", {"namespace": VStr(self.ns), "bare_jid": VStr(self.j), "device_id": VInt(self.i),
                             "content": VObj("Content", self.content), "keys": self.keys})
        E.add_pool(self.b)
        E.add_pool(DevKey.devkey(self.j, self.i))
        return self.call(E, sm, "decrypt", m)

    def ghosts(self, E):
        pass

    def rec(self, E):
        return self.recs(E)

    def known(self, E):
        R = self.recs(E)
        return And(R.listed(self.j, self.i), R.has_ik(self.j, self.i))

    def trust_term(self, E):
        R = self.recs(E)
        ik = R.ik(self.j, self.i)
        return evalT()(R.trust(self.j, ik), DevKey.devkey(self.j, self.i), ik)


class C07(Decrypt):
    name = "C07.decrypt"
    prop = "C07"
    interest = frozenset({ANY})
    expect_obligations = ("C07.backend-of-the-namespace", "C07.addressed-to-this-device", "C07.sender-known",
                          "C07.sender-not-distrusted", "C07.one-refresh", "C07.unknown-namespace-raised",
                          "C07.message-not-for-us-raised", "C07.sender-not-found-means-unknown",
                          "C07.sender-distrusted-means-distrusted")

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "refresh_device_list":
            E.prove("C07.one-refresh", And(g["refreshed"] == 0, eqt(a["ns"], self.ns), eqt(a["jid"], self.j)))
            E.prove("C07.refresh-only-if-unknown", Not(self.known(E)))
            g["refreshed"] = g["refreshed"] + 1
        elif op in BACKEND_EFFECTS or op in OUTSIDE or op in ("store", "delete"):
            if op in BACKEND_EFFECTS:
                E.prove("C07.backend-of-the-namespace", And(loadedB(a["b"].t), ns_of(a["b"].t) == self.ns))
            E.prove("C07.backend-loaded", self.loaded)
            E.prove("C07.addressed-to-this-device", self.forus)
            E.prove("C07.sender-known", self.known(E))
            E.prove("C07.sender-not-distrusted", Not(self.trust_term(E) == tl("DISTRUSTED")))
            g["any"] = TRUE
        elif op == "get_device_information":
            E.prove("C07.sender-looked-up", eqt(a["jid"], self.j))

    def post(self, E, kind, v):
        own = kind == "raise" and v.own
        cls = v.cls if own else None
        E.prove("C07.unknown-namespace-raised", Implies(Not(self.loaded), BV(cls == "UnknownNamespace")))
        E.prove("C07.message-not-for-us-raised", Implies(And(self.loaded, Not(self.forus)),
                                                         BV(cls == "MessageNotForUs")))
        if kind == "return":
            E.prove("C07.accepted", And(self.loaded, self.forus, self.known(E),
                                        Not(self.trust_term(E) == tl("DISTRUSTED"))))
            return
        if not own:
            return
        ok = And(self.loaded, self.forus)
        if cls == "UnknownNamespace":
            E.prove("C07.unknown-namespace-means-not-loaded", Not(self.loaded))
        elif cls == "MessageNotForUs":
            E.prove("C07.message-not-for-us-means-so", Not(self.forus))
        elif cls == "SenderNotFound":
            E.prove("C07.sender-not-found-means-unknown", And(ok, Not(self.known(E)), E.st.ghosts["refreshed"] == 1))
            E.cover("SenderNotFound")
        elif cls == "SenderDistrusted":
            E.prove("C07.sender-distrusted-means-distrusted", And(ok, self.known(E),
                                                                  self.trust_term(E) == tl("DISTRUSTED")))
            E.cover("SenderDistrusted")
        elif cls in ("NoSession", "PublicDataInconsistency"):
            E.prove("C07.refused-after-admission", And(ok, self.known(E), Not(self.trust_term(E) == tl("DISTRUSTED"))))
        else:
            E.prove("C07.documented-refusal", FALSE)
        if cls in ("UnknownNamespace", "MessageNotForUs", "SenderNotFound", "SenderDistrusted"):
            E.prove("C07.refused-without-effect", Not(E.st.ghosts["any"]))


class C08(Decrypt):
    name = "C08.decrypt"
    prop = "C08"
    interest = frozenset({ANY})
    expect_obligations = ("C08.reuses-right-session", "C08.builds-from-the-key-exchange", "C08.no-session",
                          "C08.plaintext-iff-not-empty", "C08.plaintext", "C08.sender", "C08.key-material")

    def ghosts(self, E):
        g = E.st.ghosts
        g["loaded"] = FALSE
        g["sess"] = OS.none
        g["used"] = FALSE
        g["pkm"] = z3.Const("pkm_init", OBJ["PlainKeyMaterial"])
        g["decrypted"] = FALSE
        g["pt"] = z3.Const("pt_init", Bytes)
        self.n0 = z3.Const("n0", Str)
        E.add_pool(self.n0)

    def foci(self, E, ty):
        return [VStr(self.n0)] if ty == TStr else []

    def equivalent(self, E):
        s = acc(OS.val, E.st.ghosts["sess"])
        return And(self.s_init(s) == ENUMS["Initiation"][1]["PASSIVE"], bss(s_ke(s), self.kex0.val.t))

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "load_session":
            E.prove("C08.session-with-the-sender", And(a["b"].t == self.b, eqt(a["jid"].t, self.j),
                                                       eqt(a["id"].t, self.i)))
        elif op == "decrypt_key_material":
            s = a["session"].t
            E.prove("C08.reuses-right-session", And(
                a["b"].t == self.b, g["loaded"], isc(OS.is_some, g["sess"]), eqt(s, acc(OS.val, g["sess"])),
                Implies(self.has_kex, self.equivalent(E))))
            E.prove("C08.key-material-for-this-device", eqt(a["ekm"].t, self.ekm0.t))
            E.prove("C08.once", Not(g["used"]))
        elif op == "build_session_passive":
            E.prove("C08.builds-from-the-key-exchange", And(
                a["b"].t == self.b, self.has_kex, eqt(a["kex"].t, self.kex0.val.t), eqt(a["ekm"].t, self.ekm0.t),
                eqt(a["jid"].t, self.j), eqt(a["id"].t, self.i)))
            E.prove("C08.builds-only-if-no-equivalent-session", And(
                g["loaded"], Or(isc(OS.is_none, g["sess"]), Not(self.equivalent(E)))))
            E.prove("C08.once", Not(g["used"]))
        elif op == "build_session_active":
            E.prove("C08.builds-from-the-key-exchange", FALSE)
        elif op == "decrypt_plaintext":
            E.prove("C08.decrypts-the-content", And(a["b"].t == self.b, eqt(a["content"].t, self.content), g["used"],
                                                    eqt(a["pkm"].t, g["pkm"])))

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "load_session":
            g["loaded"] = TRUE
            g["sess"] = If(r.isnone, OS.none, OS.some(r.val.t))
        elif op == "decrypt_key_material":
            g["used"], g["pkm"] = TRUE, r.t
        elif op == "build_session_passive":
            g["used"], g["pkm"] = TRUE, r.items[1].t
        elif op == "decrypt_plaintext":
            g["decrypted"], g["pt"] = TRUE, r.t

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "raise":
            if v.cls == "NoSession":
                E.prove("C08.no-session", And(g["loaded"], isc(OS.is_none, g["sess"]), Not(self.has_kex)))
            elif v.own:
                E.prove("C08.documented-failure", BV(v.cls in (
                    "UnknownNamespace", "MessageNotForUs", "SenderNotFound", "SenderDistrusted",
                    "PublicDataInconsistency")))
            return
        if not isinstance(v, VTuple) or len(v.items) != 3:
            raise Unsupported("result of decrypt")
        pt, d, pkm = v.items
        pt = as_opt(pt)
        E.prove("C08.plaintext-iff-not-empty", Iff(pt.isnone, c_empty(self.content)))
        if pt.val is not None:
            E.prove("C08.plaintext", Implies(Not(pt.isnone), And(g["decrypted"], eqt(pt.val.t, g["pt"]))))
        E.prove("C08.key-material", And(g["used"], eqt(pkm.t, g["pkm"])))
        R = self.recs(E)
        d = E.force(d)
        f = d.fields
        act = f["active"].d if isinstance(f["active"], VItems) else E.deref(f["active"])
        if not isinstance(act, VDict):
            raise Unsupported("active")
        E.prove("C08.sender", And(
            eqt(f["bare_jid"].t, self.j), eqt(f["device_id"].t, self.i), eqt(f["identity_key"].t, R.ik(self.j, self.i)),
            eqt(f["trust_level_name"].t, R.trust(self.j, f["identity_key"].t)),
            Iff(E.mem(f["namespaces"], VStr(self.n0)), R.ns(self.j, self.i, self.n0)),
            Iff(act.dom(VStr(self.n0)), R.act_has(self.j, self.i, self.n0)),
            Implies(act.dom(VStr(self.n0)), Iff(act.val(VStr(self.n0)).t, R.act(self.j, self.i, self.n0))),
            eqt(TOpt(TStr).to(f["label"]), R.label(self.j, self.i))))


class C09(Decrypt):
    name = "C09.decrypt"
    prop = "C09"
    interest = frozenset({ANY})
    expect_obligations = ("C09.stored-after-decryption", "C09.effects-after-storing", "C09.stored")

    def ghosts(self, E):
        g = E.st.ghosts
        g["km"] = FALSE
        g["sess"] = z3.Const("sess_init", OBJ["Session"])
        g["pt"] = FALSE
        g["stored"] = FALSE
        g["try"] = FALSE

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "store_session":
            E.prove("C09.stored-after-decryption", And(g["km"], Or(c_empty(self.content), g["pt"])))
            E.prove("C09.stores-the-session-used", And(a["b"].t == self.b, eqt(a["session"].t, g["sess"])))
            g["try"] = TRUE
        elif op in ("hide_pre_key", "delete_pre_key", "generate_pre_keys", "encrypt_empty", "encrypt_key_material",
                    "encrypt_plaintext", "delete_hidden_pre_keys", "store", "delete", "_send_message", "_upload_bundle"):
            E.prove("C09.effects-after-storing", g["stored"])
        elif op in ("purge", "purge_bare_jid", "rotate_signed_pre_key", "_delete_bundle", "_upload_device_list"):
            E.prove("C09.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "decrypt_key_material":
            g["km"], g["sess"] = TRUE, a["session"].t
        elif op in ("build_session_passive", "build_session_active"):
            g["km"], g["sess"] = TRUE, r.items[0].t
        elif op == "decrypt_plaintext":
            g["pt"] = TRUE
        elif op == "store_session":
            g["stored"] = TRUE

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "return":
            E.prove("C09.stored", g["stored"])
        elif v.origin in ("decrypt_plaintext", "decrypt_key_material", "build_session_passive", "load_session"):
            E.prove("C09.not-stored-if-decryption-fails", Not(g["try"]))


class C10(Decrypt):
    name = "C10.decrypt"
    prop = "C10"
    interest = frozenset({ANY})
    expect_obligations = ("C10.retires-only-with-key-exchange", "C10.hides-or-deletes-by-mode", "C10.refills-to-100",
                          "C10.uploads-current-bundle", "C10.pre-key-retired", "C10.uploaded-iff-changed")

    def ghosts(self, E):
        g = E.st.ghosts
        g["retired"] = FALSE
        g["changed"] = FALSE
        g["sess"] = z3.Const("sess_init", OBJ["Session"])
        g["count"] = z3.IntVal(0)       # visible pre keys after retiring
        g["generated"] = FALSE
        g["uploaded"] = FALSE
        E.assume(And(self.threshold >= 25, self.threshold <= 99))

    def before(self, E, op, a):
        g = E.st.ghosts
        if op in ("hide_pre_key", "delete_pre_key"):
            E.prove("C10.retires-only-with-key-exchange", And(self.has_kex, Not(g["retired"])))
            E.prove("C10.hides-or-deletes-by-mode", self.synch0 if op == "hide_pre_key" else Not(self.synch0))
            E.prove("C10.pre-key-of-the-session", And(a["b"].t == self.b, eqt(a["session"].t, g["sess"])))
        elif op == "generate_pre_keys":
            E.prove("C10.refills-only-if-needed", And(a["b"].t == self.b, g["retired"], g["changed"],
                                                      g["count"] <= self.threshold, Not(g["generated"]),
                                                      Not(g["uploaded"])))
        elif op == "_upload_bundle":
            n = sel(E.st.comps["VP"], self.b)
            E.prove("C10.uploads-only-if-changed", And(g["retired"], g["changed"], Not(g["uploaded"])))
            E.prove("C10.refills-to-100", n == If(g["count"] <= self.threshold, z3.IntVal(100), g["count"]))
            E.prove("C10.uploads-current-bundle", self.current_own_bundle(E, a["bundle"].t, self.b))
        elif op in ("delete_hidden_pre_keys", "rotate_signed_pre_key", "purge"):
            E.prove("C10.no-other-pre-key-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "decrypt_key_material":
            g["sess"] = a["session"].t
        elif op == "build_session_passive":
            g["sess"] = r.items[0].t
        elif op in ("hide_pre_key", "delete_pre_key"):
            g["retired"], g["changed"], g["count"] = TRUE, r.t, sel(E.st.comps["VP"], self.b)
            E.assume(g["count"] >= 0)
        elif op == "generate_pre_keys":
            g["generated"] = TRUE
        elif op == "_upload_bundle":
            g["uploaded"] = TRUE

    def post(self, E, kind, v):
        if kind == "return":
            g = E.st.ghosts
            E.prove("C10.pre-key-retired", Iff(self.has_kex, g["retired"]))
            E.prove("C10.uploaded-iff-changed", Iff(g["changed"], g["uploaded"]))


QK = ("queue",)


def qkey(n, *j):
    return mkkey("", "queue", n, *j)


class C11(Decrypt):
    name = "C11.decrypt"
    prop = "C11"
    interest = frozenset({ANY})
    expect_obligations = ("C11.empty-message-iff-triggered", "C11.sends-only-if-triggered", "C11.queued",
                          "C11.queue-kept", "C11.empty-message-contents", "C11.session-stored-after-sending")

    def ghosts(self, E):
        g = E.st.ghosts
        g["km"] = FALSE
        g["sess"] = z3.Const("sess_init", OBJ["Session"])
        g["sent"] = FALSE
        g["stored_after"] = FALSE
        g["enc"] = FALSE
        self.j1, self.i1, self.q0 = z3.Const("j1", Str), z3.Int("i1"), z3.Const("q0", Key)

    def trigger(self, E):
        o = opt_sort(I)
        r = sel(E.st.comps["SR"], E.st.ghosts["sess"])
        return Or(self.has_kex, And(isc(o.is_some, r), acc(o.val, r) > 53))

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "_send_message":
            E.prove("C11.sends-only-if-triggered", And(g["km"], self.trigger(E), Not(self.synch0), Not(g["sent"])))
            E.prove("C11.empty-message-contents", empty_message_ok(E, self, a, self.b, g["sess"]))
        elif op in ("store", "delete"):
            k = a["key"]
            E.prove("C11.only-the-queue-is-written", And(BV(op == "store"), Or(
                eqt(k, qkey(self.ns)), eqt(k, qkey(self.ns, self.j)))))
            E.prove("C11.queues-only-if-triggered", And(g["km"], self.trigger(E), self.synch0))
        elif op == "store_session":
            E.prove("C11.sent-before-storing", Implies(g["enc"], g["sent"]))

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "decrypt_key_material":
            g["km"], g["sess"] = TRUE, a["session"].t
        elif op == "build_session_passive":
            g["km"], g["sess"] = TRUE, r.items[0].t
        elif op == "encrypt_key_material":
            g["enc"], g["stored_after"] = TRUE, FALSE
        elif op == "_send_message":
            g["sent"] = TRUE
        elif op == "store_session":
            g["stored_after"] = And(g["sent"], eqt(a["session"].t, g["sess"]), a["b"].t == self.b)

    def post(self, E, kind, v):
        g = E.st.ghosts
        E.prove("C11.mode-unchanged", eqt(self.attr(E, "synchronizing").t, self.synch0))
        if kind != "return":
            return
        D = E.st.comps["D"]
        t = self.trigger(E)
        E.prove("C11.empty-message-iff-triggered", Iff(g["sent"], And(t, Not(self.synch0))))
        E.prove("C11.session-stored-after-sending", Implies(g["sent"], g["stored_after"]))
        a, b = sel(D, qkey(self.ns)), sel(D, qkey(self.ns, self.j))
        a0, b0 = sel(self.D0, qkey(self.ns)), sel(self.D0, qkey(self.ns, self.j))
        E.prove("C11.queued", Implies(And(t, self.synch0), And(str_in(a, self.j), int_in(b, self.i))))
        E.prove("C11.queue-kept", And(
            Implies(self.j1 != self.j, Iff(str_in(a, self.j1), str_in(a0, self.j1))),
            Implies(self.i1 != self.i, Iff(int_in(b, self.i1), int_in(b0, self.i1))),
            Implies(str_in(a0, self.j), str_in(a, self.j)), Implies(int_in(b0, self.i), int_in(b, self.i)),
            Implies(Not(And(t, self.synch0)), And(eqt(a, a0), eqt(b, b0)))))


class C05(Decrypt):
    name = "C05.decrypt"
    prop = "C05"
    interest = frozenset({ANY})
    expect_obligations = ("C05.key-exchange-carries-recorded-key", "C05.mismatch-reported")

    def ghosts(self, E):
        E.st.ghosts["touched"] = FALSE

    def match(self, E):
        return ke_ik(self.kex0.val.t) == self.recs(E).ik(self.j, self.i)

    def before(self, E, op, a):
        if op == "build_session_passive":
            E.prove("C05.key-exchange-carries-recorded-key", And(
                ke_ik(a["kex"].t) == self.recs(E).ik(a["jid"].t, a["id"].t), self.known(E)))
        if op in BACKEND_EFFECTS:
            E.prove("C05.no-session-used-on-mismatch", Implies(self.has_kex, self.match(E)))
        if op == "build_session_active":
            E.prove("C05.no-active-session", FALSE)

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C05.mismatch-reported", Implies(self.has_kex, self.match(E)))
        elif v.cls == "PublicDataInconsistency":
            E.prove("C05.mismatch-reported", And(self.has_kex, Not(self.match(E))))


class C06(Decrypt):
    name = "C06.decrypt"
    prop = "C06"
    interest = frozenset({ANY})
    expect_obligations = ("C06.key-exchange-iff-unconfirmed",)

    def before(self, E, op, a):
        if op == "_send_message":
            p = kex_of(E, a["message"].fields["keys"])
            if p is None:
                raise Unsupported("keys of the message sent")
            E.prove("C06.key-exchange-iff-unconfirmed", kex_right(E, self, *p))


UNITS = [C07, C08, C09, C10, C11, C05, C06]
