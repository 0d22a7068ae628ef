"""History synchronization: C06, C10, C11."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit
from .decrypt import empty_message_ok, kex_of, kex_right, qkey


class AfterHistorySync(Unit):
    target = "SessionManager.after_history_sync"
    interest = frozenset({ANY})
    expect_covers = ("exit:return", "exit:raise")

    def body(self, E):
        sm = self.manager(E)
        self.b0, self.j0, self.i0 = z3.Const("b0", OBJ["Backend"]), z3.Const("j0", Str), z3.Int("i0")
        self.q0 = z3.Const("q0", Key)
        n = self.n0 = ns_of(self.b0)
        D = self.D0
        self.qj = str_in(sel(D, qkey(n)), self.j0)
        self.queued = And(self.qj, int_in(sel(D, qkey(n, self.j0)), self.i0))
        self.present = sel(self.SP0, self.spk(self.b0, self.j0, self.i0))
        E.assume(Not(Or(is_key(self.q0, "", "queue", None), is_key(self.q0, "", "queue", None, None))))
        self.ghosts(E)
        self.split(E, loadedB(self.b0))
        return self.call(E, sm, "after_history_sync")

    def ghosts(self, E):
        pass

    def foci(self, E, ty):
        return {TInt: [VInt(self.i0)], TStr: [VStr(self.j0)], TObj("Backend"): [VObj("Backend", self.b0)]}.get(ty, [])

    def watch_keys(self, E):
        return [qkey(self.n0), qkey(self.n0, self.j0), self.q0]

    def watch(self, E, comp):
        return {"SP": [self.spk(self.b0, self.j0, self.i0)]}.get(comp, [])

    def observe(self, E):
        D = E.st.comps["D"]
        g = E.st.ghosts
        out = {"qj": self.qj, "queued": self.queued, "present": self.present,
               "empty": Not(has(sel(D, qkey(self.n0)))), "emptyj": Not(has(sel(D, qkey(self.n0, self.j0))))}
        for n, v in g.items():
            if v.sort() == B:
                out[n] = v
        return out


class C11(AfterHistorySync):
    name = "C11.after_history_sync"
    prop = "C11"
    expect_obligations = ("C11.mode-ended", "C11.one-message-per-queued-device", "C11.none-for-others",
                          "C11.queues-emptied", "C11.empty-message-contents", "C11.session-stored-after-sending")

    def ghosts(self, E):
        g = E.st.ghosts
        g["sent"], g["twice"], g["stored"], g["enc"] = FALSE, FALSE, FALSE, FALSE

    def is0(self, E, b, s):
        return And(b == self.b0, s_jid(s) == self.j0, s_id(s) == self.i0)

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "_send_message":
            p = kex_of(E, a["message"].fields["keys"])
            if p is None:
                raise Unsupported("keys of the message sent")
            b, s = ek_b(p[0].t), ek_s(p[0].t)
            E.prove("C11.empty-message-contents", And(loadedB(b), empty_message_ok(E, self, a, b, s)))
            E.prove("C11.none-for-others", Implies(self.is0(E, b, s), And(self.queued, self.present,
                                                                        loadedB(self.b0))))
            g["twice"] = Or(g["twice"], And(g["sent"], self.is0(E, b, s)))
        elif op == "store_session":
            E.prove("C11.sent-before-storing", Implies(self.is0(E, a["b"].t, a["session"].t), g["sent"]))
        elif op in ("store", "delete"):
            E.prove("C11.only-queues-are-written", Not(eqt(a["key"], self.q0)))
        elif op in ("_upload_bundle", "_upload_device_list", "_delete_bundle", "_make_trust_decision",
                    "build_session_active", "build_session_passive", "hide_pre_key", "delete_pre_key",
                    "generate_pre_keys", "decrypt_key_material", "purge", "purge_bare_jid"):
            E.prove("C11.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_send_message":
            p = kex_of(E, a["message"].fields["keys"])
            is0 = self.is0(E, ek_b(p[0].t), ek_s(p[0].t))
            g["sent"] = Or(g["sent"], is0)
            g["stored"] = And(g["stored"], Not(is0))
        elif op == "store_session":
            g["stored"] = Or(g["stored"], And(self.is0(E, a["b"].t, a["session"].t), g["sent"]))

    def post(self, E, kind, v):
        g = E.st.ghosts
        D = E.st.comps["D"]
        E.prove("C11.mode-ended", Not(self.attr(E, "synchronizing").t))
        E.prove("C11.nothing-else-written", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        if kind == "raise":
            return
        E.prove("C11.one-message-per-queued-device", And(
            Implies(And(loadedB(self.b0), self.queued, self.present), And(g["sent"], Not(g["twice"])))))
        E.prove("C11.none-without-reason", Implies(g["sent"], And(loadedB(self.b0), self.queued, self.present)))
        E.prove("C11.session-stored-after-sending", Implies(g["sent"], g["stored"]))
        E.prove("C11.queues-emptied", Implies(loadedB(self.b0), And(
            Not(has(sel(D, qkey(self.n0)))), Implies(self.qj, Not(has(sel(D, qkey(self.n0, self.j0))))))))


class C10(AfterHistorySync):
    name = "C10.after_history_sync"
    prop = "C10"
    expect_obligations = ("C10.hidden-pre-keys-deleted",)

    def ghosts(self, E):
        E.st.ghosts["hidden_deleted"] = FALSE

    def before(self, E, op, a):
        if op in ("hide_pre_key", "delete_pre_key", "generate_pre_keys", "rotate_signed_pre_key", "purge"):
            E.prove("C10.no-other-pre-key-effects", FALSE)

    def after(self, E, op, a, r):
        if op == "delete_hidden_pre_keys":
            E.st.ghosts["hidden_deleted"] = Or(E.st.ghosts["hidden_deleted"], a["b"].t == self.b0)

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C10.hidden-pre-keys-deleted", Implies(loadedB(self.b0), E.st.ghosts["hidden_deleted"]))


class C06(AfterHistorySync):
    name = "C06.after_history_sync"
    prop = "C06"
    expect_obligations = ("C06.key-exchange-iff-unconfirmed",)

    def before(self, E, op, a):
        if op == "_send_message":
            p = kex_of(E, a["message"].fields["keys"])
            if p is None:
                raise Unsupported("keys of the message sent")
            E.prove("C06.key-exchange-iff-unconfirmed", kex_right(E, self, *p))


class Before(Unit):
    name = "C11.before_history_sync"
    prop = "C11"
    target = "SessionManager.before_history_sync"
    interest = frozenset({ANY})
    expect_obligations = ("C11.mode-entered",)

    def body(self, E):
        sm = self.manager(E)
        return self.call(E, sm, "before_history_sync")

    def before(self, E, op, a):
        E.prove("C11.no-effect", BV(op in ("load", "load_session")))

    def post(self, E, kind, v):
        E.prove("C11.mode-entered", And(BV(kind == "return"), self.attr(E, "synchronizing").t))


UNITS = [C11, C10, C06, Before]
