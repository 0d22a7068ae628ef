"""C15: no operation changes trust records or recorded identity keys unless asked to."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit
from . import basic, creation, decrypt, devicelist, encrypt, history, information, maintenance


class Frame:
    """
    The body, arguments and callee contracts of another unit; what is proved is that no storage access of the function
    touches the trust record of an arbitrary bare JID and identity key or the identity key recorded for an arbitrary
    device, other than as allowed for the function.
    """
    prop = "C15"
    interest = frozenset({"store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ()
    arbitrary_foci = True

    def kinds(self, E):
        if not hasattr(self, "jt"):
            self.jt, self.ikt = z3.Const("jt", Str), z3.Const("ikt", Bytes)
            self.jd, self.idd = z3.Const("jd", Str), z3.Int("idd")
        return trustkey(self.jt, self.ikt), dev(self.jd, self.idd, SEG_IK)

    def foci(self, E, ty):
        return []

    def observe(self, E):
        return {}

    def watch_keys(self, E):
        return []

    def watch(self, E, comp):
        return []

    def typed_invariants(self, E, ty):
        return {}

    def invariants(self, E, pre):
        return {}

    def inspect(self, E):
        return {}

    def before(self, E, op, a):
        if op in ("store", "delete"):
            t, d = self.kinds(E)
            k = a["key"]
            E.prove("C15.trust-untouched", Implies(eqt(k, t), self.trust_allowed(E, op, a)))
            E.prove("C15.identity-key-untouched", Implies(eqt(k, d), self.identity_allowed(E, op, a)))

    def trust_allowed(self, E, op, a):
        return FALSE

    def identity_allowed(self, E, op, a):
        return FALSE

    def after(self, E, op, a, r):
        pass

    def failed(self, E, op, a, exc):
        pass

    def querying(self, E):
        pass

    def made(self, E, rec):
        pass

    def split(self, E, *a):
        pass

    def post(self, E, kind, v):
        pass


class Update(Frame, devicelist.Update):
    name = "C15.update_device_list"


class Information(Frame, information.Information):
    name = "C15.information"
    interest = information.Information.interest
    foci, observe, watch_keys = (getattr(information.Information, n) for n in ("foci", "observe", "watch_keys"))
    typed_invariants, after, failed = (getattr(information.Information, n) for n in ("typed_invariants", "after", "failed"))

    def identity_allowed(self, E, op, a):
        return And(BV(op == "store"), Not(has(self.recs(E).at(a["key"]))))


class Decrypt(Frame, decrypt.Decrypt):
    name = "C15.decrypt"


class AfterHistorySync(Frame, history.AfterHistorySync):
    name = "C15.after_history_sync"


class BeforeHistorySync(Frame, history.Before):
    name = "C15.before_history_sync"
    expect_covers = ("exit:return",)


class Replace(Frame, maintenance.Replace):
    name = "C15.replace_sessions"


class PurgeBackend(Frame, maintenance.PurgeBackend):
    name = "C15.purge_backend"


class Consistency(Frame, maintenance.Consistency):
    name = "C15.ensure_data_consistency"


class SetOwnLabel(Frame, maintenance.SetOwnLabel):
    name = "C15.set_own_label"


class Rotation(Frame, maintenance.Rotation):
    name = "C15.rotation"
    expect_covers = ("exit:raise",)


class Refresh(Frame, devicelist.Refresh):
    name = "C15.refresh_device_list"


class EncryptOrder(Frame, encrypt.Encrypt):
    name = "C15.encrypt.order"
    order_given = True


class EncryptDefault(Frame, encrypt.Encrypt):
    name = "C15.encrypt.default"
    order_given = False


class PurgeBareJid(Frame, basic.PurgeBareJid):
    name = "C15.purge_bare_jid"

    def trust_allowed(self, E, op, a):
        return And(BV(op == "delete"), eqt(self.jt, self.j))

    def identity_allowed(self, E, op, a):
        return And(BV(op == "delete"), eqt(self.jd, self.j))


class IdentityKeyPair(Frame, basic.IkpGet):
    name = "C15.identity_key_pair"


class Create(Frame, creation.Create):
    """The initial setup records this device's identity key and trusts it; later runs do neither."""
    name = "C15.create"

    def trust_allowed(self, E, op, a):
        return And(BV(op == "store"), self.first, eqt(self.jt, self.own_jid), eqt(self.ikt, self.own_ik))

    def identity_allowed(self, E, op, a):
        return And(BV(op == "store"), self.first, eqt(self.jd, self.own_jid))


class SetTrust(Unit):
    name = "C15.set_trust"
    prop = "C15"
    target = "SessionManager.set_trust"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C15.sets-exactly-that-level", "C15.level-set")

    def body(self, E):
        sm = self.manager(E)
        self.j, self.ik, self.t = z3.Const("jid_arg", Str), z3.Const("ik_arg", Bytes), z3.Const("level_arg", Str)
        self.q0 = z3.Const("q0", Key)
        self.k = trustkey(self.j, self.ik)
        E.assume(Not(eqt(self.q0, self.k)))
        return self.call(E, sm, "set_trust", VStr(self.j), VBytes(self.ik), VStr(self.t))

    def watch_keys(self, E):
        return [self.k, self.q0]

    def want(self):
        return MJ.just(JS.jstr(self.t))

    def before(self, E, op, a):
        if op == "store":
            E.prove("C15.sets-exactly-that-level", And(eqt(a["key"], self.k), eqt(a["value"], self.want())))
        elif op not in ("load", "load_session", "evaluate_custom_trust_level"):
            E.prove("C15.no-other-effects", FALSE)

    def post(self, E, kind, v):
        D = E.st.comps["D"]
        E.prove("C15.nothing-else-changed", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        if kind == "return":
            E.prove("C15.level-set", eqt(sel(D, self.k), self.want()))
        else:
            E.prove("C15.failed-set-changes-nothing-else", Or(eqt(sel(D, self.k), self.want()),
                                                              eqt(sel(D, self.k), sel(self.D0, self.k))))


UNITS = [Update, Information, Decrypt, AfterHistorySync, BeforeHistorySync, Replace, PurgeBackend, Consistency, SetOwnLabel,
         Rotation, Refresh, EncryptOrder, EncryptDefault, PurgeBareJid, IdentityKeyPair, Create, SetTrust]
