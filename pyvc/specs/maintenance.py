"""Upkeep of published data and backends: C19, C23, C24, C27 (and the parts of C05 and C06 in replace_sessions)."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit
from .decrypt import kex_of, as_opt
from .devicelist import dom_at, val_at

BACKEND = TObj("Backend")
BUNDLE = OBJ["Bundle"]
OPTS = opt_sort(Str)
READS = ("load", "load_session", "get_device_information")


def loaded_ns(E, n):
    return And(loadedB(BE(n)), ns_of(BE(n)) == n)


# ---------------------------------------------------------------------------------------------------------------- C27

class Consistency(Unit):
    name = "C27.ensure_data_consistency"
    prop = "C27"
    target = "SessionManager.ensure_data_consistency"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C27.refreshes-own-list", "C27.compares-own-bundle", "C27.uploads-local-bundle",
                          "C27.uploads-only-if-needed", "C27.every-backend-checked", "C27.uploaded-if-needed")

    def body(self, E):
        sm = self.manager(E)
        self.b0 = z3.Const("b0", OBJ["Backend"])
        self.n0 = ns_of(self.b0)
        E.add_pool(self.b0)
        g = E.st.ghosts
        g["refreshed"], g["tried"], g["failed"], g["uploaded"] = FALSE, FALSE, FALSE, FALSE
        g["remote"] = z3.Const("remote_init", BUNDLE)
        return self.call(E, sm, "ensure_data_consistency")

    def foci(self, E, ty):
        return [VObj("Backend", self.b0)] if ty == BACKEND else []

    def observe(self, E):
        g = E.st.ghosts
        out = {n: v for n, v in g.items() if v.sort() == B}
        out["same"] = self.current_own_bundle(E, g["remote"], self.b0)
        return out

    def is0(self, n):
        return eqt(n, self.n0)

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "refresh_device_list":
            E.prove("C27.refreshes-own-list", And(eqt(a["jid"], self.own_jid), loaded_ns(E, a["ns"])))
        elif op == "_download_bundle":
            E.prove("C27.compares-own-bundle", And(eqt(a["jid"], self.own_jid), eqt(a["id"], self.own_id),
                                                   loaded_ns(E, a["ns"])))
        elif op == "_upload_bundle":
            t = a["bundle"].t
            b = bu_b(t)
            E.prove("C27.uploads-local-bundle", And(loadedB(b), self.current_own_bundle(E, t, b)))
            E.prove("C27.uploads-only-if-needed", Implies(And(loadedB(self.b0), b == self.b0), And(
                g["tried"], Or(g["failed"], Not(g["remote"] == t)), Not(g["uploaded"]))))
        elif op not in READS + ("get_bundle", "_download_device_list", "get_num_visible_pre_keys"):
            E.prove("C27.no-other-effects", FALSE)

    def result(self, E, op, a, r):
        g = E.st.ghosts
        if op == "refresh_device_list" and r is not None:
            g["refreshed"] = Or(g["refreshed"], self.is0(a["ns"]))
        elif op == "_download_bundle":
            i = And(loadedB(self.b0), self.is0(a["ns"]))
            g["tried"] = Or(g["tried"], i)
            g["failed"] = If(i, BV(r is None), g["failed"])
            if r is not None:
                g["remote"] = If(i, r.t, g["remote"])
        elif op == "_upload_bundle" and r is not None:
            g["uploaded"] = Or(g["uploaded"], bu_b(a["bundle"].t) == self.b0)

    def after(self, E, op, a, r):
        self.result(E, op, a, r)

    def failed(self, E, op, a, exc):
        self.result(E, op, a, None)

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "raise":
            E.prove("C27.fails-only-if-an-operation-fails", BV(not v.own and v.cls not in (
                "BundleDownloadFailed", "BundleNotFound")))
            return
        E.prove("C27.every-backend-checked", Implies(loadedB(self.b0), And(g["refreshed"], g["tried"])))
        E.prove("C27.uploaded-if-needed", Implies(And(loadedB(self.b0), Not(g["uploaded"])), And(
            Not(g["failed"]), self.current_own_bundle(E, g["remote"], self.b0))))


class SetOwnLabel(Unit):
    name = "C27.set_own_label"
    prop = "C27"
    target = "SessionManager.set_own_label"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C27.stores-only-the-label", "C27.fetches-own-list", "C27.publishes-current-list",
                          "C27.published-for-every-backend", "C27.label-stored")

    def body(self, E):
        sm = self.manager(E)
        self.b0, self.i0, self.q0 = z3.Const("b0", OBJ["Backend"]), z3.Int("id0"), z3.Const("q0", Key)
        self.n0 = ns_of(self.b0)
        E.add_pool(self.b0)
        E.add_pool(self.i0)
        self.k = dev(self.own_jid, self.own_id, SEG_LBL)
        self.label = z3.Const("label_arg", OPTS)
        E.assume(Not(eqt(self.q0, self.k)))
        g = E.st.ghosts
        g["published"], g["fetched"] = FALSE, FALSE
        g["ns"] = z3.Const("fetched_ns", Str)
        g["in"], g["lbl"] = FALSE, z3.Const("lbl0", OPTS)
        self.split(E, isc(OPTS.is_none, self.label))
        return self.call(E, sm, "set_own_label", TOpt(TStr).frm(self.label))

    def foci(self, E, ty):
        return {BACKEND: [VObj("Backend", self.b0)], TInt: [VInt(self.i0)]}.get(ty, [])

    def watch_keys(self, E):
        return [self.k, self.q0]

    def want(self):
        return MJ.just(If(isc(OPTS.is_none, self.label), JS.jnull, JS.jstr(acc(OPTS.val, self.label))))

    def observe(self, E):
        out = {n: v for n, v in E.st.ghosts.items() if v.sort() == B}
        out["stored"] = eqt(sel(E.st.comps["D"], self.k), self.want())
        return out

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "store":
            E.prove("C27.stores-only-the-label", And(eqt(a["key"], self.k), eqt(a["value"], self.want())))
        elif op == "_download_device_list":
            E.prove("C27.fetches-own-list", And(eqt(a["jid"], self.own_jid), loaded_ns(E, a["ns"])))
        elif op == "_upload_device_list":
            d, own = a["list"], self.i0 == self.own_id
            E.prove("C27.publishes-current-list", And(
                g["fetched"], eqt(a["ns"], g["ns"]), Iff(dom_at(d, self.i0), Or(g["in"], own)),
                dom_at(d, self.own_id), eqt(val_at(d, self.own_id), self.label),
                Implies(And(g["in"], Not(own)), eqt(val_at(d, self.i0), g["lbl"]))))
        elif op not in READS:
            E.prove("C27.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_download_device_list":
            d = E.deref(r)
            g["fetched"], g["ns"] = TRUE, a["ns"]
            g["in"], g["lbl"] = dom_at(d, self.i0), val_at(d, self.i0)
        elif op == "_upload_device_list":
            g["published"] = Or(g["published"], eqt(a["ns"], self.n0))
            g["fetched"] = FALSE

    def post(self, E, kind, v):
        D = E.st.comps["D"]
        E.prove("C27.nothing-else-changed", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        if kind == "raise":
            E.prove("C27.fails-only-if-an-operation-fails", BV(not v.own))
            return
        E.prove("C27.label-stored", eqt(sel(D, self.k), self.want()))
        E.prove("C27.published-for-every-backend", Implies(loadedB(self.b0), E.st.ghosts["published"]))


# ---------------------------------------------------------------------------------------------------------------- C24

class Rotation(Unit):
    name = "C24.rotation"
    prop = "C24"
    target = "SessionManager.__manage_signed_pre_key_rotation"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:raise", "retry", "pass")
    expect_obligations = ("C24.rotates-only-if-due", "C24.uploads-new-bundle", "C24.retry-delay", "C24.every-key-checked",
                          "C24.rotated-if-due", "C24.delay-at-least-60", "C24.delay-at-most-period",
                          "C24.delay-until-next-rotation", "C24.upload-failures-retried",
                          "C24.nothing-before-upload")

    def body(self, E):
        sm = self.manager(E)
        self.b0 = z3.Const("b0", OBJ["Backend"])
        self.period = z3.Int("period")
        E.assume(self.period >= 0)
        E.add_pool(self.b0)
        g = E.st.ghosts
        g["checked"], g["age"], g["rotated"] = FALSE, z3.IntVal(0), FALSE      # of b0, in this pass
        g["pending"], g["of"] = FALSE, z3.Const("of_init", OBJ["Backend"])     # a new bundle has to be uploaded
        g["wait"], g["delay"] = FALSE, z3.IntVal(0)                            # a retry is due, after this delay
        fw = VEnum("AsyncFramework", z3.Const("framework", ENUMS["AsyncFramework"][0]))
        return self.call(E, sm, "_SessionManager__manage_signed_pre_key_rotation", VInt(self.period), fw)

    def foci(self, E, ty):
        return [VObj("Backend", self.b0)] if ty == BACKEND else []

    def observe(self, E):
        g = E.st.ghosts
        return {"due": g["age"] > self.period}

    def module_attr(self, E, q):
        if q == "asyncio.sleep":
            return VPy(q, lambda E, a, kw: VCoro(lambda: self.sleep(E, a[0] if a else kw["delay"]), "sleep"))
        if q.endswith("task.deferLater"):
            return VPy(q, lambda E, a, kw: VCoro(lambda: self.sleep(E, a[1] if len(a) > 1 else kw["delay"]), "sleep"))
        return None

    def sleep(self, E, s):
        return self.op(E, "sleep", {"s": E.num(E.force(s))}, excs=[])

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "signed_pre_key_age":
            E.prove("C24.nothing-before-upload", Not(g["pending"]))
        elif op == "rotate_signed_pre_key":
            E.prove("C24.nothing-before-upload", Not(g["pending"]))
            E.prove("C24.rotates-only-if-due", And(loadedB(a["b"].t), Implies(a["b"].t == self.b0, And(
                g["checked"], g["age"] > self.period, Not(g["rotated"])))))
        elif op == "_upload_bundle":
            t = a["bundle"].t
            E.prove("C24.uploads-new-bundle", And(g["pending"], Not(g["wait"]), self.current_own_bundle(E, t, g["of"])))
        elif op == "sleep":
            s, p = a["s"], g["pending"]
            E.prove("C24.retry-delay", Implies(p, And(g["wait"], s == g["delay"])))
            E.prove("C24.every-key-checked", Implies(And(Not(p), loadedB(self.b0)), g["checked"]))
            E.prove("C24.rotated-if-due", Implies(And(Not(p), g["checked"], g["age"] > self.period), g["rotated"]))
            E.prove("C24.delay-at-least-60", Implies(Not(p), s >= 60))
            E.prove("C24.delay-at-most-period", Implies(Not(p), s <= self.period + 60))
            E.prove("C24.delay-until-next-rotation", Implies(And(Not(p), g["checked"], Not(g["rotated"])),
                                                             s <= self.period - g["age"] + 60))
        elif op not in READS + ("get_bundle",):
            E.prove("C24.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "signed_pre_key_age":
            is0 = a["b"].t == self.b0
            g["checked"] = Or(g["checked"], is0)
            g["age"] = If(is0, r.t, g["age"])
        elif op == "rotate_signed_pre_key":
            g["rotated"] = Or(g["rotated"], a["b"].t == self.b0)
            g["pending"], g["of"], g["wait"], g["delay"] = TRUE, a["b"].t, FALSE, z3.IntVal(60)
        elif op == "_upload_bundle":
            g["pending"], g["wait"] = FALSE, FALSE
        elif op == "sleep":
            p = g["pending"]
            if E.branch(p, "retry"):
                E.cover("retry")
                g["delay"] = If(2 * g["delay"] < 3600, 2 * g["delay"], z3.IntVal(3600))
                g["wait"] = FALSE
            else:
                E.cover("pass")
                g["checked"], g["rotated"] = FALSE, FALSE

    def failed(self, E, op, a, exc):
        if op == "_upload_bundle":
            E.st.ghosts["wait"] = TRUE

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C24.never-ends", FALSE)
        else:
            E.prove("C24.upload-failures-retried", BV(v.cls != "BundleUploadFailed" and not v.own))


# ---------------------------------------------------------------------------------------------------------------- C19

class PurgeBackend(Unit):
    name = "C19.purge_backend"
    prop = "C19"
    target = "SessionManager.purge_backend"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C19.fetches-own-list", "C19.removes-only-this-device", "C19.publishes-only-if-listed",
                          "C19.record-after-list", "C19.removes-only-that-namespace", "C19.purges-that-backend",
                          "C19.purge-after-record", "C19.bundle-deleted-last", "C19.deletes-own-bundle",
                          "C19.others-stay-loaded", "C19.order-kept", "C19.completed")

    def body(self, E):
        sm = self.manager(E)
        self.n = z3.Const("ns_arg", Str)
        self.i0, self.n1 = z3.Int("id0"), z3.Const("n1", Str)
        self.b0, self.b1 = z3.Const("b0", OBJ["Backend"]), z3.Const("b1", OBJ["Backend"])
        for t in (self.n, self.n1, self.i0, self.b0, self.b1, BE(self.n), self.own_key):
            E.add_pool(t)
        self.loaded = loaded_ns(E, self.n)
        self.kact, self.kns = dev(self.own_jid, self.own_id, SEG_ACT), dev(self.own_jid, self.own_id, SEG_NS)
        R = self.recs(E)
        # the record of this device is complete (C17)
        E.assume(And(R.listed(self.own_jid, self.own_id), R.has_ik(self.own_jid, self.own_id)))
        g = E.st.ghosts
        for x in ("fetched", "listed", "uploaded", "act", "ns", "purged", "deleted", "in"):
            g[x] = FALSE
        g["lbl"] = z3.Const("lbl0", OPTS)
        return self.call(E, sm, "purge_backend", VStr(self.n))

    def foci(self, E, ty):
        return {TStr: [VStr(self.n1)], TInt: [VInt(self.i0)]}.get(ty, [])

    def before(self, E, op, a):
        g = E.st.ghosts
        unlisted = And(g["fetched"], Implies(g["listed"], g["uploaded"]))
        if op == "_download_device_list":
            E.prove("C19.fetches-own-list", And(eqt(a["ns"], self.n), eqt(a["jid"], self.own_jid)))
        elif op == "_upload_device_list":
            d = a["list"]
            E.prove("C19.publishes-only-if-listed", And(g["fetched"], g["listed"], Not(g["uploaded"]),
                                                        eqt(a["ns"], self.n)))
            E.prove("C19.removes-only-this-device", And(
                Iff(dom_at(d, self.i0), And(g["in"], Not(self.i0 == self.own_id))), Not(dom_at(d, self.own_id)),
                Implies(And(g["in"], Not(self.i0 == self.own_id)), eqt(val_at(d, self.i0), g["lbl"]))))
        elif op == "store":
            R = self.recs(E)
            E.prove("C19.record-after-list", unlisted)
            v = a["value"]
            act = eqt(a["key"], self.kact)
            E.prove("C19.removes-only-that-namespace", And(
                Or(act, eqt(a["key"], self.kns)),
                Implies(act, And(
                    j_is(v, "dict"), Not(dict_has(v, self.n)),
                    Implies(Not(eqt(self.n1, self.n)), And(
                        Iff(dict_has(v, self.n1), R.act_has(self.own_jid, self.own_id, self.n1)),
                        Implies(dict_has(v, self.n1),
                                Iff(dict_get(v, self.n1), R.act(self.own_jid, self.own_id, self.n1))))))),
                Implies(Not(act), And(
                    j_is(v, "list"), Not(str_in(v, self.n)),
                    Implies(Not(eqt(self.n1, self.n)),
                            Iff(str_in(v, self.n1), R.ns(self.own_jid, self.own_id, self.n1)))))))
            E.prove("C19.record-before-purge", Not(Or(g["purged"], g["deleted"])))
        elif op == "purge":
            E.prove("C19.purges-that-backend", And(loadedB(a["b"].t), eqt(ns_of(a["b"].t), self.n), Not(g["purged"])))
            E.prove("C19.purge-after-record", And(unlisted, g["act"], g["ns"]))
        elif op == "_delete_bundle":
            E.prove("C19.deletes-own-bundle", And(eqt(a["ns"], self.n), eqt(a["id"], self.own_id), Not(g["deleted"])))
            E.prove("C19.bundle-deleted-last", And(unlisted, g["act"], g["ns"], Implies(self.loaded, g["purged"])))
        elif op not in READS:
            E.prove("C19.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_download_device_list":
            d = E.deref(r)
            g["fetched"], g["listed"], g["uploaded"] = TRUE, dom_at(d, self.own_id), FALSE
            g["in"], g["lbl"] = dom_at(d, self.i0), val_at(d, self.i0)
        elif op == "_upload_device_list":
            g["uploaded"] = TRUE
        elif op == "store":
            act = eqt(a["key"], self.kact)
            g["act"], g["ns"] = Or(g["act"], act), Or(g["ns"], Not(act))
        elif op == "purge":
            g["purged"] = TRUE
        elif op == "_delete_bundle":
            g["deleted"] = TRUE

    def failed(self, E, op, a, exc):
        if op in ("purge", "_delete_bundle"):
            E.st.ghosts["purged" if op == "purge" else "deleted"] = TRUE

    def post(self, E, kind, v):
        g = E.st.ghosts
        bl = E.as_coll(self.attr(E, "backends"))
        o0, o1 = VObj("Backend", self.b0), VObj("Backend", self.b1)
        gone = eqt(ns_of(self.b0), self.n)
        E.prove("C19.others-stay-loaded", And(Implies(E.mem(bl, o0), loadedB(self.b0)), Implies(
            And(loadedB(self.b0), Not(gone)), E.mem(bl, o0))))
        if bl.items is None:
            if bl.idx is None:
                raise Unsupported("order of the backends")
            both = And(E.mem(bl, o0), E.mem(bl, o1))
            E.prove("C19.order-kept", Implies(both, Iff(bl.idx(o0) < bl.idx(o1), bidx(self.b0) < bidx(self.b1))))
        if kind == "raise":
            E.prove("C19.fails-only-if-an-operation-fails", BV(not v.own))
            return
        R = self.recs(E)
        E.prove("C19.unloaded", Implies(gone, Not(E.mem(bl, o0))))
        E.prove("C19.completed", And(g["fetched"], Implies(g["listed"], g["uploaded"]), g["act"], g["ns"], g["deleted"],
                                     Implies(self.loaded, g["purged"])))
        E.prove("C19.namespace-removed", And(Not(R.ns(self.own_jid, self.own_id, self.n)),
                                             Not(R.act_has(self.own_jid, self.own_id, self.n))))


# ---------------------------------------------------------------------------------------------------------------- C23

class Replace(Unit):
    target = "SessionManager.replace_sessions"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")
    all_exceptions = True

    def body(self, E):
        sm = self.manager(E)
        self.j, self.i = z3.Const("d_jid", Str), z3.Int("d_id")
        self.b0 = z3.Const("b0", OBJ["Backend"])
        self.n0 = ns_of(self.b0)
        k = DevKey.devkey(self.j, self.i)
        for t in (self.b0, self.n0, k):
            E.add_pool(t)
        self.has0 = sel(self.SP0, self.spk(self.b0, self.j, self.i))
        d = VRec("DeviceInformation", {
            "namespaces": arr_coll(TStr, z3.Const("d_ns", StrSet)),
            "active": VItems(arr_dict(TStr, TBool, z3.Const("d_actd", StrSet), z3.Const("d_actv", StrSet))),
            "bare_jid": VStr(self.j), "device_id": VInt(self.i), "identity_key": VBytes(z3.Const("d_ik", Bytes)),
            "trust_level_name": VStr(z3.Const("d_trust", Str)),
            "label": TOpt(TStr).frm(z3.Const("d_label", OPTS))})
        g = E.st.ghosts
        for x in ("tried", "built", "sent", "stored", "storing", "failed", "mismatch"):
            g[x] = FALSE
        g["sess"] = z3.Const("sess_init", OBJ["Session"])
        g["exc"] = z3.Const("exc_init", Exc)
        return self.call(E, sm, "replace_sessions", d)

    def foci(self, E, ty):
        return {BACKEND: [VObj("Backend", self.b0)], TStr: [VStr(self.n0)]}.get(ty, [])

    def watch(self, E, comp):
        return {"SP": [self.spk(self.b0, self.j, self.i)]}.get(comp, [])

    def observe(self, E):
        out = {n: v for n, v in E.st.ghosts.items() if v.sort() == B}
        lo = loadedB(self.b0)
        out["target"] = Implies(lo, self.wanted(E))
        out["loaded"] = loaded_ns(E, self.n0)
        out["bad"] = Or(Not(lo), E.st.ghosts["failed"], E.st.ghosts["mismatch"])
        out["unstored"] = Not(E.st.ghosts["stored"])
        return out

    def typed_invariants(self, E, ty):
        g = E.st.ghosts

        def failure(k, v=None):
            return Implies(g["failed"], v.t == g["exc"]) if isinstance(v, VExc) else TRUE
        return {"failure": failure} if ty == TStr else {}

    def known(self, E):
        R = self.recs(E)
        return And(R.listed(self.j, self.i), R.has_ik(self.j, self.i))

    def wanted(self, E):
        """The session of b0 is to be replaced."""
        return And(loadedB(self.b0), self.recs(E).ns(self.j, self.i, self.n0), self.has0)

    def failed(self, E, op, a, exc):
        g = E.st.ghosts
        b = {"_download_bundle": lambda: eqt(a["ns"], self.n0), "build_session_active": lambda: a["b"].t == self.b0,
             "encrypt_empty": lambda: a["b"].t == self.b0, "store_session": lambda: a["b"].t == self.b0,
             "_send_message": lambda: eqt(a["message"].fields["namespace"].t, self.n0)}.get(op)
        if b is not None:
            c = And(loadedB(self.b0), b())
            g["failed"] = Or(g["failed"], c)
            g["exc"] = If(c, exc.t, g["exc"])

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_download_bundle":
            m = And(loadedB(self.b0), eqt(a["ns"], self.n0), Not(bu_ik(r.t) == self.recs(E).ik(self.j, self.i)))
            g["mismatch"] = Or(g["mismatch"], m)
        elif op == "build_session_active":
            c = a["b"].t == self.b0
            g["built"] = Or(g["built"], c)
            g["sess"] = If(c, r.items[0].t, g["sess"])
        elif op == "_send_message":
            g["sent"] = Or(g["sent"], And(loadedB(self.b0), eqt(a["message"].fields["namespace"].t, self.n0)))
        elif op == "store_session":
            g["stored"] = Or(g["stored"], a["b"].t == self.b0)

    def reported(self, E, v):
        d = E.deref(v)
        if not isinstance(d, VDict):
            raise Unsupported("result of replace_sessions")
        return d.dom(VStr(self.n0)) if d.kt is not None else FALSE


def notification(E, unit, a):
    m = a["message"]
    if not isinstance(m, VRec) or m.cls != "Message":
        raise Unsupported("message sent")
    p = kex_of(E, m.fields["keys"])
    if p is None:
        raise Unsupported("keys of the message sent")
    return m.fields, p[0].t, as_opt(p[1])


class C23(Replace):
    name = "C23.replace_sessions"
    prop = "C23"
    expect_obligations = ("C23.replaces-only-existing-sessions", "C23.notification", "C23.stored-after-notification",
                          "C23.stores-the-new-session", "C23.failure-reported", "C23.success-not-reported",
                          "C23.all-replaced", "C23.session-from-the-device's-bundle")

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "build_session_active":
            t = a["bundle"].t
            E.prove("C23.session-from-the-device's-bundle", And(
                loadedB(a["b"].t), eqt(a["jid"].t, self.j), eqt(a["id"].t, self.i), bu_ns(t) == ns_of(a["b"].t),
                bu_jid(t) == self.j, bu_id(t) == self.i))
            E.prove("C23.replaces-only-existing-sessions", Implies(a["b"].t == self.b0, And(
                self.wanted(E), Not(g["built"]))))
        elif op == "_send_message":
            f, ekm, kex = notification(E, self, a)
            b, s, c = ek_b(ekm), ek_s(ekm), f["content"].t
            E.prove("C23.notification", And(
                loadedB(b), eqt(f["namespace"].t, ns_of(b)), eqt(f["bare_jid"].t, self.own_jid),
                eqt(f["device_id"].t, self.own_id), c_empty(c), c_b(c) == b, ek_p(ekm) == c_p(c), eqt(a["jid"], self.j),
                Implies(b == self.b0, And(g["built"], s == g["sess"], Not(g["sent"])))))
        elif op == "store_session":
            c = a["b"].t == self.b0
            E.prove("C23.stored-after-notification", Implies(c, And(g["sent"], Not(g["storing"]))))
            E.prove("C23.stores-the-new-session", Implies(c, And(g["built"], a["session"].t == g["sess"])))
            g["storing"] = Or(g["storing"], c)
        elif op not in READS + ("encrypt_empty", "_download_bundle"):
            E.prove("C23.no-other-effects", FALSE)

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "raise":
            E.prove("C23.fails-only-if-the-device-cannot-be-looked-up", And(
                BV(v.origin in READS or v.cls in ("RuntimeError", "StopIteration", "StopAsyncIteration")),
                Implies(BV(v.own), Not(self.known(E)))))
            E.prove("C23.failed-without-effect", Not(Or(g["built"], g["sent"], g["storing"])))
            return
        rep = self.reported(E, v)
        E.prove("C23.failure-reported", Implies(Or(g["failed"], g["mismatch"]), rep))
        E.prove("C23.only-loaded-backends-reported", Implies(rep, loaded_ns(E, self.n0)))
        E.prove("C23.success-not-reported", Implies(And(rep, loadedB(self.b0)), And(
            self.wanted(E), Not(g["stored"]), Or(g["failed"], g["mismatch"]))))
        E.prove("C23.old-session-kept", Implies(And(rep, g["storing"]), g["failed"]))
        E.prove("C23.all-replaced", Iff(And(self.wanted(E), Not(rep)), g["stored"]))
        d = E.deref(v)
        if d.kt is not None:
            x = d.val(VStr(self.n0))
            t = getattr(x, "t", None)
            if t is None or t.sort() != Exc:
                raise Unsupported("reported failure")
            E.prove("C23.reports-the-failure", Implies(And(rep, g["failed"]), t == g["exc"]))


class C05(Replace):
    name = "C05.replace_sessions"
    prop = "C05"
    expect_obligations = ("C05.bundle-carries-recorded-key", "C05.mismatch-reported")

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "build_session_active":
            E.prove("C05.bundle-carries-recorded-key", And(
                bu_ik(a["bundle"].t) == self.recs(E).ik(a["jid"].t, a["id"].t), self.known(E)))
        elif op == "build_session_passive":
            E.prove("C05.no-passive-session", FALSE)
        elif op == "store_session":
            E.prove("C05.no-session-stored-on-mismatch", Implies(a["b"].t == self.b0, And(
                g["built"], a["session"].t == g["sess"])))

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C05.mismatch-reported", Implies(E.st.ghosts["mismatch"], And(
                self.reported(E, v), Not(E.st.ghosts["built"]), Not(E.st.ghosts["stored"]))))


class C06(Replace):
    name = "C06.replace_sessions"
    prop = "C06"
    expect_obligations = ("C06.replacement-carries-key-exchange",)

    def before(self, E, op, a):
        if op == "_send_message":
            f, ekm, kex = notification(E, self, a)
            E.prove("C06.replacement-carries-key-exchange", And(
                Not(kex.isnone), kex.val.t == s_ke(ek_s(ekm)) if kex.val is not None else FALSE,
                Implies(ek_b(ekm) == self.b0, And(E.st.ghosts["built"], ek_s(ekm) == E.st.ghosts["sess"]))))


UNITS = [Consistency, SetOwnLabel, Rotation, PurgeBackend, C23, C05, C06]
