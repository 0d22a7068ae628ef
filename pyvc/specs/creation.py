"""create: C17, C18 and its part of C15."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit

DLF = z3.Function("published_list", Str, Str, DLD)      # (namespace, bare JID) -> device ids
DLL = z3.Function("published_labels", Str, Str, DLV)
OWN_ID = mkkey("", "own_device_id")
PUBLISH = ("generate_pre_keys", "_upload_bundle", "_upload_device_list", "refresh_device_list", "update_device_list",
           "purge_backend", "_delete_bundle", "purge", "purge_bare_jid", "_send_message", "rotate_signed_pre_key")


class Create(Unit):
    target = "SessionManager.create"
    interest = frozenset({ANY, "store", "delete", "get_device_information"})
    expect_covers = ("exit:return", "exit:raise")

    def body(self, E):
        self.b0, self.n1 = z3.Const("b0", OBJ["Backend"]), z3.Const("n1", Str)
        self.thr, self.period = z3.Int("threshold_arg"), z3.Int("period")
        self.fw = z3.Const("framework", ENUMS["AsyncFramework"][0])
        self.label = z3.Const("label_arg", opt_sort(Str))
        E.assume(And(self.thr >= 25, self.thr <= 99, loadedB(self.b0)))
        self.m0 = sel(self.D0, OWN_ID)
        self.first = Not(has(self.m0))
        g = E.st.ghosts
        g["id"] = acc(JS.ji, jv(self.m0))
        for n in ("idset", "informed", "act_n1", "act_b0", "gen", "upl", "ann", "set_ns", "set_act", "purged", "differ"):
            g[n] = FALSE
        g["started"] = z3.IntVal(0)
        for t in (self.b0, self.n1, ns_of(self.b0), BE(self.n1)):
            E.add_pool(t)
        E.add_pool(g["id"])
        E.add_pool(DevKey.devkey(self.own_jid, g["id"]))
        self.split(E, self.first)
        st = VInst("Storage", "ostorage")
        E.st.heap["ostorage"] = {}
        bl = E.alloc(self.backends(E), "blist")
        return self.call(E, VClass("SessionManager"), "create", bl, st, VStr(self.own_jid),
                         TOpt(TStr).frm(self.label), VStr(self.undecided), VInt(self.period), VInt(self.thr),
                         VEnum("AsyncFramework", self.fw))

    def distinct_images(self, E, p, q):
        if "backends" in p.tags and "backends" in q.tags and p.out is not None and q.out is None and \
                p.kind in ("set", "frozenset") and p.inv is not None:
            return TRUE
        return None

    def foci(self, E, ty):
        return {TObj("Backend"): [VObj("Backend", self.b0)], TStr: [VStr(self.n1)]}.get(ty, [])

    # ------------------------------------------------------------------------------------------ contracts of callees

    def c_IdentityKeyPair_get(self, E, storage):
        # concerns nothing but the records of the identity key pair (C16)
        return self.op(E, "IdentityKeyPair.get", {}, lambda: VSpecial("ikp"), ["StorageException"])

    def x_download_device_list(self, E, namespace, bare_jid):
        n, j = E.force(namespace).t, E.force(bare_jid).t
        return self.op(E, "_download_device_list", {"ns": n, "jid": j}, lambda: E.alloc(
            arr_dict(TInt, TOpt(TStr), DLF(n, j), DLL(n, j)), "dl"), mutates=False)

    def c_SessionManager_purge_backend(self, E, self_, namespace):
        """Removes the namespace from the record of this device (C19); may fail after any part of it."""
        n = E.force(namespace).t
        i = E.force(E.st.heap[self_.id]["_SessionManager__own_device_id"]).t
        kn, ka = dev(self.own_jid, i, SEG_NS), dev(self.own_jid, i, SEG_ACT)

        def eff(a=TRUE, b=TRUE):
            D = E.st.comps["D"]
            ns, act = sel(D, kn), sel(D, ka)
            ns1 = MJ.just(JS.jlist(FALSE, TRUE, z3.K(I, FALSE), z3.Store(j_strs(ns), n, FALSE)))
            act1 = MJ.just(JS.jdict(z3.Store(acc(JS.jd_dom, jv(act)), n, FALSE), acc(JS.jd_val, jv(act))))
            D = z3.Store(D, kn, If(And(a, j_is(ns, "list")), ns1, ns))
            E.st.comps["D"] = z3.Store(D, ka, If(And(b, j_is(act, "dict")), act1, act))
            return NONE
        return self.op(E, "purge_backend", {"ns": n}, eff, ["DeviceListUploadFailed", "StorageException"],
                       partial=lambda: eff(E.fresh("partial", B), E.fresh("partial", B)))

    def c_SessionManager__SessionManager__manage_signed_pre_key_rotation(self, E, self_, signed_pre_key_rotation_period,
                                                                         async_framework):
        return self.op(E, "rotation", {"period": E.force(signed_pre_key_rotation_period).t,
                                       "framework": E.force(async_framework).t}, None, [])

    def contract(self, E, q):
        if q == "SessionManager.create":
            return None
        return super().contract(E, q)

    def module_attr(self, E, q):
        fw = {"asyncio.ensure_future": "ASYNCIO", "asyncio.create_task": "ASYNCIO",
              "twisted.internet.defer.ensureDeferred": "TWISTED", "defer.ensureDeferred": "TWISTED"}.get(q)
        if fw is None:
            return None

        def start(E, a, kw):
            if not isinstance(a[0], VCoro):
                raise Unsupported(q)
            self.schedule(E, ENUMS["AsyncFramework"][1][fw])
            E.await_(a[0])
            return VSpecial("future")
        return VPy(q, start)

    def schedule(self, E, fw):
        pass

    # ------------------------------------------------------------------------------------------ ghost state

    def own(self, E, w):
        return dev(self.own_jid, E.st.ghosts["id"], w)

    def exactly_loaded(self, E, v):
        """A stored list of namespaces / activity record for exactly the loaded backends (all active)."""
        n = self.n1
        return And(j_is(v, "list"), Iff(sel(j_strs(v), n), self.is_loaded(n)))

    def is_loaded(self, n):
        return And(loadedB(BE(n)), eqt(ns_of(BE(n)), n))

    def all_active(self, E, v):
        n = self.n1
        return And(j_is(v, "dict"), Iff(dict_has(v, n), self.is_loaded(n)), Implies(dict_has(v, n), dict_get(v, n)))

    def new(self, E):
        """The focal backend is new to this device."""
        return Or(self.first, And(E.st.ghosts["informed"], Not(E.st.ghosts["act_b0"])))

    def after(self, E, op, a, r):
        g, j = E.st.ghosts, self.own_jid
        b0 = self.b0
        if op == "store":
            k, v = a["key"], a["value"]
            g["set_ns"] = Or(g["set_ns"], eqt(k, self.own(E, SEG_NS)))
            g["set_act"] = Or(g["set_act"], eqt(k, self.own(E, SEG_ACT)))
            isid = eqt(k, OWN_ID)
            if not is_false(isid):
                g["idset"] = Or(g["idset"], isid)
                g["id"] = If(isid, acc(JS.ji, jv(v)), g["id"])
                E.add_pool(g["id"])
                E.add_pool(DevKey.devkey(j, g["id"]))
        elif op == "get_device_information":
            R = self.recs(E)
            fresh = And(eqt(a["jid"], j), Not(g["informed"]))
            g["act_n1"] = If(fresh, R.ns(j, g["id"], self.n1), g["act_n1"])
            g["act_b0"] = If(fresh, R.ns(j, g["id"], ns_of(b0)), g["act_b0"])
            g["informed"] = Or(g["informed"], eqt(a["jid"], j))
        elif op == "generate_pre_keys":
            g["gen"] = Or(g["gen"], a["b"].t == b0)
        elif op == "_upload_bundle":
            t = a["bundle"].t
            g["upl"] = Or(g["upl"], And(self.current(E, t), bu_b(t) == b0))
        elif op == "refresh_device_list":
            g["ann"] = Or(g["ann"], And(eqt(a["ns"], ns_of(b0)), eqt(a["jid"], j)))
        elif op == "purge_backend":
            g["purged"] = Or(g["purged"], eqt(a["ns"], self.n1))
        elif op == "rotation":
            g["started"] = g["started"] + 1

    def current(self, E, t):
        b = bu_b(t)
        return And(bu_ver(t) == sel(E.st.comps["BV"], b), bu_jid(t) == self.own_jid, bu_id(t) == E.st.ghosts["id"])

    def watch_keys(self, E):
        g = E.st.ghosts
        return [OWN_ID, devlist(self.own_jid), *[self.own(E, w) for w in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)]]

    def watch(self, E, comp):
        return [self.b0] if comp in ("VP", "BV") else []

    def attr_of(self, E, v, name):
        if not isinstance(v, VInst) or "_SessionManager__" + name not in E.st.heap[v.id]:
            raise Unsupported("result of create")
        return E.force(E.st.heap[v.id]["_SessionManager__" + name])


class C17(Create):
    name, prop = "C17.create", "C17"
    expect_obligations = ("C17.id-in-range", "C17.id-not-taken", "C17.record-before-id", "C17.only-on-first-run",
                          "C17.later-runs-keep-label-and-key", "C17.uses-the-stored-id")

    def before(self, E, op, a):
        g, j = E.st.ghosts, self.own_jid
        if op == "store":
            k, v = a["key"], a["value"]
            isid = eqt(k, OWN_ID)
            E.prove("C17.later-runs-keep-label-and-key", Implies(Not(self.first), And(
                Not(isid), *[Not(eqt(k, self.own(E, w))) for w in (SEG_LBL, SEG_IK)])))
            if is_false(isid):
                return
            i = acc(JS.ji, jv(v))
            R = self.recs(E)
            E.prove("C17.only-on-first-run", Implies(isid, And(self.first, Not(g["idset"]), j_is(v, "int"))))
            E.prove("C17.id-in-range", Implies(isid, And(i >= 1, i <= 2 ** 31 - 1)))
            E.prove("C17.id-not-taken", Implies(isid, Not(sel(DLF(ns_of(self.b0), j), i))))
            E.prove("C17.record-before-id", Implies(isid, And(
                self.exactly_loaded(E, R.at(dev(j, i, SEG_NS))), self.all_active(E, R.at(dev(j, i, SEG_ACT))),
                Or(j_is(R.at(dev(j, i, SEG_LBL)), "null"), j_is(R.at(dev(j, i, SEG_LBL)), "str")), eqt(R.label(j, i), self.label),
                R.has_ik(j, i), eqt(R.ik(j, i), self.own_ik), R.listed(j, i))))
        elif op == "delete":
            k = a["key"]
            E.prove("C17.later-runs-keep-label-and-key", Not(Or(eqt(k, OWN_ID), *[
                eqt(k, self.own(E, w)) for w in (SEG_LBL, SEG_IK)])))

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "raise":
            E.prove("C17.failure-keeps-the-id", Implies(Not(self.first), eqt(sel(E.st.comps["D"], OWN_ID), self.m0)))
            return
        R = self.recs(E)
        E.prove("C17.uses-the-stored-id", And(
            j_is(R.at(OWN_ID), "int"), eqt(acc(JS.ji, jv(R.at(OWN_ID))), self.attr_of(E, v, "own_device_id").t),
            Implies(Not(self.first), eqt(R.at(OWN_ID), self.m0))))


class C18(Create):
    name, prop = "C18.create", "C18"
    expect_obligations = ("C18.generates-100-pre-keys", "C18.uploads-own-current-bundle", "C18.bundle-before-announcing",
                          "C18.record-set-to-loaded", "C18.purges-only-what-is-not-loaded", "C18.publishes-only-if-needed",
                          "C18.new-backends-published", "C18.purges-what-is-not-loaded", "C18.starts-rotation",
                          "C18.synchronizing")

    def before(self, E, op, a):
        g, j, b0 = E.st.ghosts, self.own_jid, self.b0
        differ = self.may_differ(E)
        if op in PUBLISH:
            E.prove("C18.publishes-only-if-needed", Or(self.first, differ))
        if op == "generate_pre_keys":
            mine = a["b"].t == b0
            vp = sel(E.st.comps["VP"], b0)
            E.prove("C18.generates-100-pre-keys", Implies(mine, And(Not(g["gen"]), self.new(E), If(
                And(self.first, Not(g["informed"])), a["n"].t == 100,
                And(vp <= self.thr, a["n"].t + vp == 100)))))
        elif op == "_upload_bundle":
            t = a["bundle"].t
            E.prove("C18.uploads-own-current-bundle", And(self.current(E, t), Implies(bu_b(t) == b0, self.new(E))))
        elif op == "refresh_device_list":
            mine = eqt(a["ns"], ns_of(b0))
            E.prove("C18.bundle-before-announcing", And(eqt(a["jid"], j), Implies(mine, And(
                g["upl"], self.generated(E), self.new(E)))))
        elif op == "purge_backend":
            E.prove("C18.purges-only-what-is-not-loaded", Implies(eqt(a["ns"], self.n1), And(
                g["informed"], g["act_n1"], Not(self.is_loaded(self.n1)))))
        elif op in ("update_device_list", "_upload_device_list", "_delete_bundle", "purge", "purge_bare_jid",
                    "_send_message", "rotate_signed_pre_key"):
            E.prove("C18.no-other-effects", FALSE)
        elif op == "rotation":
            E.prove("C18.starts-rotation", And(g["started"] == 0, a["period"] == self.period, a["framework"] == self.fw))
        elif op == "store":
            k, v = a["key"], a["value"]
            own = Or(g["idset"], Not(self.first))
            E.prove("C18.record-set-to-loaded", Implies(own, And(
                Implies(eqt(k, self.own(E, SEG_NS)), And(g["informed"], self.exactly_loaded(E, v))),
                Implies(eqt(k, self.own(E, SEG_ACT)), And(g["informed"], self.all_active(E, v))),
                Or(*[eqt(k, self.own(E, w)) for w in (SEG_NS, SEG_ACT)], And(self.first, Not(g["informed"]))))))
            E.prove("C18.publishes-only-if-needed", Or(self.first, differ))

    def schedule(self, E, fw):
        E.prove("C18.starts-rotation", self.fw == fw)

    def may_differ(self, E):
        """The loaded backends differ from those on record (or the code would not get here)."""
        g, b0 = E.st.ghosts, self.b0
        return And(g["informed"], E.exists(TStr, lambda n: Not(Iff(
            self.is_loaded(n.t), sel(self.noted(E), n.t))), hint="diff"))

    def noted(self, E):
        """The namespaces on record when they were compared."""
        return E.st.ghosts["noted"]

    def generated(self, E):
        g = E.st.ghosts
        return Or(g["gen"], And(Not(self.first), sel(self.VP0, self.b0) > self.thr))

    def after(self, E, op, a, r):
        super().after(E, op, a, r)
        if op == "get_device_information":
            g = E.st.ghosts
            g["noted"] = If(eqt(a["jid"], self.own_jid), j_strs(self.recs(E).at(self.own(E, SEG_NS))), g["noted"])

    def prepare(self, E):
        E.st.ghosts["noted"] = z3.Const("noted0", StrSet)

    def observe(self, E):
        g = E.st.ghosts
        return {"upl": And(g["upl"]), "gen": g["gen"], "ann": g["ann"], "generated": self.generated(E),
                "purged": g["purged"], "recorded": self.recorded(E)}

    def recorded(self, E):
        """The focal backend is on record for this device."""
        R, j, i, n = self.recs(E), self.own_jid, E.st.ghosts["id"], ns_of(self.b0)
        return And(R.listed(j, i), R.ns(j, i, n), R.act_has(j, i, n))

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "raise":
            E.prove("C18.fails-only-if-an-operation-fails", BV(not v.own or v.cls in ("StopIteration",)))
            return
        E.prove("C18.new-backends-published", Implies(self.new(E), And(g["ann"], g["upl"], self.generated(E))))
        n = self.n1
        diff1 = Not(Iff(g["act_n1"], self.is_loaded(n)))
        E.prove("C18.record-set-to-loaded", Implies(diff1, And(g["set_ns"], g["set_act"])))
        E.prove("C18.purges-what-is-not-loaded", And(g["informed"], Implies(And(g["act_n1"], Not(self.is_loaded(n))),
                                                                            g["purged"])))
        E.prove("C18.starts-rotation", g["started"] == 1)
        s = self.attr_of(E, v, "synchronizing")
        E.prove("C18.synchronizing", E.truthf(s))


UNITS = [C17, C18]
