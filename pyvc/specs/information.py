"""Device information: C14, and the contract of __get_device_information that callers are checked against."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit

OPTS = opt_sort(Str)
DEVICE_FAILURES = ("BundleDownloadFailed", "BundleNotFound", "UnknownNamespace")
SEGS = (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)


class Information(Unit):
    """The body of __get_device_information."""
    name = "C14.information"
    prop = "C14"
    target = "SessionManager.__get_device_information"
    interest = frozenset({ANY, "store", "delete"})
    arbitrary_foci = True
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C14.device-listed", "C14.one-entry-per-device", "C14.omitted-only-if-unobtainable",
                          "C14.identity-key", "C14.trust-level", "C14.label", "C14.namespaces", "C14.activity",
                          "C14.namespaces-without-activity-dropped", "C14.device-failures-contained",
                          "C14.records-missing-identity-key", "C14.records-activity-namespaces", "C14.nothing-else")

    def contract(self, E, q):
        if q.endswith("__get_device_information"):
            return None
        return super().contract(E, q)

    def body(self, E):
        sm = self.manager(E)
        self.j, self.i0, self.n1 = z3.Const("jid_arg", Str), z3.Int("id0"), z3.Const("n1", Str)
        self.ik0, self.q0, self.u0 = z3.Const("ik0", Bytes), z3.Const("q0", Key), z3.Const("u0", OBJ["Bundle"])
        self.k0 = DevKey.devkey(self.j, self.i0)
        self.k1 = z3.Const("k1", DevKey)        # a device of another account
        E.assume(Not(eqt(DevKey.dk_jid(self.k1), self.j)))
        for t in (self.i0, self.n1, self.k0, self.k1):
            E.add_pool(t)
        self.R0 = self.recs(E)
        i = z3.Function("int_of_str", Str, I)(seg(self.q0, 3))
        E.assume(Not(And(is_key(self.q0, "", "devices", self.j, None, None), eqt(s_of_int(i), seg(self.q0, 3)),
                         self.R0.listed(self.j, i), Or(And(eqt(seg(self.q0, 4), strconst(SEG_IK)),
                                                           Not(has(sel(self.D0, self.q0)))),
                                                       eqt(seg(self.q0, 4), strconst(SEG_NS))))))
        g = E.st.ghosts
        g["tried"], g["got"] = FALSE, FALSE        # a bundle of (n1, device) / of the device
        g["gotik"] = z3.Const("gotik_init", Bytes)
        return self.invoke(E, sm)

    def invoke(self, E, sm):
        return self.call(E, sm, "_SessionManager__get_device_information", VStr(self.j))

    def foci(self, E, ty):
        return {TInt: [VInt(self.i0)], TStr: [VStr(self.n1)], TDevKey: [VSpecial("devkey", t=k) for k in (self.k0, self.k1)],
                TObj("Bundle"): [VObj("Bundle", self.u0)]}.get(ty, [])

    def watch_keys(self, E):
        return [devlist(self.j), *[dev(self.j, self.i0, w) for w in SEGS], trustkey(self.j, self.ik0), self.q0]

    def observe(self, E):
        R, g = self.recs(E), E.st.ghosts
        j, i = self.j, self.i0
        nk, R0 = dev(j, i, SEG_NS), self.R0
        return {"tried": g["tried"], "got": g["got"], "ik": R.has_ik(j, i),
                "same": eqt(R.at(nk), R0.at(nk)), "dropped": self.dropped(R),
                "ikok": And(R.has_ik(j, i), eqt(R.ik(j, i), g["gotik"]))}

    def dropped(self, R):
        """The namespaces recorded for the focal device are those of before that an activity is recorded for."""
        R0, j, i = self.R0, self.j, self.i0
        nk = dev(j, i, SEG_NS)
        return Or(eqt(R.at(nk), R0.at(nk)), And(
            R0.listed(j, i), j_is(R0.at(nk), "list"), j_is(R.at(nk), "list"),
            Iff(R.ns(j, i, self.n1), And(R0.ns(j, i, self.n1), R0.act_has(j, i, self.n1)))))

    def typed_invariants(self, E, ty):
        if ty == TObj("Bundle"):
            return {"jid": lambda b: eqt(bu_jid(b.t), self.j)}
        if ty == TDevKey or getattr(ty, "cls", None) == "DeviceInformation":
            return {n: (lambda r, n=n: self.agreement(E, r)[n]) for n in (
                "device", "identity-key", "trust-level", "label", "namespaces", "activity", "complete")}
        return {}

    def agreement(self, E, r):
        """The entry of the focal device agrees with the records."""
        R, R0, j, i = self.recs(E), self.R0, self.j, self.i0
        f = r.fields
        act = f["active"].d if isinstance(f["active"], VItems) else E.deref(f["active"])
        if not isinstance(act, VDict):
            raise Unsupported("active")
        n1 = VStr(self.n1)
        ik = f["identity_key"].t
        return {
            "device": And(eqt(f["bare_jid"].t, j), eqt(f["device_id"].t, i)),
            "identity-key": And(R.has_ik(j, i), eqt(ik, R.ik(j, i))),
            "trust-level": Implies(eqt(ik, self.ik0), eqt(f["trust_level_name"].t, R0.trust(j, self.ik0))),
            "label": eqt(TOpt(TStr).to(f["label"]), R0.label(j, i)),
            "namespaces": And(Iff(E.mem(f["namespaces"], n1), And(R0.ns(j, i, self.n1), R0.act_has(j, i, self.n1))),
                              Iff(E.mem(f["namespaces"], n1), R.ns(j, i, self.n1))),
            "activity": And(Iff(act.dom(n1), R0.act_has(j, i, self.n1)),
                            Implies(act.dom(n1), Iff(act.val(n1).t, R0.act(j, i, self.n1)))),
            "complete": self.complete(E, E.st.comps["D"], j, i)}

    def before(self, E, op, a):
        R, j = self.recs(E), self.j
        if op == "store":
            k, v = a["key"], a["value"]
            i = z3.Function("int_of_str", Str, I)(seg(k, 3))
            mine = And(is_key(k, "", "devices", j, None, None), eqt(s_of_int(i), seg(k, 3)), R.listed(j, i))
            isik = eqt(seg(k, 4), strconst(SEG_IK))
            E.prove("C14.nothing-else", And(mine, Or(isik, eqt(seg(k, 4), strconst(SEG_NS))), Not(eqt(k, self.q0))))
            E.prove("C14.records-missing-identity-key", Implies(isik, Not(has(R.at(k)))))
            E.prove("C14.records-the-bundle's-identity-key", Implies(eqt(k, dev(j, self.i0, SEG_IK)), And(
                E.st.ghosts["got"], eqt(v, MJ.just(JS.jstr(b64(E.st.ghosts["gotik"])))))))
            E.prove("C14.records-activity-namespaces", Implies(eqt(k, dev(j, self.i0, SEG_NS)), And(
                j_is(v, "list"), Iff(str_in(v, self.n1), And(R.ns(j, self.i0, self.n1),
                                                             R.act_has(j, self.i0, self.n1))))))
        elif op == "_download_bundle":
            E.prove("C14.downloads-bundles-of-the-device", And(
                eqt(a["jid"], j), R.listed(j, a["id"]), R.ns(j, a["id"], a["ns"]), Not(R.has_ik(j, a["id"]))))
        elif op != "load_session":
            E.prove("C14.no-other-effects", FALSE)

    def is0(self, a):
        return And(eqt(a["jid"], self.j), eqt(a["id"], self.i0))

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_download_bundle":
            c = self.is0(a)
            g["tried"] = Or(g["tried"], And(c, eqt(a["ns"], self.n1)))
            g["got"] = Or(g["got"], c)
            g["gotik"] = If(c, bu_ik(r.t), g["gotik"])

    def failed(self, E, op, a, exc):
        g = E.st.ghosts
        if op == "_download_bundle":
            g["tried"] = Or(g["tried"], And(self.is0(a), eqt(a["ns"], self.n1)))

    def result(self, E, v):
        if not isinstance(v, VTuple) or len(v.items) != 2:
            raise Unsupported("result of __get_device_information")
        return v.items

    def post(self, E, kind, v):
        D, g = E.st.comps["D"], E.st.ghosts
        R, R0, j, i = self.recs(E), self.R0, self.j, self.i0
        # what the contract states about the storage, on every exit
        E.prove("C14.nothing-else", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        E.prove("C14.recorded-identity-key-kept", Implies(has(R0.at(dev(j, i, SEG_IK))), eqt(
            R.at(dev(j, i, SEG_IK)), R0.at(dev(j, i, SEG_IK)))))
        E.prove("C14.namespaces-without-activity-dropped", self.dropped(R))
        ikk = R.at(dev(j, i, SEG_IK))
        E.prove("C14.identity-key-record-is-a-key", Implies(Not(has(R0.at(dev(j, i, SEG_IK)))), Or(
            Not(has(ikk)), And(R0.listed(j, i), j_is(ikk, "str")))))
        if kind == "raise":
            E.prove("C14.device-failures-contained", BV(not v.own and not (
                v.origin == "_download_bundle" and v.cls in DEVICE_FAILURES)))
            return
        devices, cache = self.result(E, v)
        c = E.as_coll(devices)
        if not c.keyed:
            if c.items == []:
                m, rec = FALSE, None
            else:
                raise Unsupported("device information")
        else:
            k = VSpecial("devkey", t=self.k0)
            m, rec = c.smem(k), c.out(k)
        E.prove("C14.device-listed", Implies(m, R0.listed(j, i)))
        E.prove("C14.one-entry-per-device", Iff(m, And(R0.listed(j, i), R.has_ik(j, i))))
        E.prove("C14.omitted-only-if-unobtainable", And(
            Implies(And(R0.listed(j, i), R0.has_ik(j, i)), m),
            Implies(And(R0.listed(j, i), g["got"]), m),
            Implies(And(R0.listed(j, i), Not(m), R0.ns(j, i, self.n1)), g["tried"])))
        if rec is not None:
            for n, f in self.agreement(E, rec).items():
                E.prove("C14." + n, Implies(m, f))
        E.prove("C14.identity-key-from-bundle", Implies(And(m, Not(has(R0.at(dev(j, i, SEG_IK))))), And(
            g["got"], eqt(R.ik(j, i), g["gotik"]))))
        E.prove("C14.only-that-account", Not(self.member(c, self.k1)))
        self.check_cache(E, cache)

    @staticmethod
    def member(c, k):
        return c.smem(VSpecial("devkey", t=k)) if c.keyed else FALSE

    def check_cache(self, E, cache):
        b = E.as_coll(cache)
        E.prove("C14.cached-bundles", Implies(E.mem(b, VObj("Bundle", self.u0)) if b.items != [] else FALSE,
                                              eqt(bu_jid(self.u0), self.j)))


class PublicInformation(Unit):
    """get_device_information hands out exactly the devices found by __get_device_information."""
    name = "C14.get_device_information"
    prop = "C14"
    target = "SessionManager.get_device_information"
    interest = frozenset({ANY, "store", "delete", "get_device_information"})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C14.queries-that-account", "C14.returns-the-devices-found")

    def body(self, E):
        sm = self.manager(E)
        self.j, self.k0 = z3.Const("jid_arg", Str), z3.Const("k0", DevKey)
        E.st.ghosts["asked"], E.st.ghosts["in"] = FALSE, FALSE
        self.out = None
        E.add_pool(self.k0)
        return self.call(E, sm, "get_device_information", VStr(self.j))

    def before(self, E, op, a):
        if op == "get_device_information":
            E.prove("C14.queries-that-account", And(eqt(a["jid"], self.j), Not(E.st.ghosts["asked"])))
        elif op not in ("load", "load_session"):
            E.prove("C14.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        if op == "get_device_information":
            E.st.ghosts["asked"] = TRUE
            self.out = E.as_coll(r.items[0])

    def post(self, E, kind, v):
        if kind == "raise":
            E.prove("C14.fails-only-if-an-operation-fails", BV(not v.own))
            return
        c = E.as_coll(v)
        if not c.keyed or self.out is None:
            raise Unsupported("device information")
        k = VSpecial("devkey", t=self.k0)
        a, b = c.out(k).fields, self.out.out(k).fields
        n1 = VStr(E.fresh("n1", Str))

        def act(x):
            return x.d if isinstance(x, VItems) else E.deref(x)
        x, y = act(a["active"]), act(b["active"])
        E.prove("C14.returns-the-devices-found", And(E.st.ghosts["asked"], Iff(c.smem(k), self.out.smem(k)), Implies(
            c.smem(k), And(*[veq(a[f], b[f]) for f in a if f not in ("namespaces", "active")],
                           Iff(E.mem(a["namespaces"], n1), E.mem(b["namespaces"], n1)),
                           Iff(x.dom(n1), y.dom(n1)), Implies(x.dom(n1), veq(x.val(n1), y.val(n1)))))))


class OwnInformation(PublicInformation):
    """get_own_device_information splits the devices of the own account into this device and the others."""
    name = "C14.get_own_device_information"
    target = "SessionManager.get_own_device_information"
    expect_obligations = ("C14.queries-that-account", "C14.this-device-and-the-others")

    def body(self, E):
        sm = self.manager(E)
        self.j, self.k0 = self.own_jid, z3.Const("k0", DevKey)
        E.st.ghosts["asked"], E.st.ghosts["in"] = FALSE, FALSE
        self.out = None
        E.add_pool(self.k0)
        E.add_pool(DevKey.devkey(self.j, self.own_id))
        return self.call(E, sm, "get_own_device_information")

    def post(self, E, kind, v):
        if kind == "raise":
            # this device is missing from the result only if its own record is
            E.prove("C14.fails-only-if-an-operation-fails", BV(not v.own or v.cls == "StopIteration"))
            return
        if not isinstance(v, VTuple) or len(v.items) != 2 or self.out is None:
            raise Unsupported("own device information")
        mine, c = v.items[0], E.as_coll(v.items[1])
        own = VSpecial("devkey", t=DevKey.devkey(self.j, self.own_id))
        k = VSpecial("devkey", t=self.k0)
        E.prove("C14.this-device-and-the-others", And(
            E.st.ghosts["asked"], self.out.smem(own), self.same(E, mine.fields, self.out.out(own).fields),
            Iff(self.smem(c, k), And(self.out.smem(k), Not(eqt(acc(DevKey.dk_id, self.k0), self.own_id))))))
        if c.keyed:
            E.prove("C14.this-device-and-the-others", Implies(self.smem(c, k), self.same(
                E, c.out(k).fields, self.out.out(k).fields)))

    @staticmethod
    def smem(c, k):
        return c.smem(k) if c.keyed else FALSE

    def same(self, E, a, b):
        n1 = VStr(E.fresh("n1", Str))

        def act(x):
            return x.d if isinstance(x, VItems) else E.deref(x)
        x, y = act(a["active"]), act(b["active"])
        return And(*[veq(a[f], b[f]) for f in a if f not in ("namespaces", "active")],
                   Iff(E.mem(a["namespaces"], n1), E.mem(b["namespaces"], n1)),
                   Iff(x.dom(n1), y.dom(n1)), Implies(x.dom(n1), veq(x.val(n1), y.val(n1))))


UNITS = [Information, PublicInformation, OwnInformation]
