"""encrypt: C01, C02, C03, C04, C05, C06."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit
from .decrypt import KEYT, EKM, as_opt, BACKEND_EFFECTS, OUTSIDE

PRODUCE = ("build_session_active", "encrypt_key_material")
DEVICE_FAILURES = ("BundleDownloadFailed", "BundleNotFound", "KeyExchangeFailed")


class Encrypt(Unit):
    target = "SessionManager.encrypt"
    interest = frozenset({ANY})
    expect_covers = ("exit:return", "exit:raise")
    order_given = True

    def body(self, E):
        sm = self.manager(E)
        self.jids = z3.Const("a_jids", StrSet)
        self.pt_dom, self.pt_val = z3.Const("pt_dom", StrSet), z3.Const("pt_val", z3.ArraySort(Str, Bytes))
        self.og, self.order = z3.Const("order_given", B), z3.Const("a_order", StrSet)
        self.ident = z3.Const("a_identifier", opt_sort(Str))
        self.k0, self.b0 = z3.Const("k0", DevKey), z3.Const("b0", OBJ["Backend"])
        self.n1, self.n0 = z3.Const("n1", Str), ns_of(self.b0)
        self.j0, self.i0 = acc(DevKey.dk_jid, self.k0), acc(DevKey.dk_id, self.k0)
        for t in (self.k0, self.b0, self.n1, self.n0, self.j0, self.own_key, self.own_jid, BE(self.n1)):
            E.add_pool(t)
        order = Coll("list", TStr, lambda x: sel(self.order, x.t), idx=lambda x: pidx(x.t), et=TStr)
        self.ghosts(E)
        E.assume(self.og if self.order_given else Not(self.og))
        args = [arr_coll(TStr, self.jids, "frozenset"), E.alloc(arr_dict(TStr, TBytes, self.pt_dom, self.pt_val), "pt")]
        if self.order_given:
            args.append(E.alloc(order, "order"))
        else:
            args.append(NONE)
        args.append(TOpt(TStr).frm(self.ident))
        return self.call(E, sm, "encrypt", *args)

    def ghosts(self, E):
        pass

    def foci(self, E, ty):
        return {TDevKey: [VSpecial("devkey", t=self.k0)], TObj("Backend"): [VObj("Backend", self.b0)]}.get(ty, [])

    def observe(self, E):
        return {n: v for n, v in E.st.ghosts.items() if v.sort() == B}

    def inspect(self, E):
        R = self.recs(E)
        j, i = self.j0, self.i0
        return {"k0": self.k0, "own": self.k0 == self.own_key, "requested": self.requested(j), "listed": R.listed(j, i),
                "has identity key": R.has_ik(j, i), "level": self.level(E, self.k0),
                "supports n0": R.ns(j, i, self.n0), "active for n0": R.act(j, i, self.n0), "n0 permitted": self.in_order(self.n0),
                "active for n1": self.active(E, j, i, self.n1), "order given": self.og}

    # ---- specification functions

    def is_loaded(self, n):
        return And(loadedB(BE(n)), ns_of(BE(n)) == n)

    def in_order(self, n):
        return If(self.og, sel(self.order, n), self.is_loaded(n))

    def index(self, n):
        return If(self.og, pidx(n), bidx(BE(n)))

    def requested(self, j):
        return Or(sel(self.jids, j), j == self.own_jid)

    def active(self, E, j, i, n):
        """The device supports and is active for a permitted namespace."""
        R = self.recs(E)
        return And(R.ns(j, i, n), R.act(j, i, n), self.in_order(n))

    def eligible(self, E, k):
        """A known recipient device other than this one (regardless of activity and trust)."""
        R = self.recs(E)
        j, i = acc(DevKey.dk_jid, k), acc(DevKey.dk_id, k)
        return And(self.requested(j), R.listed(j, i), R.has_ik(j, i), Not(k == self.own_key))

    def selected(self, E, k):
        j, i = acc(DevKey.dk_jid, k), acc(DevKey.dk_id, k)
        return And(self.eligible(E, k), E.exists(TStr, lambda n: self.active(E, j, i, n.t)))

    def level(self, E, k):
        R = self.recs(E)
        j, i = acc(DevKey.dk_jid, k), acc(DevKey.dk_id, k)
        ik = R.ik(j, i)
        return evalT()(R.trust(j, ik), k, ik)

    def trusted(self, E, k):
        return self.level(E, k) == tl("TRUSTED")

    def undecided_(self, E, k):
        return self.level(E, k) == tl("UNDECIDED")

    @staticmethod
    def device_of(op, a):
        if op == "build_session_active":
            return DevKey.devkey(a["jid"].t, a["id"].t)
        return DevKey.devkey(s_jid(a["session"].t), s_id(a["session"].t))


class C01(Encrypt):
    name = "C01.encrypt"
    prop = "C01"
    expect_obligations = ("C01.only-trusted", "C01.decision-covers-exactly-the-undecided", "C01.decision-at-most-once",
                          "C01.none-undecided-when-producing", "C01.still-undecided-means-so")

    def ghosts(self, E):
        E.st.ghosts["asked"] = FALSE

    def before(self, E, op, a):
        g = E.st.ghosts
        if op in PRODUCE:
            E.prove("C01.only-trusted", Implies(self.device_of(op, a) == self.k0, self.trusted(E, self.k0)))
        if op in PRODUCE or op in ("store_session", "encrypt_plaintext"):
            E.prove("C01.none-undecided-when-producing", Not(And(self.selected(E, self.k0), self.undecided_(E, self.k0))))
        elif op == "_make_trust_decision":
            E.prove("C01.decision-at-most-once", Not(g["asked"]))
            u = a["undecided"]
            k = VSpecial("devkey", t=self.k0)
            E.prove("C01.decision-covers-exactly-the-undecided", Iff(
                self.member(E, u, self.k0), And(self.selected(E, self.k0), self.undecided_(E, self.k0))))
            E.prove("C01.decision-only-if-needed", E.nonempty(u))
            E.prove("C01.identifier", eqt(TOpt(TStr).to(a["identifier"]), self.ident))
        elif op in ("_send_message", "_upload_bundle", "_upload_device_list", "_delete_bundle", "build_session_passive"):
            E.prove("C01.no-other-effects", FALSE)

    @staticmethod
    def member(E, c, k):
        c = E.as_coll(c)
        if not c.keyed:
            raise Unsupported("devices submitted to the trust decision")
        return c.smem(VSpecial("devkey", t=k))

    def after(self, E, op, a, r):
        if op == "_make_trust_decision":
            E.st.ghosts["asked"] = TRUE

    def failed(self, E, op, a, exc):
        if op == "_make_trust_decision":
            E.st.ghosts["asked"] = TRUE

    def post(self, E, kind, v):
        und = And(self.selected(E, self.k0), self.undecided_(E, self.k0))
        if kind == "return":
            E.prove("C01.none-undecided-on-return", Not(und))
        elif v.own and v.cls == "StillUndecided":
            E.prove("C01.still-undecided-means-so", And(E.st.ghosts["asked"], E.exists(TDevKey, lambda k: And(
                self.selected(E, k.kw["t"]), self.undecided_(E, k.kw["t"])))))
            E.cover("StillUndecided")
        elif v.own and v.cls != "UnknownNamespace":
            E.prove("C01.none-undecided-on-return", Not(und))


class C02(Encrypt):
    """Which devices are served, by which backend, how often."""
    name = "C02.encrypt"
    prop = "C02"
    expect_obligations = ("C02.order-valid-first", "C02.only-eligible", "C02.only-active", "C02.only-trusted", "C02.best-backend", "C02.once",
                          "C02.all-selected")
    expect_covers = ("exit:return", "exit:raise", "UnknownNamespace", "tried")

    def ghosts(self, E):
        E.st.ghosts["tried"] = FALSE        # production of key material for k0 was attempted with b0
        E.st.ghosts["handled"] = FALSE      # that, or a failure was reported for k0 and b0
        E.st.ghosts["acted"] = FALSE        # anything happened

    def made(self, E, rec):
        if rec.cls == "EncryptionError":
            g, f = E.st.ghosts, rec.fields
            g["handled"] = Or(g["handled"], And(loadedB(self.b0), eqt(E.force(f["namespace"]).t, self.n0), eqt(E.force(f["bare_jid"]).t, self.j0),
                                                eqt(E.force(f["device_id"]).t, self.i0)))

    def record_names(self, E):
        return [VStr(self.n0)]

    def invariants(self, E, pre):
        """A device that b0 has to serve is not forgotten before it was handled."""
        k, out = VSpecial("devkey", t=self.k0), {}
        for s, p in pre.items():
            if s[0] == "h" and isinstance(p, Coll) and p.keyed:
                v = E.st.heap.get(s[1])
                if isinstance(v, Coll) and v.keyed:
                    n0 = E.mem(p.out(k).fields["namespaces"], VStr(self.n0))
                    out["kept:" + s[1]] = Implies(And(loadedB(self.b0), p.smem(k), n0, Not(E.st.ghosts["handled"])), v.smem(k))
        return out

    def order_valid(self, n):
        return Implies(And(self.og, sel(self.order, n)), self.is_loaded(n))

    def querying(self, E):
        E.prove("C02.order-valid-first", self.order_valid(self.n1))
        E.st.ghosts["acted"] = TRUE

    def better(self, E, j, i, n):
        return And(self.active(E, j, i, n), self.index(n) < self.index(self.n0))

    def best(self, E):
        """b0 is the backend that serves k0."""
        j, i = self.j0, self.i0
        return And(loadedB(self.b0), self.active(E, j, i, self.n0),
                   Not(E.exists(TStr, lambda n: self.better(E, j, i, n.t))))

    def before(self, E, op, a):
        g = E.st.ghosts
        if op != "_evaluate_custom_trust_level":
            E.prove("C02.order-valid-first", self.order_valid(self.n1))
            g["acted"] = TRUE
        if op in PRODUCE:
            mine = And(a["b"].t == self.b0, self.device_of(op, a) == self.k0)
            E.prove("C02.once", Not(And(mine, g["tried"])))
            E.prove("C02.only-eligible", Implies(mine, self.eligible(E, self.k0)))
            E.prove("C02.only-active", Implies(mine, self.active(E, self.j0, self.i0, self.n0)))
            E.prove("C02.only-trusted", Implies(mine, self.trusted(E, self.k0)))
            E.prove("C02.best-backend", Implies(mine, Not(self.better(E, self.j0, self.i0, self.n1))))
            if E.feasible(mine):
                E.cover("tried")

    def after(self, E, op, a, r):
        self.note(E, op, a)

    def failed(self, E, op, a, exc):
        self.note(E, op, a)

    def note(self, E, op, a):
        g = E.st.ghosts
        if op in PRODUCE:
            mine = And(a["b"].t == self.b0, self.device_of(op, a) == self.k0)
            g["tried"], g["handled"] = Or(g["tried"], mine), Or(g["handled"], mine)

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "return":
            E.prove("C02.order-valid-first", self.order_valid(self.n1))
            E.prove("C02.all-selected", Implies(And(
                self.eligible(E, self.k0), self.trusted(E, self.k0), self.best(E)), g["handled"]))
        elif v.own and v.cls == "UnknownNamespace":
            E.prove("C02.unknown-namespace-means-so", And(Not(g["acted"]), self.og, E.exists(
                TStr, lambda n: Not(self.order_valid(n.t)))))
            E.cover("UnknownNamespace")


class C04(Encrypt):
    """When sessions are stored."""
    name = "C04.encrypt"
    prop = "C04"
    expect_obligations = ("C04.only-used-sessions", "C04.nothing-after-the-first", "C04.used-sessions-stored",
                          "C04.failure-stores-nothing")
    PAIR = TTup([TObj("Backend"), TObj("Session")])

    def ghosts(self, E):
        self.s0 = z3.Const("s0", OBJ["Session"])
        E.add_pool(self.s0)
        E.st.ghosts["used"] = FALSE         # b0 produced key material with session s0
        E.st.ghosts["stored"] = FALSE       # b0 stored session s0
        E.st.ghosts["any"] = FALSE          # some session was stored

    def foci(self, E, ty):
        if ty == self.PAIR:
            return [VTuple([VObj("Backend", self.b0), VObj("Session", self.s0)])]
        if ty == TObj("Session"):
            return [VObj("Session", self.s0)]
        return super().foci(E, ty)

    def focal(self, b, s):
        return And(b.t == self.b0, s.t == self.s0)

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "store_session":
            E.prove("C04.only-used-sessions", Implies(self.focal(a["b"], a["session"]), g["used"]))
        elif op not in ("load_session", "_evaluate_custom_trust_level"):
            E.prove("C04.nothing-after-the-first", Not(g["any"]))

    def querying(self, E):
        E.prove("C04.nothing-after-the-first", Not(E.st.ghosts["any"]))

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "build_session_active":
            g["used"] = Or(g["used"], self.focal(a["b"], E.force(r.items[0])))
        elif op == "encrypt_key_material":
            g["used"] = Or(g["used"], self.focal(a["b"], a["session"]))
        elif op == "store_session":
            g["stored"] = Or(g["stored"], self.focal(a["b"], a["session"]))
            g["any"] = TRUE

    def post(self, E, kind, v):
        g = E.st.ghosts
        if kind == "return":
            E.prove("C04.used-sessions-stored", Implies(g["used"], g["stored"]))
        elif v.origin != "store_session":
            E.prove("C04.failure-stores-nothing", Not(g["any"]))


class C05(Encrypt):
    """Sessions are only built from bundles with the identity key on record."""
    name = "C05.encrypt"
    prop = "C05"
    expect_obligations = ("C05.bundle-identity-key",)

    def before(self, E, op, a):
        if op == "build_session_active":
            R = self.recs(E)
            bu = a["bundle"].t
            E.prove("C05.bundle-identity-key", Implies(self.device_of(op, a) == self.k0, And(
                R.has_ik(self.j0, self.i0), bu_ik(bu) == R.ik(self.j0, self.i0), bu_jid(bu) == self.j0,
                bu_id(bu) == self.i0, bu_ns(bu) == ns_of(a["b"].t))))

    def post(self, E, kind, v):
        if kind == "raise" and v.cls in DEVICE_FAILURES:
            E.prove("C05.mismatch-is-reported-per-device", FALSE)


class C06(Encrypt):
    """Which key exchange accompanies key material."""
    name = "C06.encrypt"
    prop = "C06"
    expect_obligations = ("C06.key-exchange-iff-needed",)
    expect_covers = ("exit:return", "exit:raise", "produced")

    def ghosts(self, E):
        self.p0 = z3.Const("p0", KEYT.sort())
        self.m0 = z3.Const("m0", TRec("Message").sort())
        E.add_pool(self.p0)
        E.add_pool(self.m0)
        E.st.ghosts["made"] = FALSE     # the key material of p0 was produced, and its key exchange is as required

    def foci(self, E, ty):
        if ty == KEYT:
            return [KEYT.frm(self.p0)]
        if ty == TRec("Message"):
            return [ty.frm(self.m0)]
        return super().foci(E, ty)

    def typed_invariants(self, E, ty):
        if ty == TRec("Message"):
            return {"right": lambda m, v: Implies(self.within(E, m), E.st.ghosts["made"])}
        return {}

    def within(self, E, m):
        return E.mem(E.as_coll(m.fields["keys"]), KEYT.frm(self.p0))

    def after(self, E, op, a, r):
        if op in PRODUCE:
            g = E.st.ghosts
            s, x = [E.force(x) for x in r.items] if op == "build_session_active" else (a["session"], r)
            want = And(self.s_init(s.t) == ENUMS["Initiation"][1]["ACTIVE"], Not(sel(E.st.comps["SC"], s.t)))
            x0, k0 = KEYT.frm(self.p0).items
            g["made"] = Or(g["made"], And(x.t == x0.t, Iff(want, Not(k0.isnone)),
                                          Implies(want, k0.val.t == s_ke(s.t))))
            E.cover("produced")

    def post(self, E, kind, v):
        if kind == "return":
            d = E.deref(E.force(v.items[0]))
            m = TRec("Message").frm(self.m0)
            E.prove("C06.key-exchange-iff-needed", Implies(And(d.dom(m), self.within(E, m)), E.st.ghosts["made"]))


def both(cls):
    """One unit for calls with an explicit priority order, one for calls without."""
    return [type(cls.__name__ + n, (cls,), {"name": cls.name + "." + n, "order_given": n == "order"})
            for n in ("order", "default")]


C02d = both(C02)
C02d[1].expect_covers = ("exit:return", "exit:raise", "tried")      # there is no order to be rejected
UNITS = both(C01) + C02d + both(C04) + both(C05) + both(C06)
