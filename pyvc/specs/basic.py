"""C16, C20, C21, C22, C25, C26: the smaller components."""
import z3
from ..values import *     # noqa: F401,F403
from ..engine import PathEnd, PyRaise
from ..env import *        # noqa: F401,F403
from ..env import Unit


# ---------------------------------------------------------------------------------------------------------------- C25

class BackendLimits(Unit):
    name = "C25.backend_init"
    prop = "C25"
    target = "Backend.__init__"
    module = "backend"
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C25.accepts-valid-limits", "C25.rejects-invalid-limits", "C25.exposes-limits")

    def body(self, E):
        self.ps = z3.Int("per_session")
        pm = z3.Const("per_message", opt_sort(I))
        self.pm = TOpt(TInt).frm(pm)
        E.assume(self.ps >= 0)
        self.valid = Or(self.pm.isnone, And(self.pm.val.t <= self.ps, Implies(self.pm.val.t == 0, self.ps == 0)))
        E.st.heap["obackend"] = {}
        self.o = VInst("Backend", "obackend")
        m = E.repo.find_method("Backend", "__init__")
        E.call_node(m[1], None, m[0].module, "Backend", [self.o, VInt(self.ps), self.pm], {}, "Backend.__init__")
        return self.o

    def post(self, E, kind, v):
        if kind == "raise":
            E.prove("C25.accepts-valid-limits", Not(self.valid))
            E.prove("C25.rejected-with-ValueError", BV(v.cls == "ValueError"))
            return
        E.prove("C25.rejects-invalid-limits", self.valid)
        a = E.get_attr(self.o, "max_num_per_session_skipped_keys")
        b = E.get_attr(self.o, "max_num_per_message_skipped_keys")
        E.prove("C25.exposes-limits", And(veq(a, VInt(self.ps)),
                                          veq(b, vite(self.pm.isnone, VInt(self.ps), self.pm.val))))


class CreateValidation(Unit):
    """create rejects invalid arguments before its first effect; explored up to the first environment operation."""
    name = "C25.create"
    prop = "C25"
    target = "SessionManager.create"
    interest = frozenset({ANY})
    expect_covers = ("exit:raise", "effect")
    expect_obligations = ("C25.rejects-before-any-effect", "C25.accepts-valid-configuration")

    def body(self, E):
        self.distinct = z3.Bool("namespaces_distinct")
        self.thr = z3.Int("threshold_arg")
        self.valid = And(self.distinct, self.thr >= 25, self.thr <= 99)
        st = VInst("Storage", "ostorage")
        E.st.heap["ostorage"] = {}
        bl = E.alloc(self.backends(E), "blist")
        fw = VEnum("AsyncFramework", z3.Const("framework", ENUMS["AsyncFramework"][0]))
        return self.call(E, VClass("SessionManager"), "create", bl, st, VStr(z3.Const("jid_arg", Str)),
                         TOpt(TStr).frm(z3.Const("label_arg", opt_sort(Str))), VStr(z3.Const("und_arg", Str)),
                         VInt(z3.Int("period")), VInt(self.thr), fw)

    def distinct_images(self, E, p, q):
        src = getattr(p, "src", None)
        if "backends" in p.tags and "backends" in q.tags and p.out is not None and q.out is None and \
                p.kind in ("set", "frozenset") and p.inv is not None:
            return self.distinct
        return None

    def reach(self, E):
        E.prove("C25.rejects-before-any-effect", self.valid)
        E.cover("effect")
        raise PathEnd()

    def before(self, E, op, a):
        self.reach(E)

    def c_IdentityKeyPair_get(self, E, storage):
        self.reach(E)

    def load(self, E, *a):
        self.reach(E)

    def post(self, E, kind, v):
        if kind == "raise":
            E.prove("C25.accepts-valid-configuration", Not(self.valid))
            E.prove("C25.rejected-with-ValueError", BV(v.cls == "ValueError"))
        else:
            E.prove("C25.rejects-before-any-effect", self.valid)


# ---------------------------------------------------------------------------------------------------------------- C26

class Fingerprint(Unit):
    name = "C26.format_identity_key"
    prop = "C26"
    target = "SessionManager.format_identity_key"
    expect_obligations = ("C26.eight-groups", "C26.complete-hex-form")

    def body(self, E):
        self.ik = z3.Const("identity_key", Bytes)
        self.curve = z3.Function("curve", Bytes, Bytes)(self.ik)
        return self.call(E, VClass("SessionManager"), "format_identity_key", VBytes(self.ik, 32))

    def module_attr(self, E, q):
        if q.split(".")[-1] == "ed25519_pub_to_curve25519_pub":
            return VPy(q, lambda E, a, kw: VBytes(z3.Function("curve", Bytes, Bytes)(E.force(a[0]).t), 32))
        return None

    def hex(self, E, v):
        if v.n is None:
            raise Unsupported("hex of bytes of unknown length")
        f = z3.Function("hexchar", Bytes, I, I)
        return VChars([f(v.t, z3.IntVal(i)) for i in range(2 * v.n)])

    def post(self, E, kind, v):
        if kind == "raise":
            E.prove("C26.returns", FALSE)
            return
        c = E.deref(v)
        ok = isinstance(c, Coll) and c.items is not None
        if not ok:
            raise Unsupported("result of format_identity_key")
        E.prove("C26.eight-groups", BV(len(c.items) == 8 and all(isinstance(x, VChars) and len(x.chars) == 8
                                                                for x in c.items)))
        f = z3.Function("hexchar", Bytes, I, I)
        want = [f(self.curve, z3.IntVal(i)) for i in range(64)]
        got = [ch for x in c.items if isinstance(x, VChars) for ch in x.chars]
        E.prove("C26.complete-hex-form", And(BV(len(got) == 64), *[eqt(a, b) for a, b in zip(got, want)]))


# ---------------------------------------------------------------------------------------------------------------- C16

class IkpGet(Unit):
    name = "C16.get"
    prop = "C16"
    target = "IdentityKeyPair.get"
    module = "identity_key_pair"
    interest = frozenset({"store", "delete"})
    expect_obligations = ("C16.generated-only-if-missing", "C16.returns-stored-pair", "C16.new-pair-is-stored-seed")

    KS, KK = mkkey("", "ikp", "is_seed"), mkkey("", "ikp", "key")

    def body(self, E):
        self.q0 = z3.Const("q0", Key)
        E.assume(And(Not(self.q0 == self.KS), Not(self.q0 == self.KK)))
        E.st.ghosts["wrote"] = FALSE
        E.st.ghosts["drawn"] = FALSE
        self.rnd = z3.Const("random_bytes", Bytes)
        D0 = self.D0
        self.complete0 = And(has(sel(D0, self.KS)), has(sel(D0, self.KK)))
        st = VInst("Storage", "ostorage")
        E.st.heap["ostorage"] = {}
        return self.call(E, VClass("IdentityKeyPair"), "get", st)

    def module_attr(self, E, q):
        if q == "secrets.token_bytes":
            def f(E, a, kw):
                E.effect(q)
                n = E.num(a[0]) if a else z3.IntVal(-1)
                E.prove("C16.32-random-bytes", n == 32)
                E.prove("C16.random-bytes-drawn-once", Not(E.st.ghosts["drawn"]))
                E.st.ghosts["drawn"] = TRUE
                return VBytes(self.rnd, 32)
            return VPy(q, f)
        return None

    def before(self, E, op, a):
        E.prove("C16.generated-only-if-missing", Not(self.complete0))
        E.st.ghosts["wrote"] = TRUE

    def pair(self, E, o):
        if not isinstance(o, VInst) or o.cls not in ("IdentityKeyPairSeed", "IdentityKeyPairPriv"):
            raise Unsupported("identity key pair object")
        secret = E.get_attr(o, "seed" if o.cls == "IdentityKeyPairSeed" else "priv")
        return o.cls == "IdentityKeyPairSeed", secret

    def post(self, E, kind, v):
        D = E.st.comps["D"]
        E.prove("C16.other-keys-untouched", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        if kind == "raise":
            E.prove("C16.stored-pair-survives-failure", Implies(self.complete0, And(
                eqt(sel(D, self.KS), sel(self.D0, self.KS)), eqt(sel(D, self.KK), sel(self.D0, self.KK)))))
            return
        seed, secret = self.pair(E, v)
        s, k = sel(D, self.KS), sel(D, self.KK)
        E.prove("C16.stored-pair-unchanged", Implies(self.complete0, And(
            eqt(s, sel(self.D0, self.KS)), eqt(k, sel(self.D0, self.KK)))))
        E.prove("C16.pair-is-stored-completely", And(j_is(s, "bool"), j_is(k, "str")))
        E.prove("C16.returns-stored-pair", And(
            j_is(s, "bool"), Iff(acc(JS.jb, jv(s)), BV(seed)),
            Or(eqt(k, MJ.just(JS.jstr(b64(secret.t)))), secret.t == unb64(acc(JS.js, jv(k))))))
        E.prove("C16.new-pair-is-stored-seed", Implies(Not(self.complete0), And(
            BV(seed), eqt(secret.t, self.rnd), E.st.ghosts["drawn"])))


class IkpAccessors(Unit):
    prop = "C16"
    module = "identity_key_pair"
    cls = "IdentityKeyPairSeed"
    expect_obligations = ("C16.representation", "C16.secret", "C16.derived-keys")

    F = {n: z3.Function("xed_" + n, Bytes, Bytes) for n in ("seed_to_priv", "seed_to_ed25519_pub", "priv_to_ed25519_pub")}

    def module_attr(self, E, q):
        n = q.split(".")[-1]
        if n in self.F:
            return VPy(q, lambda E, a, kw: VBytes(self.F[n](E.force(a[0]).t), 32))
        return None

    def body(self, E):
        self.s = z3.Const("secret", Bytes)
        return E.instantiate(VClass(self.cls), [VBytes(self.s, 32)], {})

    def post(self, E, kind, o):
        if kind == "raise":
            E.prove("C16.constructible", FALSE)
            return
        seed = self.cls == "IdentityKeyPairSeed"
        a = [E.get_attr(o, n) for n in ("is_seed", "is_priv")]
        E.prove("C16.representation", And(Iff(E.truthf(a[0]), BV(seed)), Iff(E.truthf(a[1]), BV(not seed))))
        sec = E.get_attr(o, "seed" if seed else "priv")
        E.prove("C16.secret", eqt(sec.t, self.s))
        p = self.call(E, o, "as_priv")
        if not isinstance(p, VInst):
            raise Unsupported("as_priv")
        E.prove("C16.as-priv-class", BV(p.cls == "IdentityKeyPairPriv"))
        pk = E.get_attr(p, "priv")
        want = self.F["seed_to_priv"](self.s) if seed else self.s
        pub = E.get_attr(o, "identity_key")
        wantpub = self.F["seed_to_ed25519_pub" if seed else "priv_to_ed25519_pub"](self.s)
        E.prove("C16.derived-keys", And(eqt(pk.t, want), eqt(pub.t, wantpub)))


class IkpSeed(IkpAccessors):
    name = "C16.seed"
    target = "IdentityKeyPairSeed"


class IkpPriv(IkpAccessors):
    name = "C16.priv"
    target = "IdentityKeyPairPriv"
    cls = "IdentityKeyPairPriv"


# ---------------------------------------------------------------------------------------------------------------- C20

class PurgeBareJid(Unit):
    name = "C20.purge_bare_jid"
    prop = "C20"
    target = "SessionManager.purge_bare_jid"
    interest = frozenset({ANY, "store", "delete"})
    expect_obligations = ("C20.only-records-of-the-account", "C20.device-records-removed", "C20.trust-removed",
                          "C20.device-list-removed", "C20.backends-purged")

    def body(self, E):
        sm = self.manager(E)
        self.j = z3.Const("bare_jid", Str)
        self.id0 = z3.Int("id0")
        self.ik0 = z3.Const("ik0", Bytes)
        self.b0 = z3.Const("b0", OBJ["Backend"])
        self.q0 = z3.Const("q0", Key)
        E.add_pool(self.id0)
        R = self.R0 = self.recs(E)
        self.known = E.exists(TInt, lambda i: And(R.listed(self.j, i.t), R.has_ik(self.j, i.t),
                                                  R.ik(self.j, i.t) == self.ik0))
        E.st.ghosts["purged"] = FALSE
        # a record of this account: its device list, records of listed devices
        i = z3.Function("int_of_str", Str, I)(seg(self.q0, 3))
        what = Or(*[eqt(seg(self.q0, 4), strconst(s)) for s in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)])
        self.q0mine = Or(eqt(self.q0, devlist(self.j)),
                         And(is_key(self.q0, "", "devices", self.j, None, None), what,
                             eqt(s_of_int(i), seg(self.q0, 3)), R.listed(self.j, i)))
        self.q0trust = is_key(self.q0, "", "trust", self.j, None)
        # q0: an arbitrary key that is not a record of this account (its trust records are covered by ik0)
        E.assume(Not(Or(self.q0mine, self.q0trust)))
        return self.call(E, sm, "purge_bare_jid", VStr(self.j))

    def foci(self, E, ty):
        return {TInt: [VInt(self.id0)], TBytes: [VBytes(self.ik0)], TObj("Backend"): [VObj("Backend", self.b0)]}.get(ty, [])

    def watch_keys(self, E):
        return [devlist(self.j), *[dev(self.j, self.id0, w) for w in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)],
                trustkey(self.j, self.ik0), self.q0]

    def typed_invariants(self, E, ty):
        if ty == TBytes:
            return {"known": lambda f: Implies(eqt(f.t, self.ik0), self.known)}
        return {}

    def observe(self, E):
        D = E.st.comps["D"]
        R = self.R0
        out = {"purged": E.st.ghosts["purged"],
               "ik0of": And(R.listed(self.j, self.id0), R.has_ik(self.j, self.id0), R.ik(self.j, self.id0) == self.ik0),
               "known": self.known}
        for w in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK):
            out["gone_" + w] = Not(has(sel(D, dev(self.j, self.id0, w))))
        out["gone_trust"] = Not(has(sel(D, trustkey(self.j, self.ik0))))
        return out

    def before(self, E, op, a):
        if op == "delete":
            E.prove("C20.only-records-of-the-account", And(
                Not(eqt(a["key"], self.q0)),
                Implies(eqt(a["key"], trustkey(self.j, self.ik0)), self.known)))
        elif op == "purge_bare_jid":
            E.prove("C20.backend-purges-the-account", eqt(a["jid"].t, self.j))
        elif op not in ("load", "load_session"):
            E.prove("C20.no-other-effect", FALSE)

    def after(self, E, op, a, r):
        if op == "purge_bare_jid":
            E.st.ghosts["purged"] = Or(E.st.ghosts["purged"], a["b"].t == self.b0)

    def post(self, E, kind, v):
        D, R = E.st.comps["D"], self.R0
        E.prove("C20.nothing-else-changed", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        E.prove("C20.foreign-trust-kept", Implies(Not(self.known), eqt(sel(D, trustkey(self.j, self.ik0)),
                                                                      sel(self.D0, trustkey(self.j, self.ik0)))))
        if kind == "raise":
            E.prove("C20.fails-only-if-an-operation-fails", BV(v.origin in ("load", "delete", "purge_bare_jid")))
            return
        gone = [Not(has(sel(D, dev(self.j, self.id0, w)))) for w in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)]
        E.prove("C20.device-list-removed", Not(has(sel(D, devlist(self.j)))))
        E.prove("C20.device-records-removed", Implies(R.listed(self.j, self.id0), And(*gone)))
        E.prove("C20.trust-removed", Implies(
            And(R.listed(self.j, self.id0), R.has_ik(self.j, self.id0), R.ik(self.j, self.id0) == self.ik0),
            Not(has(sel(D, trustkey(self.j, self.ik0))))))
        E.prove("C20.backends-purged", Implies(loadedB(self.b0), E.st.ghosts["purged"]))


UNITS = [BackendLimits, CreateValidation, Fingerprint, IkpGet, IkpSeed, IkpPriv, PurgeBareJid]
