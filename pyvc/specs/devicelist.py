"""Device list handling: C12, C13."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit

OPTS = opt_sort(Str)


def dict_arg(E, name, site):
    dom, val = z3.Const(name + "_dom", DLD), z3.Const(name + "_val", DLV)
    return E.alloc(arr_dict(TInt, TOpt(TStr), dom, val), site), dom, val


def dom_at(d, i):
    return d.dom(VInt(i)) if d.kt is not None else FALSE


def val_at(d, i):
    return TOpt(TStr).to(d.val(VInt(i)))


class Update(Unit):
    target = "SessionManager.update_device_list"
    interest = frozenset({ANY, "store", "delete"})
    expect_covers = ("exit:return", "exit:raise")

    def body(self, E):
        sm = self.manager(E)
        self.n, self.j = z3.Const("ns_arg", Str), z3.Const("jid_arg", Str)
        self.arg, self.ddom, self.dval = dict_arg(E, "list_arg", "arg")
        self.id0, self.n1, self.q0 = z3.Int("id0"), z3.Const("n1", Str), z3.Const("q0", Key)
        E.add_pool(self.id0)
        E.add_pool(self.n1)
        E.add_pool(self.n)
        E.add_pool(BE(self.n))
        self.loaded = And(loadedB(BE(self.n)), ns_of(BE(self.n)) == self.n)
        E.assume(Implies(Not(self.loaded), Not(And(loadedB(BE(self.n)), eqt(ns_of(BE(self.n)), self.n)))))
        self.R0 = self.recs(E)
        self.known0 = self.R0.listed(self.j, self.id0)
        # the invariant holds initially
        E.assume(self.inv(E, self.D0))
        i = z3.Function("int_of_str", Str, I)(seg(self.q0, 3))
        E.assume(Not(Or(eqt(self.q0, devlist(self.j)), And(
            is_key(self.q0, "", "devices", self.j, None, None), eqt(s_of_int(i), seg(self.q0, 3)),
            Or(*[eqt(seg(self.q0, 4), strconst(s)) for s in (SEG_NS, SEG_ACT, SEG_LBL)])))))
        self.needs_own = And(self.j == self.own_jid, Not(sel(self.ddom, self.own_id)))
        self.eff = Or(sel(self.ddom, self.id0), And(self.needs_own, self.id0 == self.own_id))
        g = E.st.ghosts
        g["uploaded"] = FALSE
        g["any"] = FALSE
        return self.call(E, sm, "update_device_list", VStr(self.n), VStr(self.j), self.arg)

    def inspect(self, E):
        R, R0, j, i = self.recs(E), self.R0, self.j, self.id0
        out = {"id0": i, "own": self.own_id, "in list": sel(self.ddom, i), "known": self.known0, "eff": self.eff,
               "needs_own": self.needs_own, "loaded": self.loaded}
        for w, r in (("before", R0), ("now", R)):
            out.update({w + " listed": r.listed(j, i), w + " ns": r.ns(j, i, self.n), w + " act": r.act(j, i, self.n),
                        w + " ns1": r.ns(j, i, self.n1), w + " act1": r.act(j, i, self.n1)})
            for x in (SEG_NS, SEG_ACT, SEG_LBL):
                out[w + " " + x] = r.at(dev(j, i, x))
        return out

    def inv(self, E, D):
        """Every known device (focal) has complete records and activity information for every namespace."""
        R = self.recs(E, D)
        j, i = self.j, self.id0
        lbl = R.at(dev(j, i, SEG_LBL))
        return Implies(R.listed(j, i), And(
            j_is(R.at(dev(j, i, SEG_NS)), "list"), j_is(R.at(dev(j, i, SEG_ACT)), "dict"),
            Or(j_is(lbl, "null"), j_is(lbl, "str")),
            Implies(R.ns(j, i, self.n), R.act_has(j, i, self.n)),
            Implies(R.ns(j, i, self.n1), R.act_has(j, i, self.n1))))

    def foci(self, E, ty):
        return {TInt: [VInt(self.id0)], TStr: [VStr(self.n1)]}.get(ty, [])

    def watch_keys(self, E):
        return [devlist(self.j), *[dev(self.j, self.id0, w) for w in (SEG_NS, SEG_ACT, SEG_LBL, SEG_IK)],
                dev(self.j, self.own_id, SEG_LBL), self.q0]


class C12(Update):
    name = "C12.update_device_list"
    prop = "C12"
    expect_obligations = ("C12.unknown-namespace-rejected", "C12.known-devices", "C12.listed-active", "C12.unlisted-inactive",
                          "C12.labels", "C12.other-namespaces", "C12.nothing-else", "C12.argument-not-modified",
                          "C12.complete-at-every-write")

    def observe(self, E):
        R = self.recs(E)
        j, i, n = self.j, self.id0, self.n
        return {"eff": self.eff, "known0": self.known0, "ns": R.ns(j, i, n), "act": R.act(j, i, n)}

    def before(self, E, op, a):
        E.prove("C12.rejected-before-any-effect", Or(self.loaded, BV(op in ("load",))))
        if op in ("store", "delete"):
            E.prove("C12.nothing-else", Not(eqt(a["key"], self.q0)))
            E.prove("C12.nothing-deleted", BV(op == "store"))
        elif op not in ("_upload_device_list", "load"):
            E.prove("C12.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        if op in ("store", "delete"):
            E.prove("C12.complete-at-every-write", self.inv(E, E.st.comps["D"]))

    def failed(self, E, op, a, exc):
        if op in ("store", "delete"):
            E.prove("C12.complete-at-every-write", self.inv(E, E.st.comps["D"]))

    def post(self, E, kind, v):
        D, R0 = E.st.comps["D"], self.R0
        R = self.recs(E)
        j, i, n, n1 = self.j, self.id0, self.n, self.n1
        E.prove("C12.nothing-else", eqt(sel(D, self.q0), sel(self.D0, self.q0)))
        d = E.deref(self.arg)
        E.prove("C12.argument-not-modified", And(Iff(dom_at(d, i), sel(self.ddom, i)), Implies(
            sel(self.ddom, i), eqt(val_at(d, i), sel(self.dval, i)))))
        if kind == "raise":
            E.prove("C12.known-stay-known", Implies(self.known0, R.listed(j, i)))
            E.prove("C12.rejects-unknown-namespaces-only", Implies(BV(v.own), And(
                BV(v.cls == "UnknownNamespace"), Not(self.loaded))))
            return
        E.prove("C12.unknown-namespace-rejected", self.loaded)
        inl = sel(self.ddom, i)
        E.prove("C12.known-devices", Iff(R.listed(j, i), Or(inl, self.known0)))
        E.prove("C12.listed-active", Implies(Or(inl, And(self.known0, self.eff)), And(R.ns(j, i, n), R.act(j, i, n))))
        E.prove("C12.unlisted-inactive", Implies(And(self.known0, Not(self.eff)), And(
            Iff(R.ns(j, i, n), R0.ns(j, i, n)), Implies(R0.ns(j, i, n), Not(R.act(j, i, n))))))
        given = sel(self.dval, i)
        E.prove("C12.labels", And(
            Implies(And(inl, Or(Not(self.known0), isc(OPTS.is_some, given))), eqt(R.label(j, i), given)),
            Implies(And(self.known0, Or(And(Not(inl), Not(self.eff)), And(inl, isc(OPTS.is_none, given)))),
                    eqt(R.label(j, i), R0.label(j, i))),
            Implies(And(self.known0, self.eff, Not(inl)), eqt(R.label(j, i), R0.label(j, i)))))
        E.prove("C12.other-namespaces", Implies(Not(n1 == n), And(
            Implies(self.known0, And(Iff(R.ns(j, i, n1), R0.ns(j, i, n1)), Iff(R.act_has(j, i, n1), R0.act_has(j, i, n1)),
                                     Iff(R.act(j, i, n1), R0.act(j, i, n1)))),
            Implies(And(Not(self.known0), inl), And(Not(R.ns(j, i, n1)), Not(R.act_has(j, i, n1)))))))


class C13(Update):
    name = "C13.update_device_list"
    prop = "C13"
    expect_obligations = ("C13.publishes-only-if-missing", "C13.publishes-complete-list", "C13.published-iff-missing")

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "_upload_device_list":
            E.prove("C13.publishes-only-if-missing", And(self.loaded, self.needs_own, eqt(a["ns"], self.n),
                                                         Not(g["uploaded"])))
            d, i = a["list"], self.id0
            own = i == self.own_id
            E.prove("C13.publishes-complete-list", And(
                Iff(dom_at(d, i), Or(sel(self.ddom, i), own)),
                Implies(And(sel(self.ddom, i), Not(own)), eqt(val_at(d, i), sel(self.dval, i)))))
            E.prove("C13.announces-stored-label", And(
                dom_at(d, self.own_id), eqt(val_at(d, self.own_id), self.R0.label(self.own_jid, self.own_id))))

    def after(self, E, op, a, r):
        if op == "_upload_device_list":
            E.st.ghosts["uploaded"] = TRUE

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C13.published-iff-missing", Iff(E.st.ghosts["uploaded"], self.needs_own))


class Refresh(Unit):
    name = "C13.refresh_device_list"
    prop = "C13"
    target = "SessionManager.refresh_device_list"
    interest = frozenset({ANY})
    expect_obligations = ("C13.fetches-that-list", "C13.processes-the-fetched-list", "C13.processed-once")

    def body(self, E):
        sm = self.manager(E)
        self.n, self.j, self.id0 = z3.Const("ns_arg", Str), z3.Const("jid_arg", Str), z3.Int("id0")
        g = E.st.ghosts
        g["fetched"], g["processed"], g["in"], g["lbl"] = FALSE, FALSE, FALSE, z3.Const("lbl0", OPTS)
        return self.call(E, sm, "refresh_device_list", VStr(self.n), VStr(self.j))

    def before(self, E, op, a):
        g = E.st.ghosts
        if op == "_download_device_list":
            E.prove("C13.fetches-that-list", And(eqt(a["ns"], self.n), eqt(a["jid"], self.j)))
        elif op == "update_device_list":
            d = a["list"]
            E.prove("C13.processes-the-fetched-list", And(
                g["fetched"], Not(g["processed"]), eqt(a["ns"], self.n), eqt(a["jid"], self.j),
                Iff(dom_at(d, self.id0), g["in"]), Implies(g["in"], eqt(val_at(d, self.id0), g["lbl"]))))
        elif op not in ("load", "load_session"):
            E.prove("C13.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        g = E.st.ghosts
        if op == "_download_device_list":
            d = E.deref(r)
            g["fetched"], g["in"], g["lbl"] = TRUE, dom_at(d, self.id0), val_at(d, self.id0)
        elif op == "update_device_list":
            g["processed"] = TRUE

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C13.processed-once", E.st.ghosts["processed"])
        else:
            E.prove("C13.fails-only-if-an-operation-fails", BV(not v.own))


class RefreshAll(Unit):
    name = "C13.refresh_device_lists"
    prop = "C13"
    target = "SessionManager.refresh_device_lists"
    interest = frozenset({ANY})
    expect_obligations = ("C13.refreshes-that-account", "C13.all-loaded-backends-refreshed")

    def body(self, E):
        sm = self.manager(E)
        self.j = z3.Const("jid_arg", Str)
        self.b0 = z3.Const("b0", OBJ["Backend"])
        E.st.ghosts["done"] = FALSE
        E.add_pool(self.b0)
        return self.call(E, sm, "refresh_device_lists", VStr(self.j))

    def foci(self, E, ty):
        return [VObj("Backend", self.b0)] if ty == TObj("Backend") else []

    def before(self, E, op, a):
        if op == "refresh_device_list":
            E.prove("C13.refreshes-that-account", And(eqt(a["jid"], self.j), E.exists(
                TObj("Backend"), lambda b: And(loadedB(b.t), ns_of(b.t) == a["ns"]))))
        elif op not in ("load", "load_session", "_download_device_list"):
            E.prove("C13.no-other-effects", FALSE)

    def after(self, E, op, a, r):
        if op == "refresh_device_list":
            E.st.ghosts["done"] = Or(E.st.ghosts["done"], eqt(a["ns"], ns_of(self.b0)))

    def post(self, E, kind, v):
        if kind == "return":
            E.prove("C13.all-loaded-backends-refreshed", Implies(loadedB(self.b0), E.st.ghosts["done"]))


UNITS = [C12, C13, Refresh, RefreshAll]
