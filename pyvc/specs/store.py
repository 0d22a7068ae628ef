"""C21: the storage cache; C22: typed access to the storage, Maybe."""
import z3
from ..values import *     # noqa: F401,F403
from ..env import *        # noqa: F401,F403
from ..env import Unit
from ..interp import MODULE_FUNCS

MB, JV = OBJ["Maybe"], OBJ["JSONValue"]
cont = z3.Function("maybe_content", MB, opt_sort(JV))       # what a Maybe holds


def just(t):
    return TOpt(TObj("JSONValue")).to(VObj("JSONValue", t))


NOTHING = TOpt(TObj("JSONValue")).to(VNone())


# ---------------------------------------------------------------------------------------------------------------- C21

class Cache(Unit):
    """
    One operation of a storage with (or without) cache, against the guarantee that all operations give each other. While the
    operation waits for the underlying storage, any number of other operations may complete (rely):

    - with caching, a key stays in the cache once it is there, and a completed store or delete puts its key there;
    - the cache agrees with the last completed store or delete of every key that no store or delete is in progress for;
    - without a store or delete of the key in progress or completed meanwhile, the underlying load yields the value of the
      last completed store or delete.
    """
    prop = "C21"
    module = "storage"
    interest = frozenset({ANY})
    expect_covers = ("exit:return", "exit:raise")
    cached = True

    def body(self, E):
        self.key, self.k0 = z3.Const("key_arg", Str), z3.Const("k0", Str)
        self.t = z3.Const("value_arg", JV)
        E.add_pool(self.k0)
        E.add_pool(self.key)
        E.st.heap["ost"] = {}
        self.o = VInst("Storage", "ost")
        m = E.repo.find_method("Storage", "__init__")
        E.call_node(m[1], None, m[0].module, "Storage", [self.o], {"disable_cache": VBool(not self.cached)},
                    "Storage.__init__")
        cells = [v.id for v in E.st.heap["ost"].values() if isinstance(v, VRef)]
        if any(not isinstance(E.st.heap[c], VDict) for c in cells) or len(cells) > 1:
            raise Unsupported("representation of the cache")
        E.prove("C21.cache-as-configured", BV(len(cells) == (1 if self.cached else 0)))
        self.cell = cells[0] if cells else None
        # the state left behind by any history
        self.P0 = z3.Const("P0", z3.ArraySort(Str, opt_sort(JV)))
        g = E.st.ghosts
        g["P"], g["calls"], g["busy"] = self.P0, z3.IntVal(0), z3.Const("busy0", B)
        g["r"] = z3.Const("r_init", MB)
        self.havoc(E, "C0")
        if self.cell:
            for k in (self.k0, self.key):
                E.assume(Implies(And(self.dom(E, k), self.settled(E, k)), eqt(cont(self.val(E, k)), sel(self.P0, k))))
        self.note(E)
        return self.invoke(E)

    def havoc(self, E, p):
        if not self.cell:
            return
        d, v = z3.Const(p + "_dom", z3.ArraySort(Str, B)), z3.Const(p + "_val", z3.ArraySort(Str, MB))
        E.st.heap[self.cell] = arr_dict(TStr, TObj("Maybe"), d, v)

    def state(self, E):
        return {k: (self.dom(E, t), self.val(E, t) if self.cell else None) for k, t in (("k0", self.k0), ("key", self.key))}

    def note(self, E):
        """Remember the cache as the other operations left it."""
        for k, (d, v) in self.state(E).items():
            E.st.ghosts["dom_" + k] = d
            if v is not None:
                E.st.ghosts["val_" + k] = v

    def ref(self, E, k):
        return E.st.ghosts["dom_" + k], E.st.ghosts.get("val_" + k)

    def dict(self, E):
        c = E.st.heap.get(self.cell)
        if not isinstance(c, VDict):
            raise Unsupported("representation of the cache")
        return c

    def dom(self, E, k):
        return self.dict(E).dom(VStr(k)) if self.cell else FALSE

    def val(self, E, k):
        return self.dict(E).val(VStr(k)).t if self.dict(E).kt is not None else z3.Const("noval", MB)

    def settled(self, E, k):
        """No store or delete of k is in progress. The operation itself is the only writer of its key."""
        return Not(And(eqt(k, self.key), E.st.ghosts["busy"]))

    def same(self, E, k, old):
        d, v = old
        if not self.cell:
            return TRUE
        return And(Iff(self.dom(E, k), d), Implies(d, eqt(cont(self.val(E, k)), cont(v))))

    def untouched(self, E):
        """The cache is as it was (as the other operations left it)."""
        return And(*[self.same(E, getattr(self, n), self.ref(E, n)) for n in ("k0", "key")])

    def wait(self, E, write):
        """Other operations complete while this one waits for the underlying storage."""
        g = E.st.ghosts
        n = E.cell("wait")
        P = z3.Const(f"P_{n}", z3.ArraySort(Str, opt_sort(JV)))
        busy = z3.Const(f"busy_{n}", B)
        if self.cell:
            old = self.state(E)
            self.havoc(E, f"C_{n}")
            for k, t in (("k0", self.k0), ("key", self.key)):
                E.assume(Implies(old[k][0], self.dom(E, t)))
                E.assume(Implies(Not(self.dom(E, t)), eqt(sel(P, t), sel(g["P"], t))))
                quiet = Not(eqt(t, self.key)) if write else Not(And(eqt(t, self.key), busy))
                E.assume(Implies(And(self.dom(E, t), quiet), eqt(cont(self.val(E, t)), sel(P, t))))
        g["P"], g["busy"] = P, busy
        self.note(E)

    def abstract(self, E, cls, name):
        f = {"_load": self.u_load, "_store": self.u_store, "_delete": self.u_delete}.get(name)
        return f

    def u_load(self, E, self_, key):
        k = E.force(key).t
        g = E.st.ghosts
        self.check(E, "load", k)

        def eff():
            self.wait(E, False)
            r = E.fresh("loaded", MB)
            g["r"] = r
            E.assume(Implies(And(Not(self.dom(E, k)), Not(g["busy"])) if self.cell else Not(g["busy"]),
                             eqt(cont(r), sel(g["P"], k))))
            return VObj("Maybe", r)
        return self.op(E, "_load", {"key": k}, eff, ["StorageException"], partial=lambda: self.wait(E, False))

    def u_store(self, E, self_, key, value):
        k, v = E.force(key).t, E.force(value)
        self.check(E, "store", k)
        E.prove("C21.writes-the-value", BV(isinstance(v, VObj) and v.t.eq(self.t)))
        return self.write(E, "_store")

    def u_delete(self, E, self_, key):
        self.check(E, "delete", E.force(key).t)
        return self.write(E, "_delete")

    def write(self, E, op):
        return self.op(E, op, {}, lambda: (self.wait(E, True), NONE)[1], ["StorageException"],
                       partial=lambda: self.wait(E, True))

    def check(self, E, op, k):
        g = E.st.ghosts
        E.prove("C21.exactly-the-requested-operation", And(BV(op == self.what), eqt(k, self.key), g["calls"] == 0))
        E.prove("C21.cache-changes-only-after-the-operation-completed", self.untouched(E))
        if op == "load":
            E.prove("C21.reads-only-what-is-not-cached", Not(self.dom(E, k)))
        g["calls"] = g["calls"] + 1

    def construct(self, E, cls, args, kwargs):
        if cls in ("Just", "Nothing"):
            m = E.fresh("made", MB)
            if cls == "Just":
                v = E.force(args[0] if args else kwargs["value"])
                if not isinstance(v, VObj) or v.cls != "JSONValue":
                    raise Unsupported("Just")
                E.define(m, [eqt(cont(m), just(v.t))])
            else:
                E.define(m, [eqt(cont(m), NOTHING)])
            return VObj("Maybe", m)
        return None

    def post(self, E, kind, v):
        g = E.st.ghosts
        if self.cell:
            E.prove("C21.keys-stay-cached", Implies(self.ref(E, "k0")[0], self.dom(E, self.k0)))
            E.prove("C21.other-keys-unaffected", Implies(Not(eqt(self.k0, self.key)),
                                                         self.same(E, self.k0, self.ref(E, "k0"))))
        if kind == "raise":
            E.prove("C21.fails-only-if-the-operation-fails", BV(not v.own))
            E.prove("C21.failure-leaves-the-cache", self.untouched(E))
            return
        self.returned(E, v)


class Load(Cache):
    target = "Storage.load"
    what = "load"

    def invoke(self, E):
        return self.call(E, self.o, "load", VStr(self.key))

    def returned(self, E, v):
        v = E.force(v)
        if not isinstance(v, VObj) or v.cls != "Maybe":
            raise Unsupported("result of load")
        g, key = E.st.ghosts, self.key
        if not self.cell:
            E.prove("C21.load-reads-the-storage", And(g["calls"] == 1, eqt(cont(v.t), cont(g["r"]))))
            return
        d, c = self.ref(E, "key")
        E.prove("C21.load-yields-the-last-value", Implies(Not(g["busy"]), eqt(cont(v.t), sel(g["P"], key))))
        E.prove("C21.load-yields-the-cached-or-loaded-value", eqt(cont(v.t), If(d, cont(c), cont(g["r"]))))
        E.prove("C21.loaded-value-is-cached", And(self.dom(E, key), eqt(cont(self.val(E, key)), cont(v.t))))


class Store(Cache):
    target = "Storage.store"
    what = "store"

    def invoke(self, E):
        return self.call(E, self.o, "store", VStr(self.key), VObj("JSONValue", self.t))

    def written(self):
        return just(self.t)

    def returned(self, E, v):
        E.prove("C21.reaches-the-storage", E.st.ghosts["calls"] == 1)
        if self.cell:
            E.prove("C21.cached-value-is-the-written-one", And(self.dom(E, self.key), eqt(
                cont(self.val(E, self.key)), self.written())))


class Delete(Store):
    target = "Storage.delete"
    what = "delete"

    def invoke(self, E):
        return self.call(E, self.o, "delete", VStr(self.key))

    def written(self):
        return NOTHING


def both(cls):
    n = cls.target.split(".")[1]
    return [type(cls.__name__ + "Cached", (cls,), {"name": f"C21.{n}.cached", "cached": True}),
            type(cls.__name__ + "Uncached", (cls,), {"name": f"C21.{n}.uncached", "cached": False})]



# ---------------------------------------------------------------------------------------------------------------- C22

KINDS = ("NoneType", "bool", "int", "float", "str", "list", "dict")
kind_of = z3.Function("json_kind", JV, I)
element = z3.Function("json_element", JV, JV, B)            # of a list, or value of a dictionary
text = z3.Function("json_text", JV, Str)
Prim = z3.DeclareSort("PrimitiveType")
has_type = z3.Function("has_type", JV, Prim, B)             # isinstance(value, primitive)


def is_kind(t, *names):
    return Or(*[kind_of(t) == KINDS.index(n) for n in names])


class Value:
    """An arbitrary JSON value."""

    @staticmethod
    def make(t):
        return VOpt(is_kind(t, "NoneType"), VObj("JSONValue", t))

    @staticmethod
    def term(v):
        if isinstance(v, VOpt):
            v = v.val
        return v.t if isinstance(v, VObj) and v.cls == "JSONValue" else None


class Typed(Unit):
    """A typed load: the value on record exactly if it has the type."""
    prop = "C22"
    module = "storage"
    interest = frozenset({ANY})
    all_exceptions = True
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C22.value-as-stored", "C22.nothing-stays-nothing", "C22.type-checked",
                          "C22.accepts-the-type")
    typed = True

    def body(self, E):
        self.key, self.t, self.e0 = z3.Const("key_arg", Str), z3.Const("stored", JV), z3.Const("e0", JV)
        self.p = z3.Const("primitive_arg", Prim)
        self.missing = z3.Bool("missing")
        E.assume(And(kind_of(self.t) >= 0, kind_of(self.t) < len(KINDS)))
        E.add_pool(self.e0)
        E.st.ghosts["loads"] = z3.IntVal(0)
        E.st.heap["ost"] = {}
        args = [VStr(self.key)] + ([VSpecial("jtype", t=self.p)] if self.typed else [])
        return self.call(E, VInst("Storage", "ost"), self.target.split(".")[1], *args)

    def contract(self, E, q):
        if q == "Storage.load":
            return self.load_contract
        return None

    def load_contract(self, E, self_, key):
        E.prove("C22.loads-that-key", And(eqt(E.force(key).t, self.key), E.st.ghosts["loads"] == 0))
        E.st.ghosts["loads"] = E.st.ghosts["loads"] + 1
        return self.op(E, "load", {}, lambda: VMaybe(self.missing, Value.make(self.t)), ["StorageException"])

    def before(self, E, op, a):
        if op != "load":
            E.prove("C22.no-other-effects", FALSE)

    def isinstance_(self, E, v, c):
        t = Value.term(E.deref(v))
        if t is None:
            return None
        return Or(*[self.inst(x, t) for x in (c.items if isinstance(c, VTuple) else [c])])

    def inst(self, c, t):
        if isinstance(c, VSpecial) and c.kind == "jtype":
            return has_type(t, c.kw["t"])
        n = c.name if isinstance(c, (VPy, VClass)) else c.kw.get("name")
        if n not in KINDS:
            raise Unsupported(f"isinstance of {c!r}")
        return is_kind(t, *(("int", "bool") if n == "int" else (n,)))

    def elements(self, E, v):
        t = Value.term(v)
        if t is None:
            return None
        if not E.entails(is_kind(t, "list")):
            raise Unsupported("iteration over a value that may not be a list")
        return self.coll(t)

    @staticmethod
    def coll(t):
        return Coll("list", TObj("JSONValue"), lambda e: element(t, e.t), lambda e: Value.make(e.t),
                    lambda y: y.val if isinstance(y, VOpt) else y, distinct=False)

    def obj_attr(self, E, o, name):
        if o.cls == "JSONValue":
            if name == "encode" and E.entails(is_kind(o.t, "str")):
                return E.get_attr(VStr(text(o.t)), "encode")
            if name == "values" and E.entails(is_kind(o.t, "dict")):
                return VPy(name, lambda E, a, kw: self.coll(o.t))
        return super().obj_attr(E, o, name)

    def module_attr(self, E, q):
        if q.split(".")[-1] == "urlsafe_b64decode":
            def dec(E, a, kw):
                t = Value.term(E.deref(a[0]))
                return E.call(VPy(q, MODULE_FUNCS["base64.urlsafe_b64decode"]), [
                    a[0] if t is None else VStr(text(t))], {})
            return VPy(q, dec)
        return None

    def ok(self, E):
        """The value has the requested type."""
        raise NotImplementedError

    def focal(self):
        return TRUE

    def post(self, E, kind, v):
        if kind == "raise":
            if v.own:
                E.prove("C22.rejected-with-TypeError", BV(v.cls == "TypeError"))
                E.prove("C22.accepts-the-type", And(Not(self.missing), Not(self.ok(E))))
            return
        v = E.force(v)
        if not isinstance(v, VMaybe):
            raise Unsupported("result of a typed load")
        E.prove("C22.nothing-stays-nothing", And(E.st.ghosts["loads"] == 1, Iff(v.isnothing, self.missing)))
        E.prove("C22.type-checked", Implies(Not(self.missing), self.ok(E)))
        E.prove("C22.value-as-stored", Implies(Not(self.missing), self.faithful(E, v.val)))

    def faithful(self, E, v):
        t = Value.term(E.deref(v))
        if t is None:
            raise Unsupported("result of a typed load")
        return eqt(t, self.t)


class LoadPrimitive(Typed):
    name, target = "C22.load_primitive", "Storage.load_primitive"

    def ok(self, E):
        return has_type(self.t, self.p)


class LoadOptional(Typed):
    name, target = "C22.load_optional", "Storage.load_optional"

    def ok(self, E):
        return Or(is_kind(self.t, "NoneType"), has_type(self.t, self.p))


class LoadList(Typed):
    name, target, outer = "C22.load_list", "Storage.load_list", "list"

    def ok(self, E):
        return And(is_kind(self.t, self.outer), Not(E.exists(TObj("JSONValue"), lambda e: And(
            element(self.t, e.t), Not(has_type(e.t, self.p))))))


class LoadDict(LoadList):
    name, target, outer = "C22.load_dict", "Storage.load_dict", "dict"


class LoadBytes(Typed):
    name, target, typed = "C22.load_bytes", "Storage.load_bytes", False

    def ok(self, E):
        return is_kind(self.t, "str")

    def faithful(self, E, v):
        v = E.force(v)
        return And(BV(isinstance(v, VBytes)), eqt(v.t, unb64(text(self.t))) if isinstance(v, VBytes) else FALSE)


class StoreBytes(Unit):
    """store_bytes stores a string that load_bytes (see its unit) reads the same bytes from."""
    name, prop, target, module = "C22.store_bytes", "C22", "Storage.store_bytes", "storage"
    interest = frozenset({ANY})
    expect_covers = ("exit:return", "exit:raise")
    expect_obligations = ("C22.bytes-round-trip",)

    def body(self, E):
        self.key, self.v = z3.Const("key_arg", Str), z3.Const("value_arg", Bytes)
        E.st.ghosts["stores"] = z3.IntVal(0)
        E.st.heap["ost"] = {}
        return self.call(E, VInst("Storage", "ost"), "store_bytes", VStr(self.key), VBytes(self.v))

    def contract(self, E, q):
        return self.store_contract if q == "Storage.store" else None

    def store_contract(self, E, self_, key, value):
        k, v = E.force(key), E.force(value)
        E.prove("C22.stores-that-key", And(eqt(k.t, self.key), E.st.ghosts["stores"] == 0))
        E.prove("C22.bytes-round-trip", eqt(unb64(v.t), self.v) if isinstance(v, VStr) else FALSE)
        E.st.ghosts["stores"] = E.st.ghosts["stores"] + 1
        return self.op(E, "store", {}, None, ["StorageException"])

    def before(self, E, op, a):
        if op != "store":
            E.prove("C22.no-other-effects", FALSE)

    def post(self, E, kind, v):
        E.prove("C22.fails-only-if-the-operation-fails" if kind == "raise" else "C22.stores-that-key",
                BV(not v.own) if kind == "raise" else E.st.ghosts["stores"] == 1)


class MaybeUnit(Unit):
    """Sequences of uses of a Maybe, with the caller changing every object it can reach in between."""
    prop = "C22"
    module = "storage"
    expect_covers = ("exit:return",)

    def module_attr(self, E, q):
        if q == "copy.deepcopy":
            return VPy(q, lambda E, a, kw: self.deepcopy(E, a[0]))
        if q == "copy.copy":
            return VPy(q, lambda E, a, kw: self.shallow(E, a[0]))
        return None

    def deepcopy(self, E, v):
        if isinstance(v, VRef):
            return E.alloc(items_coll("list", [self.deepcopy(E, x) for x in E.st.heap[v.id].items]), "copy")
        return v

    def shallow(self, E, v):
        return E.alloc(items_coll("list", list(E.st.heap[v.id].items)), "copy") if isinstance(v, VRef) else v

    def value(self, E, p):
        """A mutable value with a mutable part: [[x]] with an arbitrary x."""
        t = E.fresh(p, JV)
        inner = E.alloc(items_coll("list", [VObj("JSONValue", t)]), "inner")
        return E.alloc(items_coll("list", [inner]), "outer"), t

    def change(self, E, v):
        """The caller changes everything reachable from v."""
        if isinstance(v, VRef):
            for x in E.st.heap[v.id].items:
                self.change(E, x)
            E.st.heap[v.id] = items_coll("list", [VObj("JSONValue", E.fresh("changed", JV))])

    def holds(self, E, v, t):
        """v is [[t]]."""
        if not isinstance(v, VRef):
            return FALSE
        a = E.st.heap[v.id].items
        if len(a) != 1 or not isinstance(a[0], VRef):
            return FALSE
        b = E.st.heap[a[0].id].items
        return And(BV(len(b) == 1 and isinstance(b[0], VObj)), eqt(b[0].t, t) if len(b) == 1 and isinstance(
            b[0], VObj) else FALSE)

    def use(self, E, o, name, *a):
        return E.call(E.get_attr(o, name), list(a), {})

    def flag(self, E, o, name):
        return E.force(E.get_attr(o, name)).t


class JustUnit(MaybeUnit):
    name, target = "C22.just", "Just"
    expect_obligations = ("C22.maybe-isolated", "C22.fmap-once")

    def body(self, E):
        v, t = self.value(E, "x")
        o = E.instantiate(VClass("Just"), [v], {})
        self.change(E, v)
        self.yields(E, o, t)
        E.prove("C22.is-just", And(self.flag(E, o, "is_just"), Not(self.flag(E, o, "is_nothing"))))
        r, y = self.value(E, "y")
        calls = []

        def fn(E, a, kw):
            calls.append(self.holds(E, a[0], t) if len(a) == 1 else FALSE)
            self.change(E, a[0])
            return r
        p = self.use(E, o, "fmap", VPy("function", fn))
        E.prove("C22.fmap-once", And(BV(len(calls) == 1), *calls))
        self.change(E, r)
        self.yields(E, p, y)
        self.yields(E, o, t)
        return NONE

    def yields(self, E, o, t):
        for _ in range(2):
            a = self.use(E, o, "from_just")
            E.prove("C22.maybe-isolated", self.holds(E, a, t))
            self.change(E, a)
            d, _ = self.value(E, "default")
            b = self.use(E, o, "maybe", d)
            E.prove("C22.maybe-isolated", self.holds(E, b, t))
            self.change(E, b)

    def post(self, E, kind, v):
        if kind == "raise":
            E.prove("C22.just-does-not-fail", FALSE)


class NothingUnit(MaybeUnit):
    name, target = "C22.nothing", "Nothing"
    expect_covers = ("exit:raise",)
    expect_obligations = ("C22.default", "C22.fmap-once", "C22.from-just-fails")

    def body(self, E):
        o = E.instantiate(VClass("Nothing"), [], {})
        self.yields(E, o)

        def fn(E, a, kw):
            E.prove("C22.fmap-once", FALSE)
            return NONE
        p = self.use(E, o, "fmap", VPy("function", fn))
        E.prove("C22.fmap-once", BV(isinstance(p, VInst)))
        self.yields(E, p)
        E.st.ghosts["end"] = TRUE
        self.use(E, p if E.branch(z3.Bool("mapped"), "mapped") else o, "from_just")

    def yields(self, E, o):
        E.prove("C22.is-nothing", And(self.flag(E, o, "is_nothing"), Not(self.flag(E, o, "is_just"))))
        d, t = self.value(E, "default")
        E.prove("C22.default", self.holds(E, self.use(E, o, "maybe", d), t))
        E.prove("C22.default", BV(isinstance(E.force(self.use(E, o, "maybe", NONE)), VNone)))

    def post(self, E, kind, v):
        E.prove("C22.from-just-fails", BV(kind == "raise" and v.cls == "NothingException" and "end" in E.st.ghosts))


UNITS = [*both(Load), *both(Store), *both(Delete), LoadPrimitive, LoadOptional, LoadList, LoadDict, LoadBytes, StoreBytes,
         JustUnit, NothingUnit]
