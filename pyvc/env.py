"""
The environment of the code under verification: contracts of the abstract methods (storage, backends, XMPP callbacks,
trust callbacks) and of the repository functions that callers are checked against, and the base class of verification
units.

Every environment operation may fail with each exception it documents, at every call. Operations of interest to a
specification announce themselves to it before and after they happen.
"""
import ast
import z3
from .values import *     # noqa: F401,F403
from .engine import PyRaise, PathEnd, Impure
from .repo import decorators

SEG_LIST, SEG_NS, SEG_ACT, SEG_LBL, SEG_IK = "list", "namespaces", "active", "label", "identity_key"

# ---------------------------------------------------------------------------------------------------- functions

OB = OBJ
ns_of = z3.Function("ns", OB["Backend"], Str)
BE = z3.Function("BE", Str, OB["Backend"])
loadedB = z3.Function("loadedB", OB["Backend"], B)
bidx = z3.Function("bidx", OB["Backend"], I)
bat = z3.Function("bat", I, OB["Backend"])
pidx = z3.Function("pidx", Str, I)
pat = z3.Function("pat", I, Str)
s_ns = z3.Function("s_ns", OB["Session"], Str)
s_jid = z3.Function("s_jid", OB["Session"], Str)
s_id = z3.Function("s_id", OB["Session"], I)
s_ke = z3.Function("s_ke", OB["Session"], OB["KeyExchange"])
s_scl = z3.Function("s_scl", OB["Session"], I)
bu_ns = z3.Function("bu_ns", OB["Bundle"], Str)
bu_jid = z3.Function("bu_jid", OB["Bundle"], Str)
bu_id = z3.Function("bu_id", OB["Bundle"], I)
bu_ik = z3.Function("bu_ik", OB["Bundle"], Bytes)
ek_jid = z3.Function("ek_jid", OB["EncryptedKeyMaterial"], Str)
ek_id = z3.Function("ek_id", OB["EncryptedKeyMaterial"], I)
ke_ik = z3.Function("ke_ik", OB["KeyExchange"], Bytes)
bss = z3.Function("bss", OB["KeyExchange"], OB["KeyExchange"], B)
c_empty = z3.Function("c_empty", OB["Content"], B)
# provenance of the objects produced by backends (definitional: each object is produced once)
ek_b = z3.Function("ek_backend", OB["EncryptedKeyMaterial"], OB["Backend"])
ek_p = z3.Function("ek_plain", OB["EncryptedKeyMaterial"], OB["PlainKeyMaterial"])
ek_s = z3.Function("ek_session", OB["EncryptedKeyMaterial"], OB["Session"])
c_b = z3.Function("c_backend", OB["Content"], OB["Backend"])
c_p = z3.Function("c_plain", OB["Content"], OB["PlainKeyMaterial"])
c_t = z3.Function("c_text", OB["Content"], Bytes)
# a bundle handed out by a backend: the backend, and the version of its public data at that time (-1: downloaded)
bu_b = z3.Function("bu_backend", OB["Bundle"], OB["Backend"])
bu_ver = z3.Function("bu_version", OB["Bundle"], I)

SPK = tup_sort([OB["Backend"], Str, I])
DLD = z3.ArraySort(I, B)
DLV = z3.ArraySort(I, opt_sort(Str))

DOCUMENTED = {
    "_upload_bundle": ["UnknownNamespace", "BundleUploadFailed"],
    "_download_bundle": ["UnknownNamespace", "BundleDownloadFailed", "BundleNotFound"],
    "_delete_bundle": ["UnknownNamespace", "BundleDeletionFailed"],
    "_upload_device_list": ["UnknownNamespace", "DeviceListUploadFailed"],
    "_download_device_list": ["UnknownNamespace", "DeviceListDownloadFailed"],
    "_evaluate_custom_trust_level": ["UnknownTrustLevel"],
    "_make_trust_decision": ["TrustDecisionFailed"],
    "_send_message": ["UnknownNamespace", "MessageSendingFailed"],
    "build_session_active": ["KeyExchangeFailed"],
    "build_session_passive": ["KeyExchangeFailed", "TooManySkippedMessageKeys", "DecryptionFailed"],
    "decrypt_plaintext": ["DecryptionFailed"],
    "decrypt_key_material": ["TooManySkippedMessageKeys", "DecryptionFailed"],
}
ANY = "*"


def key_of(v):
    """Storage key term of a string value."""
    segs, cur = [], []
    for p in v.parts:
        if isinstance(p, str):
            bits = p.split("/")
            if bits[0]:
                cur.append(bits[0])
            for b in bits[1:]:
                segs.append(cur)
                cur = [b] if b else []
        else:
            cur.append(p)
    segs.append(cur)
    if len(segs) > NSEG:
        raise Unsupported("storage key with too many segments")
    ts = [VStr(*s).t for s in segs]
    return mkkey(*ts)


def mkkey(*segs):
    ts = [strconst(s) if isinstance(s, str) else s for s in segs]
    return Key.key(z3.IntVal(len(ts)), *(ts + [NOSTR] * (NSEG - len(ts))))


def dev(j, i, what):
    return mkkey("", "devices", j, s_of_int(i), what)


def devlist(j):
    return mkkey("", "devices", j, SEG_LIST)


def trustkey(j, ik):
    return mkkey("", "trust", j, b64(ik))


def seg(x, i):
    return acc(getattr(Key, f"k_{i}"), x)


def kn(x):
    return acc(Key.k_n, x)


def is_key(x, *segs):
    """Formula: key x has exactly these segments (None: any)."""
    fs = [eqt(kn(x), z3.IntVal(len(segs)))]
    for i, s in enumerate(segs):
        if s is not None:
            fs.append(eqt(seg(x, i), strconst(s) if isinstance(s, str) else s))
    return And(*fs)


# JSON helpers over MJ terms

def has(m):
    return isc(MJ.is_just, m)


def jv(m):
    return acc(MJ.jv, m)


def j_is(m, c):
    return And(has(m), isc(getattr(JS, "is_j" + c), jv(m)))


def j_ints(m):
    return acc(JS.jl_i, jv(m))


def j_strs(m):
    return acc(JS.jl_s, jv(m))


def int_in(m, i):
    """i is an element of the integer list stored (a missing list counts as empty)."""
    return And(j_is(m, "list"), sel(j_ints(m), i))


def str_in(m, s):
    return And(j_is(m, "list"), sel(j_strs(m), s))


def dict_has(m, s):
    return And(j_is(m, "dict"), sel(acc(JS.jd_dom, jv(m)), s))


def dict_get(m, s):
    return sel(acc(JS.jd_val, jv(m)), s)


class Recs:
    """The records in a storage D about devices and trust."""

    def __init__(self, E, D, undecided):
        self.E, self.D, self.undecided = E, D, undecided

    def at(self, k):
        return sel(self.D, k)

    def listed(self, j, i):
        return int_in(self.at(devlist(j)), i)

    def ns(self, j, i, n):
        return str_in(self.at(dev(j, i, SEG_NS)), n)

    def act_has(self, j, i, n):
        return dict_has(self.at(dev(j, i, SEG_ACT)), n)

    def act(self, j, i, n):
        return And(self.act_has(j, i, n), dict_get(self.at(dev(j, i, SEG_ACT)), n))

    def has_ik(self, j, i):
        return j_is(self.at(dev(j, i, SEG_IK)), "str")

    def ik(self, j, i):
        t = acc(JS.js, jv(self.at(dev(j, i, SEG_IK))))
        if z3.is_app(t) and t.decl().name() == "b64":
            return t.arg(0)
        return unb64(t)

    def trust(self, j, ik):
        m = self.at(trustkey(j, ik))
        return If(has(m), acc(JS.js, jv(m)), self.undecided)

    def label(self, j, i):
        m = jv(self.at(dev(j, i, SEG_LBL)))
        o = opt_sort(Str)
        return If(isc(JS.is_jnull, m), o.none, o.some(acc(JS.js, m)))


def evalT():
    return z3.Function("evalT", Str, DevKey, Bytes, ENUMS["TrustLevel"][0])


def tl(name):
    return ENUMS["TrustLevel"][1][name]


class Unit:
    """
    A verification unit: one function of the repository checked against the clauses of a specification. Subclasses
    define the focal constants, the ghost state and the obligations.
    """
    name = "?"
    prop = "?"
    target = None           # qualified name of the function under verification
    module = "session_manager"
    max_paths = 20000
    interest = frozenset()  # environment operations that concern the specification
    arbitrary_foci = False  # nothing is assumed about the focal elements
    all_exceptions = False  # distinguish the exceptions of an operation even where nothing in the code does
    expect_covers = ("exit:return",)
    expect_obligations = ()

    # ------------------------------------------------------------------------------------------------ set-up

    def setup(self, E):
        self.case = ()
        E.fmeta = {}
        E._handling = []
        E._pure_heaps = []
        E.cur = E.new_frame(None, self.module, None)
        st = E.st
        st.comps["D"] = z3.Const("D0", z3.ArraySort(Key, MJ))
        st.comps["SP"] = z3.Const("SP0", z3.ArraySort(SPK, B))
        st.comps["SC"] = z3.Const("SC0", z3.ArraySort(OB["Session"], B))               # confirmed
        st.comps["SR"] = z3.Const("SR0", z3.ArraySort(OB["Session"], opt_sort(I)))     # receiving chain length
        st.comps["VP"] = z3.Const("VP0", z3.ArraySort(OB["Backend"], I))                # number of visible pre keys
        st.comps["BV"] = z3.Const("BV0", z3.ArraySort(OB["Backend"], I))                # version of the public data
        self.D0, self.SP0, self.VP0, self.BV0 = st.comps["D"], st.comps["SP"], st.comps["VP"], st.comps["BV"]
        self.own_jid = z3.Const("own_jid", Str)
        self.own_id = z3.Const("own_id", I)
        self.undecided = z3.Const("undecided", Str)
        self.threshold = z3.Const("threshold", I)
        self.own_ik = z3.Const("own_ik", Bytes)
        self.synch0 = z3.Const("synchronizing0", B)
        self.own_key = DevKey.devkey(self.own_jid, self.own_id)
        self.static(E)
        self.prepare(E)

    def static(self, E):
        def ax_ns(E, t):
            b = t.arg(0)
            return [Implies(loadedB(b), BE(t) == b)]

        def ax_bidx(E, t):
            return [Implies(loadedB(t.arg(0)), bat(t) == t.arg(0)), t >= 0]

        def ax_pidx(E, t):
            return [pat(t) == t.arg(0), t >= 0]

        def ax_bss(E, t):
            return [t == bss(t.arg(1), t.arg(0))]
        E.static_defs.update({"ns": ax_ns, "bidx": ax_bidx, "pidx": ax_pidx, "bss": ax_bss})

    def prepare(self, E):
        pass

    def backends(self, E):
        bt = TObj("Backend")
        return Coll("list", bt, lambda b: loadedB(b.t), idx=lambda b: bidx(b.t), et=bt, tags=("backends",))

    def manager(self, E):
        """A session manager as left behind by create."""
        i = E.cell("oSM")
        o = VInst("SessionManager", i)
        m = "_SessionManager__"
        s = E.cell("oStorage")
        E.st.heap[s] = {}
        E.st.heap[i] = {
            m + "backends": E.alloc(self.backends(E), "backends"),
            m + "storage": VInst("Storage", s),
            m + "own_bare_jid": VStr(self.own_jid), m + "own_device_id": VInt(self.own_id),
            m + "undecided_trust_level_name": VStr(self.undecided),
            m + "pre_key_refill_threshold": VInt(self.threshold),
            m + "identity_key_pair": VSpecial("ikp"), m + "synchronizing": VBool(self.synch0)}
        self.sm = o
        return o

    def attr(self, E, name):
        return E.st.heap[self.sm.id]["_SessionManager__" + name]

    def call(self, E, o, name, *args, **kw):
        """Call the method under verification."""
        cls = o.cls if isinstance(o, VInst) else o.name
        r = E.call_method(VMethod(cls, name, o), list(args), kw)
        if isinstance(r, VCoro):
            r = E.await_(r)
        return r

    def recs(self, E, D=None):
        return Recs(E, E.st.comps["D"] if D is None else D, self.undecided)

    # ------------------------------------------------------------------------------------------------ hooks

    def body(self, E):
        raise NotImplementedError

    def post(self, E, kind, value):
        pass

    def foci(self, E, ty):
        return []

    def observe(self, E):
        return {}

    def watch_keys(self, E):
        return []

    def watch(self, E, comp):
        return []

    def invariants(self, E, pre):
        return {}

    def typed_invariants(self, E, ty):
        """name -> f(element) or, for dictionaries with keys of this type, f(key, value)."""
        return {}

    case = ()

    def split(self, E, f):
        """Case split; loop invariants are inferred separately for each case."""
        self.case += (E.branch(f, "case"),)

    def loop_context(self, E):
        return self.case

    def inspect(self, E):
        """Terms to report the values of when an obligation fails."""
        return {}

    def record_names(self, E):
        """Namespaces that are followed in the records of devices."""
        return self.foci(E, TStr)

    def made(self, E, rec):
        pass

    def querying(self, E):
        """Device information is about to be queried (for any number of bare JIDs)."""

    def before(self, E, op, a):
        pass

    def after(self, E, op, a, r):
        pass

    def failed(self, E, op, a, exc):
        pass

    def inverse(self, E, c, t, q):
        if z3.is_app(t) and t.decl().name() == "ns" and t.arg(0).eq(q) and "backends" in c.tags:
            return lambda y: VObj("Backend", BE(y))
        return None

    def distinct_images(self, E, p, q):
        return None

    def next_count(self, E, gen, f):
        """The first element of an unbounded stream of independent draws that satisfies f."""
        e = gen.kw["e"]
        if len(e.generators) != 1:
            raise Unsupported("infinite generator")
        save = E.cur
        E.cur = E.new_frame(gen.kw["fid"], E.fmeta[gen.kw["fid"]][1], E.fmeta[gen.kw["fid"]][2])
        try:
            E.assign(e.generators[0].target, VInt(E.fresh("count", I)))
            for c in e.generators[0].ifs:
                E.assume(E.truthf(E.eval(c)))
            v = E.eval(e.elt)
        finally:
            E.cur = save
        if f is not None:
            E.assume(E.truthf(E.call(f, [v], {})))
        return v

    def elements(self, E, v):
        return None

    def isinstance_(self, E, v, c):
        return None

    def hex(self, E, v):
        raise Unsupported("hex")

    def construct(self, E, cls, args, kwargs):
        return None

    def special_attr(self, E, o, name):
        if o.kind == "ikp" and name == "identity_key":
            return VBytes(self.own_ik)
        raise Unsupported(f"attribute {name} of {o!r}")

    def module_attr(self, E, q):
        return None

    # ------------------------------------------------------------------------------------------------ operations

    def op(self, E, name, a, effect=None, excs=None, mutates=True, partial=None):
        """Perform an environment operation; a: its arguments, effect() -> its result."""
        if E.pure and (mutates or name in self.interest):
            raise Impure(name)
        watched = name in self.interest or ANY in self.interest
        if watched:
            self.before(E, name, a)
        excs = self.representatives(E, excs if excs is not None else self.exceptions(name))
        out = E.choose(["ok"] + list(excs), name)
        if out != "ok":
            if partial is not None:
                partial()
            ex = VExc(out, {}, name, E.fresh("exc", Exc))
            if watched:
                self.failed(E, name, a, ex)
            raise PyRaise(ex)
        r = effect() if effect is not None else NONE
        if watched:
            self.after(E, name, a, r)
        return r

    def exceptions(self, name):
        return DOCUMENTED.get(name, []) + ["StorageException"] if name in DOCUMENTED else ["StorageException"]

    def representatives(self, E, excs):
        """Exceptions to consider: outside of every try statement they all have the same effect."""
        excs = list(excs)
        return excs if E.trydepth or self.all_exceptions else excs[-1:]

    def define_tok(self, E, ty, p, *eqs):
        """A fresh object together with what is known about it."""
        t = E.fresh(p, ty.sort())
        E.define(t, [f(t) for f in eqs])
        return VObj(ty.cls, t)

    def contract(self, E, q):
        if q == self.target:
            return None
        return getattr(self, "c_" + q.replace(".", "_"), None)

    def abstract(self, E, cls, name):
        if cls == "SessionManager":
            return getattr(self, "x" + name, None)
        return None

    # storage

    def kset(self, E, key, v):
        E.st.comps["D"] = z3.Store(E.st.comps["D"], key, v)

    def to_json(self, E, v):
        v = E.freeze(v)
        if isinstance(v, VNone):
            return JS.jnull
        if isinstance(v, VOpt):
            return If(v.isnone, JS.jnull, self.to_json(E, v.val))
        if isinstance(v, VBool):
            return JS.jbool(v.t)
        if isinstance(v, VInt):
            return JS.jint(v.t)
        if isinstance(v, VStr):
            return JS.jstr(v.t)
        if isinstance(v, Coll):
            if v.kind != "list":
                raise Unsupported(f"storing a {v.kind}")
            if v.items == []:
                return JS.jlist(TRUE, TRUE, z3.K(I, FALSE), z3.K(Str, FALSE))
            et = E.elem_type(v)
            e = Not(E.nonempty(v))
            if et == TInt:
                return JS.jlist(TRUE, e, E.coll_array(v, TInt), z3.K(Str, FALSE))
            if et == TStr:
                return JS.jlist(e, TRUE, z3.K(I, FALSE), E.coll_array(v, TStr))
            raise Unsupported(f"storing a list of {et}")
        if isinstance(v, VDict):
            if v.kt is None:
                return JS.jdict(z3.K(Str, FALSE), z3.K(Str, FALSE))
            if v.kt != TStr or v.vt != TBool:
                raise Unsupported("storing this kind of dictionary")
            dom, val = TDict(TStr, TBool).arrays(v)
            return JS.jdict(dom, val)
        raise Unsupported(f"storing {v!r}")

    def c_Storage_store(self, E, self_, key, value):
        k = key_of(E.force(key))
        j = MJ.just(self.to_json(E, value))

        def partial():
            nd = E.fresh("partial", B)
            E.st.comps["D"] = If(nd, z3.Store(E.st.comps["D"], k, j), E.st.comps["D"])
        return self.op(E, "store", {"key": k, "value": j}, lambda: (self.kset(E, k, j), NONE)[1], partial=partial)

    def c_Storage_store_bytes(self, E, self_, key, value):
        v = E.force(value)
        if not isinstance(v, VBytes):
            raise Unsupported("store_bytes of non-bytes")
        return self.c_Storage_store(E, self_, key, VStr(b64(v.t)))

    def c_Storage_delete(self, E, self_, key):
        k = key_of(E.force(key))

        def partial():
            nd = E.fresh("partial", B)
            E.st.comps["D"] = If(nd, z3.Store(E.st.comps["D"], k, MJ.nothing), E.st.comps["D"])
        return self.op(E, "delete", {"key": k}, lambda: (self.kset(E, k, MJ.nothing), NONE)[1], partial=partial)

    def load(self, E, key, well_typed, get):
        k = key_of(E.force(key))
        m = sel(E.st.comps["D"], k)
        ok = Or(Not(has(m)), well_typed(jv(m)))

        def eff():
            E.assume(ok)
            return VMaybe(Not(has(m)), get(jv(m)))
        if E.pure and ("load" in self.interest):
            raise Impure("load")
        watched = "load" in self.interest
        if watched:
            self.before(E, "load", {"key": k})
        out = E.choose(["ok"] + self.representatives(E, ["TypeError", "StorageException"]), "load")
        if out == "StorageException":
            E.throw(out, "load")
        if out == "TypeError":
            if is_true(ok):
                raise PathEnd()
            E.assume_feasible(Not(ok))
            E.throw(out, "load")
        return eff()

    @staticmethod
    def prim(p):
        n = p.name if isinstance(p, (VPy, VClass)) else p.kw.get("name") if isinstance(p, VSpecial) else None
        t = {"int": (JS.is_jint, JS.ji, VInt), "str": (JS.is_jstr, JS.js, VStr),
             "bool": (JS.is_jbool, JS.jb, VBool)}.get(n)
        if t is None:
            raise Unsupported(f"primitive type {p!r}")
        return n, t

    def c_Storage_load_primitive(self, E, self_, key, primitive):
        n, (rec, ac, cls) = self.prim(primitive)
        return self.load(E, key, lambda j: isc(rec, j), lambda j: cls(acc(ac, j)))

    def c_Storage_load_optional(self, E, self_, key, primitive):
        n, (rec, ac, cls) = self.prim(primitive)
        return self.load(E, key, lambda j: Or(isc(JS.is_jnull, j), isc(rec, j)),
                         lambda j: VOpt(isc(JS.is_jnull, j), cls(acc(ac, j))))

    def c_Storage_load_bytes(self, E, self_, key):
        def get(j):
            t = acc(JS.js, j)
            return VBytes(t.arg(0) if z3.is_app(t) and t.decl().name() == "b64" else unb64(t))
        return self.load(E, key, lambda j: isc(JS.is_jstr, j), get)

    def c_Storage_load_list(self, E, self_, key, primitive):
        n, _ = self.prim(primitive)
        if n == "int":
            return self.load(E, key, lambda j: And(isc(JS.is_jlist, j), acc(JS.jl_int, j)),
                             lambda j: arr_coll(TInt, acc(JS.jl_i, j), "list", distinct=False))
        if n == "str":
            return self.load(E, key, lambda j: And(isc(JS.is_jlist, j), acc(JS.jl_str, j)),
                             lambda j: arr_coll(TStr, acc(JS.jl_s, j), "list", distinct=False))
        raise Unsupported("list type")

    def c_Storage_load_dict(self, E, self_, key, primitive):
        n, _ = self.prim(primitive)
        if n != "bool":
            raise Unsupported("dict type")
        return self.load(E, key, lambda j: isc(JS.is_jdict, j),
                         lambda j: arr_dict(TStr, TBool, acc(JS.jd_dom, j), acc(JS.jd_val, j)))

    def c_Storage_load(self, E, self_, key):
        raise Unsupported("untyped load")

    # objects

    def obj_attr(self, E, o, name):
        if o.cls == "Backend":
            return self.backend_attr(E, o, name)
        if o.cls == "Session":
            if name == "namespace":
                return VStr(s_ns(o.t))
            if name == "bare_jid":
                return VStr(s_jid(o.t))
            if name == "device_id":
                return VInt(s_id(o.t))
            if name == "initiation":
                return VEnum("Initiation", self.s_init(o.t))
            if name == "key_exchange":
                return VObj("KeyExchange", s_ke(o.t))
            if name == "confirmed":
                return VBool(sel(E.st.comps["SC"], o.t))
            if name == "receiving_chain_length":
                return TOpt(TInt).frm(sel(E.st.comps["SR"], o.t))
            if name == "sending_chain_length":
                return VInt(s_scl(o.t))
        if o.cls == "Bundle":
            f = {"namespace": (VStr, bu_ns), "bare_jid": (VStr, bu_jid), "device_id": (VInt, bu_id),
                 "identity_key": (VBytes, bu_ik)}.get(name)
            if f:
                return f[0](f[1](o.t))
        if o.cls == "EncryptedKeyMaterial":
            f = {"bare_jid": (VStr, ek_jid), "device_id": (VInt, ek_id)}.get(name)
            if f:
                return f[0](f[1](o.t))
        if o.cls == "KeyExchange":
            if name == "identity_key":
                return VBytes(ke_ik(o.t))
            if name == "builds_same_session":
                return VPy(name, lambda E, a, kw: VBool(bss(o.t, E.force(a[0] if a else kw["other"]).t)))
        if o.cls == "Content" and name == "empty":
            return VBool(c_empty(o.t))
        if name == "__class__":
            return VClass(o.cls)
        raise Unsupported(f"attribute {name} of {o!r}")

    def s_init(self, s):
        return z3.Function("s_init", OB["Session"], ENUMS["Initiation"][0])(s)

    def backend_attr(self, E, o, name):
        if name == "namespace":
            return VStr(ns_of(o.t))
        r = E.repo.find_method("Backend", name)
        if r is None:
            E.throw("AttributeError", name)
        ci, node = r
        h = getattr(self, "b_" + name, None)
        if h is None:
            raise Unsupported(f"Backend.{name}")

        def f(E, a, kw):
            ba = E.bind_args(node, [o] + a, kw, ci)
            ba.pop("self")
            ba = {k: E.force(v) if isinstance(v, VOpt) else v for k, v in ba.items()}
            th = lambda: h(E, o, **ba)
            return VCoro(th, name) if isinstance(node, ast.AsyncFunctionDef) else th()
        return VPy(name, f)

    def spk(self, b, j, i):
        return SPK.mk(b, j, i)

    def b_load_session(self, E, b, bare_jid, device_id):
        def eff():
            j, i = bare_jid.t, device_id.t
            s = self.define_tok(E, TObj("Session"), "sess", lambda t: s_ns(t) == ns_of(b.t), lambda t: s_jid(t) == j,
                                lambda t: s_id(t) == i)
            return VOpt(Not(sel(E.st.comps["SP"], self.spk(b.t, j, i))), s)
        return self.op(E, "load_session", {"b": b, "jid": bare_jid, "id": device_id}, eff, mutates=False)

    def b_store_session(self, E, b, session):
        def eff():
            E.st.comps["SP"] = z3.Store(E.st.comps["SP"], self.spk(b.t, s_jid(session.t), s_id(session.t)), TRUE)
            return NONE

        def partial():
            nd = E.fresh("partial", B)
            E.st.comps["SP"] = If(nd, z3.Store(E.st.comps["SP"], self.spk(b.t, s_jid(session.t), s_id(session.t)),
                                               TRUE), E.st.comps["SP"])
        return self.op(E, "store_session", {"b": b, "session": session}, eff, partial=partial)

    def ekm(self, E, b, j, i, pkm, s):
        return self.define_tok(E, TObj("EncryptedKeyMaterial"), "ekm", lambda t: ek_jid(t) == j, lambda t: ek_id(t) == i,
                               lambda t: ek_b(t) == b, lambda t: ek_p(t) == pkm, lambda t: ek_s(t) == s)

    def b_build_session_active(self, E, b, bare_jid, device_id, bundle, plain_key_material):
        def eff():
            j, i = bare_jid.t, device_id.t
            s = self.define_tok(E, TObj("Session"), "newsess", lambda t: s_ns(t) == ns_of(b.t), lambda t: s_jid(t) == j,
                                lambda t: s_id(t) == i,
                                lambda t: self.s_init(t) == ENUMS["Initiation"][1]["ACTIVE"])
            E.st.comps["SC"] = z3.Store(E.st.comps["SC"], s.t, FALSE)
            return VTuple([s, self.ekm(E, b.t, j, i, plain_key_material.t, s.t)])
        return self.op(E, "build_session_active", {"b": b, "jid": bare_jid, "id": device_id, "bundle": bundle,
                                                   "pkm": plain_key_material}, eff)

    def b_build_session_passive(self, E, b, bare_jid, device_id, key_exchange, encrypted_key_material):
        def eff():
            j, i = bare_jid.t, device_id.t
            s = self.define_tok(E, TObj("Session"), "newsess", lambda t: s_ns(t) == ns_of(b.t), lambda t: s_jid(t) == j,
                                lambda t: s_id(t) == i,
                                lambda t: self.s_init(t) == ENUMS["Initiation"][1]["PASSIVE"])
            E.st.comps["SC"] = z3.Store(E.st.comps["SC"], s.t, E.fresh("conf", B))
            E.st.comps["SR"] = z3.Store(E.st.comps["SR"], s.t, E.fresh("rcl", opt_sort(I)))
            return VTuple([s, self.define_tok(E, TObj("PlainKeyMaterial"), "pkm")])
        return self.op(E, "build_session_passive", {"b": b, "jid": bare_jid, "id": device_id, "kex": key_exchange,
                                                    "ekm": encrypted_key_material}, eff)

    def b_encrypt_key_material(self, E, b, session, plain_key_material):
        return self.op(E, "encrypt_key_material", {"b": b, "session": session, "pkm": plain_key_material},
                       lambda: self.ekm(E, b.t, s_jid(session.t), s_id(session.t), plain_key_material.t, session.t))

    def b_decrypt_key_material(self, E, b, session, encrypted_key_material):
        def eff():
            E.st.comps["SC"] = z3.Store(E.st.comps["SC"], session.t, E.fresh("conf", B))
            E.st.comps["SR"] = z3.Store(E.st.comps["SR"], session.t, E.fresh("rcl", opt_sort(I)))
            return self.define_tok(E, TObj("PlainKeyMaterial"), "pkm")
        return self.op(E, "decrypt_key_material", {"b": b, "session": session, "ekm": encrypted_key_material}, eff)

    def b_encrypt_plaintext(self, E, b, plaintext):
        def eff():
            p = self.define_tok(E, TObj("PlainKeyMaterial"), "pkm")
            c = self.define_tok(E, TObj("Content"), "content", lambda t: c_b(t) == b.t, lambda t: c_p(t) == p.t,
                                lambda t: c_t(t) == plaintext.t, lambda t: Not(c_empty(t)))
            return VTuple([c, p])
        return self.op(E, "encrypt_plaintext", {"b": b, "plaintext": plaintext}, eff)

    def b_encrypt_empty(self, E, b):
        def eff():
            p = self.define_tok(E, TObj("PlainKeyMaterial"), "pkm")
            c = self.define_tok(E, TObj("Content"), "content", lambda t: c_b(t) == b.t, lambda t: c_p(t) == p.t,
                                lambda t: c_empty(t))
            return VTuple([c, p])
        return self.op(E, "encrypt_empty", {"b": b}, eff)

    def b_decrypt_plaintext(self, E, b, content, plain_key_material):
        return self.op(E, "decrypt_plaintext", {"b": b, "content": content, "pkm": plain_key_material},
                       lambda: VBytes(E.fresh("plaintext", Bytes)))

    def b_signed_pre_key_age(self, E, b):
        return self.op(E, "signed_pre_key_age", {"b": b}, lambda: VInt(E.fresh("age", I)), mutates=False)

    def touch(self, E, b, visible=None):
        """The public data of backend b changes."""
        c = E.st.comps
        ver = E.fresh("version", I)
        E.assume(And(ver > sel(c["BV"], b.t), ver >= 0))
        c["BV"] = z3.Store(c["BV"], b.t, ver)
        if visible is not None:
            c["VP"] = z3.Store(c["VP"], b.t, visible)

    def visible(self, E):
        n = E.fresh("visible", I)
        E.define(n, [n >= 0])
        return n

    def b_rotate_signed_pre_key(self, E, b):
        def eff():
            self.touch(E, b)
            return NONE
        return self.op(E, "rotate_signed_pre_key", {"b": b}, eff, partial=eff)

    def retire(self, E, op, b, session):
        def eff():
            r = E.fresh("changed", B)
            self.touch(E, b, self.visible(E))
            return VBool(r)
        return self.op(E, op, {"b": b, "session": session}, eff, partial=eff)

    def b_hide_pre_key(self, E, b, session):
        return self.retire(E, "hide_pre_key", b, session)

    def b_delete_pre_key(self, E, b, session):
        return self.retire(E, "delete_pre_key", b, session)

    def b_delete_hidden_pre_keys(self, E, b):
        return self.op(E, "delete_hidden_pre_keys", {"b": b})

    def b_get_num_visible_pre_keys(self, E, b):
        def eff():
            n = sel(E.st.comps["VP"], b.t)
            if not E.pure:
                E.assume(n >= 0)
            return VInt(n)
        return self.op(E, "get_num_visible_pre_keys", {"b": b}, eff, mutates=False)

    def b_generate_pre_keys(self, E, b, num_pre_keys):
        def eff():
            self.touch(E, b, sel(E.st.comps["VP"], b.t) + num_pre_keys.t)
            return NONE

        def partial():
            self.touch(E, b, self.visible(E))
        return self.op(E, "generate_pre_keys", {"b": b, "n": num_pre_keys}, eff, partial=partial)

    def b_get_bundle(self, E, b, bare_jid, device_id):
        def eff():
            v = sel(E.st.comps["BV"], b.t)
            return self.define_tok(E, TObj("Bundle"), "bundle", lambda t: bu_ns(t) == ns_of(b.t),
                                   lambda t: bu_jid(t) == bare_jid.t, lambda t: bu_id(t) == device_id.t,
                                   lambda t: bu_b(t) == b.t, lambda t: bu_ver(t) == v)
        return self.op(E, "get_bundle", {"b": b, "jid": bare_jid, "id": device_id}, eff, mutates=False)

    def current_own_bundle(self, E, t, b):
        """Formula: t is the current bundle of this device for backend b."""
        return And(bu_b(t) == b, bu_ver(t) == sel(E.st.comps["BV"], b), bu_jid(t) == self.own_jid,
                   bu_id(t) == self.own_id)

    def b_purge(self, E, b):
        return self.op(E, "purge", {"b": b})

    def b_purge_bare_jid(self, E, b, bare_jid):
        return self.op(E, "purge_bare_jid", {"b": b, "jid": bare_jid})

    # XMPP and trust callbacks

    def x_upload_bundle(self, E, bundle):
        return self.op(E, "_upload_bundle", {"bundle": bundle})

    def x_download_bundle(self, E, namespace, bare_jid, device_id):
        n, j, i = E.force(namespace).t, E.force(bare_jid).t, E.force(device_id).t
        return self.op(E, "_download_bundle", {"ns": n, "jid": j, "id": i}, lambda: self.define_tok(
            E, TObj("Bundle"), "bundle", lambda t: bu_ns(t) == n, lambda t: bu_jid(t) == j, lambda t: bu_id(t) == i))

    def x_delete_bundle(self, E, namespace, device_id):
        return self.op(E, "_delete_bundle", {"ns": E.force(namespace).t, "id": E.force(device_id).t})

    def x_upload_device_list(self, E, namespace, device_list):
        d = E.deref(E.force(device_list))
        return self.op(E, "_upload_device_list", {"ns": E.force(namespace).t, "list": d})

    def x_download_device_list(self, E, namespace, bare_jid):
        def eff():
            dom, val = E.fresh("dl_dom", DLD), E.fresh("dl_val", DLV)
            return E.alloc(arr_dict(TInt, TOpt(TStr), dom, val), "dl")
        return self.op(E, "_download_device_list", {"ns": E.force(namespace).t, "jid": E.force(bare_jid).t}, eff,
                       mutates=False)

    def x_evaluate_custom_trust_level(self, E, self_, device):
        d = E.force(device)
        if not isinstance(d, VRec):
            raise Unsupported("trust of a non-device")
        f = d.fields
        return self.op(E, "_evaluate_custom_trust_level", {"device": d}, lambda: VEnum("TrustLevel", evalT()(
            f["trust_level_name"].t, dev_key(d).kw["t"], f["identity_key"].t)), mutates=False)

    def x_make_trust_decision(self, E, self_, undecided, identifier):
        def eff():
            # the callback may set trust levels, and nothing else
            D = E.st.comps["D"]
            new = z3.Function(E.name("trustdec"), Key, MJ)

            def f(x):
                t = x
                r = new(t)
                return If(is_key(t, "", "trust", None, None), If(j_is(r, "str"), r, sel(D, t)), sel(D, t))
            E.st.comps["D"] = self.bulk(E, f)
            return NONE
        return self.op(E, "_make_trust_decision", {"undecided": E.as_coll(undecided), "identifier": identifier}, eff)

    def x_send_message(self, E, message, bare_jid):
        return self.op(E, "_send_message", {"message": E.force(message), "jid": E.force(bare_jid).t})

    def bulk(self, E, f):
        """A storage D' with D'[x] == f(x) for every key x."""
        x = z3.Const(E.name("kx"), Key)
        body = f(x)
        a = E.fresh("Db", z3.ArraySort(Key, MJ))
        E.st.arrdefs[a.decl().name()] = (list(a.children()), x, body)
        return a

    # ------------------------------------------------------------------------------------------------ contracts
    # of repository functions that callers are checked against

    def info_update(self, E, D, cond_jid):
        """
        Storage after device information was queried for the bare JIDs satisfying cond_jid: missing identity keys of
        known devices may have been recorded, and supported namespaces without activity information dropped.
        """
        newik = z3.Function(E.name("newik"), Key, opt_sort(Str))
        done = z3.Function(E.name("nsdone"), Key, B)
        o = opt_sort(Str)
        memo = {}

        def f(x):
            j = seg(x, 2)
            i = z3.Function("int_of_str", Str, I)(seg(x, 3))
            known = And(cond_jid(j), eqt(s_of_int(i), seg(x, 3)), int_in(sel(D, devlist(j)), i))
            isik = And(is_key(x, "", "devices", None, None, SEG_IK), known, Not(has(sel(D, x))))
            isns = And(is_key(x, "", "devices", None, None, SEG_NS), known, done(x), j_is(sel(D, x), "list"))
            dropped = self.dropped_ns(E, D, x)
            r = newik(x)
            return If(isik, If(isc(o.is_some, r), MJ.just(JS.jstr(acc(o.val, r))), MJ.nothing),
                      If(isns, MJ.just(JS.jlist(FALSE, TRUE, z3.K(I, FALSE), dropped)), sel(D, x)))
        a = self.bulk(E, f)
        # what reading an element of a list of strings in this storage amounts to
        params, x, _ = E.st.arrdefs[a.decl().name()]
        y = z3.Const(E.name("ky"), Str)
        r = sel(j_strs(f(x)), y)
        E.st.arrdefs[a.decl().name() + "@strs"] = (params, (x, y), r)
        return a

    def dropped_ns(self, E, D, x):
        """Array: the namespaces stored at key x that have activity information."""
        n = E.name("nsa")
        fn = z3.Function(n, Key, StrSet)
        a = fn(x)
        y = z3.Const(n + "y", Str)
        ak = mkkey("", "devices", seg(x, 2), seg(x, 3), SEG_ACT)
        E.st.arrdefs[n] = ([x], y, And(sel(j_strs(sel(D, x)), y), dict_has(sel(D, ak), y)))
        return a

    def device_record(self, E, D):
        """The DeviceInformation record of a device key, as on record in D."""
        R = Recs(E, D, self.undecided)

        def rec(k):
            j, i = acc(DevKey.dk_jid, k), acc(DevKey.dk_id, k)
            ik = R.ik(j, i)
            act = jv(R.at(dev(j, i, SEG_ACT)))
            return VRec("DeviceInformation", {
                "namespaces": arr_coll(TStr, j_strs(R.at(dev(j, i, SEG_NS)))),
                "active": VItems(arr_dict(TStr, TBool, acc(JS.jd_dom, act), acc(JS.jd_val, act))),
                "bare_jid": VStr(j), "device_id": VInt(i), "identity_key": VBytes(ik),
                "trust_level_name": VStr(R.trust(j, ik)), "label": TOpt(TStr).frm(R.label(j, i))})
        return rec

    def device_member(self, E, D, k, cond_jid):
        R = Recs(E, D, self.undecided)
        j, i = acc(DevKey.dk_jid, k), acc(DevKey.dk_id, k)
        return And(cond_jid(j), R.listed(j, i), R.has_ik(j, i))

    def complete(self, E, D, j, i):
        """What a query established about the records of a device it returned."""
        R = Recs(E, D, self.undecided)
        lbl = R.at(dev(j, i, SEG_LBL))
        return And(j_is(R.at(dev(j, i, SEG_NS)), "list"), j_is(R.at(dev(j, i, SEG_ACT)), "dict"),
                   Or(j_is(lbl, "null"), j_is(lbl, "str")),
                   Implies(has(R.at(trustkey(j, R.ik(j, i)))), j_is(R.at(trustkey(j, R.ik(j, i))), "str")))

    UPDATE_EXC = ("UnknownNamespace", "DeviceListUploadFailed", "NothingException", "StorageException", "TypeError")

    def upd_storage(self, E, D, n, j):
        """
        Storage after a device list of bare JID j for namespace n was (possibly only partially) processed: known devices
        stay known and keep their support and activity for other namespaces; identity keys, trust and everything about
        other bare JIDs is unchanged.
        """
        u = E.name("upd")
        newid = z3.Function(u + "id", I, B)
        nsel = z3.Function(u + "ns", Key, B)
        asel = z3.Function(u + "act", Key, B)
        aval = z3.Function(u + "actv", Key, B)
        lsel = z3.Function(u + "lbl", Key, B)
        lval = z3.Function(u + "lblv", Key, JS)
        changed = z3.Const(u + "list", B)

        x = z3.Const(E.name("lx"), I)
        lnew = E.fresh("lnew", IntSet)
        old = sel(D, devlist(j))
        E.st.arrdefs[lnew.decl().name()] = (list(lnew.children()), x, Or(int_in(old, x), newid(x)))

        def f(x):
            mine = is_key(x, "", "devices", j, None, None)
            i = z3.Function("int_of_str", Str, I)(seg(x, 3))
            isid = eqt(s_of_int(i), seg(x, 3))
            known = And(isid, int_in(old, i))
            m = sel(D, x)
            lval_ok = Or(isc(JS.is_jnull, lval(x)), isc(JS.is_jstr, lval(x)))
            nsk = And(mine, eqt(seg(x, 4), strconst(SEG_NS)), isid, nsel(x))
            actk = And(mine, eqt(seg(x, 4), strconst(SEG_ACT)), isid, asel(x))
            lblk = And(mine, eqt(seg(x, 4), strconst(SEG_LBL)), isid, lsel(x), lval_ok)
            kn_ns = And(known, j_is(m, "list"))
            kn_act = And(known, j_is(m, "dict"))
            e_s, e_d = z3.K(Str, FALSE), z3.K(Str, FALSE)
            ns1 = If(kn_ns, MJ.just(JS.jlist(FALSE, TRUE, z3.K(I, FALSE), z3.Store(j_strs(m), n, TRUE))),
                     If(known, m, MJ.just(JS.jlist(FALSE, TRUE, z3.K(I, FALSE), z3.Store(e_s, n, TRUE)))))
            act1 = If(kn_act, MJ.just(JS.jdict(z3.Store(acc(JS.jd_dom, jv(m)), n, TRUE),
                                               z3.Store(acc(JS.jd_val, jv(m)), n, aval(x)))),
                      If(known, m, MJ.just(JS.jdict(z3.Store(e_d, n, TRUE), z3.Store(e_d, n, TRUE)))))
            lst = MJ.just(JS.jlist(TRUE, FALSE, lnew, z3.K(Str, FALSE)))
            return If(And(eqt(x, devlist(j)), changed), lst,
                      If(nsk, ns1, If(actk, act1, If(lblk, MJ.just(lval(x)), m))))
        return self.bulk(E, f)

    def list_contract(self, E, op, a, excs):
        """Contract of update_device_list and refresh_device_list."""
        def eff():
            E.st.comps["D"] = self.upd_storage(E, E.st.comps["D"], a["ns"], a["jid"])
            return NONE
        return self.op(E, op, a, eff, excs=excs, partial=eff)

    def c_SessionManager_refresh_device_list(self, E, self_, namespace, bare_jid):
        return self.list_contract(E, "refresh_device_list", {"ns": E.force(namespace).t, "jid": E.force(bare_jid).t},
                                  self.UPDATE_EXC + ("DeviceListDownloadFailed",))

    def c_SessionManager_update_device_list(self, E, self_, namespace, bare_jid, device_list):
        return self.list_contract(E, "update_device_list", {
            "ns": E.force(namespace).t, "jid": E.force(bare_jid).t, "list": E.deref(E.force(device_list))},
            self.UPDATE_EXC)

    def c_SessionManager__SessionManager__get_device_information(self, E, self_, bare_jid):
        j = E.force(bare_jid).t
        if "get_device_information" in self.interest and E.pure:
            raise Impure("get_device_information")
        if E.pure:
            if not (E.comp_stack and E.binders and len(E.binders) == 1 and j.eq(E.binders[-1])):
                raise Impure("get_device_information")
            return self.bulk_info(E, j)
        self.querying(E)
        if "get_device_information" in self.interest:
            self.before(E, "get_device_information", {"jid": j})
        D = E.st.comps["D"]
        D1 = self.info_update(E, D, lambda x: eqt(x, j))
        E.st.comps["D"] = D1
        out = E.choose(["ok"] + self.representatives(E, ["NothingException", "StorageException"]), "get_device_information")
        if out != "ok":
            E.throw(out, "get_device_information")
        r = self.info_result(E, D1, j, lambda x: eqt(x, j))
        if "get_device_information" in self.interest:
            self.after(E, "get_device_information", {"jid": j}, r)
        return r

    def info_result(self, E, D1, j, cond):
        rec = self.device_record(E, D1)
        if not E.pure:
            self.info_facts(E, D1, cond)
        devices = keyed_coll("frozenset", lambda k: self.device_member(E, D1, k, cond), rec, jid=j)
        bt = TObj("Bundle")
        bc = z3.Function(E.name("bcache"), OB["Bundle"], B)
        bundles = Coll("frozenset", bt, lambda b: And(bc(b.t), eqt(bu_jid(b.t), j)), et=bt)
        return VTuple([devices, bundles])

    def info_facts(self, E, D1, cond):
        """Facts about every device returned: complete records, activity information for every namespace."""
        q = z3.Const(E.name("q"), DevKey)
        j, i = acc(DevKey.dk_jid, q), acc(DevKey.dk_id, q)
        m = self.device_member(E, D1, q, cond)
        R = Recs(E, D1, self.undecided)
        E.add_forall(q, Implies(m, self.complete(E, D1, j, i)))
        nm = E.name("infons")
        # namespaces of a returned device have activity information, instantiated on every membership test
        self.ns_active = getattr(self, "ns_active", [])
        qn = z3.Const(E.name("qn"), Str)
        g = z3.Function(nm, DevKey, B)
        E.define(g(q), [], [(qn, Implies(And(m, R.ns(j, i, qn)), R.act_has(j, i, qn)))])
        E.add_forall(q, g(q))

    def bulk_info(self, E, b):
        """__get_device_information within a comprehension over bare JIDs."""
        _, coll, pend = E.comp_stack[-1]
        st = getattr(coll, "bulk_info", None)
        D = E.st.comps["D"]
        if st is None or st["D"] is not D or st["serial"] != E.serial:
            def cond(x):
                return coll.smem(TStr.frm(x))
            st = coll.bulk_info = {"D": D, "serial": E.serial, "D1": None, "cond": cond}

            def pre(E):
                self.querying(E)
                E.st.comps["D"] = st["D1"]

            def ok(E):
                self.info_facts(E, st["D1"], cond)
            pend.append({"pre": pre, "ok": ok, "fail": lambda E: None})
            save = E.binders
            E.binders = []
            try:
                st["D1"] = self.info_update(E, D, cond)
            finally:
                E.binders = save
            st["bc"] = z3.Function(E.name("bcache"), OB["Bundle"], B)
            st["rec"] = self.device_record(E, st["D1"])
        out = E.choose(["ok"] + self.representatives(E, ["NothingException", "StorageException"]), "get_device_information")
        if out != "ok":
            E.throw(out, "get_device_information")
        bt = TObj("Bundle")
        D1 = st["D1"]
        devices = keyed_coll("frozenset", lambda k: self.device_member(E, D1, k, lambda x: eqt(x, b)), st["rec"], jid=b)
        bc = st["bc"]
        bundles = Coll("frozenset", bt, lambda u: And(bc(u.t), eqt(bu_jid(u.t), b)), et=bt)
        return VTuple([devices, bundles])
