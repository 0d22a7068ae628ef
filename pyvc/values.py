"""
Symbolic values of the verifier: SMT sorts, type descriptors and meta-level values.

Every Python value the executor manipulates is an instance of ``V``. Scalars wrap an SMT term; immutable collections
and dictionaries are membership functions; mutable objects are references (``VRef``) to heap cells holding such values.
A type descriptor ``T`` converts between a value and the SMT term that represents it.
"""
import z3


class Unsupported(Exception):
    """The code under verification leaves the supported subset."""


Str = z3.DeclareSort("Str")
Bytes = z3.DeclareSort("Bytes")
Exc = z3.DeclareSort("Exc")
OBJ = {n: z3.DeclareSort(n) for n in (
    "Backend", "Session", "Bundle", "EncryptedKeyMaterial", "KeyExchange", "Content", "PlainKeyMaterial", "Opaque", "Maybe",
    "JSONValue")}
ENUMS = {}


def declare_enum(cls, names):
    if cls not in ENUMS:
        s, cs = z3.EnumSort("Enum" + cls, list(names))
        ENUMS[cls] = (s, dict(zip(names, cs)))


def _dt(name, ctors):
    d = z3.Datatype(name)
    for c, *fs in ctors:
        d.declare(c, *fs)
    return d.create()


I, B = z3.IntSort(), z3.BoolSort()
DevKey = _dt("DevKey", [("devkey", ("dk_jid", Str), ("dk_id", I))])
NSEG = 6
# A storage key is the sequence of its '/'-separated segments.
Key = _dt("Key", [("key", ("k_n", I), *[(f"k_{i}", Str) for i in range(NSEG)])])
IntSet = z3.ArraySort(I, B)
StrSet = z3.ArraySort(Str, B)
JS = _dt("JSON", [
    ("jnull",), ("jbool", ("jb", B)), ("jint", ("ji", I)), ("jstr", ("js", Str)),
    # a list, abstracted to the set of its elements
    ("jlist", ("jl_int", B), ("jl_str", B), ("jl_i", IntSet), ("jl_s", StrSet)),
    ("jdict", ("jd_dom", StrSet), ("jd_val", StrSet)),
    ("jother",)])
MJ = _dt("MaybeJSON", [("nothing",), ("just", ("jv", JS))])

s_of_int = z3.Function("str_of_int", I, Str)
b64 = z3.Function("b64", Bytes, Str)
unb64 = z3.Function("unb64", Str, Bytes)
cat = z3.Function("cat", Str, Str, Str)
NOSTR = z3.Const("nostr", Str)

_opt, _tup = {}, {}


def opt_sort(s):
    n = s.sexpr()
    if n not in _opt:
        d = _opt[n] = _dt(f"Opt<{n}>", [(f"none<{n}>",), (f"some<{n}>", (f"val<{n}>", s))])
        for a, full in (("none", f"none<{n}>"), ("some", f"some<{n}>"), ("val", f"val<{n}>"),
                        ("is_none", f"is_none<{n}>"), ("is_some", f"is_some<{n}>")):
            setattr(d, a, getattr(d, full))
    return _opt[n]


def tup_sort(sorts):
    n = ",".join(s.sexpr() for s in sorts)
    if n not in _tup:
        d = _tup[n] = _dt(f"Tup<{n}>", [(f"mk<{n}>", *[(f"e{i}<{n}>", s) for i, s in enumerate(sorts)])])
        d.mk = getattr(d, f"mk<{n}>")
        for i in range(len(sorts)):
            setattr(d, f"e{i}", getattr(d, f"e{i}<{n}>"))
    return _tup[n]


STRC = {}
STRC_BY_ID = {}


def strconst(s):
    if s not in STRC:
        c = z3.Const("s:" + s, Str)
        STRC[s] = c
        STRC_BY_ID[c.get_id()] = s
    return STRC[s]


strconst("")

# --------------------------------------------------------------------------------------------------------------
# simplifying term constructors
#
# Terms are rebuilt on every path; the constructors are memoised on the identities of their arguments (which are kept
# alive, so that identities are not reused).

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)


def tid(t):
    """Identity of a term."""
    try:
        return t._vid
    except AttributeError:
        t._vid = i = t.get_id()
        return i


_T, _F = tid(TRUE), tid(FALSE)
_KIND = {}
_KEEP = []


def is_true(t):
    return tid(t) == _T


def is_false(t):
    return tid(t) == _F


def kind(t):
    """Declaration kind of an application, -1 for other terms."""
    i = tid(t)
    k = _KIND.get(i)
    if k is None:
        k = t.decl().kind() if z3.is_app(t) else -1
        _KIND[i] = k
        _KEEP.append(t)
    return k


def memo(fn):
    table = {}

    def f(*a):
        k = tuple([tid(x) for x in a])
        r = table.get(k)
        if r is None:
            r = fn(*a)
            table[k] = r
            _KEEP.append((a, r))
        return r
    f.table = table
    f.__doc__ = fn.__doc__
    return f


def BV(b):
    return TRUE if b else FALSE


@memo
def And(*a):
    a = [x for x in a if not is_true(x)]
    if any(is_false(x) for x in a):
        return FALSE
    if not a:
        return TRUE
    return a[0] if len(a) == 1 else z3.And(*a)


@memo
def Or(*a):
    a = [x for x in a if not is_false(x)]
    if any(is_true(x) for x in a):
        return TRUE
    if not a:
        return FALSE
    return a[0] if len(a) == 1 else z3.Or(*a)


@memo
def Not(a):
    if is_true(a):
        return FALSE
    if is_false(a):
        return TRUE
    if kind(a) == z3.Z3_OP_NOT:
        return a.arg(0)
    return z3.Not(a)


@memo
def Implies(a, b):
    if is_true(a):
        return b
    if is_false(a) or is_true(b):
        return TRUE
    if is_false(b):
        return Not(a)
    return z3.Implies(a, b)


@memo
def Iff(a, b):
    if tid(a) == tid(b):
        return TRUE
    if is_true(a):
        return b
    if is_true(b):
        return a
    if is_false(a):
        return Not(b)
    if is_false(b):
        return Not(a)
    return a == b


@memo
def If(c, a, b):
    if is_true(c):
        return a
    if is_false(c):
        return b
    if tid(a) == tid(b):
        return a
    if a.sort() == B:
        if is_true(a):
            return Or(c, b)
        if is_false(a):
            return And(Not(c), b)
        if is_true(b):
            return Or(Not(c), a)
        if is_false(b):
            return And(c, a)
    return z3.If(c, a, b)


def is_ite(t):
    return kind(t) == z3.Z3_OP_ITE


def dname(t):
    return t.decl().name() if kind(t) != -1 else None


def is_ctor(t):
    return kind(t) == z3.Z3_OP_DT_CONSTRUCTOR


@memo
def eqt(a, b):
    """Equality of two terms, simplified structurally."""
    if tid(a) == tid(b):
        return TRUE
    s = a.sort()
    if is_ite(a):
        x, y = eqt(a.arg(1), b), eqt(a.arg(2), b)
        if is_true(x) or is_false(x) or is_true(y) or is_false(y):
            return If(a.arg(0), x, y)
        return a == b
    if is_ite(b):
        return eqt(b, a) if not is_ite(a) else a == b
    if s == Str:
        ca, cb = STRC_BY_ID.get(tid(a)), STRC_BY_ID.get(tid(b))
        if ca is not None and cb is not None:
            return BV(ca == cb)
        na, nb = dname(a), dname(b)
        if na == "nostr" or nb == "nostr":
            if (ca is not None or cb is not None or na in ("str_of_int", "b64") or nb in ("str_of_int", "b64")):
                return FALSE
        for f in ("str_of_int", "b64"):
            if na == f and nb == f:
                return eqt(a.arg(0), b.arg(0))
        if na == "str_of_int" and cb is not None or nb == "str_of_int" and ca is not None:
            c, t = (cb, a) if cb is not None else (ca, b)
            try:
                return eqt(t.arg(0), z3.IntVal(int(c)))
            except ValueError:
                return FALSE
        return a == b
    if s == I:
        if z3.is_int_value(a) and z3.is_int_value(b):
            return BV(a.as_long() == b.as_long())
        return a == b
    if s == B:
        return Iff(a, b)
    if is_ctor(a) and is_ctor(b):
        if a.decl().name() != b.decl().name():
            return FALSE
        return And(*[eqt(a.arg(i), b.arg(i)) for i in range(a.num_args())])
    return a == b


@memo
def sel(a, i):
    """Select, pushed through stores and conditionals."""
    if is_ite(a):
        return If(a.arg(0), sel(a.arg(1), i), sel(a.arg(2), i))
    if kind(a) == z3.Z3_OP_STORE:
        c = eqt(a.arg(1), i)
        if is_true(c):
            return a.arg(2)
        if is_false(c):
            return sel(a.arg(0), i)
        return If(c, a.arg(2), sel(a.arg(0), i))
    if kind(a) == z3.Z3_OP_CONST_ARRAY:
        return a.arg(0)
    return z3.Select(a, i)


@memo
def acc(fn, t):
    """Datatype accessor, pushed through constructors and conditionals."""
    if is_ite(t):
        return If(t.arg(0), acc(fn, t.arg(1)), acc(fn, t.arg(2)))
    if is_ctor(t):
        dt = t.sort()
        for ci in range(dt.num_constructors()):
            if dt.constructor(ci).name() == t.decl().name():
                for ai in range(dt.constructor(ci).arity()):
                    if dt.accessor(ci, ai).name() == fn.name():
                        return t.arg(ai)
    return fn(t)


@memo
def isc(fn, t):
    """Datatype recogniser, pushed through constructors and conditionals."""
    if is_ite(t):
        return If(t.arg(0), isc(fn, t.arg(1)), isc(fn, t.arg(2)))
    if is_ctor(t):
        return z3.simplify(fn(t))
    return fn(t)


_SUBST = {}


def subst(t, *subs):
    """Memoised substitution."""
    if not subs:
        return t
    k = (tid(t), tuple([(tid(x), tid(y)) for x, y in subs]))
    r = _SUBST.get(k)
    if r is None:
        r = z3.substitute(t, *subs)
        _SUBST[k] = r
        _KEEP.append((t, subs, r))
    return r


def _fast_getters():
    """Skip error checks and argument conversion of the term inspection functions of the z3 bindings."""
    import z3.z3core as core

    class NoCheck:
        def __init__(self, e):
            self.__dict__.update(e.__dict__)

        def Check(self, ctx):
            pass
    for n in ("Z3_get_ast_id", "Z3_get_ast_kind", "Z3_inc_ref", "Z3_dec_ref", "Z3_get_sort", "Z3_get_app_decl",
              "Z3_get_decl_kind", "Z3_get_sort_kind", "Z3_is_eq_ast", "Z3_get_app_num_args", "Z3_get_app_arg",
              "Z3_is_eq_sort", "Z3_get_decl_name", "Z3_get_symbol_kind", "Z3_is_finite_set_sort"):
        f = getattr(core, n, None)
        if f is not None and f.__defaults__ and hasattr(f.__defaults__[-1], "Check"):
            f.__defaults__ = f.__defaults__[:-1] + (NoCheck(f.__defaults__[-1]),)


def _memo_calls():
    orig, table = z3.FuncDeclRef.__call__, {}

    def call(self, *args):
        try:
            k = (tid(self), *[tid(x) for x in args])
        except AttributeError:
            return orig(self, *args)
        r = table.get(k)
        if r is None:
            r = orig(self, *args)
            table[k] = r
            _KEEP.append((self, args))
        return r
    z3.FuncDeclRef.__call__ = call

    orig_eq, table_eq = z3.ExprRef.__eq__, {}

    def eq(self, other):
        if not isinstance(other, z3.ExprRef):
            return orig_eq(self, other)
        k = (tid(self), tid(other))
        r = table_eq.get(k)
        if r is None:
            r = orig_eq(self, other)
            table_eq[k] = r
            _KEEP.append((self, other))
        return r
    z3.ExprRef.__eq__ = eq


_fast_getters()
_memo_calls()

# --------------------------------------------------------------------------------------------------------------
# values


class V:
    pass


class VNone(V):
    def __repr__(self):
        return "None"


NONE = VNone()


class VUndef(V):
    """A local that may be unbound or unknown here."""


UNDEF = VUndef()


class VUnmerged(VUndef):
    """A value that differs between the outcomes of the merged piece of code ``node`` in a way that cannot be joined."""

    def __init__(self, node):
        self.node = node


class VBool(V):
    def __init__(self, t):
        self.t = BV(t) if isinstance(t, bool) else t

    def __repr__(self):
        return f"Bool({self.t})"


class VInt(V):
    def __init__(self, t, length_of=None):
        self.t = z3.IntVal(t) if isinstance(t, int) else t
        self.length_of = length_of

    def __repr__(self):
        return f"Int({self.t})"

    def concrete(self):
        s = z3.simplify(self.t)
        return s.as_long() if z3.is_int_value(s) else None


class VStr(V):
    """A string: a concatenation of constants (python str) and opaque Str terms."""

    def __init__(self, *parts):
        out = []
        for p in parts:
            if not isinstance(p, str) and tid(p) in STRC_BY_ID:
                p = STRC_BY_ID[tid(p)]
            if isinstance(p, str):
                if p == "":
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += p
                    continue
            out.append(p)
        self.parts = tuple(out)

    def const(self):
        if not self.parts:
            return ""
        if len(self.parts) == 1 and isinstance(self.parts[0], str):
            return self.parts[0]
        return None

    @property
    def t(self):
        if not self.parts:
            return strconst("")
        ts = [strconst(p) if isinstance(p, str) else p for p in self.parts]
        r = ts[0]
        for x in ts[1:]:
            r = cat(r, x)
        return r

    def __repr__(self):
        return f"Str{self.parts}"


class VChars(V):
    """A string or byte string of statically known length with symbolic characters."""

    def __init__(self, chars, kind="str"):
        self.chars = tuple(chars)
        self.kind = kind


class VBytes(V):
    def __init__(self, t, n=None, text=None):
        self.t = t
        self.n = n
        self.text = text    # VStr if these bytes are the ASCII form of a string

    def __repr__(self):
        return f"Bytes({self.t})"


class VEnum(V):
    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return f"{self.cls}.{self.t}"


class VObj(V):
    """An opaque object of an abstract class (backend, session, bundle, ...)."""

    def __init__(self, cls, t):
        self.cls = cls
        self.t = t

    def __repr__(self):
        return f"{self.cls}({self.t})"


class VOpt(V):
    def __init__(self, isnone, val):
        self.isnone = isnone
        self.val = val

    def __repr__(self):
        return f"Opt({self.isnone},{self.val})"


class VMaybe(V):
    def __init__(self, isnothing, val):
        self.isnothing = isnothing
        self.val = val


class VTuple(V):
    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"Tuple{self.items}"


class VRec(V):
    def __init__(self, cls, fields):
        self.cls = cls
        self.fields = dict(fields)

    def __repr__(self):
        return f"{self.cls}{self.fields}"


class VRef(V):
    """Reference to a mutable heap cell."""

    def __init__(self, id_):
        self.id = id_

    def __repr__(self):
        return f"Ref({self.id})"


class VExc(V):
    """An exception. ``cls`` is its class name; '?' one of several exceptions (which can be passed on, but not raised)."""

    def __init__(self, cls, fields=None, origin=None, term=None):
        self.cls = cls
        self.fields = dict(fields or {})
        self.origin = origin
        self.t = term

    @property
    def own(self):
        """Raised by a raise statement of the code under verification (not by an operation or the interpreter)."""
        return (self.origin or "raise").startswith("raise")

    def __repr__(self):
        return f"Exc({self.cls},{self.origin})"


class VClass(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"Class({self.name})"


class VModule(V):
    def __init__(self, name):
        self.name = name


class VFunc(V):
    def __init__(self, node, fid, module, cls, is_async=False):
        self.node, self.fid, self.module, self.cls, self.is_async = node, fid, module, cls, is_async


class VPy(V):
    """A builtin implemented by the verifier: f(engine, args, kwargs) -> V."""

    def __init__(self, name, f):
        self.name, self.f = name, f

    def __repr__(self):
        return f"Py({self.name})"


class VMethod(V):
    """A method of a repository class bound to a receiver."""

    def __init__(self, cls, name, recv):
        self.cls, self.name, self.recv = cls, name, recv


class VCoro(V):
    def __init__(self, thunk, desc=""):
        self.thunk = thunk
        self.desc = desc


class VInst(V):
    """Instance of a repository class; attributes live in the heap."""

    def __init__(self, cls, id_):
        self.cls, self.id = cls, id_

    def __repr__(self):
        return f"Inst({self.cls},{self.id})"


class VSpecial(V):
    def __init__(self, kind, **kw):
        self.kind = kind
        self.kw = kw

    def __repr__(self):
        return f"Special({self.kind})"


class VDict(V):
    """Mapping: ``dom`` maps a key value to a formula, ``val`` to a value. kt None: untyped empty dictionary."""

    def __init__(self, kt=None, vt=None, dom=None, val=None):
        self.kt, self.vt = kt, vt
        self.dom = dom or (lambda k: FALSE)
        self.val = val


class VItems(V):
    """The items (or a frozen copy of the items) of a dictionary."""

    def __init__(self, d):
        self.d = d


class Coll(V):
    """
    A collection: the images under ``out`` of the source elements (of type ``st``) for which ``smem`` holds. ``inv``
    maps an element back to its source element; ``idx`` gives the position of a source element in an ordered collection.
    ``items`` is set for collections of statically known size.
    """

    def __init__(self, kind, st, smem, out=None, inv=None, idx=None, items=None, et=None, distinct=True, tags=(),
                 jid=None):
        self.kind, self.st, self.smem, self.out, self.inv, self.idx = kind, st, smem, out, inv, idx
        self.items = items
        self.distinct = distinct
        self.et = et if et is not None else (st if out is None else None)
        self.tags = frozenset(tags)
        self.jid = jid          # all elements of this keyed collection belong to this bare JID
        self.cache = {}

    def elem(self, s):
        return s if self.out is None else self.out(s)

    @property
    def keyed(self):
        return self.st is not None and self.st == TDevKey

    def copy(self, kind=None, smem=None):
        setlike = (kind or self.kind) in ("set", "frozenset")
        c = Coll(kind or self.kind, self.st, smem or self.smem, self.out, self.inv, None if setlike else self.idx,
                 self.items if smem is None else None, self.et, self.distinct or setlike, self.tags, self.jid)
        if smem is None:
            c.cache = self.cache
        return c


# --------------------------------------------------------------------------------------------------------------
# type descriptors


class T:
    name = "?"

    def __repr__(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, T) and self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)


class TScalar(T):
    def __init__(self, name, sort, cls):
        self.name, self._sort, self.cls = name, sort, cls

    def sort(self):
        return self._sort

    def to(self, v):
        if isinstance(v, self.cls):
            return v.t
        raise Unsupported(f"expected {self.name}, got {v!r}")

    def frm(self, t):
        return self.cls(t)


TInt, TBool, TStr, TBytes = (TScalar("int", I, VInt), TScalar("bool", B, VBool), TScalar("str", Str, VStr),
                             TScalar("bytes", Bytes, VBytes))


class TExcC(T):
    name = "exc"

    def sort(self):
        return Exc

    def to(self, v):
        if isinstance(v, VExc):
            if v.t is None:
                raise Unsupported("exception without term")
            return v.t
        raise Unsupported(f"expected exception, got {v!r}")

    def frm(self, t):
        return VExc("?", term=t)


class TDevKeyC(T):
    name = "devkey"

    def sort(self):
        return DevKey

    def to(self, v):
        return v.kw["t"]

    def frm(self, t):
        return VSpecial("devkey", t=t)


TExc, TDevKey = TExcC(), TDevKeyC()


class TNoneC(T):
    """The type of None, within tuples."""
    name = "None"

    def sort(self):
        return B

    def to(self, v):
        if isinstance(v, VNone):
            return TRUE
        raise Unsupported(f"expected None, got {v!r}")

    def frm(self, t):
        return NONE


TNone = TNoneC()


def lub(a, b):
    """The smallest type containing both, or None."""
    if a == b:
        return a
    if isinstance(a, TNoneC):
        return b if isinstance(b, TOpt) else TOpt(b)
    if isinstance(b, TNoneC):
        return lub(b, a)
    if isinstance(a, TOpt) or isinstance(b, TOpt):
        r = lub(a.inner if isinstance(a, TOpt) else a, b.inner if isinstance(b, TOpt) else b)
        return None if r is None else r if isinstance(r, TOpt) else TOpt(r)
    if isinstance(a, TTup) and isinstance(b, TTup) and len(a.ts) == len(b.ts):
        ts = [lub(x, y) for x, y in zip(a.ts, b.ts)]
        return None if None in ts else TTup(ts)
    return None


def narrow(ty, y):
    """(condition under which value y belongs to type ty, y as a value of that type)."""
    if isinstance(ty, TOpt):
        if isinstance(y, VOpt):
            c, v = narrow(ty.inner, y.val)
            return Or(y.isnone, c), y if v is y.val else VOpt(y.isnone, v)
        if isinstance(y, VNone):
            return TRUE, y
        return narrow(ty.inner, y)
    if isinstance(y, VOpt):
        if isinstance(ty, TNoneC):
            return y.isnone, NONE
        c, v = narrow(ty, y.val)
        return And(Not(y.isnone), c), v
    if isinstance(y, VNone) != isinstance(ty, TNoneC):
        return FALSE, y
    if isinstance(ty, TTup) and isinstance(y, VTuple):
        if len(ty.ts) != len(y.items):
            return FALSE, y
        r = [narrow(t, x) for t, x in zip(ty.ts, y.items)]
        if all(v is x for (_, v), x in zip(r, y.items)):
            return And(*[c for c, _ in r]), y
        return And(*[c for c, _ in r]), VTuple([v for _, v in r])
    return TRUE, y


def widen(c, et):
    """Collection c with elements regarded as of the wider type et."""
    if c.et == et or not c.items and c.items is not None:
        return c
    if c.items is not None:
        c = items_to_coll(c)
        if c.et == et:
            return c
    old = c

    def smem(y):
        ok, v = narrow(old.et, y)
        return FALSE if is_false(ok) else And(ok, ENGINE.mem(old, v))
    return Coll(c.kind, et, smem, et=et, distinct=c.distinct)


class TObj(T):
    def __init__(self, cls):
        self.cls = self.name = cls

    def sort(self):
        return OBJ[self.cls]

    def to(self, v):
        if isinstance(v, VObj) and v.cls == self.cls:
            return v.t
        raise Unsupported(f"expected {self.cls}, got {v!r}")

    def frm(self, t):
        return VObj(self.cls, t)


class TEnum(T):
    def __init__(self, cls):
        self.cls = self.name = cls

    def sort(self):
        return ENUMS[self.cls][0]

    def to(self, v):
        if isinstance(v, VEnum) and v.cls == self.cls:
            return v.t
        raise Unsupported(f"expected {self.cls}, got {v!r}")

    def frm(self, t):
        return VEnum(self.cls, t)


class TOpt(T):
    def __init__(self, inner):
        self.inner = inner
        self.name = f"Opt[{inner.name}]"

    def sort(self):
        return opt_sort(self.inner.sort())

    def to(self, v):
        s = self.sort()
        if isinstance(v, VNone):
            return s.none
        if isinstance(v, VOpt):
            return If(v.isnone, s.none, s.some(self.inner.to(v.val)))
        return s.some(self.inner.to(v))

    def frm(self, t):
        s = self.sort()
        return VOpt(isc(s.is_none, t), self.inner.frm(acc(s.val, t)))


class TTup(T):
    def __init__(self, ts):
        self.ts = tuple(ts)
        self.name = f"Tup[{','.join(t.name for t in self.ts)}]"

    def sort(self):
        return tup_sort([t.sort() for t in self.ts])

    def to(self, v):
        if isinstance(v, VTuple) and len(v.items) == len(self.ts):
            return self.sort().mk(*[t.to(x) for t, x in zip(self.ts, v.items)])
        raise Unsupported(f"expected {self.name}, got {v!r}")

    def frm(self, t):
        s = self.sort()
        return VTuple([ty.frm(acc(getattr(s, f"e{i}"), t)) for i, ty in enumerate(self.ts)])


RECORDS = {}    # class name -> list of (field, T), from the NamedTuple definitions of the repository
_recsort = {}


class TRec(T):
    def __init__(self, cls):
        self.cls = self.name = cls

    def sort(self):
        if self.cls not in _recsort:
            fs = [(f"{self.cls}_{f}", ty.sort()) for f, ty in RECORDS[self.cls]]
            _recsort[self.cls] = _dt("Rec" + self.cls, [("mk" + self.cls, *fs)])
        return _recsort[self.cls]

    def to(self, v):
        if not (isinstance(v, VRec) and v.cls == self.cls):
            raise Unsupported(f"expected {self.cls}, got {v!r}")
        s = self.sort()
        return getattr(s, "mk" + self.cls)(*[ty.to(v.fields[f]) for f, ty in RECORDS[self.cls]])

    def frm(self, t):
        s = self.sort()
        return VRec(self.cls, {f: ty.frm(acc(getattr(s, f"{self.cls}_{f}"), t)) for f, ty in RECORDS[self.cls]})


ENGINE = None       # the engine in use, for definitional arrays


class TSet(T):
    def __init__(self, e, kind="frozenset"):
        self.e, self.kind = e, kind
        self.name = f"Set[{e.name}]"

    def sort(self):
        return z3.ArraySort(self.e.sort(), B)

    def to(self, v):
        if isinstance(v, VItems):
            raise Unsupported("items as set term")
        if not isinstance(v, Coll):
            raise Unsupported(f"expected collection, got {v!r}")
        return ENGINE.coll_array(v, self.e)

    def frm(self, t):
        return arr_coll(self.e, t, self.kind)


class TDict(T):
    def __init__(self, k, v):
        self.k, self.v = k, v
        self.name = f"Dict[{k.name},{v.name}]"

    def sort(self):
        return tup_sort([z3.ArraySort(self.k.sort(), B), z3.ArraySort(self.k.sort(), self.v.sort())])

    def arrays(self, v):
        if v.kt is None:
            return z3.K(self.k.sort(), FALSE), ENGINE.fresh("ev", z3.ArraySort(self.k.sort(), self.v.sort()))
        if v.kt != self.k:
            raise Unsupported(f"dictionary key type {v.kt} instead of {self.k}")
        a = v.__dict__.get("arrs")
        if a is None or a[0] != self.name or a[3] not in (None, ENGINE.serial):
            dom = ENGINE.defarr(self.k, lambda x: v.dom(x), B)
            val = ENGINE.defarr(self.k, lambda x: self.v.to(v.val(x)), self.v.sort())
            a = v.arrs = (self.name, dom, val, ENGINE.serial)
        return a[1], a[2]

    def to(self, v):
        if isinstance(v, VItems):
            v = v.d
        if not isinstance(v, VDict):
            raise Unsupported(f"expected dict, got {v!r}")
        return self.sort().mk(*self.arrays(v))

    def frm(self, t):
        s = self.sort()
        return arr_dict(self.k, self.v, acc(s.e0, t), acc(s.e1, t))


class TItems(TDict):
    """frozenset of the items of a dictionary."""

    def __init__(self, k, v):
        super().__init__(k, v)
        self.name = "Items" + self.name

    def frm(self, t):
        return VItems(TDict.frm(self, t))


def arr_dict(kt, vt, dom, val):
    d = VDict(kt, vt, lambda k: sel(dom, kt.to(k)), lambda k: vt.frm(sel(val, kt.to(k))))
    d.arrs = (TDict(kt, vt).name, dom, val, None)
    return d


def arr_coll(et, arr, kind="frozenset", distinct=True):
    c = Coll(kind, et, lambda v: sel(arr, et.to(v)), et=et, distinct=distinct)
    c.cache["arr0"] = arr
    return c


def empty_coll(kind="set"):
    return Coll(kind, None, lambda v: FALSE, items=[])


def try_type(v):
    try:
        return type_of(v)
    except Unsupported:
        return None


def items_coll(kind, items):
    items = list(items)
    return Coll(kind, None, lambda v: Or(*[veq(v, x) for x in items]), items=items,
                et=try_type(items[0]) if items else None)


def type_of(v):
    if isinstance(v, VInt):
        return TInt
    if isinstance(v, VBool):
        return TBool
    if isinstance(v, VStr):
        return TStr
    if isinstance(v, VBytes):
        return TBytes
    if isinstance(v, VObj):
        return TObj(v.cls)
    if isinstance(v, VEnum):
        return TEnum(v.cls)
    if isinstance(v, VRec):
        return TRec(v.cls)
    if isinstance(v, VExc):
        return TExc
    if isinstance(v, VTuple):
        return TTup([TNone if isinstance(x, VNone) else type_of(x) for x in v.items])
    if isinstance(v, VOpt):
        return TOpt(type_of(v.val))
    if isinstance(v, VItems):
        return TItems(v.d.kt, v.d.vt)
    if isinstance(v, Coll):
        if v.et is None:
            raise Unsupported("untyped collection")
        return TSet(v.et, v.kind)
    if isinstance(v, VDict):
        if v.kt is None:
            raise Unsupported("untyped dict")
        return TDict(v.kt, v.vt)
    if isinstance(v, VSpecial) and v.kind == "devkey":
        return TDevKey
    raise Unsupported(f"no type for {v!r}")


def veq(a, b):
    """Equality of two values as a formula."""
    if a is b:
        return TRUE
    if isinstance(a, VOpt) and isinstance(b, VOpt):
        return Or(And(a.isnone, b.isnone), And(Not(a.isnone), Not(b.isnone), veq(a.val, b.val)))
    if isinstance(a, VOpt):
        return a.isnone if isinstance(b, VNone) else And(Not(a.isnone), veq(a.val, b))
    if isinstance(b, VOpt):
        return veq(b, a)
    if isinstance(a, VNone) or isinstance(b, VNone):
        return BV(isinstance(a, VNone) and isinstance(b, VNone))
    if isinstance(a, VStr) and isinstance(b, VStr):
        ca, cb = a.const(), b.const()
        if ca is not None and cb is not None:
            return BV(ca == cb)
        if len(a.parts) > 1 or len(b.parts) > 1:
            if len(a.parts) != len(b.parts):
                raise Unsupported("comparison of composed strings")
        return eqt(a.t, b.t)
    if isinstance(a, (VInt, VBool)) and isinstance(b, (VInt, VBool)):
        if type(a) is type(b):
            return eqt(a.t, b.t)
        x, y = (If(v.t, z3.IntVal(1), z3.IntVal(0)) if isinstance(v, VBool) else v.t for v in (a, b))
        return x == y
    for c in (VBytes, VEnum, VExc):
        if isinstance(a, c) and isinstance(b, c):
            if a.t is None or b.t is None:
                raise Unsupported("comparison of exceptions")
            return FALSE if a.t.sort() != b.t.sort() else eqt(a.t, b.t)
    if isinstance(a, VObj) and isinstance(b, VObj):
        return FALSE if a.cls != b.cls else eqt(a.t, b.t)
    if isinstance(a, VTuple) and isinstance(b, VTuple):
        if len(a.items) != len(b.items):
            return FALSE
        return And(*[veq(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, VRec) and isinstance(b, VRec):
        if a.cls != b.cls:
            return FALSE
        return And(*[veq(a.fields[f], b.fields[f]) for f in a.fields])
    if isinstance(a, VSpecial) and isinstance(b, VSpecial) and a.kind == b.kind == "devkey":
        return eqt(a.kw["t"], b.kw["t"])
    if isinstance(a, VItems) and isinstance(b, VItems):
        return ENGINE.dict_eq(a.d, b.d)
    if isinstance(a, VDict) and isinstance(b, VDict):
        return ENGINE.dict_eq(a, b)
    if isinstance(a, Coll) and isinstance(b, Coll):
        return ENGINE.coll_eq(a, b)
    if isinstance(a, VClass) and isinstance(b, VClass):
        return BV(a.name == b.name)
    if isinstance(a, VChars) and isinstance(b, VChars):
        if len(a.chars) != len(b.chars):
            return FALSE
        return And(*[eqt(x, y) for x, y in zip(a.chars, b.chars)])
    if type(a) is not type(b):
        simple = (VStr, VInt, VBool, VBytes, VEnum, VObj, VTuple, VRec, Coll, VDict, VNone)
        if isinstance(a, simple) and isinstance(b, simple):
            return FALSE
    raise Unsupported(f"equality of {a!r} and {b!r}")


def vite(c, a, b):
    """If c then a else b as one value; raises Unsupported if the shapes cannot be merged."""
    if a is b or is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, VNone) and isinstance(b, VNone):
        return a
    if isinstance(a, VNone):
        if isinstance(b, VOpt):
            return VOpt(Or(c, b.isnone), b.val)
        return VOpt(c, b)
    if isinstance(b, VNone):
        return vite(Not(c), b, a)
    if isinstance(a, VOpt) or isinstance(b, VOpt):
        ai, av = (a.isnone, a.val) if isinstance(a, VOpt) else (FALSE, a)
        bi, bv = (b.isnone, b.val) if isinstance(b, VOpt) else (FALSE, b)
        return VOpt(If(c, ai, bi), vite(c, av, bv))
    if isinstance(a, VInt) and isinstance(b, VInt):
        return VInt(If(c, a.t, b.t))
    if isinstance(a, VBool) and isinstance(b, VBool):
        return VBool(If(c, a.t, b.t))
    if isinstance(a, VStr) and isinstance(b, VStr):
        if a.parts == b.parts:
            return a
        return VStr(If(c, a.t, b.t))
    if isinstance(a, VBytes) and isinstance(b, VBytes):
        return VBytes(If(c, a.t, b.t), a.n if a.n == b.n else None)
    if isinstance(a, VEnum) and isinstance(b, VEnum) and a.cls == b.cls:
        return VEnum(a.cls, If(c, a.t, b.t))
    if isinstance(a, VObj) and isinstance(b, VObj) and a.cls == b.cls:
        return VObj(a.cls, If(c, a.t, b.t))
    if isinstance(a, VTuple) and isinstance(b, VTuple) and len(a.items) == len(b.items):
        return VTuple([vite(c, x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, VRec) and isinstance(b, VRec) and a.cls == b.cls:
        return VRec(a.cls, {f: vite(c, a.fields[f], b.fields[f]) for f in a.fields})
    if isinstance(a, VItems) and isinstance(b, VItems):
        return VItems(vite(c, a.d, b.d))
    if isinstance(a, VMaybe) and isinstance(b, VMaybe):
        return VMaybe(If(c, a.isnothing, b.isnothing), vite(c, a.val, b.val))
    if isinstance(a, VSpecial) and isinstance(b, VSpecial) and a.kind == b.kind == "devkey":
        return VSpecial("devkey", t=If(c, a.kw["t"], b.kw["t"]))
    if isinstance(a, Coll) and isinstance(b, Coll):
        return coll_ite(c, a, b)
    if isinstance(a, VDict) and isinstance(b, VDict):
        kt, vt = (a.kt, a.vt) if a.kt is not None else (b.kt, b.vt)
        if kt is None:
            return a
        if a.kt is None:
            return VDict(kt, vt, lambda k: And(Not(c), b.dom(k)), b.val)
        if b.kt is None:
            return VDict(kt, vt, lambda k: And(c, a.dom(k)), a.val)
        return VDict(kt, vt, lambda k: If(c, a.dom(k), b.dom(k)), lambda k: vite(c, a.val(k), b.val(k)))
    if isinstance(a, VRef) and isinstance(b, VRef) and a.id == b.id:
        return a
    if isinstance(a, VExc) and isinstance(b, VExc) and a.t is not None and b.t is not None:
        same = a.cls == b.cls and a.origin == b.origin and not a.fields and not b.fields
        return VExc(a.cls if same else "?", {}, a.origin if same else None, If(c, a.t, b.t))
    raise Unsupported(f"cannot merge {a!r} and {b!r}")


def within(c):
    """Collections that c is obtained from by removing elements, including c."""
    return c.cache.get("within", []) + [c]


def coll_ite(c, a, b):
    if a.items == [] and b.items == []:
        return a
    if a.items == []:
        return filtered(b, lambda s: Not(c))
    if b.items == []:
        return filtered(a, lambda s: c)
    if a.items is not None:
        a = items_to_coll(a)
    if b.items is not None:
        b = items_to_coll(b)
    idx = None
    if a.out is None and b.out is None and a.st == b.st:
        if a.idx and b.idx:
            def idx(s):
                return If(c, a.idx(s), b.idx(s))
        return Coll(a.kind, a.st, lambda s: If(c, a.smem(s), b.smem(s)), idx=idx, et=a.et,
                    distinct=a.distinct and b.distinct)
    if a.keyed and b.keyed:
        r = Coll(a.kind, TDevKey, lambda s: If(c, a.smem(s), b.smem(s)),
                 a.out if a.out is b.out else lambda s: vite(c, a.out(s), b.out(s)), a.inv, et=a.et)
        r.cache["within"] = [x for x in within(a) if any(x is y for y in within(b))]
        return r
    et = lub(a.et, b.et) if a.et is not None and b.et is not None else a.et or b.et
    if et is None:
        raise Unsupported("merge of untyped collections")
    a, b = (q if q.et is None or q.et == et else widen(q, et) for q in (a, b))

    def eidx(x):
        def one(q):
            if q.out is None:
                return q.idx(x)
            return q.idx(q.inv(x))
        return If(c, one(a), one(b))
    ok = all(q.idx and (q.out is None or q.inv) for q in (a, b))
    return Coll(a.kind, et, lambda x: If(c, ENGINE.mem(a, x), ENGINE.mem(b, x)), idx=eidx if ok else None, et=et,
                distinct=a.distinct and b.distinct)


def filtered(c, cond, kind=None):
    """Sub-collection of the source elements satisfying cond(source element)."""
    if c.items is not None:
        if not c.items:
            return c
        c = items_to_coll(c)
    return Coll(kind or c.kind, c.st, lambda s: And(c.smem(s), cond(s)), c.out, c.inv, c.idx, et=c.et,
                distinct=c.distinct, tags=c.tags, jid=c.jid)


def items_to_coll(c):
    """Re-express a collection with listed items as one over its element type."""
    if not c.items:
        raise Unsupported("untyped empty collection")
    et = type_of(c.items[0])
    for x in c.items[1:]:
        if lub(et, type_of(x)) is not None:
            et = lub(et, type_of(x))
    items = c.items
    idx = None
    if c.kind in ("list", "tuple"):
        def idx(v):
            r = z3.IntVal(len(items))
            for i in reversed(range(len(items))):
                r = If(veq(v, items[i]), z3.IntVal(i), r)
            return r
    return Coll(c.kind, et, lambda v: Or(*[veq(v, x) for x in items]), idx=idx, et=et,
                distinct=len(items) <= 1 or c.kind in ("set", "frozenset"))


def dev_key(rec):
    return VSpecial("devkey", t=DevKey.devkey(rec.fields["bare_jid"].t, rec.fields["device_id"].t))


def keyed_coll(kind, kmem, krec, jid=None):
    """A set of DeviceInformation with at most one entry per (bare JID, device id)."""
    return Coll(kind, TDevKey, lambda s: kmem(s.kw["t"]), out=lambda s: krec(s.kw["t"]), inv=dev_key,
                et=TRec("DeviceInformation"), jid=jid)


def vsubst(v, subs):
    """Substitute terms in a value; subs is a list of (term, term)."""
    def s(t):
        return subst(t, *subs)
    if v is None or isinstance(v, (VNone, VClass, VModule, VFunc, VPy, VMethod, VInst, VRef, VUndef)):
        return v
    if isinstance(v, VInt):
        return VInt(s(v.t))
    if isinstance(v, VBool):
        return VBool(s(v.t))
    if isinstance(v, VStr):
        return VStr(*[p if isinstance(p, str) else s(p) for p in v.parts])
    if isinstance(v, VBytes):
        return VBytes(s(v.t), v.n, vsubst(v.text, subs))
    if isinstance(v, VEnum):
        return VEnum(v.cls, s(v.t))
    if isinstance(v, VObj):
        return VObj(v.cls, s(v.t))
    if isinstance(v, VOpt):
        return VOpt(s(v.isnone), vsubst(v.val, subs))
    if isinstance(v, VMaybe):
        return VMaybe(s(v.isnothing), vsubst(v.val, subs))
    if isinstance(v, VTuple):
        return VTuple([vsubst(x, subs) for x in v.items])
    if isinstance(v, VRec):
        return VRec(v.cls, {f: vsubst(x, subs) for f, x in v.fields.items()})
    if isinstance(v, VExc):
        return VExc(v.cls, {f: vsubst(x, subs) for f, x in v.fields.items()}, v.origin,
                    None if v.t is None else s(v.t))
    if isinstance(v, VSpecial) and v.kind == "devkey":
        return VSpecial("devkey", t=s(v.kw["t"]))
    if isinstance(v, VSpecial):
        return v
    if isinstance(v, VItems):
        return VItems(vsubst(v.d, subs))
    if isinstance(v, VDict):
        if v.kt is None:
            return v
        d = VDict(v.kt, v.vt, lambda k: s(v.dom(k)), lambda k: vsubst(v.val(k), subs))
        if "arrs" in v.__dict__:
            d.arrs = (v.arrs[0], s(v.arrs[1]), s(v.arrs[2]))
        return d
    if isinstance(v, Coll):
        if v.items is not None:
            return Coll(v.kind, v.st, v.smem, v.out, v.inv, v.idx, [vsubst(x, subs) for x in v.items], v.et,
                        v.distinct, v.tags, None if v.jid is None else s(v.jid))
        c = Coll(v.kind, v.st, lambda x: s(v.smem(x)), None if v.out is None else (lambda x: vsubst(v.out(x), subs)),
                 None if v.inv is None else (lambda y: vsubst(v.inv(y), subs)),
                 None if v.idx is None else (lambda x: s(v.idx(x))), None, v.et, v.distinct, v.tags,
                 None if v.jid is None else s(v.jid))
        if "arr0" in v.cache:
            c.cache["arr0"] = s(v.cache["arr0"])
        return c
    raise Unsupported(f"substitution in {v!r}")
