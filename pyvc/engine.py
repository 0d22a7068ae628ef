"""
Core of the verifier: path exploration by re-execution, the solver context with definitional axioms, obligations,
and the loop rule with inferred (Houdini) inductive invariants.
"""
import copy
import functools
import time
import z3
from . import values as VV
from .values import *     # noqa: F401,F403


class PathEnd(Exception):
    """The current path ends here (infeasible, or a loop iteration whose invariants were checked)."""


class Impure(Exception):
    """An effect was attempted while evaluating an expression that has to be pure."""


class PyRaise(Exception):
    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        super().__init__()
        self.v = v


class Restart(Exception):
    """Loop information was refined; the unit has to be explored again."""


class Budget(Exception):
    """Time or path budget of the unit exhausted."""


_nodes = {}
_decls = {}


def _raw():
    """The few functions of the solver's C interface that the traversal of terms needs, on plain addresses."""
    import ctypes
    from z3 import z3core
    c = z3.main_ctx().ref()
    c = c.value if hasattr(c, "value") else ctypes.cast(c, ctypes.c_void_p).value

    def get(name, res, *args):
        addr = ctypes.cast(getattr(z3core, name).__defaults__[0].f, ctypes.c_void_p).value
        f = ctypes.PYFUNCTYPE(res, ctypes.c_void_p, *args)(addr)
        return functools.partial(f, c)
    P, U = ctypes.c_void_p, ctypes.c_uint
    return {"kind": get("Z3_get_ast_kind", U, P), "id": get("Z3_get_ast_id", U, P), "decl": get("Z3_get_app_decl", P, P),
            "dkind": get("Z3_get_decl_kind", U, P), "n": get("Z3_get_app_num_args", U, P), "inc": get("Z3_inc_ref", None, P),
            "arg": get("Z3_get_app_arg", P, P, U)}


RAW = _raw()


class Node:
    """What the saturation needs to know of a term."""
    __slots__ = ("ptr", "name", "children", "t")

    def term(self):
        if self.t is None:
            a = z3.z3types.Ast(None)
            a.value = self.ptr
            self.t = z3.z3._to_expr_ref(a, z3.main_ctx())
        return self.t


def view_of(a):
    """Name of the storage that a list of strings is read from."""
    if a.decl().name() != "jl_s":
        return None
    b = a.arg(0)
    if not (z3.is_app(b) and b.decl().name() == "jv"):
        return None
    c = b.arg(0)
    if z3.is_app(c) and c.decl().kind() == z3.Z3_OP_SELECT and c.arg(0).decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return c.arg(0).decl().name()
    return None


def node_info(ptr, i):
    """The term at an address: its name if it is of interest, and the children to visit, as (address, identity)."""
    r = _nodes.get(i)
    if r is not None:
        return r
    r = Node()
    r.ptr, r.name, r.children, r.t = ptr, None, (), None
    RAW["inc"](ptr)
    if RAW["kind"](ptr) in (z3.Z3_APP_AST, z3.Z3_NUMERAL_AST):
        d = RAW["decl"](ptr)
        dk = _decls.get(d)
        if dk is None:
            k = RAW["dkind"](d)
            RAW["inc"](d)
            dk = _decls[d] = (k, r.term().decl().name() if k == z3.Z3_OP_UNINTERPRETED else None)
        n = RAW["n"](ptr)
        if n:
            arg, aid = RAW["arg"], RAW["id"]
            cs = [arg(ptr, j) for j in range(n)]
            r.children = [(c, aid(c)) for c in cs]
        if dk[0] == z3.Z3_OP_UNINTERPRETED:
            r.name = dk[1]
        elif dk[0] == z3.Z3_OP_SELECT:
            t = r.term()
            a = t.arg(0)
            ak = a.decl().kind() if z3.is_app(a) else None
            if ak == z3.Z3_OP_UNINTERPRETED:
                r.name = "select:" + a.decl().name()
                r.children = [(c.as_ast().value, tid(c)) for c in a.children() + [t.arg(1)]]
            elif ak == z3.Z3_OP_DT_ACCESSOR and (v := view_of(a)) is not None:
                r.name = "view:" + v
    _nodes[i] = r
    return r



_anchors = {}
ANCHOR_SORTS = ("DevKey", "Bundle")


def anchors(t):
    """The devices (or bundles) that a term was introduced for."""
    i = tid(t)
    r = _anchors.get(i)
    if r is None:
        r = _anchors[i] = (t, [tid(c) for c in t.children() if c.sort().name() in ANCHOR_SORTS] if z3.is_app(t) and
                           t.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
    return r[1]


_gen = {}


def generation(t):
    """How many witness functions are nested in a witness."""
    i = tid(t)
    r = _gen.get(i)
    if r is None:
        if not z3.is_app(t) or t.num_args() == 0:
            n = 0
        else:
            n = max(generation(c) for c in t.children())
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and ("!" in t.decl().name()):
                n += 1
        r = _gen[i] = (t, n)
    return r[1]


def local(t, loc):
    """Heuristic choice of instances: witnesses introduced for one device do not concern the definitions of another."""
    return loc is None or all(a in loc for a in anchors(t))


STRID = z3.Function("strid", Str, I)
INT_OF = z3.Function("int_of_str", Str, I)
_strids = {}


STATIC_NAMES = ("nostr", "str_of_int", "b64")


def static_axioms(name, t):
    if name.startswith("s:"):
        i = _strids.setdefault(name, len(_strids) + 1)
        return [STRID(t) == i]
    if name == "nostr":
        return [STRID(t) == 0]
    if name == "str_of_int":
        return [INT_OF(t) == t.arg(0), STRID(t) == -1]
    if name == "b64":
        return [unb64(t) == t.arg(0), STRID(t) == -2]
    return []


class Ctx:
    """Incremental solver of one path, saturated with instances of definitional axioms."""

    MAXDEPTH = 7

    def __init__(self, E):
        self.E = E
        self.solver = z3.Solver()
        # sound for proofs: without extensionality the solver only accepts fewer of them
        self.solver.set("array.extensional", False)
        self.solver.set("timeout", E.timeout_ms)
        self.seen = set()
        self.keep = []
        self.pool = {}
        self.pool_ids = set()
        self.foralls = []
        self.log = []
        self.marks = []
        self.asserted = []
        self.levels = [[]]
        self.quick = E.timeout_ms

    # Assertions are collected and handed to the solver only when a query is made. Each level is a list of pending
    # additions; levels[0] is the base level.

    def push(self):
        self.levels.append([])

    def pop(self):
        self.levels.pop()
        if len(self.marks) > len(self.levels) - 1:
            self.real_pop()

    def flush(self):
        for d, lev in enumerate(self.levels):
            if d > len(self.marks):
                self.real_push()
            if lev:
                todo = lev[:]
                del lev[:]
                for kind_, x in todo:
                    if kind_ == "f":
                        self._run([(x, 0)])
                    elif kind_ == "p":
                        q = []
                        self._pool(x, 0, q)
                        self._run(q)
                    else:
                        self._forall(*x)

    def real_push(self):
        self.solver.push()
        self.marks.append((len(self.log), len(self.foralls), {s: len(v) for s, v in self.pool.items()},
                           len(self.asserted)))

    def real_pop(self):
        self.solver.pop()
        nl, nf, np, na = self.marks.pop()
        for kind_, x in self.log[nl:]:
            (self.seen if kind_ == "s" else self.pool_ids).discard(x)
        del self.log[nl:]
        del self.foralls[nf:]
        for s in self.pool:
            del self.pool[s][np.get(s, 0):]
        del self.asserted[na:]

    def add(self, f):
        self.levels[-1].append(("f", f))

    def add_pool(self, t):
        self.levels[-1].append(("p", t))

    def add_forall(self, q, body):
        self.levels[-1].append(("a", (q, body)))

    def _pool(self, t, d, queue):
        if tid(t) in self.pool_ids:
            return
        self.pool_ids.add(tid(t))
        self.log.append(("p", tid(t)))
        self.keep.append(t)
        s = t.sort().sexpr()
        self.pool.setdefault(s, []).append(t)
        for (fs, q, body, loc) in self.foralls:
            if fs == s and local(t, loc):
                queue.append((subst(body, (q, t)), d + 1))

    def _run(self, queue):
        while queue:
            f, d = queue.pop(0)
            if is_true(f):
                continue
            if ("a", tid(f)) in self.seen:
                continue
            self.seen.add(("a", tid(f)))
            self.log.append(("s", ("a", tid(f))))
            self.keep.append(f)
            self.solver.add(f)
            self.asserted.append(f)
            if d >= self.MAXDEPTH:
                continue
            stack = [(f.as_ast().value, tid(f))]
            seen, log = self.seen, self.log
            while stack:
                ptr, ti = stack.pop()
                if ti in seen:
                    continue
                seen.add(ti)
                log.append(("s", ti))
                node = _nodes.get(ti) or node_info(ptr, ti)
                stack.extend(node.children)
                name = node.name
                if name is None or not self.concerns(name):
                    continue
                t = node.term()
                if name.startswith("view:"):
                    df = self.E.st.arrdefs.get(name[5:] + "@strs")
                    if df:
                        params, (x, y), body = df
                        src = t.arg(0).arg(0).arg(0)
                        subs = list(zip(params, src.arg(0).children())) + [(x, src.arg(1)), (y, t.arg(1))]
                        queue.append((eqt(t, subst(body, *subs)), d + 1))
                    continue
                for ax in static_axioms(name, t):
                    queue.append((ax, d + 1))
                if name.startswith("select:"):
                    df = self.E.st.arrdefs.get(name[7:])
                    if df:
                        params, x, body = df
                        a = t.arg(0)
                        subs = list(zip(params, a.children())) + [(x, t.arg(1))]
                        queue.append((eqt(t, subst(body, *subs)), d + 1))
                    name = name[7:]
                    trig = self.E.static_sel.get(name)
                    if trig:
                        for ax in trig(self.E, t):
                            queue.append((ax, d + 1))
                    continue
                if name in self.E.st.witnesses and generation(t) <= (1 if t.sort() == DevKey else 2):
                    self._pool(t, d, queue)
                if name in self.E.st.arrdefs and t.sort() in (IntSet, StrSet) and not name.startswith("nsa"):
                    # a defined array used as a value: it may be read through equal terms
                    params, x, body = self.E.st.arrdefs[name]
                    b = eqt(sel(t, x), subst(body, *zip(params, t.children())) if params else body)
                    s = x.sort().sexpr()
                    self.foralls.append((s, x, b, None))
                    for y in list(self.pool.get(s, ())):
                        queue.append((subst(b, (x, y)), d + 1))
                for params, fs, foralls in self.E.st.defs.get(name, ()):
                    subs = list(zip(params, t.children()))
                    for g in fs:
                        queue.append((subst(g, *subs) if subs else g, d + 1))
                    for (q, body) in foralls:
                        b = subst(body, *subs) if subs else body
                        s = q.sort().sexpr()
                        loc = frozenset(tid(y) for _, y in subs) if subs else None
                        self.foralls.append((s, q, b, loc))
                        for x in list(self.pool.get(s, ())):
                            if local(x, loc):
                                queue.append((subst(b, (q, x)), d + 1))
                trig = self.E.static_defs.get(name)
                if trig:
                    for ax in trig(self.E, t):
                        queue.append((ax, d + 1))

    def concerns(self, name):
        """Whether anything is known about the symbol, apart from what the formulas say."""
        E = self.E
        if name.startswith("select:"):
            return name[7:] in E.st.arrdefs or name[7:] in E.static_sel
        if name.startswith("view:") or name.startswith("s:"):
            return True
        return name in E.st.defs or name in E.st.arrdefs or name in E.st.witnesses or name in E.static_defs or \
            name in STATIC_NAMES

    def _forall(self, q, body):
        s = q.sort().sexpr()
        self.foralls.append((s, q, body, None))
        self._run([(subst(body, (q, x)), 0) for x in list(self.pool.get(s, ()))])

    def check(self, *extra, quick=False, once=False):
        """``quick``: an unknown result is as good as a satisfiable one. ``once``: do not insist on an answer."""
        self.push()
        ms = self.E.quick_ms if quick else self.E.once_ms if once else self.E.timeout_ms
        if ms != self.quick:
            self.quick = ms
            self.solver.set("timeout", ms)
        try:
            for f in extra:
                self.add(f)
            self.flush()
            t0 = time.time()
            r = self.solver.check()
            self.E.solver_time += time.time() - t0
            self.E.queries += 1
            if r == z3.sat and self.E.want_model:
                self.E.model = self.solver.model()
            if r == z3.unknown and not quick and not once:
                self.E.unknowns += 1
                r = self.retry()
            return r
        finally:
            self.pop()

    def retry(self):
        """A fresh, non-incremental solver on the same assertions."""
        s = z3.Solver()
        s.set("array.extensional", False)
        s.set("timeout", self.E.timeout_ms * 3)
        for f in self.asserted:
            s.add(f)
        t0 = time.time()
        r = s.check()
        self.E.solver_time += time.time() - t0
        self.E.queries += 1
        return r


class Light(Ctx):
    """
    The same context with few instances of the axioms: what is unsatisfiable here is unsatisfiable; everything else is
    taken to be possible. Used to prune paths.
    """
    MAXDEPTH = 2

    def retry(self):
        return z3.unknown


class Dual:
    def __init__(self, E):
        self.full, self.light = Ctx(E), Light(E)

    def push(self):
        self.full.push()
        self.light.push()

    def pop(self):
        self.full.pop()
        self.light.pop()

    def add(self, f):
        self.full.add(f)
        self.light.add(f)

    def add_pool(self, t):
        self.full.add_pool(t)
        self.light.add_pool(t)

    def add_forall(self, q, body):
        self.full.add_forall(q, body)
        self.light.add_forall(q, body)

    def check(self, *fs, quick=False, once=False):
        return (self.light if quick else self.full).check(*fs, quick=quick, once=once)


class Refuted(Exception):
    """An obligation does not hold; the rest is not looked at any more."""


class Explorer:
    def __init__(self):
        self.prefix = []    # [choice, alternatives left]
        self.pos = 0

    def start(self):
        self.pos = 0

    def advance(self):
        while self.prefix:
            c, alts = self.prefix[-1]
            if alts:
                self.prefix[-1] = (alts[0], alts[1:])
                return True
            self.prefix.pop()
        return False


class State:
    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.comps = {}
        self.ghosts = {}
        self.pc = []
        self.ctr = {}
        self.defs = {}
        self.arrdefs = {}
        self.witnesses = set()
        self.trace = []
        self.side = []      # instantiation terms and quantified facts added on the path


class Snapshot:
    def __init__(self, st):
        self.frames = {k: dict(v) for k, v in st.frames.items()}
        self.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in st.heap.items()}
        self.comps = dict(st.comps)
        self.ghosts = dict(st.ghosts)
        self.npc = len(st.pc)
        self.ntr = len(st.trace)
        self.nside = len(st.side)

    def restore(self, st):
        st.frames = {k: dict(v) for k, v in self.frames.items()}
        st.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()}
        st.comps = dict(self.comps)
        st.ghosts = dict(self.ghosts)
        del st.pc[self.npc:]
        del st.trace[self.ntr:]
        del st.side[self.nside:]


def _overlay(new, old, cur):
    if isinstance(new, dict):
        if not isinstance(old, dict) or not isinstance(cur, dict):
            return dict(new)
        return {k: cur[k] if k in old and k in cur and v is old[k] else v for k, v in new.items()}
    return cur if new is old and cur is not None else new


class Outcome:
    """One way a statement can end: the state it leaves behind and how it ended."""

    def __init__(self, st, base, kind, value, meta):
        snap = Snapshot(st)
        self.frames, self.heap, self.comps, self.ghosts = snap.frames, snap.heap, snap.comps, snap.ghosts
        self.pc = list(st.pc[base.npc:])
        self.side = list(st.side[base.nside:])
        self.trace = list(st.trace[base.ntr:])
        self.kind, self.value, self.meta = kind, value, meta


class MergeEntry:
    """The joined outcomes of a statement at one point of the exploration, and what they depend on."""

    def __init__(self, parts, pdeps, results, covers, seen):
        self.parts, self.pdeps, self.results, self.covers, self.seen = parts, pdeps, results, covers, seen


class Split(Exception):
    """A merged value is needed after all: the statement has to be explored without merging."""

    def __init__(self, node):
        super().__init__()
        self.node = node


class LoopInfo:
    def __init__(self):
        self.version = 0    # how often this changed
        self.mod = {}       # slot -> descriptor
        self.dead = set()   # candidates that were refuted


class Obligation:
    def __init__(self, name, status, detail=""):
        self.name, self.status, self.detail = name, status, detail


class EngineCore:
    timeout_ms = 8000
    once_ms = 5000
    quick_ms = 20

    def __init__(self, unit, repo, deadline=None):
        self.unit = unit
        self.repo = repo
        self.solver_time = 0.0
        self.queries = 0
        self.unknowns = 0
        self.want_model = False
        self.model = None
        self.loops = {}
        self.hints = []             # invariant candidates that an earlier run refuted, by loop
        self.stop_after = None      # when to stop at the first refuted obligation
        self.refuted_obls = []
        self.static_defs = {}
        self.static_sel = {}
        self.deadline = deadline
        self.paths_total = 0
        self.passes = 0
        self.functions = set()
        self.assumed = set()
        VV.ENGINE = self

    # ------------------------------------------------------------------------------------------------ exploration

    def run(self):
        """Explore all paths of the unit until the loop information is stable."""
        self.nomerge = set()
        self.merge_cache = {}
        self.suffixes = {}
        self.serials = 0
        self.known = None
        while True:
            self.passes += 1
            self.refined = False
            self.obls = {}
            self.cover_log = []
            self.results = []       # obligations of this pass
            self.covers = set()
            self.feas_cache = {}
            self.keep = []
            self.paths = 0
            top = Explorer()
            self.explorers = [top]
            while True:
                top.start()
                try:
                    self.run_path()
                except Split as e:
                    if e.node in self.nomerge:
                        raise Unsupported("merged value")
                    self.nomerge.add(e.node)
                    self.merge_cache = {}
                    self.refined = True
                    break
                self.paths += 1
                self.paths_total += 1
                if self.deadline and time.time() > self.deadline:
                    raise Budget(f"time budget exhausted after {self.paths_total} paths")
                if self.paths > self.unit.max_paths:
                    raise Budget("too many paths")
                if not top.advance():
                    break
            if not self.refined:
                return
            if self.passes > 40:
                raise Budget("loop invariant inference did not converge")

    def run_path(self):
        st = self.st = State()
        self.new_serial()
        self.mstack = []
        self.pdeps = {}     # the loops this path has been through, and the version of what was assumed about them
        self.ctx = Dual(self)
        self.binders = []
        self.pure = 0
        self.npure = 0      # expressions explored so far on this path
        self.trydepth = 0
        self.quiet = 0
        self.nobl = 0
        self.loop_occ = {}
        self.comp_stack = []
        self.loop_elems = []
        self.depth = 0
        self.node = None
        del self.explorers[1:]
        try:
            self.unit.setup(self)
            try:
                v = self.unit.body(self)
                out = ("return", v)
            except PyRaise as e:
                out = ("raise", e.exc)
            self.unit.post(self, *out)
            self.cover("exit:" + (out[0] if out[0] == "return" else "raise"))
        except PathEnd:
            pass

    @property
    def expl(self):
        return self.explorers[-1]

    def key(self):
        return tuple(tuple(c for c, _ in e.prefix[:e.pos]) for e in self.explorers)

    def note(self, s):
        self.st.trace.append(s)

    def assume(self, f):
        if is_true(f):
            return
        self.st.pc.append(f)
        if is_false(f):
            raise PathEnd()
        self.ctx.add(f)

    def assume_feasible(self, f):
        """Assume f, ending the path if that is infeasible."""
        self.assume(f)
        if not self.feasible():
            raise PathEnd()

    def feasible(self, *fs):
        if any(is_false(f) for f in fs):
            return False
        if all(is_true(f) for f in fs) and (fs or self.known == (self.serial, len(self.st.pc))):
            return True
        k = (self.key(), self.npure, len(self.st.pc), tuple(tid(f) for f in fs))
        if k in self.feas_cache:
            return self.feas_cache[k]
        r = self.ctx.check(*fs, quick=True) != z3.unsat
        self.feas_cache[k] = r
        self.keep.extend(fs)
        return r

    def branch(self, c, label=""):
        if is_true(c):
            return True
        if is_false(c):
            return False
        e = self.expl
        if e.pos < len(e.prefix):
            choice = e.prefix[e.pos][0]
        else:
            t = self.feasible(c)
            f = self.feasible(Not(c)) if t else True
            if t and f:
                choice = True
                e.prefix.append((True, [False]))
            else:
                choice = t
                e.prefix.append((choice, []))
        e.pos += 1
        if label:
            self.note(f"{label}:{choice}")
        self.assume(c if choice else Not(c))
        self.known = (self.serial, len(self.st.pc))
        return choice

    def choose(self, options, label=""):
        """Nondeterministic choice between the given options."""
        if len(options) == 1:
            return options[0]
        e = self.expl
        if self.pure and self.binders:
            for o in options[1:]:
                if self.branch(self.fresh("nd", B), label):
                    return o
            return options[0]
        if self.pure:
            for o in options[1:]:
                if self.branch(self.fresh("nd", B), label):
                    return o
            return options[0]
        if e.pos < len(e.prefix):
            i = e.prefix[e.pos][0]
        else:
            i = 0
            e.prefix.append((0, list(range(1, len(options)))))
        e.pos += 1
        if label:
            self.note(f"{label}={options[i]}")
        return options[i]

    def snapshot(self):
        return Snapshot(self.st)

    def explore_pure(self, fn):
        """All outcomes of fn, which must not change the state: list of (condition, 'val'|'raise', value)."""
        base = self.snapshot()
        self.npure += 1
        np0 = self.npure
        expl = Explorer()
        results = []
        ctr0, maxctr = dict(self.st.ctr), dict(self.st.ctr)
        n = 0
        while True:
            n += 1
            if n > 400:
                raise Unsupported("too many paths in an expression")
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted")
            expl.start()
            self.npure = np0
            self.st.ctr = dict(ctr0)
            self.explorers.append(expl)
            self.mstack.append((np0, expl))
            depth = len(self.explorers)
            td = self.trydepth
            self.ctx.push()
            self.pure += 1
            nb = len(self.binders)
            nc = len(self.comp_stack)
            d0 = self.depth
            try:
                v = self.freeze(fn())
                results.append((And(*self.st.pc[base.npc:]), "val", v))
            except PyRaise as e:
                results.append((And(*self.st.pc[base.npc:]), "raise", e.exc))
            except PathEnd:
                pass
            finally:
                self.pure -= 1
                self.trydepth = td
                self.ctx.pop()
                del self.binders[nb:]
                del self.comp_stack[nc:]
                self.depth = d0
                assert len(self.explorers) == depth
                self.explorers.pop()
                self.mstack.pop()
                base.restore(self.st)
                for k, x in self.st.ctr.items():
                    maxctr[k] = max(maxctr.get(k, 0), x)
            if not expl.advance():
                break
        self.st.ctr = maxctr
        return results

    def merge(self, outcomes):
        """Merge the values of outcomes [(cond, value)]; the conditions are exclusive and exhaustive."""
        if not outcomes:
            raise PathEnd()
        v = outcomes[-1][1]
        for c, x in reversed(outcomes[:-1]):
            v = vite(c, x, v)
        return v

    # ------------------------------------------------------------------------------------------------ merging

    def new_serial(self):
        """Symbols remembered for values are only valid within a stretch of execution without merging."""
        self.serials += 1
        self.serial = self.serials

    def add_pool(self, t):
        self.st.side.append(("p", t))
        self.ctx.add_pool(t)

    def add_forall(self, q, body):
        self.st.side.append(("a", (q, body)))
        self.ctx.add_forall(q, body)

    def merged(self, node, fn):
        """
        Execute fn, a piece of code that may have effects, and join the states of all its normal outcomes into one.
        Exceptional outcomes (exceptions, return, break, continue) remain separate paths.
        """
        if self.pure or node in self.nomerge:
            return fn()
        self.npure += 1
        ck = (self.key(), self.npure)
        r = self.merge_cache.get(ck)
        if r is not None and r.seen != self.passes:
            # explored in an earlier pass: still valid if nothing it was based on has changed
            if any(self.loops[lid].version != v for lid, v in r.pdeps.items()):
                r = None
            else:
                r.seen = self.passes
                self.results += r.results
                self.covers |= set(r.covers)
                self.cover_log += r.covers
        if r is None:
            n1, n2 = len(self.results), len(self.cover_log)
            parts = self.explore_merged(node, fn)
            r = self.merge_cache[ck] = MergeEntry(parts, dict(self.pdeps), self.results[n1:], self.cover_log[n2:],
                                                  self.passes)
        self.pdeps = {**r.pdeps, **self.pdeps}
        outs, ctr, defs, arrdefs, wits, fmeta, base = r.parts
        st = self.st
        st.ctr = dict(ctr)
        for k, v in defs.items():
            st.defs.setdefault(k, list(v))
        for k, v in arrdefs.items():
            st.arrdefs.setdefault(k, v)
        st.witnesses |= wits
        self.fmeta = {**fmeta, **self.fmeta}
        self.new_serial()
        if not outs:
            raise PathEnd()
        o = self.choose(list(range(len(outs))), "outcome") if len(outs) > 1 else 0
        o = outs[o]
        # what the code did not touch keeps its identity on this path
        st.frames = {k: _overlay(v, base.frames.get(k), st.frames.get(k)) for k, v in o.frames.items()}
        st.heap = {k: _overlay(v, base.heap.get(k), st.heap.get(k)) for k, v in o.heap.items()}
        st.comps = _overlay(o.comps, base.comps, st.comps)
        st.ghosts = _overlay(o.ghosts, base.ghosts, st.ghosts)
        st.trace.extend(o.trace)
        for k, x in o.side:
            (self.add_pool if k == "p" else lambda qb: self.add_forall(*qb))(x)
        for f in o.pc:
            self.assume(f)
        if o.kind == "raise":
            raise o.value
        return o.value

    def explore_merged(self, node, fn):
        st = self.st
        base = self.snapshot()
        ctr0, maxctr = dict(st.ctr), dict(st.ctr)
        np0, nobl0, td, d0, cur = self.npure, self.nobl, self.trydepth, self.depth, self.cur
        h0 = list(self._handling)
        expl = Explorer()
        normal, other = [], []
        pd0, pdeps = dict(self.pdeps), dict(self.pdeps)
        while True:
            if self.deadline and time.time() > self.deadline:
                raise Budget("time budget exhausted")
            expl.start()
            st.ctr = dict(ctr0)
            self.pdeps = dict(pd0)
            self.npure, self.nobl, self.trydepth, self.depth, self.cur = np0, nobl0, td, d0, cur
            self._handling = list(h0)
            self.explorers.append(expl)
            self.mstack.append((np0, expl))
            n = len(self.explorers)
            self.ctx.push()
            self.new_serial()
            self.paths_total += 1
            try:
                v = fn()
                if self.feasible():
                    normal.append(Outcome(st, base, "normal", v, None))
            except (PyRaise, BreakEx, ContinueEx, ReturnEx) as e:
                other.append(Outcome(st, base, "raise", e, None))
            except PathEnd:
                pass
            finally:
                self.ctx.pop()
                del self.explorers[n:]
                assert self.explorers[-1] is expl
                self.explorers.pop()
                self.mstack.pop()
                base.restore(st)
                for k, x in st.ctr.items():
                    maxctr[k] = max(maxctr.get(k, 0), x)
                for lid, v in self.pdeps.items():
                    pdeps[lid] = min(v, pdeps.get(lid, v))
            if not expl.advance():
                break
        self.pdeps = pdeps
        st.ctr = maxctr
        self.npure, self.nobl, self.trydepth, self.depth, self.cur = np0, nobl0, td, d0, cur
        self._handling = list(h0)
        groups = {}
        for o in other:
            groups.setdefault(self.outcome_kind(o), []).append(o)
        outs = self.join(node, normal)
        for g in groups.values():
            outs += self.join(node, g)
        return (outs, dict(st.ctr), {k: list(v) for k, v in st.defs.items()}, dict(st.arrdefs), set(st.witnesses),
                dict(self.fmeta), base)

    @staticmethod
    def outcome_kind(o):
        """Exceptional outcomes of the same kind are joined."""
        e = o.value
        if isinstance(e, PyRaise):
            return ("raise", e.exc.cls, e.exc.own, tuple(sorted(e.exc.fields)), e.exc.t is None)
        if isinstance(e, BreakEx):
            return ("break", getattr(e, "normal", False))
        return (type(e).__name__,)

    def join(self, node, outs):
        if len(outs) <= 1:
            return outs
        ms = [self.fresh("outcome", B) for _ in outs]
        keep, r = outs, copy.copy(outs[0])

        def mrg(vals):
            """One value that equals vals[i] in outcome i."""
            vals = list(vals)
            if all(self.same(vals[0], v) for v in vals[1:]):
                return vals[0]
            if any(isinstance(v, VUndef) for v in vals):
                return VUnmerged(node)
            try:
                v = vals[-1]
                for m, x in reversed(list(zip(ms[:-1], vals[:-1]))):
                    if isinstance(v, z3.ExprRef):
                        if v.sort() != x.sort():
                            return VUnmerged(node)
                        v = If(m, x, v)
                    else:
                        v = vite(m, x, v)
                return v
            except Unsupported:
                return VUnmerged(node)

        def mrg_dict(ds):
            out = {}
            for k in {k: None for d in ds for k in d}:
                if all(k in d for d in ds):
                    out[k] = mrg([d[k] for d in ds])
                else:
                    out[k] = VUnmerged(node)
            return out
        for part in ("frames", "heap"):
            ds = [getattr(o, part) for o in outs]
            new = {}
            for k in {k: None for d in ds for k in d}:
                vs = [d[k] for d in ds if k in d]
                if len(vs) == 1:
                    new[k] = vs[0]
                elif all(isinstance(v, dict) for v in vs):
                    new[k] = mrg_dict(vs) if len(vs) == len(ds) else vs[0] if all(
                        self.same_dict(vs[0], v) for v in vs) else VUnmerged(node)
                    if isinstance(new[k], VUnmerged):
                        new[k] = {a: VUnmerged(node) for v in vs for a in v}
                elif len(vs) == len(ds):
                    new[k] = mrg(vs)
                else:
                    new[k] = vs[0] if all(self.same(vs[0], v) for v in vs) else VUnmerged(node)
            setattr(r, part, new)
        r.comps = mrg_dict([o.comps for o in outs])
        r.ghosts = mrg_dict([o.ghosts for o in outs])
        if r.kind == "normal":
            r.value = mrg([o.value if o.value is not None else NONE for o in outs])
        elif isinstance(r.value, ReturnEx):
            v = mrg([o.value.v for o in outs])
            if isinstance(v, VUnmerged) and not isinstance(outs[0].value.v, VUnmerged):
                return keep
            r.value = ReturnEx(v)
        elif isinstance(r.value, PyRaise):
            es = [o.value.exc for o in outs]
            if not all(e is es[0] for e in es):
                fs = mrg_dict([e.fields for e in es])
                if any(isinstance(v, VUnmerged) for v in fs.values()):
                    return keep
                r.value = PyRaise(VExc(es[0].cls, fs, es[0].origin,
                                       None if es[0].t is None else mrg([e.t for e in es])))
        for d in (r.comps, r.ghosts):
            if any(isinstance(v, VUnmerged) for v in d.values()):
                raise Unsupported("ghost state cannot be merged")
        pcs, sides = [Or(*ms)], []
        for m, o in zip(ms, outs):
            pcs += [Implies(m, f) for f in o.pc]
            sides += [(k, x if k == "p" else (x[0], Implies(m, x[1]))) for k, x in o.side]
        r.pc, r.side = pcs, sides
        r.trace = ["(" + " / ".join(", ".join(o.trace) for o in outs)[:400] + ")"]
        return [r]

    def same_dict(self, a, b):
        return set(a) == set(b) and all(self.same(a[k], b[k]) for k in a)

    # ------------------------------------------------------------------------------------------------ fresh symbols

    def cell(self, p):
        """Name of a frame or heap cell; the same on corresponding paths."""
        n = self.st.ctr.get(p, 0)
        self.st.ctr[p] = n + 1
        return f"{p}!{n}"

    def name(self, p):
        """Name of a symbol; distinct on paths that are explored separately and joined later."""
        n = self.cell(p)
        if self.mstack:
            k = tuple((np, tuple(c for c, _ in e.prefix[:e.pos])) for np, e in self.mstack)
            n += f"@{self.suffixes.setdefault(k, len(self.suffixes))}"
        return n

    def fresh(self, p, sort, witness=False):
        n = self.name(p)
        if self.binders:
            t = z3.Function(n, *[b.sort() for b in self.binders], sort)(*self.binders)
        else:
            t = z3.Const(n, sort)
        if witness:
            self.st.witnesses.add(n)
        return t

    def freshv(self, ty, p="v"):
        return ty.frm(self.fresh(p, ty.sort()))

    def define(self, t, formulas=(), foralls=()):
        """Definitional axioms attached to the fresh application t (over the current binders)."""
        self.st.defs.setdefault(t.decl().name(), []).append((list(t.children()), list(formulas), list(foralls)))

    def defarr(self, kt, f, rsort):
        """A fresh array A with A[x] == f(x)."""
        x = z3.Const(self.name("ax"), kt.sort())
        body = f(kt.frm(x))
        if is_true(body) or is_false(body):
            return z3.K(kt.sort(), body)
        a = self.fresh("arr", z3.ArraySort(kt.sort(), rsort))
        self.st.arrdefs[a.decl().name()] = (list(a.children()), x, body)
        return a

    def coll_array(self, c, et):
        if "arr0" in c.cache and c.et == et:
            return c.cache["arr0"]
        if ("arr", self.serial, et.name) in c.cache:
            return c.cache["arr", self.serial, et.name]
        if c.items is not None:
            a = z3.K(et.sort(), FALSE)
            for x in c.items:
                a = z3.Store(a, et.to(x), TRUE)
        else:
            a = self.defarr(et, lambda x: self.mem(c, x), B)
        c.cache["arr", self.serial, et.name] = a
        return a

    def exists(self, ty, pred, hint="w"):
        """Formula: some value of type ty satisfies pred. Introduces a witness."""
        q = z3.Const(self.name("q"), ty.sort())
        self.binders.append(q)
        try:
            body = pred(ty.frm(q))
        finally:
            self.binders.pop()
        if is_false(body):
            return FALSE
        m = self.fresh("ex", B)
        w = self.fresh(hint, ty.sort(), witness=True)
        self.define(m, [Implies(m, subst(body, (q, w)))], [(q, Implies(body, m))])
        return m

    # ------------------------------------------------------------------------------------------------ collections

    def mem(self, c, y):
        """Formula: y is an element of c."""
        if c.items is not None:
            return Or(*[veq(y, x) for x in c.items])
        if c.et is not None:
            ok, y = narrow(c.et, y)
            if is_false(ok):
                return FALSE
            if not is_true(ok):
                return And(ok, self.mem(c, y))
        if c.out is None:
            return c.smem(y)
        if c.inv is not None:
            s = c.inv(y)
            return And(c.smem(s), veq(c.out(s), y))
        return self.exists(c.st, lambda s: And(c.smem(s), veq(c.out(s), y)))

    def nonempty(self, c):
        if c.items is not None:
            return BV(len(c.items) > 0)
        k = ("ne", self.serial, tuple(tid(b) for b in self.binders))
        if k not in c.cache:
            c.cache[k] = self.exists(c.st, c.smem, hint="wit")
        return c.cache[k]

    def pick(self, c):
        """Some element of c (assumed non-empty), the same one each time."""
        if c.items is not None:
            return c.items[0]
        k = ("pick", self.serial, tuple(tid(b) for b in self.binders))
        if k not in c.cache:
            w = self.fresh("pick", c.st.sort(), witness=True)
            s = c.st.frm(w)
            ne = self.nonempty(c)
            self.define(w, [Implies(ne, c.smem(s))])
            c.cache[k] = s
        return c.elem(c.cache[k])

    def by_elem(self, c):
        """c as a collection indexed by its elements."""
        if c.items is not None:
            return items_to_coll(c)
        if c.out is None or c.inv is not None:
            return c
        if c.et is None:
            q = c.out(c.st.frm(z3.Const(self.name("q"), c.st.sort())))
            c.et = type_of(q)
        return Coll(c.kind, c.et, lambda x: self.mem(c, x), et=c.et, distinct=c.kind in ("set", "frozenset"))

    def coll_eq(self, a, b):
        if a.kind in ("list", "tuple") and b.kind in ("list", "tuple"):
            if a.items is not None and b.items is not None:
                if len(a.items) != len(b.items):
                    return FALSE
                return And(*[veq(x, y) for x, y in zip(a.items, b.items)])
            for x, y in ((a, b), (b, a)):
                if x.items == []:
                    return Not(self.nonempty(y))
            raise Unsupported("comparison of lists")
        if a.items == []:
            return Not(self.nonempty(b))
        if b.items == []:
            return Not(self.nonempty(a))
        et = self.elem_type(a)
        return Not(self.exists(et, lambda x: Not(Iff(self.mem(a, x), self.mem(b, x))), hint="diff"))

    def elem_type(self, c):
        if c.et is None:
            if c.items:
                c.et = type_of(c.items[0])
            elif c.out is not None:
                c.et = type_of(c.out(c.st.frm(z3.Const(self.name("q"), c.st.sort()))))
            else:
                raise Unsupported("untyped collection")
        return c.et

    def dict_eq(self, a, b):
        if a.kt is None and b.kt is None:
            return TRUE
        if a.kt is None or b.kt is None:
            d = a if a.kt is not None else b
            return Not(self.exists(d.kt, d.dom, hint="diff"))
        return Not(self.exists(a.kt, lambda x: Or(Not(Iff(a.dom(x), b.dom(x))),
                                                  And(a.dom(x), Not(veq(a.val(x), b.val(x))))), hint="diff"))

    def freeze(self, v):
        """Replace references to mutable cells by their current contents."""
        if isinstance(v, VRef):
            return self.freeze(self.cell_value(v))
        if isinstance(v, VTuple):
            return VTuple([self.freeze(x) for x in v.items])
        if isinstance(v, VOpt):
            return VOpt(v.isnone, self.freeze(v.val))
        return v

    # ------------------------------------------------------------------------------------------------ obligations

    def cover(self, what):
        if what in self.covers or self.feasible():
            self.covers.add(what)
            self.cover_log.append(what)

    def prove(self, name, goal, hints=()):
        """
        Obligation: goal holds here. ``hints``: for obligations about the existence of a focal element, alternative
        assumptions (focal == witness) of which one suffices.
        """
        if self.pure:
            raise Impure("obligation in pure context")
        self.nobl += 1
        k = (self.key(), self.nobl)
        if k not in self.obls:
            st, det = "proved", ""
            if is_true(goal):
                pass
            else:
                hs = [TRUE] + list(hints)
                r = z3.sat
                for h in hs:
                    r = self.ctx.check(Not(goal), h)
                    if r == z3.unsat:
                        break
                if r != z3.unsat:
                    st = "failed" if r == z3.sat else "unknown"
                    self.want_model = True
                    self.ctx.check(Not(goal))
                    self.want_model = False
                    det = self.describe(self.model if r == z3.sat else None)
            self.obls[k] = (st, det)
            self.results.append(Obligation(name, st, det))
            if st == "failed":
                # what does not hold under the candidate invariants of this pass does not hold under those that survive
                self.refuted_obls.append(self.results[-1])
                if self.stop_after is not None and time.time() > self.stop_after:
                    raise Refuted()
        if self.obls[k][0] != "proved":
            # report once, continue under the assumption that it holds
            if is_false(goal):
                raise PathEnd()
            self.assume(goal)

    def describe(self, model):
        lines = ["path: " + " | ".join(self.st.trace[-60:])]
        if model is not None:
            try:
                for n, t in self.unit.inspect(self).items():
                    lines.append(f"{n} = {model.eval(t, model_completion=True)}")
                for d in model.decls():
                    if d.arity() == 0 and d.range() in (I, B) and "!" in d.name() and \
                            not d.name().startswith(("ex!", "nd!", "k!")):
                        lines.append(f"{d.name()} = {model[d]}")
            except z3.Z3Exception:
                pass
        return "\n".join(lines[:80])

    def refine(self):
        self.refined = True
        raise PathEnd()

    # ------------------------------------------------------------------------------------------------ loops

    def slots(self):
        """All mutable slots of the state: name -> value."""
        out = {}
        st = self.st
        for fid, fr in st.frames.items():
            for n, v in fr.items():
                out[("l", fid, n)] = v
        for i, v in st.heap.items():
            if isinstance(v, dict):
                for a, x in v.items():
                    out[("a", i, a)] = x
            else:
                out[("h", i)] = v
        for n, v in st.comps.items():
            out[("c", n)] = v
        for n, v in st.ghosts.items():
            out[("g", n)] = v
        return out

    def set_slot(self, s, v):
        st = self.st
        if s[0] == "l":
            st.frames[s[1]][s[2]] = v
        elif s[0] == "a":
            st.heap[s[1]][s[2]] = v
        elif s[0] == "h":
            st.heap[s[1]] = v
        elif s[0] == "c":
            st.comps[s[1]] = v
        else:
            st.ghosts[s[1]] = v

    @staticmethod
    def same(a, b):
        if a is b:
            return True
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return a.eq(b)
        if type(a) is not type(b):
            return False
        if isinstance(a, VRef):
            return a.id == b.id
        if isinstance(a, VStr):
            return len(a.parts) == len(b.parts) and a.t.eq(b.t)
        if isinstance(a, (VInt, VBool, VBytes, VEnum, VObj)):
            return a.t.eq(b.t)
        if isinstance(a, VTuple):
            return len(a.items) == len(b.items) and all(EngineCore.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, VRec):
            return a.cls == b.cls and all(EngineCore.same(a.fields[f], b.fields[f]) for f in a.fields)
        if isinstance(a, VOpt):
            return a.isnone.eq(b.isnone) and EngineCore.same(a.val, b.val)
        if isinstance(a, VMaybe):
            return a.isnothing.eq(b.isnothing) and EngineCore.same(a.val, b.val)
        if isinstance(a, VInst):
            return a.id == b.id
        if isinstance(a, VClass):
            return a.name == b.name
        if isinstance(a, VFunc):
            return a.node is b.node and a.fid == b.fid
        if isinstance(a, VNone):
            return True
        return False

    def describe_slot(self, pre, post):
        """Descriptor used to havoc a modified slot."""
        if isinstance(post, z3.ExprRef):
            return ("term", post.sort())
        if isinstance(post, VRef) and isinstance(pre, VRef):
            a, b = self.pre_heap.get(("h", pre.id)), self.st.heap.get(post.id)
            if isinstance(a, (Coll, VDict)) and isinstance(b, (Coll, VDict)):
                return ("ref", self.describe_slot(a, b))
            return ("undef",)
        if isinstance(post, Coll) or isinstance(pre, Coll):
            c = post if isinstance(post, Coll) and (post.items is None or post.items) else pre
            if not isinstance(c, Coll):
                return ("undef",)
            if c.items == []:
                c = pre if c is post else post
                if not isinstance(c, Coll) or c.items == []:
                    return ("undef",)
            if c.keyed or (c.items and isinstance(c.items[0], VRec) and c.items[0].cls == "DeviceInformation"):
                removed_only = isinstance(pre, Coll) and pre.keyed and isinstance(post, Coll) and post.keyed and \
                    post.out is pre.out and any(x is pre for x in within(post))
                return ("keyed", removed_only)
            try:
                return ("coll", self.elem_type(c))
            except Unsupported:
                return ("undef",)
        if isinstance(post, VDict) or isinstance(pre, VDict):
            d = post if isinstance(post, VDict) and post.kt is not None else pre
            if not isinstance(d, VDict) or d.kt is None:
                return ("undef",)
            return ("dict", d.kt, d.vt)
        try:
            t1 = type_of(post)
            t2 = type_of(pre) if pre is not None and not isinstance(pre, VNone) else None
            if t2 is not None and t1 != t2:
                return ("undef",)
            if isinstance(pre, VNone):
                return ("val", TOpt(t1) if not isinstance(t1, TOpt) else t1)
            return ("val", t1)
        except Unsupported:
            return ("undef",)

    def havoc_value(self, slot, desc, pre):
        p = "h_" + str(slot[-1])
        if desc[0] == "term":
            return self.fresh(p, desc[1])
        if desc[0] == "undef":
            return UNDEF
        if desc[0] == "ref":
            if desc[1][0] == "undef":
                return UNDEF
            return self.alloc(self.havoc_value(slot, desc[1], self.pre_heap[("h", pre.id)]), "hv")
        if desc[0] == "val":
            return self.freshv(desc[1], p)
        if desc[0] == "coll":
            kind = pre.kind if isinstance(pre, Coll) else "set"
            return arr_coll(desc[1], self.fresh(p, z3.ArraySort(desc[1].sort(), B)), kind,
                            distinct=kind in ("set", "frozenset"))
        if desc[0] == "dict":
            kt, vt = desc[1], desc[2]
            return arr_dict(kt, vt, self.fresh(p, z3.ArraySort(kt.sort(), B)),
                            self.fresh(p, z3.ArraySort(kt.sort(), vt.sort())))
        if desc[0] == "keyed":
            if desc[1]:
                a = self.fresh(p, z3.ArraySort(DevKey, B))
                base = pre
                r = Coll(pre.kind, TDevKey, lambda s: And(sel(a, s.kw["t"]), base.smem(s)), pre.out, pre.inv, et=pre.et)
                r.cache["within"] = within(pre)
                return r
            a = self.fresh(p, z3.ArraySort(DevKey, B))
            return keyed_coll(pre.kind if isinstance(pre, Coll) else "set", lambda k: sel(a, k), self.fresh_devrec(p))
        raise Unsupported("havoc")

    def fresh_devrec(self, p):
        """A fresh function from device keys to DeviceInformation records with that key."""
        fns = {}
        n = self.name(p)

        def rec(k):
            def f(field, sort):
                return z3.Function(f"{n}.{field}", DevKey, sort)(k)
            return VRec("DeviceInformation", {
                "namespaces": arr_coll(TStr, f("ns", StrSet)),
                "active": VItems(arr_dict(TStr, TBool, f("ad", StrSet), f("av", StrSet))),
                "bare_jid": VStr(acc(DevKey.dk_jid, k)), "device_id": VInt(acc(DevKey.dk_id, k)),
                "identity_key": VBytes(f("ik", Bytes)), "trust_level_name": VStr(f("tl", Str)),
                "label": TOpt(TStr).frm(f("label", opt_sort(Str)))})
        return rec

    def foci(self, ty):
        """Focal constants of a type, as values of that type."""
        out = []
        for x in self.unit.foci(self, ty):
            out.append(x)
        return out

    def shaped(self, d, v):
        """The value of a modified slot in the shape it has inside of the loop."""
        if d[0] == "ref":
            d = d[1]
        if isinstance(v, Coll) and v.items == []:
            if d[0] == "coll":
                return arr_coll(d[1], z3.K(d[1].sort(), FALSE), v.kind)
            if d[0] == "keyed":
                return keyed_coll(v.kind, lambda k: FALSE, self.fresh_devrec("none"))
        elif isinstance(v, VDict) and v.kt is None and d[0] == "dict":
            return arr_dict(d[1], d[2], z3.K(d[1].sort(), FALSE), z3.K(d[1].sort(), z3.Const("nothing", d[2].sort())))
        elif d[0] == "val" and isinstance(d[1], TOpt):
            if isinstance(v, VNone):
                return d[1].frm(d[1].sort().none)
            if not isinstance(v, (VOpt, VUndef)):
                return VOpt(FALSE, v)
        return v

    def observables(self, info):
        """Boolean and integer observations of the modified slots."""
        bools, ints = {}, {}
        sl = self.slots()
        for s, d in info.mod.items():
            if s not in sl:
                continue
            v = sl[s]
            if isinstance(v, VRef):
                v = self.st.heap.get(v.id)
            v = self.shaped(d, v)
            nm = ".".join(map(str, s))
            if isinstance(v, z3.ExprRef):
                if v.sort() == B:
                    bools[nm] = v
                elif v.sort() == I:
                    ints[nm] = v
            elif isinstance(v, VBool):
                bools[nm] = v.t
            elif isinstance(v, VInt):
                ints[nm] = v.t
            elif isinstance(v, VOpt):
                bools[nm + ".none"] = v.isnone
            elif isinstance(v, Coll):
                for i, f in enumerate(self.foci_for(v)):
                    bools[f"{nm}@{i}"] = self.mem(v, f)
            elif isinstance(v, VDict) and v.kt is not None:
                for i, f in enumerate(self.foci(v.kt)):
                    bools[f"{nm}@{i}"] = v.dom(f)
        for n, v in self.unit.observe(self).items():
            (bools if v.sort() == B else ints)[n] = v
        return bools, ints

    def foci_for(self, c):
        if c.items == []:
            return []
        if c.keyed or (c.items and isinstance(c.items[0], VRec) and c.items[0].cls == "DeviceInformation"):
            # membership by key
            ks = self.foci(TDevKey)
            return [c.out(k) for k in ks] if c.keyed else []
        try:
            return self.foci(self.elem_type(c))
        except Unsupported:
            return []

    def candidates(self, info, pre, dead, phase):
        """Candidate invariants: name -> formula over the current state and the phase-entry state ``pre``."""
        out = {}
        sl = self.slots()

        def put(n, f):
            n = f"{phase}:{n}"
            if n in dead:
                return
            out[n] = f()
        for s, d in info.mod.items():
            if s not in sl or s not in pre:
                continue
            v, p = sl[s], pre[s]
            if isinstance(v, VRef) and isinstance(p, VRef):
                v, p = self.st.heap.get(v.id), pre.get(("h", p.id))
            v, p = self.shaped(d, v), self.shaped(d, p)
            nm = ".".join(map(str, s))
            if isinstance(v, z3.ExprRef) or isinstance(v, (VInt, VBool, VStr, VBytes, VEnum, VObj, VOpt, VTuple)):
                if isinstance(p, VUndef) or isinstance(v, VUndef):
                    continue
                if s == ("c", "D"):
                    for i, k in enumerate(self.unit.watch_keys(self)):
                        put(f"D@{i}", lambda: eqt(sel(v, k), sel(p, k)))
                    continue
                if isinstance(v, z3.ExprRef) and v.sort().kind() == z3.Z3_ARRAY_SORT:
                    for i, k in enumerate(self.unit.watch(self, s[1])):
                        put(f"{nm}@{i}", lambda: eqt(sel(v, k), sel(p, k)))
                    continue
                if isinstance(v, z3.ExprRef):
                    put(nm + "=", lambda: eqt(v, p))
                    if v.sort() == I:
                        put(nm + "<=", lambda: v <= p)
                        put(nm + ">=", lambda: v >= p)
                    if v.sort() == B:
                        put(nm + "->", lambda: Implies(v, p))
                        put(nm + "<-", lambda: Implies(p, v))
                else:
                    try:
                        put(nm + "=", lambda: veq(v, p))
                    except Unsupported:
                        pass
                    if isinstance(v, VInt) and isinstance(p, VInt):
                        put(nm + "<=", lambda: v.t <= p.t)
                        put(nm + ">=", lambda: v.t >= p.t)
                    if isinstance(v, VBool) and isinstance(p, VBool):
                        put(nm + "->", lambda: Implies(v.t, p.t))
                        put(nm + "<-", lambda: Implies(p.t, v.t))
            elif isinstance(v, Coll) and isinstance(p, Coll):
                for i, f in enumerate(self.foci_for(v)):
                    a = self.mem(v, f)
                    if p.keyed and v.keyed:
                        k = dev_key(f)
                        b = p.smem(k)
                        a = v.smem(k)
                        put(f"{nm}rec@{i}", lambda: Implies(And(a, b), self.rec_same(v.out(k), p.out(k))))
                    else:
                        b = self.mem(p, f) if p.items != [] else FALSE
                    put(f"{nm}=@{i}", lambda: Iff(a, b))
                    put(f"{nm}->@{i}", lambda: Implies(a, b))
                    put(f"{nm}<-@{i}", lambda: Implies(b, a))
                try:
                    ti = self.unit.typed_invariants(self, self.elem_type(v))
                except Unsupported:
                    ti = {}
                for tn, tf in ti.items():
                    for i, f in enumerate(self.foci_for(v)):
                        put(f"{nm}:{tn}@{i}", lambda: Implies(self.mem(v, f), tf(f)))
                if v.kind != "list" or True:
                    put(f"{nm}.empty", lambda: Implies(Not(self.nonempty(p)), Not(self.nonempty(v))))
            elif isinstance(v, VDict) and isinstance(p, VDict) and v.kt is not None:
                for i, f in enumerate(self.foci(v.kt)):
                    pd = p.dom(f) if p.kt is not None else FALSE
                    put(f"{nm}=@{i}", lambda: Iff(v.dom(f), pd))
                    put(f"{nm}->@{i}", lambda: Implies(v.dom(f), pd))
                    put(f"{nm}<-@{i}", lambda: Implies(pd, v.dom(f)))
                    for tn, tf in self.unit.typed_invariants(self, v.kt).items():
                        put(f"{nm}:{tn}@{i}", lambda: Implies(v.dom(f), tf(f, v.val(f))))
                    if p.kt is not None:
                        put(f"{nm}v@{i}", lambda: Implies(And(v.dom(f), pd), veq(v.val(f), p.val(f))))
        bools, ints = self.observables(info)
        bn = sorted(bools)
        for a in bn:
            put(f"F({a})", lambda: Not(bools[a]))
            for b in bn:
                if a != b:
                    put(f"{a}->{b}", lambda: Implies(bools[a], bools[b]))
        inn = sorted(ints)
        for i, a in enumerate(inn):
            for b in inn[i + 1:]:
                put(f"{a}=={b}", lambda: ints[a] == ints[b])
            put(f"{a}>=0", lambda: ints[a] >= 0)
        for n, f in self.unit.invariants(self, pre).items():
            put("spec:" + n, lambda: f)
        return out

    def rec_same(self, a, b):
        return And(*[veq(a.fields[f], b.fields[f]) for f in a.fields
                     if f not in ("namespaces", "active")] +
                   [Iff(self.mem(a.fields["namespaces"], n), self.mem(b.fields["namespaces"], n))
                    for n in self.unit.record_names(self)])

    def loop(self, node, coll, body, is_while=False, prune=None):
        """
        Execute a loop. ``body(elem)`` runs one iteration (raising ContinueEx/BreakEx/...). For a while loop ``coll`` is
        None, and body(None) includes evaluating the condition (raising BreakEx with ``normal`` set when it fails).
        Returns True if the loop ended normally (so that the else clause runs), False after a break.
        """
        occ = self.loop_occ.get(id(node), 0)
        lid = (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), self.unit.loop_context(self))
        if self.pure:
            raise Impure("loop in pure context")
        if coll is not None:
            if coll.items is not None:
                for x in coll.items:
                    try:
                        body(x)
                    except ContinueEx:
                        pass
                    except BreakEx:
                        return False
                return True
            coll = self.by_elem(coll)
        info = self.loops.get(lid)
        if info is None:
            n = len(self.loops)
            info = self.loops[lid] = LoopInfo()
            if n < len(self.hints):
                info.dead = set(self.hints[n])
        self.pdeps.setdefault(lid, info.version)
        foci = self.foci(coll.st) if coll is not None else []
        if len(foci) > 1:
            if len(foci) == 2:
                if self.choose(["fwd", "rev"], "focal order") == "rev":
                    foci = foci[::-1]
            else:
                raise Unsupported("too many focal elements")
        done = []
        for ph in range(len(foci) + 1):
            # in a list an element may occur again after its first occurrence
            avoid = foci if coll is None or coll.distinct else foci[ph:]
            r = self.others(node, info, coll, body, avoid, f"p{ph}of{len(foci)}", is_while, prune)
            if r == "break":
                return False
            if r == "end":
                return True
            if ph < len(foci):
                f = foci[ph]
                if any(is_true(veq(f, g)) for g in done):
                    continue
                if self.branch(And(coll.smem(f), *[Not(veq(f, g)) for g in done]), "focal in loop"):
                    try:
                        self.merged((id(node), "focal", ph), lambda: self.one(body, coll.elem(f), prune))
                    except BreakEx:
                        return False
                done.append(f)
        return True

    @staticmethod
    def one(body, x, prune=None):
        try:
            body(x)
        except ContinueEx:
            pass
        if prune is not None:
            prune()

    def others(self, node, info, coll, body, foci, phase, is_while, prune=None):
        """Arbitrarily many iterations on elements other than the focal ones."""
        if prune is not None:
            prune()
        pre = self.slots()
        self.pre_heap = pre
        mod = {s: d for s, d in info.mod.items() if s in pre}
        # candidates must hold on entry (trivially true for those relative to pre)
        entry = {}
        if phase.startswith("p0"):
            info.empty_at_entry = {s: isinstance(v, Coll) and v.items == [] for s, v in pre.items()}
        if mod:
            entry = self.candidates(info, pre, info.dead, phase)
            dead = self.refuted(entry)
            if dead:
                info.dead |= dead
                info.version += 1
                self.refined = True
        for s, d in mod.items():
            self.set_slot(s, self.havoc_value(s, d, pre[s]))
        # only what was checked on entry may be assumed
        cands = {n: f for n, f in self.candidates(info, pre, info.dead, phase).items() if n in entry} if mod else {}
        for f in cands.values():
            self.assume(f)
        if not self.feasible():
            raise PathEnd()
        mode = self.choose(["after", "iteration"], f"loop {phase}")
        if mode == "after":
            if is_while:
                # leave by running the condition; body raises BreakEx when it fails
                try:
                    body(None)
                except BreakEx as b:
                    return "end" if getattr(b, "normal", False) else "break"
                except ContinueEx:
                    pass
                raise PathEnd()
            return "after"
        if is_while:
            try:
                body(None)
            except BreakEx:
                raise PathEnd()
            except ContinueEx:
                pass
        else:
            x = coll.st.frm(self.fresh("other", coll.st.sort(), witness=True))
            self.assume(And(coll.smem(x), *[Not(veq(x, f)) for f in foci]))
            self.add_pool(coll.st.to(x))
            if not self.feasible():
                raise PathEnd()
            self.loop_elems.append((info, phase, coll.st.to(x), foci))
            try:
                self.merged((id(node), "other", phase), lambda: self.one(body, coll.elem(x), prune))
            except BreakEx:
                return "break"
            finally:
                self.loop_elems.pop()
        # iteration completed normally: check that the invariants are preserved
        if prune is not None:
            prune()
        end = self.slots()
        start0 = self.pre_heap = pre
        changed = False
        for s, v in end.items():
            if s in info.mod:
                continue
            if s not in start0:
                continue        # created inside the loop
            if not self.same(start0[s], v):
                if not self.feasible():
                    raise PathEnd()
                info.mod[s] = self.describe_slot(start0[s], v)
                changed = True
        for s, v in end.items():
            if s in mod and s in start0:
                d = self.describe_slot(start0[s], v)
                if info.mod[s][0] == "undef" and d[0] != "undef" and ("u", s) not in info.dead and \
                        isinstance(start0[s], (Coll, VDict)):
                    info.dead.add(("u", s))
                    info.mod[s] = d
                    changed = True
                elif info.mod[s][0] == "ref" and d[0] == "ref" and info.mod[s] != d and ("r", s, d) not in info.dead:
                    info.dead.add(("r", s, d))
                    info.mod[s] = d if info.mod[s][1][0] == "undef" or d[1] == ("keyed", False) else info.mod[s]
                    changed = True
                elif info.mod[s][0] == "keyed" and d[0] == "keyed" and info.mod[s][1] and not d[1]:
                    info.mod[s] = d
                    changed = True
                elif info.mod[s][0] == "coll" and d[0] == "coll" and d[1] != info.mod[s][1]:
                    t = lub(info.mod[s][1], d[1])
                    if t != info.mod[s][1]:
                        info.mod[s] = ("coll", t) if t is not None else ("undef",)
                        changed = True
                elif info.mod[s][0] == "val" and d[0] == "val" and d[1] != info.mod[s][1]:
                    a, b = info.mod[s][1], d[1]
                    if isinstance(a, TOpt) and a.inner == b:
                        pass
                    elif isinstance(b, TOpt) and b.inner == a:
                        info.mod[s] = d
                        changed = True
                    else:
                        info.mod[s] = ("undef",)
                        changed = True
        if changed:
            info.version += 1
            self.refine()
        if cands:
            now = self.candidates(info, pre, info.dead, phase)
            lost = {n for n in cands if n not in now and n not in info.dead}
            dead = lost | self.refuted({n: f for n, f in now.items() if n in cands})
            if dead:
                info.dead |= dead
                info.version += 1
                self.refine()
        raise PathEnd()

    def not_yet_added(self, c, k):
        """
        Whether the device k is not in the collection c yet because it is identified by the element of the current
        iteration, which was not processed before. The corresponding statement about the focal element, which is arbitrary,
        is among the invariants of the phase before the focal element is processed; by induction it holds for every element
        that was not processed yet.
        """
        if not self.unit.arbitrary_foci:
            return False
        for info, phase, x, foci in self.loop_elems:
            ks = self.foci(TDevKey)
            if len(foci) != 1 or not ks or not z3.is_expr(x):
                continue
            f = type_of(foci[0]).to(foci[0])
            if f.sort() != x.sort() or not z3.substitute(k, (x, f)).eq(ks[0].kw["t"]):
                continue
            for s, v in self.slots().items():
                if s[0] == "h" and v is c and f"p0of1:h.{s[1]}->@0" not in info.dead and s in info.mod and \
                        info.empty_at_entry.get(s):
                    return True
        return False

    def refuted(self, cands):
        """Names of the candidates that do not hold here."""
        live = {n: f for n, f in cands.items() if not is_true(f)}
        dead = set()
        while live:
            goal = And(*live.values())
            if is_false(goal):
                dead |= {n for n, f in live.items() if is_false(f)}
                live = {n: f for n, f in live.items() if not is_false(f)}
                continue
            k = (self.key(), len(self.st.pc), tid(goal))
            if k in self.feas_cache:
                break
            self.want_model = True
            self.model = None
            r = self.ctx.check(Not(goal), once=True)
            self.want_model = False
            if r == z3.unsat:
                self.feas_cache[k] = True
                self.keep.append(goal)
                break
            kill = set()
            if r == z3.sat and self.model is not None:
                for n, f in live.items():
                    if is_false(self.model.eval(f, model_completion=True)):
                        kill.add(n)
            if not kill:
                for n, f in live.items():
                    if self.ctx.check(Not(f), once=True) != z3.unsat:
                        kill.add(n)
                if not kill:
                    break
            dead |= kill
            live = {n: f for n, f in live.items() if n not in kill}
        return dead

    def entails(self, f):
        if is_true(f):
            return True
        return self.ctx.check(Not(f)) == z3.unsat
