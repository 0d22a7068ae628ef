"""Symbolic interpreter for the subset of Python used by the repository."""
import ast
import types
import z3
from .values import *     # noqa: F401,F403
from .engine import (EngineCore, PyRaise, BreakEx, ContinueEx, ReturnEx, PathEnd, Impure, Split)
from .liveness import dead_names
from .repo import mangle, decorators, ABSTRACT_OBJECTS, BUILTIN_EXC


class Skip(V):
    pass


SKIP = Skip()
FORGOTTEN = VUndef()
ATOMIC = (bool, int, float, bytes, z3.AstRef, ast.AST, z3.Context)
SIMPLE = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Not, ast.And, ast.Or,
          ast.Is, ast.IsNot, ast.Eq, ast.NotEq, ast.Load, ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.USub)


def is_simple(n):
    return all(isinstance(x, SIMPLE) for x in ast.walk(n))


class Interp(EngineCore):
    MAXCALLS = 40

    # ------------------------------------------------------------------------------------------------ frames

    def new_frame(self, parent, module, cls, node=None):
        fid = self.cell(f"f_{getattr(node, 'name', 'x')}")
        self.st.frames[fid] = {}
        if not hasattr(self, "fmeta"):
            self.fmeta = {}
        self.fmeta[fid] = (parent, module, cls, self.local_names(node) if node is not None else frozenset(),
                           self.nonlocals(node) if node is not None else frozenset(), node)
        return fid

    _locals = {}

    def local_names(self, node):
        k = id(node)
        if k in self._locals and self._locals[k][0] is node:
            return self._locals[k][1]
        names = set()
        for p in ast.walk(node.args):
            if isinstance(p, ast.arg):
                names.add(p.arg)

        def walk(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(c.name)
                    continue
                if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    continue
                if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)):
                    names.add(c.id)
                if isinstance(c, ast.ExceptHandler) and c.name:
                    names.add(c.name)
                walk(c)
        if not isinstance(node, ast.Lambda):
            for s in node.body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    names.add(s.name)
                else:
                    if isinstance(s, ast.Name):
                        pass
                    walk(ast.Module(body=[s], type_ignores=[]))
        r = frozenset(names) - self.nonlocals(node)
        self._locals[k] = (node, r)
        return r

    @staticmethod
    def nonlocals(node):
        if isinstance(node, ast.Lambda):
            return frozenset()
        out = set()
        for s in ast.walk(node):
            if isinstance(s, ast.Nonlocal):
                out |= set(s.names)
        return frozenset(out)

    @property
    def fid(self):
        return self.cur

    def lookup(self, name, node=None):
        f = self.cur
        first = True
        while f is not None:
            fr = self.st.frames[f]
            if name in fr:
                v = fr[name]
                if isinstance(v, VUnmerged):
                    raise Split(v.node)
                if isinstance(v, VUndef):
                    raise Unsupported(f"use of {name}, whose value is not tracked here")
                return v
            parent, module, cls, locs, nonl, _ = self.fmeta[f]
            if first and name in locs:
                self.throw("UnboundLocalError", f"local {name}")
            if f == self.cur and self.fmeta[f][3]:
                first = False
            f = parent
        module = self.fmeta[self.cur][1]
        return self.global_name(module, name)

    def global_name(self, module, name):
        rp = self.repo
        if (module, name) in rp.functions:
            n = rp.functions[(module, name)]
            return VFunc(n, None, module, None, isinstance(n, ast.AsyncFunctionDef))
        if name in rp.classes and rp.classes[name].module == module:
            return VClass(name)
        imp = rp.imports[module].get(name)
        if imp is not None:
            if imp[0] == "module":
                return VModule(imp[1])
            src = imp[1].split(".")[-1]
            if imp[2] in rp.classes:
                return VClass(imp[2])
            if (src, imp[2]) in rp.functions:
                return self.global_name(src, imp[2])
            return self.module_attr(VModule(imp[1]), imp[2]) if imp[1] else VModule(imp[2])
        if (module, name) in rp.globals:
            return self.eval_in(module, None, rp.globals[(module, name)])
        b = self.builtin(name)
        if b is not None:
            return b
        self.throw("NameError", name)

    def eval_in(self, module, cls, expr):
        save = getattr(self, "cur", None)
        f = self.new_frame(None, module, cls)
        self.cur = f
        try:
            return self.eval(expr)
        finally:
            self.cur = save

    def throw(self, cls, origin="", fields=None):
        raise PyRaise(VExc(cls, fields, origin, self.fresh("exc", Exc)))

    def alloc(self, v, site="x"):
        i = self.cell(f"c{site}")
        self.st.heap[i] = v
        return VRef(i)

    def site(self, node):
        return f"{getattr(node, 'lineno', 0)}:{getattr(node, 'col_offset', 0)}"

    def write_cell(self, ref, v):
        if self.pure and ref.id in self.pure_base():
            raise Impure("mutation in pure context")
        self.st.heap[ref.id] = v

    def pure_base(self):
        return self._pure_heaps[-1]

    def explore_pure(self, fn):
        if not hasattr(self, "_pure_heaps"):
            self._pure_heaps = []
        self._pure_heaps.append(set(self.st.heap))
        cur = self.cur
        try:
            def g():
                self.cur = cur
                return fn()
            return super().explore_pure(g)
        finally:
            self._pure_heaps.pop()
            self.cur = cur

    def effect(self, what=""):
        """Announce an effect on the environment (not allowed in pure context)."""
        if self.pure:
            raise Impure(what)

    # ------------------------------------------------------------------------------------------------ statements

    def exec_block(self, stmts):
        for s in stmts:
            self.exec(s)

    def exec(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(s).__name__} at line {s.lineno}")
        m(s)

    def s_Pass(self, s):
        pass

    def s_Nonlocal(self, s):
        pass

    def s_Import(self, s):
        raise Unsupported("local import")

    s_ImportFrom = s_Import

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Return(self, s):
        raise ReturnEx(NONE if s.value is None else self.eval(s.value))

    def s_Break(self, s):
        raise BreakEx()

    def s_Continue(self, s):
        raise ContinueEx()

    def s_FunctionDef(self, s):
        if s.decorator_list:
            raise Unsupported("decorated local function")
        self.bind(s.name, VFunc(s, self.cur, self.fmeta[self.cur][1], self.fmeta[self.cur][2],
                                isinstance(s, ast.AsyncFunctionDef)))

    s_AsyncFunctionDef = s_FunctionDef

    def s_Assert(self, s):
        if not self.truth(self.eval(s.test)):
            self.throw("AssertionError", "assert")

    def s_If(self, s):
        c = self.truthf(self.eval(s.test))
        if is_true(c):
            self.exec_block(s.body)
        elif is_false(c):
            self.exec_block(s.orelse)
        else:
            self.merged(("if", id(s)), lambda: self.exec_block(s.body if self.branch(c, f"L{s.lineno}") else s.orelse))

    def s_Raise(self, s):
        if s.exc is None:
            if not self.handling:
                self.throw("RuntimeError", "no active exception")
            raise PyRaise(self.handling[-1])
        v = self.eval(s.exc)
        if s.cause is not None:
            self.eval(s.cause)
        if isinstance(v, VClass):
            v = self.instantiate(v, [], {}, s)
        if not isinstance(v, VExc) or v.cls == "?":
            raise Unsupported("raise of non-exception")
        if v.origin is None:
            v.origin = f"raise at line {s.lineno}"
        raise PyRaise(v)

    @property
    def handling(self):
        if not hasattr(self, "_handling"):
            self._handling = []
        return self._handling

    def exc_matches(self, exc, spec):
        """Whether the exception is caught by the handler's class expression: True, False (or a decision)."""
        if isinstance(spec, VTuple):
            return any(self.exc_matches(exc, x) for x in spec.items)
        if not isinstance(spec, VClass):
            raise Unsupported(f"except clause {spec!r}")
        if exc.cls == "?":
            raise Unsupported("handling one of several exceptions")
        return spec.name in self.repo.exc_bases(exc.cls)

    def s_Try(self, s):
        self.merged(("try", id(s)), lambda: self.do_try(s))

    def do_try(self, s):
        n_h = len(self.handling)
        try:
            td = self.trydepth
            try:
                if s.handlers:
                    self.trydepth += 1
                try:
                    self.exec_block(s.body)
                finally:
                    self.trydepth = td
            except PyRaise as e:
                del self.handling[n_h:]
                cur = self.cur
                for h in s.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type)):
                        if h.name:
                            self.bind(h.name, e.exc)
                        self.handling.append(e.exc)
                        try:
                            self.exec_block(h.body)
                        finally:
                            del self.handling[n_h:]
                            if h.name:
                                self.st.frames[cur].pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse)
        except (PathEnd, Impure, Unsupported):
            raise
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody)
            raise
        else:
            if s.finalbody:
                self.exec_block(s.finalbody)

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))

    def s_AugAssign(self, s):
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id)
        elif isinstance(s.target, ast.Attribute):
            old = self.get_attr(self.eval(s.target.value), s.target.attr)
        elif isinstance(s.target, ast.Subscript):
            old = self.subscript(self.eval(s.target.value), self.eval(s.target.slice))
        else:
            raise Unsupported("augmented assignment")
        r = self.eval(s.value)
        if isinstance(old, VRef):
            c = self.cell_value(old)
            if isinstance(c, Coll):
                self.write_cell(old, self.binop(s.op, c, self.deref(r)).copy(kind=c.kind))
                return
            if isinstance(c, VDict) and isinstance(s.op, ast.BitOr):
                self.dict_update(old, r)
                return
        self.assign(s.target, self.binop(s.op, old, self.deref(r)))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o, k = self.eval(t.value), self.eval(t.slice)
                c = self.deref(o)
                if isinstance(c, VDict):
                    self.dict_pop(o, k, None)
                    continue
            elif isinstance(t, ast.Name):
                self.lookup(t.id)
                del self.st.frames[self.cur][t.id]
                continue
            raise Unsupported("del")

    def bind(self, name, v):
        f = self.cur
        if name in self.fmeta[f][4]:
            g = self.fmeta[f][0]
            while g is not None and name not in self.st.frames[g]:
                g = self.fmeta[g][0]
            if g is None:
                raise Unsupported("nonlocal")
            if self.pure:
                raise Impure("nonlocal")
            f = g
        self.st.frames[f][name] = v

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.bind(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value)
            self.set_attr(o, t.attr, v)
        elif isinstance(t, ast.Subscript):
            o, k = self.eval(t.value), self.eval(t.slice)
            self.set_item(o, k, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, elts, v):
        v = self.force(v)
        v = self.deref(v) if isinstance(v, VRef) else v
        if any(isinstance(e, ast.Starred) for e in elts):
            raise Unsupported("starred assignment")
        if isinstance(v, VTuple):
            items = v.items
        elif isinstance(v, VRec):
            items = list(v.fields.values())
        elif isinstance(v, Coll) and v.items is not None:
            items = v.items
        else:
            raise Unsupported(f"unpacking of {v!r}")
        if len(items) != len(elts):
            self.throw("ValueError", "unpack")
        for e, x in zip(elts, items):
            self.assign(e, x)

    def set_attr(self, o, name, v):
        if isinstance(o, VExc):
            o.fields[name] = v
            return
        if not isinstance(o, VInst):
            raise Unsupported(f"attribute assignment on {o!r}")
        if self.pure and o.id in self.pure_base():
            raise Impure("attribute")
        self.cell_value(o)[mangle(self.fmeta[self.cur][2], name)] = v

    def set_item(self, o, k, v):
        if not isinstance(o, VRef):
            if isinstance(o, VOpt):
                return self.set_item(self.force(o), k, v)
            raise Unsupported(f"item assignment on {o!r}")
        d = self.cell_value(o)
        if not isinstance(d, VDict):
            raise Unsupported("item assignment on a list")
        self.write_cell(o, self.dict_set(d, k, v))

    def dict_set(self, d, k, v):
        k, v = self.freeze(k), self.freeze(v)
        if d.kt is None:
            kt, vt = type_of(k), (type_of(v) if not isinstance(v, VNone) else None)
            return VDict(kt, vt, lambda x: veq(x, k), lambda x: v)
        vt = d.vt
        if vt is None and not isinstance(v, VNone):
            vt = TOpt(type_of(v)) if not isinstance(v, VOpt) else type_of(v)

        def val(x):
            e = veq(x, k)
            if is_true(e):
                return v
            if is_false(e):
                return d.val(x)
            return vite(e, v, d.val(x))
        return VDict(d.kt, vt, lambda x: Or(veq(x, k), d.dom(x)), val)

    def s_While(self, s):
        def body(_):
            if not (isinstance(s.test, ast.Constant) and s.test.value):
                if not self.truth(self.eval(s.test), f"while L{s.lineno}"):
                    b = BreakEx()
                    b.normal = True
                    raise b
            self.exec_block(s.body)
        def run():
            if self.loop(s, None, body, is_while=True, prune=self.pruner(s)):
                self.exec_block(s.orelse)
        self.merged(("while", id(s)), run)

    def s_For(self, s):
        it = self.eval(s.iter)
        self.merged(("for", id(s)), lambda: self.run_for(
            s, it, lambda x: (self.assign(s.target, x), self.exec_block(s.body)), s.orelse))

    def pruner(self, node):
        """
        Forgets, between iterations, local variables that are not read before they are assigned again, and objects and
        frames created by iterations that nothing refers to any more.
        """
        fid, st = self.cur, self.st
        fn = self.fmeta[fid][5]
        old = set(st.heap) | set(st.frames)
        dead = () if fn is None or isinstance(fn, ast.Lambda) else dead_names(fn, node, self.fmeta[fid][3])

        def prune():
            fr = st.frames[fid]
            for n in dead:
                if n in fr:
                    fr[n] = FORGOTTEN
            new = {k for k in (*st.heap, *st.frames) if k not in old}
            if new:
                for k in new - self.reachable(old, new):
                    st.heap.pop(k, None)
                    st.frames.pop(k, None)
        return prune

    def reachable(self, old, new):
        """Those of the new objects and frames that may be reached from the old ones (conservatively)."""
        st = self.st
        found, seen = set(), set()
        todo = [d[k] for d in (st.heap, st.frames) for k in d if k in old] + [self._handling]
        while todo:
            x = todo.pop()
            if isinstance(x, str):
                if x in new and x not in found:
                    found.add(x)
                    todo += [d[x] for d in (st.heap, st.frames) if x in d]
                    if x in self.fmeta:
                        todo.append(self.fmeta[x][0])
                continue
            if x is None or isinstance(x, ATOMIC) or id(x) in seen:
                continue
            seen.add(id(x))
            if isinstance(x, dict):
                todo += x.values()
                todo += x.keys()
            elif isinstance(x, (list, tuple, set, frozenset)):
                todo += x
            elif isinstance(x, types.FunctionType):
                for c in x.__closure__ or ():
                    try:
                        todo.append(c.cell_contents)
                    except ValueError:
                        pass
                todo += x.__defaults__ or ()
            elif isinstance(x, types.MethodType):
                todo.append(x.__self__)
            elif x is self or x is self.unit or isinstance(x, (types.ModuleType, type)):
                pass
            else:
                todo += getattr(x, "__dict__", {}).values()
                for c in type(x).__mro__:
                    for n in getattr(c, "__slots__", ()):
                        todo.append(getattr(x, n, None))
        return found

    def run_for(self, node, it, body, orelse=()):
        src = it
        coll = self.as_coll(it)
        before = self.st.heap.get(src.id) if isinstance(src, VRef) else None

        def b(x):
            body(x)
            if before is not None and self.st.heap[src.id] is not before and coll.items is None:
                raise Unsupported("collection is modified while being iterated over")
        if self.loop(node, coll, b, prune=self.pruner(node)):
            if orelse:
                self.exec_block(orelse)

    # ------------------------------------------------------------------------------------------------ truth, force

    def force(self, v, why="AttributeError"):
        """The value of an optional; raises the Python error if it is None."""
        while isinstance(v, VOpt):
            if self.branch(v.isnone):
                return NONE
            v = v.val
        return v

    def truthf(self, v):
        """Truth value as a formula (no forking)."""
        if isinstance(v, VBool):
            return v.t
        if isinstance(v, VNone):
            return FALSE
        if isinstance(v, VInt):
            if v.length_of is not None:
                return self.nonempty(v.length_of)
            return Not(eqt(v.t, z3.IntVal(0)))
        if isinstance(v, VOpt):
            return And(Not(v.isnone), self.truthf(v.val))
        if isinstance(v, VRef):
            return self.truthf(self.cell_value(v))
        if isinstance(v, Coll):
            return self.nonempty(v)
        if isinstance(v, VDict):
            return FALSE if v.kt is None else self.exists(v.kt, v.dom)
        if isinstance(v, VItems):
            return self.truthf(v.d)
        if isinstance(v, VTuple):
            return BV(len(v.items) > 0)
        if isinstance(v, VStr):
            if v.const() is not None:
                return BV(v.const() != "")
            if any(isinstance(p, str) for p in v.parts):
                return TRUE
            return Not(eqt(v.t, strconst("")))
        if isinstance(v, (VObj, VEnum, VRec, VInst, VExc, VClass, VFunc)):
            return TRUE
        if isinstance(v, VChars):
            return BV(len(v.chars) > 0)
        raise Unsupported(f"truth value of {v!r}")

    def truth(self, v, label=""):
        return self.branch(self.truthf(v), label)

    def deref(self, v):
        if isinstance(v, VRef):
            return self.cell_value(v)
        return v

    def cell_value(self, ref):
        v = self.st.heap[ref.id]
        if isinstance(v, VUnmerged):
            raise Split(v.node)
        if isinstance(v, VUndef):
            raise Unsupported("use of a mutable object whose value is not tracked here")
        return v

    def as_coll(self, v):
        v = self.force(v)
        v = self.deref(v)
        if isinstance(v, Coll):
            return v
        if isinstance(v, VTuple):
            return items_coll("list", v.items) if not v.items or True else None
        if isinstance(v, VItems):
            d = v.d
            if d.kt is None:
                return empty_coll("list")
            return Coll("frozenset", d.kt, d.dom, lambda k: VTuple([k, d.val(k)]), lambda y: y.items[0])
        if isinstance(v, VDict):
            if v.kt is None:
                return empty_coll("list")
            return Coll("frozenset", v.kt, v.dom, et=v.kt)
        if isinstance(v, VNone):
            self.throw("TypeError", "None is not iterable")
        c = self.unit.elements(self, v)
        if c is not None:
            return c
        raise Unsupported(f"iteration over {v!r}")

    # ------------------------------------------------------------------------------------------------ expressions

    def eval(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__} at line {e.lineno}")
        return m(e)

    def e_Constant(self, e):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return VBool(v)
        if isinstance(v, int):
            return VInt(v)
        if isinstance(v, str):
            return VStr(v)
        if isinstance(v, bytes):
            return VBytes(z3.Const("bytes:" + v.hex(), Bytes), len(v))
        if v is Ellipsis:
            return NONE
        raise Unsupported(f"constant {v!r}")

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_Await(self, e):
        v = self.eval(e.value)
        return self.await_(v)

    def await_(self, v):
        if not isinstance(v, VCoro):
            raise Unsupported(f"await of {v!r}")
        if getattr(v, "used", False) and not self.pure:
            raise Unsupported("coroutine awaited twice")
        v.used = True
        return v.thunk()

    def e_Attribute(self, e):
        return self.get_attr(self.eval(e.value), e.attr)

    def e_NamedExpr(self, e):
        v = self.eval(e.value)
        self.bind(e.target.id, v)
        return v

    def e_Tuple(self, e):
        return VTuple(self.elts(e.elts))

    def elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                c = self.as_coll(self.eval(x.value))
                if c.items is None:
                    raise Unsupported("starred collection")
                out += c.items
            else:
                out.append(self.eval(x))
        return out

    def e_List(self, e):
        return self.literal(e, "list")

    def e_Set(self, e):
        return self.literal(e, "set")

    def literal(self, e, kind):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            c = empty_coll(kind)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    d = self.as_coll(self.eval(x.value))
                else:
                    d = items_coll(kind, [self.freeze(self.eval(x))])
                c = self.union(c, d, kind)
            return self.alloc(c, self.site(e))
        items = [self.freeze(x) for x in self.elts(e.elts)]
        return self.alloc(items_coll(kind, items) if items else empty_coll(kind), self.site(e))

    def e_Dict(self, e):
        d = VDict()
        ref = self.alloc(d, self.site(e))
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(ref, self.eval(v))
            else:
                kk = self.eval(k)
                self.st.heap[ref.id] = self.dict_set(self.cell_value(ref), kk, self.eval(v))
        return ref

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                try:
                    x = self.eval(v.value)
                    if v.format_spec is not None or v.conversion != -1:
                        parts.append(self.fresh("fmt", Str))
                        continue
                    parts += self.to_str(x).parts
                except Unsupported:
                    parts.append(self.fresh("fmt", Str))
        return VStr(*parts)

    def to_str(self, x):
        x = self.force(x) if isinstance(x, VOpt) and False else x
        if isinstance(x, VStr):
            return x
        if isinstance(x, VInt):
            c = x.concrete()
            return VStr(str(c)) if c is not None else VStr(s_of_int(x.t))
        return VStr(self.fresh("fmt", Str))

    def e_IfExp(self, e):
        if is_simple(e.test) and is_simple(e.body) and is_simple(e.orelse):
            c = self.truthf_expr(e.test)
            if is_true(c):
                return self.eval(e.body)
            if is_false(c):
                return self.eval(e.orelse)
            if not self.has_opt(e):
                a, b = self.eval(e.body), self.eval(e.orelse)
                try:
                    return vite(c, a, b)
                except Unsupported:
                    pass
            return self.eval(e.body) if self.branch(c) else self.eval(e.orelse)
        return self.eval(e.body) if self.truth(self.eval(e.test), f"ifexp L{e.lineno}") else self.eval(e.orelse)

    def has_opt(self, e):
        """Whether evaluating attributes in e might hit None (so that evaluating both branches is not safe)."""
        for n in ast.walk(e):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
                try:
                    v = self.lookup(n.value.id)
                except (PyRaise, Unsupported):
                    return True
                if isinstance(v, (VOpt, VNone)):
                    return True
        return False

    def truthf_expr(self, e):
        """Truth value of a simple (effect free) expression as a formula, short circuit respected by guards."""
        return self.truthf(self.eval(e))

    def e_BoolOp(self, e):
        is_and = isinstance(e.op, ast.And)
        if all(is_simple(x) for x in e.values) and not self.has_opt(e):
            vs = [self.eval(x) for x in e.values]
            if all(isinstance(v, VBool) for v in vs):
                return VBool((And if is_and else Or)(*[v.t for v in vs]))
        v = self.eval(e.values[0])
        for x in e.values[1:]:
            if not is_and and isinstance(v, VOpt) and isinstance(x, ast.Constant) and isinstance(v.val, VInt) \
                    and x.value == 0:
                v = vite(v.isnone, VInt(0), v.val)      # (x or 0)
                continue
            t = self.truthf(v)
            if self.branch(t):
                if not is_and:
                    return self.force(v) if isinstance(v, VOpt) else v
                v = self.eval(x)
            else:
                if is_and:
                    return v
                v = self.eval(x)
        return v

    def e_UnaryOp(self, e):
        v = self.eval(e.operand)
        if isinstance(e.op, ast.Not):
            return VBool(Not(self.truthf(v)))
        if isinstance(e.op, ast.USub):
            return VInt(-self.num(v))
        if isinstance(e.op, ast.UAdd):
            return VInt(self.num(v))
        raise Unsupported("unary operator")

    def num(self, v):
        v = self.force(v)
        if isinstance(v, VInt):
            return v.t
        if isinstance(v, VBool):
            return If(v.t, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, VNone):
            self.throw("TypeError", "None is not a number")
        raise Unsupported(f"number expected, got {v!r}")

    def e_BinOp(self, e):
        return self.binop(e.op, self.eval(e.left), self.eval(e.right), e)

    def binop(self, op, a, b, node=None):
        a, b = self.deref(self.force(a)), self.deref(self.force(b))
        if isinstance(a, VStr) and isinstance(b, VStr) and isinstance(op, ast.Add):
            return VStr(*(a.parts + b.parts))
        if isinstance(a, VDict) and isinstance(b, VDict) and isinstance(op, ast.BitOr):
            r = self.alloc(a, "or")
            self.dict_update(r, b)
            return r
        if isinstance(a, VDict) or isinstance(a, VItems):
            a = self.as_coll(a)
        if isinstance(b, VDict) or isinstance(b, VItems):
            b = self.as_coll(b)
        if isinstance(a, Coll) and isinstance(b, Coll):
            if isinstance(op, ast.BitOr) or (isinstance(op, ast.Add) and a.kind == "list"):
                r = self.union(a, b, a.kind)
            elif isinstance(op, ast.BitAnd):
                r = self.intersect(a, b)
            elif isinstance(op, ast.Sub):
                r = self.minus(a, b)
            elif isinstance(op, ast.BitXor):
                r = self.union(self.minus(a, b), self.minus(b, a), a.kind)
            else:
                raise Unsupported("collection operator")
            return self.alloc(r, self.site(node)) if r.kind in ("set", "list") else r
        if isinstance(op, ast.Mod) and isinstance(a, VStr):
            return VStr(self.fresh("fmt", Str))
        x, y = self.num(a), self.num(b)
        if isinstance(op, ast.Add):
            return VInt(z3.simplify(x + y))
        if isinstance(op, ast.Sub):
            return VInt(z3.simplify(x - y))
        if isinstance(op, ast.Mult):
            return VInt(z3.simplify(x * y))
        if isinstance(op, ast.Pow):
            cx, cy = VInt(x).concrete(), VInt(y).concrete()
            if cx is not None and cy is not None and cy >= 0:
                return VInt(cx ** cy)
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            c = VInt(y).concrete()
            if c is not None and c > 0:
                return VInt(x / y) if isinstance(op, ast.FloorDiv) else VInt(x % y)
        raise Unsupported("arithmetic operator")

    def union(self, a, b, kind=None):
        kind = kind or a.kind
        if a.items == []:
            return b.copy(kind)
        if b.items == []:
            return a.copy(kind)
        if a.items is not None and b.items is not None:
            if kind in ("list", "tuple"):
                return items_coll(kind, a.items + b.items)
            if len(a.items) + len(b.items) <= 6 and not isinstance(a.items[0], VRec):
                c = items_to_coll(items_coll(kind, a.items + b.items))
                c.kind = kind
                return c
        if a.keyed or b.keyed or (a.items and isinstance(a.items[0], VRec) and a.items[0].cls == "DeviceInformation"):
            return self.keyed_union(a, b, kind)
        a, b = self.by_elem(a) if a.items is not None else a, self.by_elem(b) if b.items is not None else b
        et = self.elem_type(a)
        if self.elem_type(b) != et:
            et = lub(et, b.et)
            if et is None:
                raise Unsupported("union of different types")
            a, b = widen(a, et), widen(b, et)
        if a.st == b.st and a.out is b.out:
            return Coll(kind, a.st, lambda s: Or(a.smem(s), b.smem(s)), a.out, a.inv, et=a.et,
                        distinct=kind in ("set", "frozenset"), tags=a.tags & b.tags)
        return Coll(kind, et, lambda y: Or(self.mem(a, y), self.mem(b, y)), et=et,
                    distinct=kind in ("set", "frozenset"))

    def keyed_union(self, a, b, kind):
        def conv(c):
            if c.items is not None:
                r = empty_coll(c.kind)
                for x in c.items:
                    r = self.keyed_add(r, x)
                return r
            return c
        a, b = conv(a), conv(b)
        if not (a.keyed and b.keyed):
            raise Unsupported("union of device sets")
        if a.out is not b.out:
            k = TDevKey.frm(self.fresh("uk", DevKey))
            if self.feasible(a.smem(k), b.smem(k)):
                raise Unsupported("union of overlapping device sets")
            ao, bo, am = a.out, b.out, a.smem
            return Coll(kind, TDevKey, lambda s: Or(a.smem(s), b.smem(s)), lambda s: vite(am(s), ao(s), bo(s)),
                        dev_key, et=a.et)
        return Coll(kind, TDevKey, lambda s: Or(a.smem(s), b.smem(s)), a.out, dev_key, et=a.et)

    def keyed_add(self, c, rec):
        k = dev_key(rec)
        kt = k.kw["t"]
        if c.items == []:
            return keyed_coll(c.kind, lambda s: eqt(s, kt), lambda s: rec_at(s, kt, rec))
        if c.items is not None:
            d = empty_coll(c.kind)
            for x in c.items:
                d = self.keyed_add(d, x)
            c = d
        if self.feasible(c.smem(k)) and not self.not_yet_added(c, kt):
            raise Unsupported("device added to a set that may already contain an entry for it")
        return keyed_coll(c.kind, lambda s: Or(eqt(s, kt), c.smem(TDevKey.frm(s))),
                          lambda s: sel_rec(s, kt, rec, c.out))

    def intersect(self, a, b):
        if a.items == [] or b.items == []:
            return empty_coll(a.kind)
        if a.items is not None:
            a = items_to_coll(a)
        if a.out is b.out and a.st == b.st and b.items is None:
            return filtered(a, b.smem)
        return filtered(a, lambda s: self.mem(b, a.elem(s)))

    def minus(self, a, b):
        if a.items == [] or b.items == []:
            return a.copy()
        if a.items is not None:
            a = items_to_coll(a)
        if a.out is b.out and a.st == b.st and b.items is None:
            return filtered(a, lambda s: Not(b.smem(s)))
        return filtered(a, lambda s: Not(self.mem(b, a.elem(s))))

    def e_Compare(self, e):
        left = self.eval(e.left)
        fs = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r)
            fs.append(self.compare(op, left, right))
            left = right
        return VBool(And(*fs))

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            f = self.is_(a, b)
            return f if isinstance(op, ast.Is) else Not(f)
        if isinstance(op, (ast.In, ast.NotIn)):
            f = self.contains(b, a)
            return f if isinstance(op, ast.In) else Not(f)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            f = self.equal(a, b)
            return f if isinstance(op, ast.Eq) else Not(f)
        x, y = self.deref(self.force(a)), self.deref(self.force(b))
        if isinstance(x, Coll) and isinstance(y, Coll):
            if isinstance(op, (ast.LtE, ast.GtE)):
                if isinstance(op, ast.GtE):
                    x, y = y, x
                return self.subset(x, y)
            if isinstance(op, (ast.Lt, ast.Gt)):
                if isinstance(op, ast.Gt):
                    x, y = y, x
                return And(self.subset(x, y), Not(self.subset(y, x)))
        lc = self.len_compare(op, x, y)
        if lc is not None:
            return lc
        x, y = self.num(x), self.num(y)
        return {ast.Lt: x < y, ast.LtE: x <= y, ast.Gt: x > y, ast.GtE: x >= y}[type(op)]

    def subset(self, x, y):
        if x.items is not None:
            return And(*[self.mem(y, i) for i in x.items])
        return Not(self.exists(x.st, lambda s: And(x.smem(s), Not(self.mem(y, x.elem(s))))))

    def len_compare(self, op, x, y):
        """len(c) compared with a constant such that only emptiness matters."""
        if isinstance(x, VInt) and isinstance(y, VInt):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            o = type(op)
            if y.length_of is not None and x.length_of is None:
                x, y = y, x
                o = flip.get(o, o)
            if x.length_of is not None and y.length_of is None:
                n = y.concrete()
                ne = None
                if (o, n) in ((ast.Gt, 0), (ast.GtE, 1), (ast.NotEq, 0)):
                    ne = True
                if (o, n) in ((ast.Eq, 0), (ast.LtE, 0), (ast.Lt, 1)):
                    ne = False
                if ne is not None:
                    f = self.nonempty(x.length_of)
                    return f if ne else Not(f)
            if x.length_of is not None and y.length_of is not None and o in (ast.Eq, ast.NotEq, ast.Lt, ast.Gt):
                a, b = x.length_of, y.length_of
                if o is ast.Gt:
                    a, b = b, a
                for p, q in ((a, b), (b, a)):
                    r = self.unit.distinct_images(self, p, q)
                    if r is not None:
                        if o in (ast.Lt, ast.Gt) and (p, q) != (a, b):
                            return FALSE
                        return r if o is ast.Eq else Not(r)
        return None

    def is_(self, a, b):
        if isinstance(a, VNone) or isinstance(b, VNone):
            o = b if isinstance(a, VNone) else a
            if isinstance(o, VNone):
                return TRUE
            if isinstance(o, VOpt):
                return o.isnone
            return FALSE
        if isinstance(a, VOpt) or isinstance(b, VOpt):
            a, b = self.force(a), self.force(b)
            return self.is_(a, b)
        if isinstance(a, (VBool, VEnum)) and isinstance(b, (VBool, VEnum)):
            return veq(a, b)
        if isinstance(a, VObj) and isinstance(b, VObj):
            return veq(a, b)
        if isinstance(a, (VClass,)) and isinstance(b, VClass):
            return BV(a.name == b.name)
        if isinstance(a, VInst) and isinstance(b, VInst):
            return BV(a.id == b.id)
        if isinstance(a, VRef) and isinstance(b, VRef):
            return BV(a.id == b.id)
        raise Unsupported(f"identity of {a!r} and {b!r}")

    def equal(self, a, b):
        x, y = self.deref(a), self.deref(b)
        if isinstance(x, VInt) and isinstance(y, VInt):
            lc = self.len_compare(ast.Eq(), x, y)
            if lc is not None:
                return lc
        if isinstance(x, VInst) and isinstance(y, VInst):
            return BV(x.id == y.id)
        return veq(self.freeze(x), self.freeze(y))

    def contains(self, c, x):
        c = self.deref(self.force(c))
        x = self.freeze(x)
        if isinstance(c, VDict):
            if c.kt is None:
                return FALSE
            if isinstance(x, VOpt):
                return And(Not(x.isnone), c.dom(x.val))
            return c.dom(x)
        if isinstance(c, (Coll, VItems, VTuple)):
            return self.mem(self.as_coll(c), x)
        if isinstance(c, VNone):
            self.throw("TypeError", "None is not a container")
        raise Unsupported(f"membership in {c!r}")

    def e_Subscript(self, e):
        v = self.eval(e.value)
        if isinstance(v, VModule) or isinstance(v, VClass):
            return v        # typing constructs
        if isinstance(e.slice, ast.Slice):
            return self.slice(v, e.slice)
        return self.subscript(v, self.eval(e.slice))

    def slice(self, v, s):
        v = self.deref(self.force(v))
        lo, hi, step = [None if x is None else self.num(self.eval(x)) for x in (s.lower, s.upper, s.step)]
        cv = [None if x is None else VInt(x).concrete() for x in (lo, hi, step)]
        if isinstance(v, VChars):
            if all(x is None or c is not None for x, c in zip((lo, hi, step), cv)):
                return VChars(v.chars[slice(*cv)], v.kind)
        if isinstance(v, (Coll, VTuple)):
            c = self.as_coll(v)
            if c.items is not None and all(x is None or y is not None for x, y in zip((lo, hi, step), cv)):
                r = list(c.items)[slice(*cv)]
                return VTuple(r) if isinstance(v, VTuple) else self.alloc(
                    items_coll("list", r) if r else empty_coll("list"), self.site(s.lower or s.upper))
            if cv[0] in (None, 0) and lo is None or cv[0] == 0:
                if cv[1] == 1 and step is None:
                    f = self.first(c)
                    if f is None:
                        raise Unsupported("slice of an unordered list")
                    ne = self.nonempty(c)
                    w = c.elem(f)
                    et = self.elem_type(c)
                    r = Coll("list", et, lambda x: And(ne, veq(x, w)), et=et)
                    return self.alloc(r, "sl")
                if hi is None and step is None:
                    return self.alloc(c.copy("list"), "sl")
        raise Unsupported("slice")

    def first(self, c):
        """Source element that comes first in an ordered collection."""
        k = ("first", self.serial, tuple(b.get_id() for b in self.binders))
        if k in c.cache:
            return c.cache[k]
        key = getattr(c, "sortkey", None) or c.idx
        if key is None:
            return None
        r = self.argmin(c, key)
        c.cache[k] = r
        return r

    def argmin(self, c, key, rev=False):
        w = self.fresh("argmin", c.st.sort(), witness=True)
        s = c.st.frm(w)
        q = z3.Const(self.name("q"), c.st.sort())
        qs = c.st.frm(q)
        ne = self.nonempty(c)
        a, b = key(s), key(qs)
        self.define(w, [Implies(ne, c.smem(s))], [(q, Implies(c.smem(qs), (a >= b) if rev else (a <= b)))])
        return s

    def subscript(self, v, k):
        v = self.deref(self.force(v))
        if isinstance(v, VModule) or isinstance(v, VSpecial) and v.kind == "type":
            return v
        k = self.freeze(k)
        if isinstance(v, VNone):
            self.throw("TypeError", "None is not subscriptable")
        if isinstance(v, VDict):
            kk = self.force(k)
            if v.kt is None or isinstance(kk, VNone):
                self.throw("KeyError", "subscript")
            if not self.branch(v.dom(kk), "key present"):
                self.throw("KeyError", "subscript")
            return v.val(kk)
        i = k.concrete() if isinstance(k, VInt) else None
        if isinstance(v, VTuple) or isinstance(v, Coll) and v.items is not None:
            if i is None:
                raise Unsupported("symbolic index")
            if not -len(v.items) <= i < len(v.items):
                self.throw("IndexError", "subscript")
            return v.items[i]
        if isinstance(v, VRec):
            if i is None:
                raise Unsupported("symbolic index")
            return list(v.fields.values())[i]
        if isinstance(v, Coll) and v.kind == "list" and i == 0:
            if not self.branch(self.nonempty(v)):
                self.throw("IndexError", "subscript")
            f = self.first(v)
            if f is None:
                return self.pick(v)
            return v.elem(f)
        if isinstance(v, VChars) and i is not None:
            return VChars([v.chars[i]], v.kind)
        raise Unsupported(f"subscript of {v!r}")

    def e_Lambda(self, e):
        return VFunc(e, self.cur, self.fmeta[self.cur][1], self.fmeta[self.cur][2])

    # ------------------------------------------------------------------------------------------------ comprehensions

    def e_GeneratorExp(self, e):
        return self.comp(e, "iter", [e.elt])

    def e_ListComp(self, e):
        r = self.comp(e, "list", [e.elt])
        return r if isinstance(r, VRef) else self.alloc(r.copy("list"), self.site(e))

    def e_SetComp(self, e):
        r = self.comp(e, "set", [e.elt])
        return r if isinstance(r, VRef) else self.alloc(r.copy("set"), self.site(e))

    def e_DictComp(self, e):
        r = self.comp(e, "dict", [e.key, e.value])
        if isinstance(r, VRef):
            return r
        return self.alloc(self.pairs_to_dict(r), self.site(e))

    def pairs_to_dict(self, c):
        """Dictionary from a collection of pairs."""
        if c.items is not None:
            d = VDict()
            for x in c.items:
                x = self.force(x)
                d = self.dict_set(d, x.items[0], x.items[1])
            return d
        q = c.out(c.st.frm(z3.Const(self.name("q"), c.st.sort()))) if c.out is not None else \
            c.st.frm(z3.Const(self.name("q"), c.st.sort()))
        q = self.force(q)
        if not isinstance(q, VTuple) or len(q.items) != 2:
            raise Unsupported("dict from non-pairs")
        kc = Coll("list", c.st, c.smem, lambda s: self.elem_pair(c, s)[0], None, tags=c.tags)
        inv = self.find_inverse(c, lambda s: self.elem_pair(c, s)[0])
        if inv is None:
            raise Unsupported("dictionary whose keys cannot be traced back")
        kt = type_of(q.items[0])
        vt = None if isinstance(q.items[1], VNone) else type_of(q.items[1])

        def dom(k):
            s = inv(k)
            return And(c.smem(s), veq(self.elem_pair(c, s)[0], k))
        return VDict(kt, vt, dom, lambda k: self.elem_pair(c, inv(k))[1])

    def elem_pair(self, c, s):
        return c.elem(s).items

    def find_inverse(self, c, f):
        """A function mapping f(s) back to s for the source elements of c, if one is known."""
        qt = z3.Const(self.name("q"), c.st.sort())
        v = f(c.st.frm(qt))
        return self.inverse_of(c, v, qt)

    def inverse_of(self, c, v, qt):
        if isinstance(v, (VInt, VBool, VStr, VBytes, VEnum, VObj)) and v.t.eq(qt):
            return lambda y: y
        if isinstance(v, VSpecial) and v.kind == "devkey" and v.kw["t"].eq(qt):
            return lambda y: y
        if isinstance(v, VStr) and len(v.parts) == 1 and not isinstance(v.parts[0], str):
            t = v.parts[0]
            inv = self.unit.inverse(self, c, t, qt)
            if inv is not None:
                return lambda y: inv(y.t)
        if isinstance(v, VInt) and c.st == TDevKey and z3.is_app(v.t) and v.t.decl().name() == "dk_id" and \
                v.t.arg(0).eq(qt) and c.jid is not None:
            jid = c.jid
            return lambda y: TDevKey.frm(DevKey.devkey(jid, y.t))
        if isinstance(v, VTuple):
            for i, x in enumerate(v.items):
                inv = self.inverse_of(c, x, qt)
                if inv is not None:
                    return lambda y, i=i, inv=inv: inv(y.items[i])
        if isinstance(v, VRec):
            for f, x in v.fields.items():
                if isinstance(x, (VInt, VStr, VObj, VBytes)):
                    inv = self.inverse_of(c, x, qt)
                    if inv is not None:
                        return lambda y, f=f, inv=inv: inv(y.fields[f])
            if v.cls == "DeviceInformation" and c.st == TDevKey and \
                    eqt(dev_key(v).kw["t"], DevKey.devkey(DevKey.dk_jid(qt), DevKey.dk_id(qt))).eq(TRUE):
                return dev_key
        return None

    def comp(self, e, kind, elts):
        gens = e.generators
        if any(g.is_async for g in gens):
            raise Unsupported("async comprehension")
        it = self.eval(gens[0].iter)
        if isinstance(it, VSpecial) and it.kind == "count":
            return VSpecial("countgen", e=e, fid=self.cur)
        coll = self.as_coll(it)
        if len(gens) > 1:
            return self.comp_loop(e, kind, elts, coll)
        if coll.items is not None:
            return self.comp_static(e, kind, elts, coll)
        fid = self.new_frame(self.cur, self.fmeta[self.cur][1], self.fmeta[self.cur][2])

        def fn(x):
            save = self.cur
            self.cur = fid
            try:
                self.assign(gens[0].target, x)
                for c in gens[0].ifs:
                    if not self.truth(self.eval(c)):
                        return SKIP
                vs = [self.freeze(self.eval(y)) for y in elts]
                return vs[0] if len(vs) == 1 else VTuple(vs)
            finally:
                self.cur = save
        try:
            return self.comprehend(coll, fn, kind)
        except Impure:
            if self.pure:
                raise
            return self.comp_loop(e, kind, elts, coll)

    def comp_static(self, e, kind, elts, coll):
        fid = self.new_frame(self.cur, self.fmeta[self.cur][1], self.fmeta[self.cur][2])
        out = []
        save = self.cur
        self.cur = fid
        try:
            for x in coll.items:
                self.assign(e.generators[0].target, x)
                if all(self.truth(self.eval(c)) for c in e.generators[0].ifs):
                    vs = [self.freeze(self.eval(y)) for y in elts]
                    out.append(vs[0] if len(vs) == 1 else VTuple(vs))
        finally:
            self.cur = save
        k = "list" if kind in ("iter", "dict") else kind
        return items_coll(k, out) if out else empty_coll(k)

    def comp_loop(self, e, kind, elts, coll):
        """A comprehension with effects, executed as the loop it abbreviates."""
        fid = self.new_frame(self.cur, self.fmeta[self.cur][1], self.fmeta[self.cur][2])
        if self.pure:
            raise Impure("comprehension with effects")
        cell = self.alloc(VDict() if kind == "dict" else empty_coll("list" if kind == "iter" else kind), self.site(e))

        def run(gi, x):
            g = e.generators[gi]
            self.assign(g.target, x)
            for c in g.ifs:
                if not self.truth(self.eval(c)):
                    return
            if gi + 1 < len(e.generators):
                it = self.as_coll(self.eval(e.generators[gi + 1].iter))
                self.loop(e.generators[gi + 1].iter, it, lambda y: run(gi + 1, y))
            else:
                vs = [self.freeze(self.eval(y)) for y in elts]
                if kind == "dict":
                    self.write_cell(cell, self.dict_set(self.cell_value(cell), vs[0], vs[1]))
                else:
                    self.write_cell(cell, self.coll_add(self.cell_value(cell), vs[0]))
        save = self.cur
        self.cur = fid
        try:
            self.loop(e.generators[0].iter, coll, lambda x: run(0, x))
        finally:
            self.cur = save
        if kind == "iter":
            return self.cell_value(cell)
        return cell

    def comprehend(self, coll, fn, kind):
        """
        The collection of fn(x) for x in coll, where fn is pure and returns SKIP for elements that are left out.
        Raises the exceptions fn may raise.
        """
        if coll.items is not None:
            out = []
            for x in coll.items:
                v = fn(x)
                if v is not SKIP:
                    out.append(v)
            k = "list" if kind in ("iter", "dict") else kind
            return items_coll(k, out) if out else empty_coll(k)
        b = z3.Const(self.name("b"), coll.st.sort())
        x = coll.elem(coll.st.frm(b))
        pend = []

        def body():
            self.binders.append(b)
            self.comp_stack.append((b, coll, pend))
            self.assume(coll.smem(coll.st.frm(b)))
            self.add_pool(b)
            try:
                return fn(x)
            finally:
                self.comp_stack.pop()
                self.binders.pop()
        self.binders_guard = None
        res = self.explore_pure(body)
        pre = coll.smem(coll.st.frm(b))

        def strip(c):
            # the condition includes membership in the source as its first conjunct
            return c
        keep = [(strip(c), v) for c, k, v in res if k == "val" and v is not SKIP]
        raises = [(c, v) for c, k, v in res if k == "raise"]
        inc = Or(*[c for c, _ in keep])
        if not [1 for c, k, v in res if k == "val" and v is SKIP] and not raises:
            inc = pre
        for eff in pend:
            eff["pre"](self)
        if raises:
            opts = ["ok"] + [i for i in range(len(raises))]
            ch = self.choose(opts, "comprehension raises")
            if ch != "ok":
                c, ex = raises[ch]
                w = self.fresh("rw", coll.st.sort(), witness=True)
                self.assume_feasible(subst(c, (b, w)))
                for eff in pend:
                    eff["fail"](self)
                raise PyRaise(vsubst(ex, [(b, w)]))
            rc = Or(*[c for c, _ in raises])
            self.forall(b, Not(rc))
        for eff in pend:
            eff["ok"](self)
        if not keep:
            return empty_coll("list" if kind in ("iter", "dict") else kind)
        v = self.merge(keep)
        k = "list" if kind in ("iter", "dict") else kind

        def smem(s):
            return subst(inc, (b, coll.st.to(s)))
        if self.is_elem(v, x, coll, b):
            r = Coll(k, coll.st, smem, coll.out, coll.inv, coll.idx, et=coll.et, distinct=coll.distinct,
                     tags=coll.tags, jid=coll.jid)
            r.src = coll
            return r
        inv = self.inverse_of(coll, v, b)
        if isinstance(v, (VInt, VBool, VStr, VBytes, VEnum, VObj)) and v.t.eq(b):
            r = Coll(k, coll.st, smem, None, None, coll.idx, et=coll.st, distinct=coll.distinct, tags=coll.tags)
            r.src = coll
            return r
        try:
            et = type_of(v)
        except Unsupported:
            et = None
        r = Coll(k, coll.st, smem, lambda s: vsubst(v, [(b, coll.st.to(s))]), inv, coll.idx, et=et,
                 distinct=coll.distinct and inv is not None, tags=coll.tags, jid=coll.jid)
        r.src = coll
        return r

    def is_elem(self, v, x, coll, b):
        if v is x:
            return True
        if coll.out is None:
            return False
        try:
            return self.same(v, x)
        except (AttributeError, KeyError):
            return False

    def forall(self, q, body):
        if self.binders:
            # attach to a fresh guard that is asserted for the current binders
            g = self.fresh("fa", B)
            self.define(g, [], [(q, Implies(g, body))])
            self.assume(g)
        else:
            self.add_forall(q, body)

    # ------------------------------------------------------------------------------------------------ calls

    def e_Call(self, e):
        f = self.eval(e.func)
        if isinstance(f, VSpecial) and f.kind == "log":
            return f if f.kw.get("chain") else NONE
        if isinstance(f, VSpecial) and f.kind == "super":
            return NONE
        args = []
        star = None
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value)
                c = v if isinstance(v, Coll) else self.as_coll(v)
                if c.items is not None:
                    args += c.items
                else:
                    star = c
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("** arguments")
            kwargs[k.arg] = self.eval(k.value)
        if star is not None:
            if isinstance(f, VPy) and f.name in ("union", "set.union"):
                return f.f(self, args, {"*": star})
            raise Unsupported("* arguments")
        return self.call(f, args, kwargs, e)

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, VPy):
            self.node = node
            return f.f(self, args, kwargs)
        if isinstance(f, VFunc):
            return self.call_node(f.node, f.fid, f.module, f.cls, args, kwargs)
        if isinstance(f, VMethod):
            return self.call_method(f, args, kwargs)
        if isinstance(f, VClass):
            return self.instantiate(f, args, kwargs, node)
        if isinstance(f, VOpt):
            return self.call(self.force(f), args, kwargs, node)
        if isinstance(f, VSpecial) and f.kind == "partial":
            return self.call(f.kw["f"], f.kw["args"] + args, {**f.kw["kwargs"], **kwargs}, node)
        raise Unsupported(f"call of {f!r}")

    def call_method(self, f, args, kwargs):
        ci, node = self.repo.find_method(f.cls, f.name)
        decs = decorators(node)
        q = f"{ci.name}.{f.name}"
        c = self.unit.contract(self, q)
        a = list(args)
        if "staticmethod" not in decs:
            a = [f.recv] + a
        if "abstractmethod" in decs or c is not None:
            h = c if c is not None else self.unit.abstract(self, ci.name, f.name)
            if h is None:
                raise Unsupported(f"abstract method {q}")
            ba = self.bind_args(node, a, kwargs, ci)
            if "self" in ba:
                ba["self_"] = ba.pop("self")
            if isinstance(node, ast.AsyncFunctionDef):
                return VCoro(lambda: h(self, **ba), q)
            return h(self, **ba)
        return self.call_node(node, None, ci.module, ci.name, a, kwargs, q)

    def bind_args(self, node, args, kwargs, ci=None):
        a = node.args
        if a.kwarg:
            raise Unsupported("variadic function")
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg:
            self.throw("TypeError", "too many arguments")
        out = dict(zip(names, args))
        if a.vararg:
            out[a.vararg.arg] = VTuple(list(args[len(names):]))
        for k, v in kwargs.items():
            if k in out or k not in names + [x.arg for x in a.kwonlyargs]:
                self.throw("TypeError", "bad keyword argument")
            out[k] = v
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in out:
                out[n] = self.eval_in(ci.module, ci.name, d) if ci is not None else self.eval(d)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in out and d is not None:
                out[x.arg] = self.eval_in(ci.module, ci.name, d) if ci is not None else self.eval(d)
        for n in names + [x.arg for x in a.kwonlyargs]:
            if n not in out:
                self.throw("TypeError", f"missing argument {n}")
        return out

    def call_node(self, node, closure, module, cls, args, kwargs, qual=None):
        class CI:
            pass
        ci = CI()
        ci.module, ci.name = module, cls
        ba = self.bind_args(node, args, kwargs, ci)

        def run():
            self.depth += 1
            if self.depth > self.MAXCALLS:
                raise Unsupported("recursion")
            save = self.cur
            fid = self.new_frame(closure, module, cls, node)
            self.st.frames[fid].update(ba)
            self.cur = fid
            h = list(self.handling)
            self._handling = []
            if qual or isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions.add((module, (cls + "." if cls else "") + node.name if not isinstance(
                    node, ast.Lambda) else "lambda"))
            try:
                if isinstance(node, ast.Lambda):
                    return self.eval(node.body)
                for s in ast.walk(node):
                    if isinstance(s, (ast.Yield, ast.YieldFrom)):
                        raise Unsupported("generator function")
                self.exec_block(node.body)
                return NONE
            except ReturnEx as r:
                return r.v
            finally:
                self.cur = save
                self._handling = h
                self.depth -= 1
        if isinstance(node, ast.AsyncFunctionDef):
            return VCoro(run, getattr(node, "name", "lambda"))
        return run()

    def instantiate(self, c, args, kwargs, node=None):
        n = c.name
        if n in RECORDS:
            ci = self.repo.classes[n]
            fs = [f for f, _ in RECORDS[n]]
            vals = dict(zip(fs, args))
            vals.update(kwargs)
            if set(vals) != set(fs) or len(args) > len(fs):
                self.throw("TypeError", f"{n} arguments")
            rec = VRec(n, {f: self.freeze(vals[f]) for f in fs})
            self.unit.made(self, rec)
            return rec
        if self.repo.is_exc(n):
            ex = VExc(n, {}, None, self.fresh("exc", Exc))
            m = self.repo.find_method(n, "__init__")
            if m is not None:
                self.call_node(m[1], None, m[0].module, m[0].name, [ex] + args, kwargs)
            return ex
        if n in self.repo.classes:
            r = self.unit.construct(self, n, args, kwargs)
            if r is not None:
                return r
            if n in ABSTRACT_OBJECTS:
                raise Unsupported(f"construction of {n}")
            i = self.cell(f"o{n}")
            self.st.heap[i] = {}
            o = VInst(n, i)
            m = self.repo.find_method(n, "__init__")
            if m is not None:
                self.call_node(m[1], None, m[0].module, m[0].name, [o] + args, kwargs)
            return o
        raise Unsupported(f"instantiation of {n}")

    # ------------------------------------------------------------------------------------------------ attributes

    def get_attr(self, o, name):
        if isinstance(o, VOpt):
            o = self.force(o)
        if isinstance(o, VNone):
            self.throw("AttributeError", f"None.{name}")
        if isinstance(o, VInst):
            m = mangle(self.fmeta[self.cur][2], name)
            attrs = self.st.heap[o.id]
            if m in attrs:
                v = attrs[m]
                if isinstance(v, VUnmerged):
                    raise Split(v.node)
                if isinstance(v, VUndef):
                    raise Unsupported(f"attribute {name} not tracked here")
                return v
            if name == "__class__":
                return VClass(o.cls)
            r = self.repo.find_method(o.cls, m)
            if r is not None:
                ci, node = r
                if "property" in decorators(node) or "cached_property" in decorators(node):
                    return self.call_node(node, None, ci.module, ci.name, [o], {})
                return VMethod(o.cls, m, VClass(o.cls) if "classmethod" in decorators(node) else o)
            r = self.repo.find_const(o.cls, m)
            if r is not None:
                return self.eval_in(r[0].module, r[0].name, r[1])
            self.throw("AttributeError", name)
        if isinstance(o, VClass):
            if o.name in ENUMS:
                if name in ENUMS[o.name][1]:
                    return VEnum(o.name, ENUMS[o.name][1][name])
            m = mangle(self.fmeta[self.cur][2], name)
            r = self.repo.find_method(o.name, m)
            if r is not None:
                decs = decorators(r[1])
                if "staticmethod" in decs or "classmethod" in decs:
                    return VMethod(o.name, m, o)
                ci, node = r
                return VFunc(node, None, ci.module, ci.name, isinstance(node, ast.AsyncFunctionDef))
            r = self.repo.find_const(o.name, m)
            if r is not None:
                return self.eval_in(r[0].module, r[0].name, r[1])
            raise Unsupported(f"class attribute {o.name}.{name}")
        if isinstance(o, VRec):
            if name in o.fields:
                return o.fields[name]
            if name == "_replace":
                def repl(E, a, kw):
                    for k in kw:
                        if k not in o.fields:
                            E.throw("ValueError", "_replace")
                    return VRec(o.cls, {f: E.freeze(kw.get(f, v)) for f, v in o.fields.items()})
                return VPy("_replace", repl)
            self.throw("AttributeError", name)
        if isinstance(o, VExc):
            if name in o.fields:
                return o.fields[name]
            if name == "args":
                return VTuple([])
            if name == "__class__":
                return VClass(o.cls)
            self.throw("AttributeError", name)
        if isinstance(o, VObj):
            return self.unit.obj_attr(self, o, name)
        if isinstance(o, VModule):
            return self.module_attr(o, name)
        if isinstance(o, VSpecial):
            if o.kind == "log":
                return VSpecial("log", chain=(name == "getLogger"))
            if o.kind == "super":
                return VSpecial("super")
            return self.unit.special_attr(self, o, name)
        if isinstance(o, VMaybe):
            return self.maybe_attr(o, name)
        if isinstance(o, VEnum):
            if name in ("name", "value"):
                return VStr(self.fresh("enumstr", Str))
        return self.method(o, name)

    def maybe_attr(self, o, name):
        if name == "is_just":
            return VBool(Not(o.isnothing))
        if name == "is_nothing":
            return VBool(o.isnothing)
        if name == "from_just":
            def fj(E, a, kw):
                if E.branch(o.isnothing, "nothing"):
                    E.throw("NothingException", "from_just")
                return E.thaw(o.val)
            return VPy("from_just", fj)
        if name == "maybe":
            def mb(E, a, kw):
                d = a[0] if a else kw["default"]
                c = E.deref(d)
                try:
                    r = vite(o.isnothing, c, o.val)
                except Unsupported:
                    return d if E.branch(o.isnothing) else E.thaw(o.val)
                return E.thaw(r)
            return VPy("maybe", mb)
        if name == "fmap":
            def fm(E, a, kw):
                f = a[0] if a else kw["function"]
                if E.branch(o.isnothing, "nothing"):
                    return VMaybe(TRUE, o.val)
                return VMaybe(FALSE, E.freeze(E.call(f, [E.thaw(o.val)], {})))
            return VPy("fmap", fm)
        raise Unsupported(f"Maybe.{name}")

    def thaw(self, v):
        """A value loaded from storage: lists and dictionaries become fresh mutable objects."""
        if isinstance(v, Coll) and v.kind == "list" or isinstance(v, VDict):
            return self.alloc(v, "thaw")
        return v

    # ------------------------------------------------------------------------------------------------ methods of values

    def definite(self, x):
        """x without the None option where that is ruled out."""
        if isinstance(x, VOpt) and not is_true(x.isnone) and not self.feasible(x.isnone):
            return x.val
        if isinstance(x, VTuple):
            return VTuple([self.definite(y) for y in x.items])
        return x

    def coll_add(self, c, x):
        x = self.definite(self.freeze(x))
        if isinstance(x, VRec) and x.cls == "DeviceInformation" and c.kind != "list":
            return self.keyed_add(c, x)
        if c.items is not None and not c.items:
            return items_coll(c.kind, [x])
        if c.items is not None:
            if c.kind == "list":
                return items_coll(c.kind, c.items + [x])
            c = items_to_coll(c)
        et = self.elem_type(c)
        xt = try_type(x)
        if xt is not None and xt != et:
            nt = lub(et, xt)
            if nt is None:
                raise Unsupported(f"{xt} added to a collection of {et}")
            c, et = widen(c, nt), nt
        if "arr0" in c.cache and c.out is None:
            return arr_coll(et, z3.Store(c.cache["arr0"], et.to(x), TRUE), c.kind, c.kind != "list")
        base = c
        if c.kind == "list":
            base = self.by_elem(c) if c.out is not None and c.inv is None else c
        et.to(x)
        return Coll(c.kind, et, lambda y: Or(veq(y, x), self.mem(base, y)), et=et, distinct=c.kind != "list")

    def coll_remove(self, c, x):
        x = self.freeze(x)
        if c.items is not None:
            c = items_to_coll(c) if c.items else c
        if c.items == []:
            return c
        if c.keyed:
            k = dev_key(x)
            r = Coll(c.kind, TDevKey, lambda s: And(c.smem(s), Not(veq(s, k))), c.out, c.inv, et=c.et)
            r.cache["within"] = within(c)
            return r
        if "arr0" in c.cache and c.out is None:
            return arr_coll(c.et, z3.Store(c.cache["arr0"], c.et.to(x), FALSE), c.kind)
        return filtered(c, lambda s: Not(veq(c.elem(s), x)))

    def dict_pop(self, ref, k, default):
        d = self.cell_value(ref)
        k = self.force(self.freeze(k))
        if d.kt is None:
            if default is not None:
                return default
            self.throw("KeyError", "pop")
        if default is not None:
            f = d.dom(k)
            try:
                r = vite(f, d.val(k), self.freeze(default))
            except Unsupported:
                r = d.val(k) if self.branch(f) else default
            self.write_cell(ref, VDict(d.kt, d.vt, lambda x: And(d.dom(x), Not(veq(x, k))), d.val))
            return r
        if not self.branch(d.dom(k), "key present"):
            self.throw("KeyError", "pop")
        self.write_cell(ref, VDict(d.kt, d.vt, lambda x: And(d.dom(x), Not(veq(x, k))), d.val))
        return d.val(k)

    def dict_update(self, ref, v):
        d = self.deref(ref)
        o = self.deref(v)
        if isinstance(o, VItems):
            o = o.d
        if not isinstance(o, VDict):
            o = self.pairs_to_dict(self.as_coll(o))
        if o.kt is None:
            return
        if d.kt is None:
            self.write_cell(ref, o)
            return
        self.write_cell(ref, VDict(d.kt, d.vt or o.vt, lambda x: Or(d.dom(x), o.dom(x)),
                                   lambda x: vite(o.dom(x), o.val(x), d.val(x))))

    def flatten(self, c, kind):
        """Union of a collection of collections."""
        if c.items is not None:
            r = empty_coll(kind)
            for x in c.items:
                r = self.union(r, self.as_coll(x), kind)
            return r
        b = z3.Const(self.name("b"), c.st.sort())
        x = c.elem(c.st.frm(b))
        x = self.as_coll(x)
        if x.items is not None:
            if not x.items:
                return empty_coll(kind)
            x = items_to_coll(x)
        if x.keyed:
            if x.jid is not None and x.jid.eq(b):
                def kmem(k):
                    j = acc(DevKey.dk_jid, k)
                    return And(c.smem(TStr.frm(j)), self.as_coll(c.elem(TStr.frm(j))).smem(TDevKey.frm(k)))

                def krec(k):
                    j = acc(DevKey.dk_jid, k)
                    return self.as_coll(c.elem(TStr.frm(j))).out(TDevKey.frm(k))
                return keyed_coll(kind, kmem, krec)
            raise Unsupported("union of device sets")
        et = self.elem_type(x)

        def mem(y):
            return self.exists(c.st, lambda s: And(c.smem(s), self.mem(self.as_coll(c.elem(s)), y)))
        return Coll(kind, et, mem, et=et)

    def method(self, o, name):
        def py(f):
            return VPy(name, f)
        c = self.deref(o)
        if isinstance(c, Coll):
            setlike = c.kind in ("set", "frozenset")

            def arg(a, i=0):
                return self.as_coll(a[i])

            def out(v):
                return self.alloc(v, "m") if v.kind in ("set", "list") else v
            if name == "union" and setlike:
                def f(E, a, kw):
                    r = c
                    for x in a:
                        r = E.union(r, E.as_coll(x), c.kind)
                    if "*" in kw:
                        r = E.union(r, E.flatten(kw["*"], c.kind), c.kind)
                    return out(r.copy(c.kind))
                return VPy("union", f)
            if name == "intersection" and setlike:
                return py(lambda E, a, kw: out(E.intersect(c, arg(a)) if a else c.copy()))
            if name == "difference" and setlike:
                return py(lambda E, a, kw: out(E.minus(c, arg(a)) if a else c.copy()))
            if name == "issubset" and setlike:
                return py(lambda E, a, kw: VBool(E.subset(c, arg(a))))
            if name == "issuperset" and setlike:
                return py(lambda E, a, kw: VBool(E.subset(arg(a), c)))
            if name == "isdisjoint" and setlike:
                return py(lambda E, a, kw: VBool(Not(E.nonempty(E.intersect(c, arg(a))))))
            if name == "copy":
                return py(lambda E, a, kw: out(c.copy()))
            if name == "index" and c.kind == "list":
                def f(E, a, kw):
                    x = E.freeze(a[0])
                    if not E.branch(E.mem(c, x), "in list"):
                        E.throw("ValueError", "index")
                    d = items_to_coll(c) if c.items is not None else c
                    if d.idx is None:
                        raise Unsupported("index in unordered list")
                    s = x if d.out is None else (d.inv(x) if d.inv else None)
                    if s is None:
                        raise Unsupported("index")
                    return VInt(d.idx(s))
                return py(f)
            if isinstance(o, VRef):
                if name in ("add", "append"):
                    return py(lambda E, a, kw: (E.write_cell(o, E.coll_add(E.cell_value(o), a[0])), NONE)[1])
                if name in ("update", "extend"):
                    def f(E, a, kw):
                        for x in a:
                            cc = E.cell_value(o)
                            E.write_cell(o, E.union(cc, E.as_coll(x), cc.kind).copy(cc.kind))
                        return NONE
                    return py(f)
                if name == "discard":
                    return py(lambda E, a, kw: (E.write_cell(o, E.coll_remove(E.cell_value(o), a[0])), NONE)[1])
                if name == "remove" and c.kind == "set":
                    def f(E, a, kw):
                        if not E.branch(E.contains(o, a[0]), "element present"):
                            E.throw("KeyError", "remove")
                        E.write_cell(o, E.coll_remove(E.cell_value(o), a[0]))
                        return NONE
                    return py(f)
                if name == "difference_update":
                    return py(lambda E, a, kw: (E.write_cell(o, E.minus(E.cell_value(o), arg(a))), NONE)[1])
                if name == "intersection_update":
                    return py(lambda E, a, kw: (E.write_cell(o, E.intersect(E.cell_value(o), arg(a))), NONE)[1])
                if name == "clear":
                    return py(lambda E, a, kw: (E.write_cell(o, empty_coll(c.kind)), NONE)[1])
        if isinstance(c, VDict):
            if name == "keys":
                return py(lambda E, a, kw: E.as_coll(c))
            if name == "items":
                return py(lambda E, a, kw: VItems(c))
            if name == "values":
                return py(lambda E, a, kw: empty_coll("list") if c.kt is None else Coll(
                    "list", c.kt, c.dom, lambda k: c.val(k), None, distinct=False, et=c.vt))
            if name == "get":
                def f(E, a, kw):
                    k = E.freeze(a[0])
                    d = a[1] if len(a) > 1 else kw.get("default", NONE)
                    if c.kt is None:
                        return d
                    if isinstance(k, VOpt):
                        k = E.force(k)
                    if isinstance(k, VNone):
                        return d
                    p = c.dom(k)
                    try:
                        return vite(p, c.val(k), E.freeze(d))
                    except Unsupported:
                        return c.val(k) if E.branch(p) else d
                return py(f)
            if name == "copy":
                return py(lambda E, a, kw: E.alloc(c, "copy"))
            if isinstance(o, VRef):
                if name == "pop":
                    return py(lambda E, a, kw: E.dict_pop(o, a[0], a[1] if len(a) > 1 else None))
                if name == "update":
                    return py(lambda E, a, kw: (E.dict_update(o, a[0]), NONE)[1])
                if name == "setdefault":
                    def f(E, a, kw):
                        d = E.cell_value(o)
                        if d.kt is not None and E.branch(d.dom(E.freeze(a[0])), "key present"):
                            return d.val(E.freeze(a[0]))
                        E.write_cell(o, E.dict_set(d, a[0], a[1]))
                        return a[1]
                    return py(f)
                if name == "clear":
                    return py(lambda E, a, kw: (E.write_cell(o, VDict()), NONE)[1])
        if isinstance(c, VStr):
            if name == "encode":
                return py(lambda E, a, kw: VBytes(z3.Function("ascii", Str, Bytes)(c.t), None, c))
            if name in ("lower", "upper", "strip", "format", "join"):
                return py(lambda E, a, kw: VStr(E.fresh("strm", Str)))
        if isinstance(c, VBytes):
            if name == "decode":
                if c.text is None:
                    raise Unsupported("decoding of bytes")
                return py(lambda E, a, kw: c.text)
            if name == "hex":
                return py(lambda E, a, kw: E.unit.hex(E, c))
        raise Unsupported(f"method {name} of {c!r}")

    # ------------------------------------------------------------------------------------------------ modules, builtins

    def module_attr(self, m, name):
        q = f"{m.name}.{name}"
        if m.name == "logging":
            return VSpecial("log", chain=True)
        r = self.unit.module_attr(self, q)
        if r is not None:
            return r
        f = MODULE_FUNCS.get(q)
        if f is not None:
            return VPy(q, f)
        return VModule(q)

    def builtin(self, name):
        if name in BUILTIN_EXC:
            return VClass(name)
        if name in ("str", "int", "bool", "bytes", "float", "list", "dict", "set", "frozenset", "tuple", "object"):
            return VPy(name, BUILTINS[name]) if name in BUILTINS else VSpecial("type", name=name)
        if name == "super":
            return VSpecial("super")
        f = BUILTINS.get(name)
        return VPy(name, f) if f is not None else None

    def key_func(self, kw):
        return kw.get("key")


def rec_at(s, kt, rec):
    """The record for the single key kt, with its key fields expressed over s."""
    return VRec(rec.cls, {**rec.fields, "bare_jid": VStr(acc(DevKey.dk_jid, s)), "device_id": VInt(acc(DevKey.dk_id, s))})


def sel_rec(s, kt, rec, out):
    e = eqt(s, kt)
    if is_true(e):
        return rec_at(s, kt, rec)
    old = out(TDevKey.frm(s))
    if is_false(e):
        return old
    r = vite(e, rec, old)
    r.fields["bare_jid"], r.fields["device_id"] = VStr(acc(DevKey.dk_jid, s)), VInt(acc(DevKey.dk_id, s))
    return r


def b_len(E, a, kw):
    v = E.deref(E.force(a[0]))
    if isinstance(v, VTuple):
        return VInt(len(v.items))
    if isinstance(v, VChars):
        return VInt(len(v.chars))
    if isinstance(v, VBytes):
        if v.n is not None:
            return VInt(v.n)
        raise Unsupported("len of bytes")
    if isinstance(v, VNone):
        E.throw("TypeError", "len of None")
    c = E.as_coll(v)
    if c.items is not None and (len(c.items) <= 1 or c.kind in ("list", "tuple")):
        return VInt(len(c.items))
    if c.items is not None:
        c = items_to_coll(c)
    k = ("len", E.serial, tuple(tid(b) for b in E.binders))
    if k not in c.cache:
        n = E.fresh("len", I)
        ne = E.nonempty(c)
        E.define(n, [n >= 0, Iff(n > 0, ne)])
        c.cache[k] = n
    return VInt(c.cache[k], length_of=c)


def _conv(kind):
    def f(E, a, kw):
        if not a:
            c = empty_coll(kind)
        else:
            v = E.deref(E.force(a[0]))
            if isinstance(v, VItems) and kind in ("set", "frozenset"):
                return v if kind == "frozenset" else E.alloc(v, "set")
            c = E.as_coll(v)
            if c.items is not None and kind in ("set", "frozenset") and len(c.items) > 1:
                c = items_to_coll(c)
            src = getattr(c, "src", None)
            c2 = c.copy(kind)
            if kind == "list" and c.kind in ("set", "frozenset"):
                c2.idx = None
            c2.src = src if src is not None else c
            c = c2
        if kind in ("list", "set"):
            return E.alloc(c, E.site(E.node) if getattr(E, "node", None) is not None else kind)
        if kind == "tuple" and c.items is not None:
            return VTuple(c.items)
        return c
    return f


def b_dict(E, a, kw):
    if kw:
        raise Unsupported("dict keywords")
    if not a:
        return E.alloc(VDict(), "dict")
    v = E.deref(E.force(a[0]))
    if isinstance(v, VItems):
        v = v.d
    if isinstance(v, VDict):
        return E.alloc(v, "dict")
    return E.alloc(E.pairs_to_dict(E.as_coll(v)), "dict")


def b_next(E, a, kw):
    v = a[0]
    if isinstance(v, VSpecial) and v.kind == "countgen":
        return E.unit.next_count(E, v, None)
    if isinstance(v, VSpecial) and v.kind == "countfilter":
        return E.unit.next_count(E, v.kw["gen"], v.kw["f"])
    c = E.as_coll(v)
    if getattr(c, "consumed", False):
        raise Unsupported("iterator used twice")
    c.consumed = True
    ne = E.nonempty(c)

    def elem():
        f = E.first(c) if c.items is None and c.idx is not None else None
        return c.elem(f) if f is not None else E.pick(c)
    if len(a) > 1:
        if is_false(ne):
            return a[1]
        if isinstance(a[1], VNone):
            w = elem()
            return VOpt(Not(ne), w) if not isinstance(w, VOpt) else VOpt(Or(Not(ne), w.isnone), w.val)
        return elem() if E.branch(ne) else a[1]
    if not E.branch(ne, "next"):
        E.throw("StopIteration", "next")
    return elem()


def b_iter(E, a, kw):
    if isinstance(a[0], VSpecial):
        return a[0]
    c = E.as_coll(a[0])
    r = c.copy()
    r.cache = c.cache
    r.consumed = False
    r.src = getattr(c, "src", None)
    return r


def b_filter(E, a, kw):
    f, it = a
    if isinstance(it, VSpecial) and it.kind == "countgen":
        return VSpecial("countfilter", gen=it, f=f)
    c = E.as_coll(it)

    def fn(x):
        r = x if isinstance(f, VNone) else E.call(f, [x], {})
        return x if E.truth(r) else SKIP
    return E.comprehend(c, fn, "list")


def b_map(E, a, kw):
    if len(a) != 2:
        raise Unsupported("map")
    c = E.as_coll(a[1])
    return E.comprehend(c, lambda x: E.freeze(E.call(a[0], [x], {})), "list")


def b_any(E, a, kw):
    c = E.as_coll(a[0])
    if c.items is not None:
        return VBool(Or(*[E.truthf(x) for x in c.items]))
    return VBool(E.exists(c.st, lambda s: And(c.smem(s), E.truthf(c.elem(s)))))


def b_all(E, a, kw):
    c = E.as_coll(a[0])
    if c.items is not None:
        return VBool(And(*[E.truthf(x) for x in c.items]))
    return VBool(Not(E.exists(c.st, lambda s: And(c.smem(s), Not(E.truthf(c.elem(s)))))))


def b_minmax(is_max):
    def f(E, a, kw):
        if len(a) >= 2 and not kw:
            r = E.num(a[0])
            for x in a[1:]:
                y = E.num(x)
                r = If((y > r) if is_max else (y < r), y, r)
            return VInt(r)
        if len(a) == 1:
            c = E.as_coll(a[0])
            key = kw.get("key")
            ne = E.nonempty(c)
            if not E.branch(ne):
                if "default" in kw:
                    return kw["default"]
                E.throw("ValueError", "min of empty")
            if c.items is not None and key is None:
                return f(E, list(c.items), {}) if len(c.items) > 1 else c.items[0]
            kf = key_terms(E, c, key)
            return c.elem(E.argmin(items_to_coll(c) if c.items is not None else c, kf, is_max))
        raise Unsupported("min/max")
    return f


def key_terms(E, c, key):
    """Sort key of a source element as an integer term."""
    if c.items is not None:
        c = items_to_coll(c)
    kc = E.comprehend(c, lambda x: x if key is None or isinstance(key, VNone) else E.call(key, [x], {}), "list")

    def kf(s):
        v = kc.elem(s)
        if not isinstance(v, VInt):
            raise Unsupported("sort key that is not an integer")
        return v.t
    return kf


def b_sorted(E, a, kw):
    c = E.as_coll(a[0])
    if c.items is not None and len(c.items) <= 1:
        return E.alloc(c.copy("list"), "sorted")
    if c.items is not None:
        c = items_to_coll(c)
    rev = "reverse" in kw and E.truth(kw["reverse"])
    r = c.copy("list")
    r.cache = {}
    r.idx = None
    r.distinct = c.distinct
    try:
        kf = key_terms(E, c, kw.get("key"))
        r.sortkey = (lambda s: -kf(s)) if rev else kf
    except Unsupported:
        pass        # an order the verifier does not track
    return E.alloc(r, "sorted")


def b_isinstance(E, a, kw):
    v = a[0]
    r = E.unit.isinstance_(E, v, a[1])
    if r is not None:
        return VBool(r)
    cs = a[1].items if isinstance(a[1], VTuple) else [a[1]]
    return VBool(Or(*[inst(E, v, c) for c in cs]))


def inst(E, v, c):
    n = c.name if isinstance(c, (VClass, VPy)) else c.kw.get("name") if isinstance(c, VSpecial) else None
    if isinstance(v, VOpt):
        return And(Not(v.isnone), inst(E, v.val, c))
    w = E.deref(v)
    if isinstance(w, VExc) and w.cls != "?":
        return BV(n in E.repo.exc_bases(w.cls))
    if isinstance(w, VInst):
        todo, seen = [w.cls], []
        while todo:
            x = todo.pop()
            seen.append(x)
            if x in E.repo.classes:
                todo += E.repo.classes[x].bases
        return BV(n in seen)
    m = {VStr: "str", VInt: "int", VBool: "bool", VBytes: "bytes", VDict: "dict", VNone: "NoneType", VTuple: "tuple"}
    if isinstance(w, Coll):
        return BV(n == w.kind)
    if type(w) in m:
        return BV(m[type(w)] == n or (m[type(w)] == "bool" and n == "int"))
    if isinstance(w, (VObj, VRec, VEnum)):
        return BV(n == w.cls)
    raise Unsupported(f"isinstance of {w!r}")


def b_range(E, a, kw):
    cs = [VInt(E.num(x)).concrete() for x in a]
    if any(c is None for c in cs):
        raise Unsupported("symbolic range")
    r = list(range(*cs))
    if len(r) > 200:
        raise Unsupported("long range")
    return items_coll("list", [VInt(i) for i in r]) if r else empty_coll("list")


def b_str(E, a, kw):
    return E.to_str(a[0]) if a else VStr("")


def b_int(E, a, kw):
    if not a:
        return VInt(0)
    return VInt(E.num(a[0]))


def b_bool(E, a, kw):
    return VBool(E.truthf(a[0])) if a else VBool(False)


def b_abs(E, a, kw):
    x = E.num(a[0])
    return VInt(If(x < 0, -x, x))


BUILTINS = {
    "len": b_len, "frozenset": _conv("frozenset"), "set": _conv("set"), "list": _conv("list"), "tuple": _conv("tuple"),
    "dict": b_dict, "next": b_next, "iter": b_iter, "filter": b_filter, "map": b_map, "any": b_any, "all": b_all,
    "min": b_minmax(False), "max": b_minmax(True), "sorted": b_sorted, "isinstance": b_isinstance, "range": b_range,
    "str": b_str, "int": b_int, "bool": b_bool, "abs": b_abs, "print": lambda E, a, kw: NONE,
    "repr": lambda E, a, kw: VStr(E.fresh("repr", Str)),
}


def m_cast(E, a, kw):
    return a[1]


def m_b64e(E, a, kw):
    v = E.force(a[0])
    if not isinstance(v, VBytes):
        raise Unsupported("base64 of non-bytes")
    t = b64(v.t)
    if z3.is_app(v.t) and v.t.decl().name() == "unb64" and False:
        t = v.t.arg(0)
    return VBytes(z3.Function("ascii", Str, Bytes)(t), None, VStr(t))


def m_b64d(E, a, kw):
    v = E.force(a[0])
    s = v if isinstance(v, VStr) else v.text if isinstance(v, VBytes) else None
    if s is None:
        raise Unsupported("base64 decoding")
    t = s.t
    if z3.is_app(t) and t.decl().name() == "b64":
        return VBytes(t.arg(0))
    return VBytes(unb64(t))


def m_randbelow(E, a, kw):
    n = E.force(a[0])
    x = E.fresh("random", I)
    E.define(x, [x >= 0, x < n.t])
    return VInt(x)


def m_chain(E, a, kw):
    r = empty_coll("list")
    for x in a:
        r = E.union(r, E.as_coll(x), "list")
    return r


def m_chain_fi(E, a, kw):
    return E.flatten(E.as_coll(a[0]), "list")


MODULE_FUNCS = {
    "typing.cast": m_cast, "base64.urlsafe_b64encode": m_b64e, "base64.urlsafe_b64decode": m_b64d,
    "secrets.randbelow": m_randbelow,
    "itertools.count": lambda E, a, kw: VSpecial("count"), "itertools.chain": m_chain,
    "itertools.chain.from_iterable": m_chain_fi,
}
