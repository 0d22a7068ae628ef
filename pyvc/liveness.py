"""
Which local variables may still be read at the head of a loop. Variables that may not are forgotten there, together with
the objects only they refer to; were one of them read after all, verification would stop (the value is not tracked).
"""
import ast

NESTED = (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)


class Unknown(Exception):
    pass


def uses(e):
    if e is None:
        return set()
    if isinstance(e, (list, tuple)):
        return set().union(*(uses(x) for x in e)) if e else set()
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def defs(t):
    """Names that assigning to the target binds (as a whole)."""
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        return set().union(*(defs(x) for x in t.elts)) if t.elts else set()
    if isinstance(t, ast.Starred):
        return defs(t.value)
    return set()


class Ctx:
    def __init__(self, brk, cont, exc, fin):
        self.brk, self.cont, self.exc, self.fin = brk, cont, exc, fin


class Liveness:
    def __init__(self, fn):
        self.heads = {}
        self.captured = set()
        for n in ast.walk(fn):
            if n is not fn and isinstance(n, NESTED):
                for m in ast.walk(n):
                    if isinstance(m, ast.Name):
                        self.captured.add(m.id)
                    elif isinstance(m, (ast.Nonlocal, ast.Global)):
                        self.captured |= set(m.names)
            elif isinstance(n, (ast.Nonlocal, ast.Global)):
                self.captured |= set(n.names)
        self.ok = True
        try:
            self.block(fn.body, set(), Ctx(set(), set(), set(), set()))
        except Unknown:
            self.ok = False

    def block(self, stmts, out, c):
        for s in reversed(stmts):
            out = self.stmt(s, out, c) | c.exc
        return out

    def stmt(self, s, out, c):
        if isinstance(s, ast.Assign):
            d = set().union(*(defs(t) for t in s.targets))
            return (out - d) | uses(s.value) | uses(s.targets)
        if isinstance(s, ast.AnnAssign):
            return out if s.value is None else (out - defs(s.target)) | uses(s.value) | uses(s.target)
        if isinstance(s, ast.AugAssign):
            return out | uses(s.value) | uses(s.target) | defs(s.target)
        if isinstance(s, ast.Expr):
            return out | uses(s.value)
        if isinstance(s, ast.Assert):
            return out | uses(s.test) | uses(s.msg)
        if isinstance(s, ast.Delete):
            return out | uses(s.targets) | {n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name)}
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef,
                          ast.Nonlocal, ast.Global)):
            return out
        if isinstance(s, ast.Return):
            return uses(s.value) | c.fin
        if isinstance(s, ast.Raise):
            return uses(s.exc) | uses(s.cause) | c.exc | c.fin
        if isinstance(s, ast.Break):
            return c.brk | c.fin
        if isinstance(s, ast.Continue):
            return c.cont | c.fin
        if isinstance(s, ast.If):
            return uses(s.test) | self.block(s.body, out, c) | self.block(s.orelse, out, c)
        if isinstance(s, (ast.For, ast.AsyncFor)):
            after = self.block(s.orelse, out, c)
            h = set(after)
            while True:
                b = self.block(s.body, h, Ctx(out, h, c.exc, c.fin))
                n = h | ((b - defs(s.target)) | uses(s.target))
                if n == h:
                    break
                h = n
            self.heads[id(s)] = h
            return uses(s.iter) | h
        if isinstance(s, ast.While):
            h = uses(s.test) | self.block(s.orelse, out, c)
            while True:
                n = h | self.block(s.body, h, Ctx(out, h, c.exc, c.fin))
                if n == h:
                    break
                h = n
            self.heads[id(s)] = h
            return h
        if isinstance(s, ast.Try):
            fin = {n.id for x in s.finalbody for n in ast.walk(x) if isinstance(n, ast.Name)}
            c2 = Ctx(c.brk, c.cont, c.exc | fin, c.fin | fin)
            o = self.block(s.finalbody, out, c) | (fin if fin else set())
            hin = set()
            for h in s.handlers:
                hin |= uses(h.type) | (self.block(h.body, o, c2) - ({h.name} if h.name else set()))
            els = self.block(s.orelse, o, c2)
            return hin | self.block(s.body, els, Ctx(c.brk, c.cont, c2.exc | hin, c2.fin)) | fin
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, out, c)
            for i in reversed(s.items):
                if i.optional_vars is not None:
                    b = (b - defs(i.optional_vars)) | uses(i.optional_vars)
                b |= uses(i.context_expr)
            return b
        raise Unknown(type(s).__name__)


_cache = {}


def dead_names(fn, loop, names):
    """Those of the names that are not read after the head of the loop before they are bound again."""
    r = _cache.get(id(fn))
    if r is None or r[0] is not fn:
        r = _cache[id(fn)] = (fn, Liveness(fn))
    lv = r[1]
    if not lv.ok or id(loop) not in lv.heads:
        return set()
    return set(names) - lv.heads[id(loop)] - lv.captured
