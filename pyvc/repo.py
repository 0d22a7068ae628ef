"""The repository under verification: its modules, parsed from the working tree on every run."""
import ast
import hashlib
import os
from .values import RECORDS, Unsupported, declare_enum, TStr, TInt, TBool, TBytes, TOpt, TSet, TTup, TItems, TObj, TExc

MODULES = ["types", "storage", "identity_key_pair", "bundle", "message", "session", "backend", "session_manager"]
ABSTRACT_OBJECTS = {"Backend", "Session", "Bundle", "EncryptedKeyMaterial", "KeyExchange", "Content",
                    "PlainKeyMaterial"}
BUILTIN_EXC = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AttributeError": "Exception", "StopIteration": "Exception", "StopAsyncIteration": "Exception",
    "AssertionError": "Exception", "RuntimeError": "Exception", "NotImplementedError": "RuntimeError",
    "NameError": "Exception", "UnboundLocalError": "NameError", "OSError": "Exception",
    "TimeoutError": "OSError", "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception",
    "UnicodeError": "ValueError", "GeneratorExit": "BaseException", "KeyboardInterrupt": "BaseException",
    "CancelledError": "BaseException",
}


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.bases = []
        for b in node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            self.bases.append(b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else "?")
        self.methods, self.consts = {}, {}
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[mangle(name, n.name)] = n
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[mangle(name, n.targets[0].id)] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.consts[mangle(name, n.target.id)] = n.value


def mangle(cls, name):
    if cls and name.startswith("__") and not name.endswith("__"):
        return f"_{cls.lstrip('_')}{name}"
    return name


def decorators(node):
    out = set()
    for d in node.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.add(d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else "?")
    return out


class Repo:
    def __init__(self, root):
        self.root = root
        self.classes, self.functions, self.globals, self.imports = {}, {}, {}, {}
        self.sources = {}
        h = hashlib.sha256()
        for m in MODULES:
            path = os.path.join(root, "omemo", m + ".py")
            with open(path, "rb") as f:
                src = f.read()
            h.update(src)
            self.sources[m] = src.decode()
            tree = ast.parse(src)
            self.imports[m] = {}
            for n in self.toplevel(tree.body):
                if isinstance(n, ast.ClassDef):
                    self.classes[n.name] = ClassInfo(n.name, n, m)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.functions[(m, n.name)] = n
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    self.globals[(m, n.targets[0].id)] = n.value
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                    self.globals[(m, n.target.id)] = n.value
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        self.imports[m][(a.asname or a.name).split(".")[0]] = ("module", a.name)
                elif isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        self.imports[m][a.asname or a.name] = ("from", n.module or "", a.name)
        self.digest = h.hexdigest()
        self.setup_types()

    @staticmethod
    def toplevel(body):
        for n in body:
            if isinstance(n, ast.Try):
                yield from Repo.toplevel(n.body)
            elif isinstance(n, ast.If):
                yield from Repo.toplevel(n.body)
                yield from Repo.toplevel(n.orelse)
            else:
                yield n

    def setup_types(self):
        for c in self.classes.values():
            if "Enum" in c.bases:
                declare_enum(c.name, list(c.consts))
        RECORDS.clear()
        for c in self.classes.values():
            if "NamedTuple" in c.bases:
                fs = []
                for n in c.node.body:
                    if isinstance(n, ast.AnnAssign):
                        fs.append((n.target.id, self.ann(n.annotation)))
                RECORDS[c.name] = fs

    def ann(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            a = ast.parse(a.value, mode="eval").body
        if isinstance(a, ast.Name):
            m = {"str": TStr, "int": TInt, "bool": TBool, "bytes": TBytes}
            if a.id in m:
                return m[a.id]
            if a.id in ABSTRACT_OBJECTS:
                return TObj(a.id)
        if isinstance(a, ast.Subscript):
            n = a.value.id if isinstance(a.value, ast.Name) else a.value.attr
            if n == "Optional":
                return TOpt(self.ann(a.slice))
            if n in ("FrozenSet", "Set", "frozenset", "set"):
                e = self.ann(a.slice)
                if isinstance(e, TTup) and e.ts == (TStr, TBool):
                    return TItems(TStr, TBool)
                return TSet(e)
            if n in ("Tuple", "tuple"):
                return TTup([self.ann(x) for x in a.slice.elts])
            if n == "Union":
                return TExc
        raise Unsupported(f"annotation {ast.dump(a)}")

    # exceptions

    def exc_bases(self, name):
        out = []
        todo = [name]
        while todo:
            n = todo.pop()
            if n is None or n in out:
                continue
            out.append(n)
            if n in self.classes:
                todo += self.classes[n].bases
            elif n in BUILTIN_EXC:
                todo.append(BUILTIN_EXC[n])
        return out

    def is_exc(self, name):
        return "BaseException" in self.exc_bases(name)

    def find_method(self, cls, name):
        """(defining class, node) of a method, following the bases."""
        todo = [cls]
        while todo:
            c = todo.pop(0)
            ci = self.classes.get(c)
            if ci is None:
                continue
            if name in ci.methods:
                return ci, ci.methods[name]
            todo = todo + ci.bases
        return None

    def find_const(self, cls, name):
        todo = [cls]
        while todo:
            c = todo.pop(0)
            ci = self.classes.get(c)
            if ci is None:
                continue
            if name in ci.consts:
                return ci, ci.consts[name]
            todo = todo + ci.bases
        return None
