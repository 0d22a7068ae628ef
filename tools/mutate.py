"""
Mutation campaign over the concrete side (development aid, not a check): python3-vt tools/mutate.py FILE OUT [N]
Generates small syntactic changes of one source file, runs every scenario with every judgement on each, prints survivors.
"""
import ast, copy, os, random, shutil, subprocess, sys, concurrent.futures as cf, json

FILE, OUT = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 10 ** 9
SRC = open(f"/repo/omemo/{FILE}").read()
TREE = ast.parse(SRC)


def is_log(n):
    return isinstance(n, ast.Expr) and "logging" in ast.unparse(n)


def mutants():
    nodes = list(ast.walk(TREE))
    for i, n in enumerate(nodes):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for j, s in enumerate(b):
                    if is_log(s) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Pass):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.If, ast.For, ast.Continue, ast.Break,
                                      ast.Try)):
                        yield (f"delete {ast.unparse(s)[:70]!r} line {s.lineno}", i, lambda m, f=f, j=j: getattr(m, f).__setitem__(
                            j, ast.Pass()))
                    if j + 1 < len(b) and "await" in ast.unparse(s) and "await" in ast.unparse(b[j + 1]) and not is_log(b[j + 1]):
                        def sw(m, f=f, j=j):
                            l = getattr(m, f)
                            l[j], l[j + 1] = l[j + 1], l[j]
                        yield (f"swap line {s.lineno} with next", i, sw)
        if isinstance(n, (ast.If, ast.While, ast.IfExp)) and not (isinstance(n.test, ast.Constant)):
            yield (f"negate {ast.unparse(n.test)[:70]!r} line {n.lineno}", i,
                   lambda m: setattr(m, "test", ast.UnaryOp(ast.Not(), m.test)))
        if isinstance(n, ast.Compare):
            alt = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
                   ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
            for j, o in enumerate(n.ops):
                yield (f"{type(o).__name__} in {ast.unparse(n)[:70]!r} line {n.lineno}", i,
                       lambda m, j=j, o=o: m.ops.__setitem__(j, alt[type(o)]()))
        if isinstance(n, ast.BoolOp):
            yield (f"and/or in {ast.unparse(n)[:70]!r} line {n.lineno}", i,
                   lambda m: setattr(m, "op", ast.And() if isinstance(m.op, ast.Or) else ast.Or()))
            for j in range(len(n.values)):
                yield (f"drop operand {j} of {ast.unparse(n)[:90]!r} line {n.lineno}", i, lambda m, j=j: m.values.pop(j))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub)):
            yield (f"left operand only of {ast.unparse(n)[:70]!r} line {n.lineno}", i, lambda m: (
                setattr(m, "right", copy.deepcopy(m.left)), setattr(m, "op", ast.BitOr()))[0])
            yield (f"right operand only of {ast.unparse(n)[:70]!r} line {n.lineno}", i, lambda m: (
                setattr(m, "left", copy.deepcopy(m.right)), setattr(m, "op", ast.BitOr()))[0])
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, bool)) and not isinstance(n.value, str):
            v = n.value
            yield (f"constant {v} line {n.lineno}", i, lambda m, v=v: setattr(m, "value", (not v) if isinstance(v, bool) else v + 1))
        if False:
            yield (f"None -> '' line {n.lineno}", i, lambda m: setattr(m, "value", ""))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for j, g in enumerate(n.generators):
                for k in range(len(g.ifs)):
                    yield (f"drop filter of {ast.unparse(n)[:80]!r} line {n.lineno}", i,
                           lambda m, j=j, k=k: m.generators[j].ifs.pop(k))
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1 and all(
                isinstance(e, ast.Name) and e.id[0].isupper() for e in n.elts):
            for j in range(len(n.elts)):
                yield (f"drop {n.elts[j].id} line {n.lineno}", i, lambda m, j=j: m.elts.pop(j))
        if isinstance(n, ast.Try):
            for j, h in enumerate(n.handlers):
                if len(n.handlers) > 1:
                    yield (f"drop handler {j} line {h.lineno}", i, lambda m, j=j: m.handlers.pop(j))


RUN = r'''
import asyncio, os, sys, random, json, logging
sys.path.insert(0, os.environ["VERIF_REPO"]); sys.path.insert(0, "/verif")
logging.disable(50)
sys.argv = ["x"]
os.environ["PYTHONHASHSEED"] = "1"
import omemo
assert omemo.__file__.startswith(os.environ["VERIF_REPO"]), omemo.__file__
from replay import run as R, scen as s
async def main():
    hits = set()
    sc = {}
    for p, (j, ss) in R.TABLE.items():
        for x in ss: sc.setdefault(x, []).append((p, j))
    for x, js in sc.items():
        for i in range(int(os.environ.get("MN", "250"))):
            rr = random.Random(i)
            for f in [None] + ([rr.randrange(25), rr.randrange(12)] if x not in R.NO_FAULTS else []):
                try:
                    c = await R.one(x, 77000 + i, f, rr.randrange(4))
                except s.SetupFailed: continue
                except Exception as e: hits.add("scenario:" + type(e).__name__); continue
                for p, j in js:
                    try:
                        if j(c): hits.add(p)
                    except Exception as e: hits.add(p + "?")
    print(json.dumps(sorted(hits)))
asyncio.run(main())
'''


def work(a):
    k, name, i, fn = a
    t = copy.deepcopy(TREE)
    n = list(ast.walk(t))[i]
    fn(n)
    try:
        src = ast.unparse(ast.fix_missing_locations(t))
        compile(src, "x", "exec")
    except Exception as e:
        return name, ["syntax"]
    d = f"/tmp/mut/{FILE}_{k}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo/omemo", d + "/omemo")
    open(f"{d}/omemo/{FILE}", "w").write(src)
    try:
        r = subprocess.run(["/opt/venv/bin/python", "-c", RUN], env=dict(os.environ, VERIF_REPO=d, PYTHONHASHSEED="1",
                           PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True, timeout=240, cwd="/tmp")
        out = json.loads(r.stdout.strip().splitlines()[-1]) if r.returncode == 0 else ["crash:" + r.stderr[-120:]]
    except subprocess.TimeoutExpired:
        out = ["timeout"]
    shutil.rmtree(d, ignore_errors=True)
    return name, out


ms = list(mutants())
random.Random(1).shuffle(ms)
ms = ms[:N]
print(len(ms), "mutants")
with open(OUT, "w") as o, cf.ThreadPoolExecutor(8) as ex:
    for name, hits in ex.map(work, [(k,) + m for k, m in enumerate(ms)]):
        o.write(f"{'SURVIVED' if not hits else 'killed'} {name} {hits}\n")
        o.flush()
