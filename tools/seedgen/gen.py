import json, os, shutil, subprocess, sys
OUT = "/verif/seeded"
SM = "omemo/session_manager.py"
SEEDS = []


def seed(id, prop, needs, breaks, edits, demo):
    SEEDS.append((id, prop, needs, breaks, edits, demo))


exec(open("/verif/tools/seedgen/defs.py").read())
only = sys.argv[1:]
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)
for id, prop, needs, breaks, edits, demo in SEEDS:
    if only and id not in only:
        continue
    d = f"{OUT}/{id}"
    wt = f"/tmp/wt_{id}"
    shutil.rmtree(wt, ignore_errors=True)
    sh(f"cp -a /repo {wt}")
    for f, old, new in edits:
        s = open(f"{wt}/{f}").read()
        if s.count(old) != 1:
            print(id, "EDIT count", s.count(old), repr(old[:80]))
        open(f"{wt}/{f}", "w").write(s.replace(old, new, 1))
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(sh("git diff", cwd=wt).stdout)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    open(f"{d}/demo.py", "w").write("from lib import *\n" + demo)
    open(f"{d}/demo.sh", "w").write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(f"{d}/demo.sh", 0o755)
    shutil.copy("/verif/replay/fakes.py", f"{d}/fakes.py")
    shutil.copy("/verif/tools/seedgen/lib.py", f"{d}/lib.py")
    a = sh(f"bash {d}/demo.sh", cwd="/repo")
    b = sh(f"bash {d}/demo.sh", cwd=wt)
    t = sh(f"PYTHONPATH={wt} /opt/venv/bin/python -m pytest -q tests 2>&1 | tail -1", cwd=wt)
    ok = a.returncode == 0 and b.returncode != 0
    print("OK " if ok else "BAD", id, prop, a.returncode, b.returncode, "|", b.stderr.strip().splitlines()[-1:] , t.stdout.strip())
    if a.returncode:
        print(a.stderr[-1500:])
    shutil.rmtree(wt, ignore_errors=True)
