#!/usr/bin/env python3
"""plant.py FILE.py [ID...] - build /verif/seeded/<id>/ from the descriptions in
FILE.py (a list PLANTS) and confirm each in a scratch copy: the patch applies,
the existing tests pass, the demonstration passes without and fails with it.

Each plant: dict(id, prop, file, subs=[(old, new[, nth])...], needs, breaks, demo).
"""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
PY = "/opt/venv/bin/python"
PRE = """import io, os, struct, sys, tempfile
sys.path.insert(0, os.getcwd())
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import xlrd
from xlrd import formula, compdoc, biffh, xldate, sheet as xsheet
import biff, ole
from biff import P, rec
def opn(data, **k):
    k.setdefault("logfile", io.StringIO())
    return xlrd.open_workbook(file_contents=data, **k)
def book(recs, ver=80, glob=None, name="S", **k):
    g = list(biff.base_styles(ver, [0] * 17)) + list(glob or []) if ver >= 50 else list(glob or [])
    return opn(biff.build(ver, g, [dict(name=name, recs=recs)]), **k)
"""


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def main():
    plants = runpy.run_path(sys.argv[1])["PLANTS"]
    for p in plants:
        if sys.argv[2:] and p["id"] not in sys.argv[2:]:
            continue
        out = os.path.join(V, "seeded", p["id"])
        tmp = tempfile.mkdtemp(prefix="plant")
        repo = os.path.join(tmp, "repo")
        try:
            shutil.copytree("/repo", repo, symlinks=True)
            env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
            demo = os.path.join(tmp, "demo")
            os.makedirs(demo)
            for f in ("biff.py", "ole.py"):
                shutil.copy(os.path.join(V, "harness", f), demo)
            open(os.path.join(demo, "demo.py"), "w").write(PRE + p["demo"])
            open(os.path.join(demo, "demo.sh"), "w").write(
                '#!/bin/bash\nexec %s "$(dirname "$0")/demo.py"\n' % PY)
            a = sh("bash", os.path.join(demo, "demo.sh"), cwd=repo, env=env)
            if a.returncode:
                print(p["id"], "DEMO FAILS UNCHANGED", a.stdout[-600:])
                continue
            fn = os.path.join(repo, "xlrd", p["file"])
            txt = open(fn).read()
            bad = False
            for s in p["subs"]:
                n = s[2] if len(s) > 2 else 0
                parts = txt.split(s[0])
                if len(parts) < n + 2 or (len(s) < 3 and len(parts) != 2):
                    print(p["id"], "OLD TEXT occurs", len(parts) - 1, repr(s[0])[:80])
                    bad = True
                    break
                txt = s[0].join(parts[:n + 1]) + s[1] + s[0].join(parts[n + 1:])
            if bad:
                continue
            open(fn, "w").write(txt)
            t = sh(PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests", cwd=repo, env=env)
            b = sh("bash", os.path.join(demo, "demo.sh"), cwd=repo, env=env)
            if t.returncode or not b.returncode:
                print(p["id"], "TESTS" if t.returncode else "DEMO PASSES", t.stdout[-300:] if t.returncode else "")
                continue
            d = sh("git", "-C", repo, "diff").stdout
            shutil.rmtree(out, ignore_errors=True)
            shutil.copytree(demo, out)
            for r, ds, _f in os.walk(out):
                for x in ds:
                    if x == "__pycache__":
                        shutil.rmtree(os.path.join(r, x))
            open(os.path.join(out, "patch.diff"), "w").write(d)
            json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            print(p["id"], "ok:", b.stdout.strip().splitlines()[-1][:120])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)


main()
