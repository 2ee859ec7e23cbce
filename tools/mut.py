#!/usr/bin/env python3
"""mut.py PROPS FILE OLD NEW [nth] - scratch-copy mutation: replace OLD by NEW in
xlrd/FILE in a copy under /tmp and run the checks of PROPS (comma separated)
against it.  -t as first argument also runs the repository's tests."""
import sys, os, shutil, subprocess, tempfile
args = sys.argv[1:]
tests = args[0] == "-t"
if tests:
    args = args[1:]
props, fn, old, new = args[:4]
nth = int(args[4]) if len(args) > 4 else 0
d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
try:
    shutil.copytree("/repo", d + "/r", ignore=shutil.ignore_patterns(".git"))
    p = d + "/r/xlrd/" + fn
    s = open(p).read()
    parts = s.split(old)
    if len(parts) < 2:
        sys.exit("OLD not found")
    if len(parts) > 2 and not nth:
        sys.exit("OLD found %d times" % (len(parts) - 1))
    k = nth or 1
    s = old.join(parts[:k]) + new + old.join(parts[k:])
    open(p, "w").write(s)
    if tests:
        r = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider", "tests"], cwd=d + "/r",
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print("TESTS:", r.stdout.decode().strip().splitlines()[-1])
    for prop in props.split(","):
        e = dict(os.environ, VERIF_REPO=d + "/r")
        r = subprocess.run([sys.executable, "/verif/check.py", prop], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = r.stdout.decode().splitlines()
        print(prop, "rc=%d" % r.returncode, " | ".join(out[:2])[:400] if r.returncode != 2 else "\n".join(out[-15:]))
finally:
    shutil.rmtree(d)
