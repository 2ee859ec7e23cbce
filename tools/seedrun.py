#!/usr/bin/env python3
"""seedrun.py [ID...] - apply each planted change to a scratch copy of /repo in turn,
run the quick check of its property on it; report which are caught."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
S = os.path.join(V, "seeded")
RF = os.path.join(V, "tools", "seedresults.json")
res = json.load(open(RF)) if os.path.exists(RF) else {}
for i in sorted(os.listdir(S)):
    if sys.argv[1:2] == ["new"] and i in res:
        continue
    if sys.argv[1:] not in ([], ["new"]) and not any(i.startswith(a) for a in sys.argv[1:]):
        continue
    prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seedrun_")
    try:
        repo = os.path.join(tmp, "r")
        shutil.copytree("/repo", repo, symlinks=True)
        subprocess.check_call(["git", "-C", repo, "apply", os.path.join(S, i, "patch.diff")])
        r = subprocess.run(["python3", os.path.join(V, "check.py"), prop, "quick"], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, universal_newlines=True, env=dict(os.environ, VERIF_SEED="1", VERIF_REPO=repo))
    finally:
        shutil.rmtree(tmp)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + prop)]
    res[i] = "caught" if r.returncode == 1 and v else "missed"
    json.dump({k: res[k] for k in sorted(res) if os.path.isdir(os.path.join(S, k))}, open(RF, "w"), indent=1)
    print(i, prop, "caught" if r.returncode == 1 and v else "MISSED rc=%d" % r.returncode, len(v), flush=True)
