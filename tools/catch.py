#!/usr/bin/env python3
"""catch.py [ID...]: runs the check of each planted bug's property against a
scratch copy of /repo that has the bug. Writes out/catch.json."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
res = {}
f = V + "/out/catch.json"
os.makedirs(V + "/out", exist_ok=True)
if os.path.exists(f):
    res = json.load(open(f))
for i in ids:
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    S = "/tmp/verif-catch"
    shutil.rmtree(S, ignore_errors=True)
    subprocess.run(["cp", "-a", os.environ.get("VERIF_SRC", "/repo"), S], check=True)
    subprocess.run(["git", "-C", S, "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
    t = time.time()
    for p in (meta["property"] if isinstance(meta["property"], list) else [meta["property"]]):
        r = subprocess.run(["python3", V + "/run.py", p], cwd=V, env=dict(os.environ, VERIF_REPO=S, VERIF_SEED="1", VERIF_TIER="quick"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        l = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
        res[i] = {"property": p, "rc": r.returncode, "line": l[:1], "seconds": round(time.time() - t)}
        print(i, p, "CAUGHT" if r.returncode == 1 and l else "MISSED rc=%s" % r.returncode, "%ds" % (time.time() - t), flush=True)
        if r.returncode not in (0, 1):
            print(r.stdout[-2000:])
    json.dump(res, open(f, "w"), indent=1)
    shutil.rmtree(S, ignore_errors=True)
