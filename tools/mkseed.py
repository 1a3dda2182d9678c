#!/usr/bin/env python3
"""mkseed.py ID PROPERTY: makes /verif/seeded/ID from the changes in the scratch
copy /tmp/sr and /tmp/seed/demo.py (and /tmp/seed/meta.json for the texts),
checks it in the scratch copy, and undoes the changes there."""
import json, os, shutil, subprocess, sys, time
SR, V = "/tmp/sr", os.environ.get("VERIF_DIR", "/verif")
sid = sys.argv[1]
D = V + "/seeded/" + sid
src = sys.argv[2] if len(sys.argv) > 2 else "/tmp/seed"
def sh(c, **kw):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
diff = sh("git -C %s diff" % SR).stdout
if not diff.strip():
    sys.exit("no change")
if os.path.isdir(D):
    shutil.rmtree(D)
os.makedirs(D)
open(D + "/patch.diff", "w").write(diff)
meta = json.load(open(src + "/meta.json"))
json.dump(meta, open(D + "/meta.json", "w"), indent=1)
for f in os.listdir(src):
    if f not in ("meta.json", "demo.sh"):
        shutil.copy(src + "/" + f, D)
for f in ("lab.py", "tables_stub.go.txt"):
    if not meta.get("nolab"):
        shutil.copy(V + "/tools/seedlab/" + f, D)
meta.pop("nolab", None)
json.dump(meta, open(D + "/meta.json", "w"), indent=1)
if os.path.exists(src + "/demo.sh"):
    shutil.copy(src + "/demo.sh", D)
else:
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
os.chmod(D + "/demo.sh", 0o755)
ok = True
t = time.time()
r = sh("bash %s/demo.sh" % D, cwd=SR)
print("demo with the patch: %d (%.0fs)" % (r.returncode, time.time() - t)); print(r.stdout[-1500:])
ok &= r.returncode not in (0,)
if "--notest" not in sys.argv:
    r = sh("bash /tmp/seedtest.sh")
    print("tests with the patch:", r.stdout.strip()[-600:])
    ok &= r.returncode == 0
sh("git -C %s checkout -- ." % SR)
t = time.time()
r = sh("bash %s/demo.sh" % D, cwd=SR)
print("demo without: %d (%.0fs)" % (r.returncode, time.time() - t)); print(r.stdout[-700:])
ok &= r.returncode == 0
print("OK" if ok else "NOT OK")
