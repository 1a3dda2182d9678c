"""Histories of edits and xgo commands in one working copy; the outcome of each
command against that of the same command in a fresh working copy with the
caches of a fresh installation, at the same path."""
import copy, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import Err, REPO, run, rmtree
from e2e.hist import proj

STUB = r"""#!/bin/sh
d=$(dirname "$0")
if [ -n "$VERIF_GOCACHE" ]; then GOCACHE=$VERIF_GOCACHE; export GOCACHE; fi
exec "$d/go.real" "$@"
"""


def command(r):
    c = r.choice(("run", "run", "run", "build", "test", "test", "test1", "strace", "buildall"))
    fl = []
    for f, p in (("--trap-all", .15), ("--trap-all=false", .08), ("--trap=html", .08), ("--trap=net/url", .05), ("--trap=ex.com/dep", .12), ("--trap=ex.com/dep/x", .05),
                 ("--mock-rule={\"main_module\":true,\"action\":\"exclude\"}", .06), ("--options-from-file=rules.json", .12), ("--no-line-directive", .08), ("-tags=t1", .15),
                 ("--xgo-race-safe", .05), ("-gcflags=ex.com/...=-N", .06), ("--mock-rule-include-as-main-module=ex.com/dep", .06), ("-a-", 0)):
        if r.random() < p:
            fl.append(f)
    if c in ("test", "test1") and r.random() < .15:
        fl.append("-cover")
    if c == "strace" and r.random() < .3:
        fl.append("--strace-snapshot-main-module-default=false")
    return {"cmd": c, "flags": fl, "dir": r.choice(("p", "p", "p", "p/a", "."))}


def history(seed, n):
    r = random.Random(seed)
    s = proj.new(r)
    steps = []
    olds = []
    for i in range(n):
        names = []
        if i:
            for _ in range(r.choice((0, 1, 1, 1, 2, 3))):
                if olds and r.random() < .1:
                    s = copy.deepcopy(r.choice(olds))
                    names.append("restore")
                else:
                    names.append(proj.edit(r, s))
        olds.append(copy.deepcopy(s))
        if i and r.random() < .35 and steps:
            cmd = steps[-1]["cmd"]
            if r.random() < .4:
                cmd = dict(cmd, flags=command(r)["flags"] if cmd["cmd"] not in ("strace", "test", "test1") else [f for f in cmd["flags"] if r.random() < .5])
        else:
            cmd = command(r)
        st = {"state": copy.deepcopy(s), "cmd": cmd, "edits": names}
        if r.random() < .25:
            # the same command before, killed
            st["kill"] = r.choice((r.randint(5, 300), r.randint(5, 2000)))
        steps.append(st)
    return {"steps": steps, "mtime": r.choice((0, 0, 1))}


def norm(t, d):
    t = t.replace(d, "@")
    t = re.sub(r"\(cached\)", "(T)", t)
    t = re.sub(r"\b\d+\.\d+s\b", "(T)", t)
    t = t.replace("((T))", "(T)")
    t = t.replace("xgo is taking a while to setup, please wait...\n", "")
    t = re.sub(r"/run\d+/|/go-build\d+/", "/TMP/", t)
    return t


def strip(v):
    if isinstance(v, dict):
        return {k: strip(x) for k, x in v.items() if k not in ("Begin", "End", "BeginNs", "EndNs", "GoroutineID", "ID", "ParentID")}
    if isinstance(v, list):
        return [strip(x) for x in v]
    return v


class Histories:
    def __init__(self, ck, L=None):
        self.ck = ck
        self.L = L or lab.Lab(ck, "E", gocmd=True)
        b = os.path.join(self.L.igoroot, "bin")
        if not os.path.exists(b + "/go.real"):
            os.rename(b + "/go", b + "/go.real")
            with open(b + "/go", "w") as f:
                f.write(STUB)
            os.chmod(b + "/go", 0o755)
        self.root = os.path.join(self.L.dir, "h")
        os.makedirs(self.root)
        self.base()

    def write(self, d, files, old, mtime):
        for f in old:
            if f not in files:
                os.remove(os.path.join(d, f))
        for f, t in files.items():
            if old.get(f) != t:
                p = os.path.join(d, f)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as h:
                    h.write(t)
                if mtime:
                    os.utime(p, (1600000000, 1600000000))

    def files(self, s):
        fs = proj.render(s)
        fs["p/go.mod"] = fs["p/go.mod"].replace("@RUNTIME@", "\nrequire github.com/xhd2015/xgo/runtime v1.0.40\n\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n" % REPO)
        return fs

    def base(self):
        """the cache of a fresh installation: what every program needs"""
        t0 = time.time()
        self.cache = os.path.join(self.root, "cache")
        d = os.path.join(self.root, "base")
        r = random.Random(1)
        s = proj.new(r)
        fs = self.files(s)
        # no target, and none of the packages that are targets in the histories
        fs["p/main.go"] = ("package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"net/netip\"\n\t\"path/filepath\"\n\t\"github.com/xhd2015/xgo/runtime/mock\"\n\t\"github.com/xhd2015/xgo/runtime/trap\"\n\t\"github.com/xhd2015/xgo/runtime/trace\"\n)\n\n"
                           "func main() { fmt.Println(len(os.Args), netip.Addr{}, filepath.Base(\"a\")); mock.Patch(main, main); _ = trap.ErrMocked; _ = trace.Config{} }\n")
        for f in list(fs):
            if f.startswith("p/f"):
                del fs[f]
        fs["p/x_test.go"] = "package main\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"
        lab.write_tree(d, fs)
        os.makedirs(self.cache)
        e = self.L.env(VERIF_GOCACHE=self.cache)
        for args in (["build", "-o", "/dev/null", "."], ["test", "."], ["build", "--trap-all", "-o", "/dev/null", "."], ["test", "-cover", "."]):
            rc, o, er, _ = run([self.L.xgo] + args, cwd=d + "/p", env=e, timeout=400)
            if rc != 0:
                raise lab.SetupFailed("a simple project does not build: xgo %s\n%s%s" % (args, o, er))
        rmtree(d)
        self.ck.log("base cache: %.1fs" % (time.time() - t0))

    def newcache(self, to):
        subprocess.run(["cp", "-al", self.cache, to], check=True)

    def once(self, w, cache, cmd, kill=None):
        """run the command in workspace w; its outcome"""
        args, post = [], None
        c = cmd["cmd"]
        cwd = os.path.normpath(os.path.join(w, cmd["dir"] if cmd["dir"] != "." else ""))
        fl = [f.replace("=rules.json", "=%s/p/rules.json" % w) for f in cmd["flags"]]
        if cmd["dir"] == ".":
            fl = fl + ["--project-dir", "p"]
        out = w + "/out.bin"
        tr = w + "/traces"
        if os.path.exists(out):
            os.remove(out)
        rmtree(tr)
        if c == "run":
            args = ["run"] + fl + ["ex.com/p", "x", "-y"]
        elif c == "build":
            args = ["build"] + fl + ["-o", out, "ex.com/p"]
            post = [out, "z"]
        elif c == "buildall":
            args = ["build"] + fl + ["ex.com/p/..."]
        elif c == "test":
            args = ["test", "-v"] + fl + ["ex.com/p/..."]
        elif c == "test1":
            args = ["test", "-v"] + fl + ["-run", "1", "ex.com/p", "ex.com/p/a"]
        elif c == "strace":
            os.makedirs(tr)
            args = ["test", "-v", "-count=1", "--strace", "--strace-dir", tr] + fl + ["ex.com/p/a", "ex.com/p"]
        e = self.L.env(VERIF_GOCACHE=cache)
        if kill:
            run([self.L.xgo] + args, cwd=cwd, env=e, timeout=kill / 1000)
            return None, args
        rc, o, er, _ = run([self.L.xgo] + args, cwd=cwd, env=e, timeout=300)
        if rc is None:
            raise Err("xgo %s does not end" % args)
        res = {"rc": rc, "stdout": norm(o, w), "stderr": norm(er, w)}
        if post and rc == 0:
            rc, o, er, _ = run(post, cwd=cwd, env=e, timeout=60)
            res.update({"program rc": rc, "program stdout": norm(o, w), "program stderr": norm(er, w)})
        if c == "strace":
            ts = {}
            for dp, dn, fn in os.walk(tr):
                for f in fn:
                    try:
                        ts[os.path.relpath(os.path.join(dp, f), tr)] = json.dumps(strip(json.load(open(os.path.join(dp, f)))), sort_keys=True).replace(w, "@")
                    except ValueError:
                        ts[f] = "not JSON"
            res["traces"] = ts
        return res, args

    def runh(self, h, name, check=None):
        """the history; check: set of steps to compare (all if None). Returns (message, step, classes)"""
        H = os.path.join(self.root, name)
        os.makedirs(H)
        w = H + "/w"
        os.makedirs(w)
        cl, old, compared = {}, {}, 0
        self.newcache(H + "/inc")
        try:
            for i, st in enumerate(h["steps"]):
                fs = self.files(st["state"])
                self.write(w, fs, old, h["mtime"])
                if st.get("kill"):
                    self.once(w, H + "/inc", st["cmd"], st["kill"])
                    cl["killed"] = cl.get("killed", 0) + 1
                got, args = self.once(w, H + "/inc", st["cmd"])
                cl[st["cmd"]["cmd"]] = cl.get(st["cmd"]["cmd"], 0) + 1
                cl["builds" if got["rc"] == 0 else "fails"] = cl.get("builds" if got["rc"] == 0 else "fails", 0) + 1
                for e in st["edits"]:
                    cl["edit " + e] = cl.get("edit " + e, 0) + 1
                for f in st["cmd"]["flags"]:
                    f = f.split("=")[0]
                    cl["flag " + f] = cl.get("flag " + f, 0) + 1
                if "failed" in got["stdout"]:
                    cl["target not instrumented"] = cl.get("target not instrumented", 0) + 1
                if (i or st.get("kill")) and (check is None or i in check):
                    os.rename(w, H + "/aside")
                    os.makedirs(w)
                    self.write(w, fs, {}, h["mtime"])
                    self.newcache(H + "/clean")
                    want, _ = self.once(w, H + "/clean", st["cmd"])
                    compared += 1
                    rmtree(w)
                    rmtree(H + "/clean")
                    os.rename(H + "/aside", w)
                    if want != got:
                        m = ["after %d steps, xgo %s (in %s) differs from a clean run" % (i + 1, json.dumps(args).replace(w, "@"), st["cmd"]["dir"])]
                        for k in want:
                            if want[k] != got.get(k):
                                m.append("%s: %s\nclean run: %s" % (k, diff(str(got.get(k)), str(want[k])), ""))
                        m.append("steps: " + "; ".join("%s -> %s%s %s (in %s)" % (",".join(x["edits"]) or "start", "killed after %dms, " % x["kill"] if x.get("kill") else "", x["cmd"]["cmd"], " ".join(x["cmd"]["flags"]), x["cmd"]["dir"]) for x in h["steps"][:i + 1]))
                        return "\n".join(m), i, cl, compared
                old = fs
            return "", None, cl, compared
        finally:
            rmtree(H)

    def shrink(self, h, m, i):
        t0, k = time.time(), 0
        h = {"steps": h["steps"][:i + 1], "mtime": h["mtime"]}
        changed = True
        while changed and time.time() - t0 < self.ck.scale(100, 300):
            changed = False
            for j in range(len(h["steps"]) - 1):
                q = {"steps": h["steps"][:j] + h["steps"][j + 1:], "mtime": h["mtime"]}
                if not q["steps"]:
                    continue
                k += 1
                m2, i2, _, _ = self.runh(q, "s%d" % k, {len(q["steps"]) - 1})
                if m2:
                    h, m, changed = q, m2, True
                    break
        return h, m

    def search(self, n, length, workers):
        ck = self.ck
        if ck.replay:
            h = json.load(open(ck.replay))["history"]
            m, i, cl, _ = self.runh(h, "r")
            if m:
                ck.violation("history", m, {"history": h})
            return
        limit = time.time() + ck.scale(85, 700)
        tot, classes, bad, steps = 0, {}, None, 0
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                h = history(ck.seed * 7919 + i, length)
                r = random.Random(i)
                chk = {j for j in range(length) if r.random() < .5 or h["steps"][j].get("kill", 999) < 400} | {length - 1}
                return h, self.runh(h, "h%d" % i, chk)
            for x in ex.map(one, range(n)):
                if x is None:
                    continue
                h, (m, i, cl, c) = x
                tot += c
                for k, v in cl.items():
                    classes[k] = classes.get(k, 0) + v
                if m and not bad:
                    bad = (h, m, i)
        ck.add_stats({"evaluations": tot, "nontrivial": tot, "classes": classes, "samples": [[{"edits": s["edits"], "cmd": s["cmd"]} for s in history(ck.seed * 7919, length)["steps"]]],
                      "rule": "a comparison of a command after at least one earlier command in the same working copy with the same command in a fresh one"})
        if bad:
            h, m = self.shrink(*bad)
            ck.violation("history", m, {"history": h})


def diff(a, b):
    import difflib
    a, b = a.replace("\\n", "\n").splitlines(), b.replace("\\n", "\n").splitlines()
    return "\n".join(list(difflib.unified_diff(b, a, "clean", "after the history", n=1, lineterm=""))[:30])
