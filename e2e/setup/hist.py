"""Histories of set-ups of a small Go installation: complete ones, ones that
are killed or meet an error at some system call or build step, deletions,
damage followed by a reset. After each history a plain set-up has to give the
tree that a first set-up of the same xgo gives."""
import hashlib, json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import REPO, GOROOT, VERIF, VENDIR_STUB, Err, base_env, run, rmtree

HERE = os.path.dirname(os.path.abspath(__file__))
CALLS = "openat,mkdirat,mkdir,write,unlinkat,symlinkat,renameat,renameat2,ftruncate,truncate,copy_file_range,sendfile,fchmodat"


def tree(root):
    """What is below root: path -> (kind, content digest, executable)."""
    m = {}
    if not os.path.isdir(root):
        return m
    for dp, dn, fn in os.walk(root):
        for n in dn + fn:
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if os.path.islink(p):
                m[rel] = ("link", os.readlink(p))
            elif os.path.isdir(p):
                m[rel] = ("dir",)
            elif os.path.isfile(p):
                with open(p, "rb") as f:
                    m[rel] = ("file", hashlib.sha256(f.read()).hexdigest(), bool(os.stat(p).st_mode & 0o111))
            else:
                m[rel] = ("other",)
    return m


def differ(want, got):
    for k in sorted(set(want) | set(got)):
        a, b = want.get(k), got.get(k)
        if a == b:
            continue
        if a is None:
            return "%s should not be there" % k
        if b is None:
            return "%s is missing" % k
        if a[:2] == b[:2] and a[0] == "file":
            if b[2]:
                continue  # copies are all executable
            return "%s is not executable" % k
        return "%s is not what a first set-up makes (%s)" % (k, a[0] if a[0] != b[0] else "content")
    return ""


class Setups:
    def __init__(self, ck):
        self.ck = ck
        self.dir = os.path.join(ck.scratch, "setups")
        os.makedirs(self.dir)
        self.goversion = lab.GOVERSION
        self.make_goroot()
        self.xgos = {x: self.build(x) for x in "AB"}
        self.strace = self.has_strace()
        ck.extra["faults injected with strace"] = self.strace

    def has_strace(self):
        if not shutil.which("strace"):
            return False
        rc, o, e, s = run(["strace", "-f", "-qq", "-b", "execve", "-o", "/dev/null", "-e", "trace=" + CALLS, "true"], timeout=30)
        return rc == 0

    def make_goroot(self):
        g = self.goroot = os.path.join(self.dir, "sdk", "go")
        want = set()
        mm = ".".join(self.goversion.split(".")[:2])
        for top in (REPO + "/patches/" + mm, REPO + "/cmd/xgo/asset/patches/" + mm):
            for dp, dn, fn in os.walk(top + "/src"):
                for f in fn:
                    rel = os.path.relpath(os.path.join(dp, f), top)
                    for suf in (".txt", ".xgo.patch"):
                        rel = rel[:-len(suf)] if rel.endswith(suf) else rel
                    want.add(rel)
        want |= {"VERSION", "LICENSE", "src/go.mod", "src/cmd/go.mod", "src/cmd/compile/internal/typecheck/builtin.go",
                 "src/cmd/compile/internal/typecheck/_builtin/runtime.go", "src/cmd/compile/internal/typecheck/mkbuiltin.go",
                 "pkg/include/textflag.h", "src/runtime/asm_amd64.s", "src/cmd/go/alldocs.go", "misc/go_android_exec/README"}
        for d in ("src/runtime", "src/time", "src/testing", "src/cmd/compile/internal/types"):
            want |= {os.path.join(d, f) for f in os.listdir(os.path.join(GOROOT, d)) if f.endswith(".go") and not f.endswith("_test.go")}
        for f in sorted(want):
            src = os.path.join(GOROOT, f)
            if os.path.isfile(src):
                os.makedirs(os.path.dirname(os.path.join(g, f)), exist_ok=True)
                shutil.copy(src, os.path.join(g, f))
        os.makedirs(g + "/bin")
        os.makedirs(g + "/pkg/tool/linux_amd64")
        os.makedirs(g + "/src/empty")
        os.symlink("pkg/include", g + "/include")
        os.symlink("/nonexistent/doc", g + "/doc")
        s = open(HERE + "/fakego.sh").read().replace("@GOVERSION@", self.goversion).replace("@REAL@", GOROOT)
        for p, t in (("bin/go", s), ("bin/gofmt", "#!/bin/sh\n"), ("pkg/tool/linux_amd64/compile", "#!/bin/sh\n# original\n"), ("pkg/tool/linux_amd64/link", "#!/bin/sh\n")):
            with open(os.path.join(g, p), "w") as f:
                f.write(t)
            os.chmod(os.path.join(g, p), 0o755)
        self.orig = tree(g)

    def build(self, x):
        """xgo as it is, and one of another revision with other patches"""
        d = os.path.join(self.dir, "xgo" + x)
        os.makedirs(d)
        rep = dict(VENDIR_STUB)
        if x == "B":
            def change(p, fn):
                if os.path.exists(p):
                    s = open(p).read()
                    t = fn(s)
                    f = os.path.join(d, hashlib.md5(p.encode()).hexdigest())
                    open(f, "w").write(t)
                    rep[p] = f
            change(REPO + "/cmd/xgo/version.go", lambda s: re.sub(r"(CORE_NUMBER\s*=\s*)(\d+)", lambda m: m.group(1) + str(int(m.group(2)) + 1), s))
            mm = ".".join(self.goversion.split(".")[:2])
            A = REPO + "/cmd/xgo/asset/patches/" + mm + "/src/"
            # one patch less, in another file another one
            change(A + "encoding/json/encode.go.xgo.patch", lambda s: s[:s.rindex("<patch")])
            change(A + "time/sleep.go.xgo.patch", lambda s: s + "\n<patch verif_extra>\nmatch package time\ninsert_after ;const verifExtra = 1\n</patch>\n")
        ov = os.path.join(d, "overlay.json")
        json.dump({"Replace": rep}, open(ov, "w"))
        out = os.path.join(d, "xgo")
        rc, o, e, s = run(["go", "build", "-overlay", ov, "-o", out, "./cmd/xgo"], cwd=REPO, timeout=300)
        if rc != 0:
            raise Err("xgo does not build: %s %s" % (o, e))
        self.ck.log("built xgo %s in %.1fs" % (x, s))
        return out

    def env(self, home):
        return base_env(HOME=home, GOROOT=self.goroot, PATH=self.goroot + "/bin:" + base_env()["PATH"])

    def prepared(self, home):
        base = os.path.join(home, ".xgo", "go-instrument")
        ds = os.listdir(base) if os.path.isdir(base) else []
        if len(ds) > 1:
            raise Err("several instrument directories: %s" % ds)
        return os.path.join(base, ds[0]) if ds else None

    def clean_home(self, home):
        p = self.prepared(home)
        names = [p] if p else []
        for p in names:
            h = hashlib.md5(p.encode()).hexdigest()[:8]
            b = "/tmp/xgo/go-instrument"
            for x in os.listdir(b) if os.path.isdir(b) else []:
                if x.endswith("_" + h):
                    rmtree(os.path.join(b, x))
        rmtree(home)

    def xgo(self, home, x, args, inject=None, delay=None):
        cwd = os.path.join(home, "proj")
        os.makedirs(cwd, exist_ok=True)
        cmd = [self.xgos[x]] + args
        if inject:
            cmd = ["strace", "-f", "-qq", "-b", "execve", "-o", "/dev/null", "-e", "trace=" + CALLS, "-e", "inject=%s:%s" % (inject[0], inject[1])] + cmd
        if delay is not None:
            p = subprocess.Popen(cmd, cwd=cwd, env=self.env(home), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            try:
                p.wait(delay)
            except subprocess.TimeoutExpired:
                pass
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            p.wait()
            return p.returncode, "", ""
        rc, o, e, s = run(cmd, cwd=cwd, env=self.env(home), timeout=120)
        if rc is None:
            raise Err("%s does not end" % cmd)
        return rc, o, e

    def first(self):
        """the trees of first set-ups"""
        self.want = {}
        for x in "AB":
            home = os.path.join(self.dir, "first" + x)
            os.makedirs(home)
            rc, o, e = self.xgo(home, x, ["setup"])
            if rc != 0:
                return "a first set-up fails: exit %s\n%s%s" % (rc, o[-2000:], e[-3000:])
            g = o.strip().splitlines()[-1]
            self.want[x] = tree(g)
            if not os.path.isfile(g + "/src/cmd/go/main.go") or len(self.want[x]) < len(self.orig):
                return "a first set-up gives an incomplete tree: %d entries of %d" % (len(self.want[x]), len(self.orig))
            # every file that no patch names is a copy
            for k, v in self.orig.items():
                got = self.want[x].get(k)
                if got is None:
                    return "a first set-up does not copy %s" % k
                if v[0] != "file" and got != v or v[0] == "file" and v[2] and not got[2]:
                    return "a first set-up changes %s" % k
            self.clean_home(home)
        a, b = self.want["A"], self.want["B"]
        if a == b:
            raise Err("the two versions of xgo prepare the same tree")
        return ""

    # ------------------------------------------------------------ histories

    def gen(self, rng):
        ops = []
        for i in range(rng.randint(1, 4)):
            k = rng.choice(["setup", "setup", "sys", "sys", "sys", "step", "step", "step", "delay", "rmroot", "rmroot", "rmrev", "badrev", "rmsync", "rmpart", "damage", "delete", "exec"])
            op = {"op": k, "x": rng.choice("AAB")}
            args = rng.choice([["setup"]] * 5 + [["setup", "--reset-instrument"], ["setup", "--delete"], ["exec", "true"]])
            if k == "sys":
                op["args"] = args
                op["call"] = rng.choice(["openat", "write", "mkdirat", "unlinkat", CALLS, CALLS])
                op["what"] = rng.choice(["signal=SIGKILL", "signal=SIGKILL", "error=ENOSPC", "error=EIO"])
                top = {"openat": 900, "write": 700, "mkdirat": 80, "unlinkat": 300}.get(op["call"], 1500)
                op["when"] = rng.choice([rng.randint(1, top), rng.randint(1, 60)])
            elif k == "step":
                op["args"] = args
                op["step"] = rng.randint(1, 4)
                op["how"] = rng.choice(["kill", "half", "after", "fail", "failhalf"])
            elif k == "delay":
                op["args"] = args
                op["delay"] = round(rng.uniform(0.005, 0.25), 3)
            elif k in ("rmpart", "damage"):
                op["seed"] = rng.randint(0, 10 ** 6)
            ops.append(op)
        return {"ops": ops, "last": rng.choice("AAB")}

    def run(self, c, home):
        """returns (message, classes)"""
        cl = []
        os.makedirs(home)
        try:
            for i, op in enumerate(c["ops"]):
                m = self.step(home, op, cl)
                if m:
                    return "step %d %s: %s" % (i + 1, json.dumps(op), m), cl
            x = c["last"]
            rc, o, e = self.xgo(home, x, ["setup"])
            if rc != 0:
                return "the set-up after the history fails: exit %s\n%s%s" % (rc, o[-1500:], e[-1500:]), cl
            m = self.check(home, x)
            if m:
                return "after the history and a set-up that succeeds: " + m, cl
            return "", cl
        finally:
            self.clean_home(home)

    def check(self, home, x):
        p = self.prepared(home)
        if p is None:
            return "nothing is prepared"
        return differ(self.want[x], tree(os.path.join(p, self.goversion)))

    def step(self, home, op, cl):
        k = op["op"]
        p = self.prepared(home)
        root = p and os.path.join(p, self.goversion)
        if k == "setup" or k == "exec":
            rc, o, e = self.xgo(home, op["x"], ["setup"] if k == "setup" else ["exec", "true"])
            if rc != 0:
                return "exit %s\n%s%s" % (rc, o[-1500:], e[-1500:])
            return self.check(home, op["x"])
        if k in ("sys", "step", "delay"):
            kw = {}
            if k == "sys":
                if not self.strace:
                    return ""
                kw["inject"] = (op["call"], "%s:when=%d" % (op["what"], op["when"]))
            elif k == "delay":
                kw["delay"] = op["delay"]
            else:
                for f in ("fault", "step"):
                    if os.path.exists(os.path.join(home, f)):
                        os.remove(os.path.join(home, f))
                open(os.path.join(home, "fault"), "w").write("%d %s\n" % (op["step"], op["how"]))
            rc, o, e = self.xgo(home, op["x"], op["args"], **kw)
            if k == "step":
                os.remove(os.path.join(home, "fault"))
            if rc != 0:
                cl.append("interrupted by " + (op["what"].split("=")[0] if k == "sys" else k))
                return ""
            if op["args"][-1] == "--delete":
                p = self.prepared(home)
                if p and os.path.exists(p):
                    return "--delete succeeds and leaves %s" % sorted(os.listdir(p))
                return ""
            return self.check(home, op["x"])
        if k == "delete":
            rc, o, e = self.xgo(home, op["x"], ["setup", "--delete"])
            if rc != 0:
                return "exit %s\n%s%s" % (rc, o[-1500:], e[-1500:])
            if p and os.path.exists(p):
                return "--delete leaves %s" % sorted(os.listdir(p))
            return ""
        if not p:
            return ""
        cl.append(k)
        if k == "rmroot":
            rmtree(root)
        elif k == "rmsync":
            f = os.path.join(p, "full-sync-record.txt")
            if os.path.exists(f):
                os.remove(f)
        elif k in ("rmrev", "badrev"):
            f = os.path.join(p, "xgo-revision.txt")
            if os.path.exists(f):
                if k == "rmrev":
                    os.remove(f)
                else:
                    open(f, "w").write("")
        elif k in ("rmpart", "damage"):
            rng = random.Random(op["seed"])
            t = tree(root)
            fs = sorted(x for x in t if t[x][0] == "file")
            for x in rng.sample(fs, min(len(fs), rng.randint(1, 5))):
                f = os.path.join(root, x)
                if k == "rmpart":
                    os.remove(f)
                else:
                    open(f, "w").write("damaged\n")
            # damage is repaired by a reset
            rc, o, e = self.xgo(home, op["x"], ["setup", "--reset-instrument"])
            if rc != 0:
                return "the reset fails: exit %s\n%s%s" % (rc, o[-1500:], e[-1500:])
            return self.check(home, op["x"])
        return ""

    def search(self, n, workers):
        ck = self.ck
        m = self.first()
        if m:
            ck.violation("first", m, {})
            return
        if ck.replay:
            rep = json.load(open(ck.replay))
            if rep.get("check") != "histories":
                return
            for i in range(5):
                m, cl = self.run(rep["case"], os.path.join(self.dir, "r%d" % i))
                if m:
                    ck.violation("histories", m, {"case": rep["case"]})
                    return
            return
        rng = random.Random(ck.seed * 7919 + 4)
        cases = [self.gen(rng) for i in range(n)]
        classes = {}
        nt, bad = 0, None
        limit = time.time() + ck.scale(240, 800)
        done = 0
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                return i, self.run(cases[i], os.path.join(self.dir, "h%d" % i))
            for r in ex.map(one, range(n)):
                if r is None:
                    continue
                done += 1
                i, (m, cl) = r
                if cl:
                    nt += 1
                for c in cl:
                    classes[c] = classes.get(c, 0) + 1
                if m and not bad:
                    bad = (cases[i], m)
        ck.add_stats({"evaluations": done, "nontrivial": nt, "classes": classes, "samples": [{"history": c} for c in cases[:4]],
                      "rule": "histories of set-ups of a small Go installation with two versions of xgo, kills and errors at system calls and build steps, deletions and damage; non-trivial: something was interrupted, removed or damaged"})
        if bad:
            c, m = self.shrink(*bad)
            ck.violation("histories", m, {"case": c})
        if tree(self.goroot) != self.orig:
            ck.violation("original", "the original Go installation was changed: " + differ(self.orig, tree(self.goroot)), {})

    def shrink(self, c, m):
        k = 0
        again = True
        while again:
            again = False
            for i in range(len(c["ops"])):
                d = dict(c, ops=c["ops"][:i] + c["ops"][i + 1:])
                for t in range(2):
                    k += 1
                    m2, cl = self.run(d, os.path.join(self.dir, "s%d" % k))
                    if m2:
                        c, m, again = d, m2, True
                        break
                if again:
                    break
        return c, m
