"""Generated command lines. The go command of the prepared toolchain is
replaced by one that records how it is called, and the call is compared with
what go would have understood from the same command line without xgo's flags."""
import json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import Err, run, rmtree

BOOL = "a n race msan asan cover v work x buildvcs json linkshared modcacherw trimpath".split()
VALUE = "p covermode coverpkg asmflags buildmode compiler gccgoflags gcflags installsuffix ldflags mod modfile overlay pgo pkgdir tags toolexec".split()
TBOOL = "c artifacts benchmem failfast fullpath short".split()
TVALUE = ("bench benchtime blockprofile blockprofilerate count coverprofile cpu cpuprofile fuzz fuzzminimizetime fuzztime list memprofile memprofilerate "
          "mutexprofile mutexprofilefraction outputdir parallel run shuffle skip timeout trace vet o exec").split()
# forwarded to the test binary, also spelled -test.X
FORWARD = ("artifacts bench benchmem benchtime blockprofile blockprofilerate count coverprofile cpu cpuprofile failfast fullpath fuzz fuzzminimizetime fuzztime list "
           "memprofile memprofilerate mutexprofile mutexprofilefraction outputdir parallel run short shuffle skip timeout trace v").split()
LISTS = ("gcflags", "ldflags", "asmflags", "gccgoflags")


def kinds(cmd):
    b, v = set(BOOL), set(VALUE)
    if cmd == "build":
        v.add("o")
    if cmd == "run":
        v.add("exec")
    if cmd == "test":
        b |= set(TBOOL)
        v |= set(TVALUE)
    return b, v


def boolval(s):
    if s in ("1", "t", "T", "true", "TRUE", "True"):
        return "true"
    if s in ("0", "f", "F", "false", "FALSE", "False"):
        return ""
    return s


def understand(cmd, argv):
    """What the go command reads from a command line: flags, packages and
    arguments of the program (package flag; cmd/go/internal/test/testflag.go)"""
    bools, values = kinds(cmd)
    flags, pkgs, prog = {}, [], []
    pkg_seen, in_pkgs = False, False
    i = 0

    def setflag(n, v):
        if n in LISTS:
            flags.setdefault(n, []).append(v)
        elif n in bools:
            flags[n] = boolval(v)
        else:
            flags[n] = v
    while i < len(argv):
        a = argv[i]
        was_in = in_pkgs
        in_pkgs = False
        flaglike = len(a) >= 2 and a[0] == "-"
        if not flaglike:
            if cmd != "test":
                if cmd == "run":
                    j = i
                    while j < len(argv) and argv[j].endswith(".go"):
                        j += 1
                    j = max(j, i + 1)
                    pkgs, prog = argv[i:j], argv[j:]
                else:
                    pkgs = argv[i:]
                break
            if pkg_seen and not was_in:
                prog += argv[i:]
                break
            pkg_seen = in_pkgs = True
            pkgs.append(a)
            i += 1
            continue
        if a == "--":
            if cmd == "test":
                prog += argv[i:]
            elif cmd == "run":
                return None  # not generated
            else:
                pkgs = argv[i + 1:]
            break
        name = a[2:] if a.startswith("--") else a[1:]
        val = None
        if "=" in name:
            name, val = name.split("=", 1)
        if cmd == "test" and name.startswith("test.") and name[5:] in FORWARD:
            name = name[5:]
        if name in bools:
            setflag(name, "true" if val is None else val)
            i += 1
            continue
        if name in values:
            if val is None:
                if i + 1 >= len(argv):
                    return ("error", "flag needs an argument: " + a)
                val = argv[i + 1]
                i += 1
            setflag(name, val)
            i += 1
            continue
        if cmd != "test":
            return ("error", "flag provided but not defined: " + a)
        pkg_seen = True
        if a in ("-args", "--args"):
            prog += argv[i + 1:]
            break
        prog.append(a)
        i += 1
    return {k: v for k, v in flags.items() if v not in ("", [])}, pkgs, prog


# ------------------------------------------------------------- generator

TAILS = ["-v", "--v", "-a", "-x", "-c", "--strace", "--strace=off", "-o", "out", "--project-dir", "..", "--", "-args", "-run", "", " ", "a b", "-race", "--trap", "=", "-", "x.go",
         "-tags", "--build-flag", "-mod=mod", "--no-setup", "--unified", "é\"'$(x)*", "--help", "-test.v", "./...", "--log-debug", "-count=1", "--xgo"]


# xgo's own flags end only at -args, -- or the first argument for the program
XT = ("--strace", "--strace=off", "--project-dir", "--trap", "--build-flag", "--no-setup", "--unified", "--help", "--log-debug", "--xgo")


class Gen:
    def __init__(self, rng):
        self.r = rng

    def c(self, *x):
        return self.r.choice(x)

    def spell(self, name, val=None, dashes=None):
        d = dashes or self.c("-", "-", "--")
        if val is None:
            return [d + name]
        if self.r.random() < .5:
            return ["%s%s=%s" % (d, name, val)]
        return [d + name, val]

    def goflag(self, cmd):
        """one go flag as tokens"""
        r = self.r
        n = self.c(*("a n race v work x trimpath modcacherw json buildvcs cover v x p gcflags ldflags asmflags tags tags mod modfile overlay installsuffix pgo toolexec gcflags ldflags tags".split()
                     + ("run run o c short failfast benchmem fullpath count timeout bench cpu list parallel shuffle skip vet coverprofile covermode coverpkg v json exec outputdir test.run test.v test.count test.short test.timeout".split() if cmd == "test" else [])
                     + (["o", "o"] if cmd == "build" else []) + (["exec"] if cmd == "run" else [])))
        base = n[5:] if n.startswith("test.") else n
        if base in BOOL or base in TBOOL:
            if r.random() < .2:
                return ["%s%s=%s" % (self.c("-", "--"), n, self.c("true", "1", "T", "false", "0"))]
            if base == "v" and cmd == "test" and r.random() < .1:
                return [self.c("-", "--") + n + "=test2json"]
            if base == "buildvcs" and r.random() < .5:
                return [self.c("-", "--") + n + "=auto"]
            return [self.c("-", "-", "--") + n]
        v = {
            "p": lambda: self.c("1", "4"),
            "gcflags": lambda: self.c("all=-N -l", "-m", "-l", "all=-l -N", "", "-N", "ex.com/p/...=-B"),
            "ldflags": lambda: self.c("-s -w", "-X main.v=1", "-v", "-a", "-X=main.v=--strace", ""),
            "asmflags": lambda: self.c("-S", "-v"),
            "tags": lambda: self.c("t1", "t1,t2", "t2", "", "x"),
            "mod": lambda: self.c("mod", "mod", "readonly"),
            "modfile": lambda: self.c("@/alt.mod", "@/alt2.mod", "alt.mod"),
            "overlay": lambda: self.c("@/ov.json", "ov.json"),
            "installsuffix": lambda: self.c("z", "-z"),
            "pgo": lambda: self.c("off", "auto"),
            "toolexec": lambda: self.c("env", "env -i"),
            "o": lambda: self.c("out", "./out.bin", "@/o 1", "bin/", "-o", "-v", ""),
            "run": lambda: self.c("TestA", "^TestA$/x y", "", "-x", "--strace", "A|B", "=", "."),
            "count": lambda: self.c("1", "2", "-1"),
            "timeout": lambda: self.c("10s", "1m"),
            "bench": lambda: self.c(".", "X", "-"),
            "cpu": lambda: "1,2", "list": lambda: self.c(".", "-v"), "parallel": lambda: "2", "shuffle": lambda: self.c("on", "off", "3"), "skip": lambda: self.c("B", "-c"),
            "vet": lambda: self.c("off", "all"), "coverprofile": lambda: self.c("c.out", "-c.out"), "covermode": lambda: "atomic", "coverpkg": lambda: self.c("./...", "ex.com/p/sub"),
            "exec": lambda: self.c("env", "env -i"), "outputdir": lambda: "@",
        }[base]()
        return self.spell(n, v)

    def xflag(self, cmd, projdir):
        k = self.c("build-flag", "strace", "strace-dir", "trap", "trap-all", "trap-stdlib", "nld", "mock-rule", "race-safe", "log-debug", "go", "unified", "file-patches",
                   "snap", "prog-flag", "nbo", "options", "asmain", "debug-target")
        b = lambda f, *v: [f if self.r.random() < .4 else f + "=" + self.c(*v)]
        sp = lambda f, v: [f + "=" + v] if self.r.random() < .5 else [f, v]
        if k == "build-flag":
            return sp("--build-flag", self.c("-trimpath", "-installsuffix=q", "-p=3", "--race", "-gcflags=-bf"))
        if k == "strace":
            return b(self.c("--strace", "--stack-trace"), "on", "true", "off", "false", "")
        if k == "strace-dir":
            return sp(self.c("--strace-dir", "--stack-trace-dir"), self.c("@/td", "td", "-td"))
        if k == "trap":
            return sp("--trap", self.c("strings", "ex.com/dep", "path"))
        if k == "trap-all":
            return b("--trap-all", "true", "false", "")
        if k == "trap-stdlib":
            return b("--trap-stdlib", "true", "false", "")
        if k == "nld":
            return ["--no-line-directive"]
        if k == "mock-rule":
            return sp("--mock-rule", self.c('{"any":true,"action":"include"}', '{"pkg":"x/**","action":"exclude"}'))
        if k == "race-safe":
            return b("--xgo-race-safe", "true", "on", "1", "false", "off", "0")
        if k == "log-debug":
            return ["--log-debug=xgo-debug.log"]
        if k == "go":
            return ["--go"]
        if k == "unified":
            return b("--unified", "true", "false", "") if cmd == "test" else []
        if k == "file-patches":
            return b("--use-file-patches", "true", "")
        if k == "snap":
            return ["--strace-snapshot-main-module-default=" + self.c("true", "false")]
        if k == "prog-flag":
            return sp("--prog-flag", self.c("-test.v", "x"))
        if k == "nbo":
            return ["--no-build-output"]
        if k == "options":
            return sp("--options-from-file", "@/rules.json")
        if k == "asmain":
            return sp("--mock-rule-include-as-main-module", self.c("ex.com/dep", "a,b"))
        if k == "debug-target":
            return sp("--debug-target", self.c("x", "-v"))

    def pkgs(self, cmd, rel):
        if not rel:
            # not in the root of the module
            if cmd == "run":
                return self.c([["ex.com/p"]], [["ex.com/p/cmd"]], [["@/main.go"]], [["@/main.go"], ["@/other.go"]])
            return [[x] for x in self.r.sample([".", "ex.com/p", "ex.com/p/sub", "./..."], self.c(0, 1, 1, 2))]
        if cmd == "run":
            return self.c([["."]], [["./cmd"]], [["ex.com/p/cmd"]], [["main.go"]], [["main.go"], ["other.go"]])
        r = [[x] for x in self.r.sample([".", "./sub", "./sub2", "ex.com/p/sub", "./..."], self.c(0, 1, 1, 2))]
        return r

    def tail(self):
        return [self.c(*TAILS) for _ in range(self.c(0, 1, 2, 4))]

    def case(self):
        r = self.r
        cmd = self.c("build", "run", "run", "test", "test", "test", "exec")
        c = {"cmd": cmd, "items": [], "rc": self.c(0, 0, 1, 2, 3, 42, 127, 255), "out": self.c("", "out\n", "a\x00b", "no newline"),
             "err": self.c("", "err line\n", "exit status 3\n", "x"), "stdin": self.c("", "in\nput", "x" * 5000), "envf": [], "cwd": self.c("@", "@", "@/sub")}
        it = c["items"]
        add = lambda k, t: it.append([k, t]) if t else None
        if cmd == "exec":
            for _ in range(self.c(0, 0, 1, 2)):
                add("x", self.c(["--go"], ["--mock-rule", "{}"], ["--xgo-race-safe=on"]))
            if r.random() < .2:
                add("x", ["--"])
            add("t", ["go", self.c("build", "test", "run")] + self.tail())
            return c
        # -C and the project dir
        where = r.random()
        c["relok"] = c["cwd"] == "@"
        if where < .12:
            d = self.c("@", "@/sub")
            it.append(["C", self.spell("C", d)])
            c["C"] = d
            c["relok"] = d == "@"
        n = r.randint(0, 5)
        mid = []
        if .12 <= where < .35:
            d = self.c("@", "@/sub", "@/cmd")
            c["proj"] = d
            c["relok"] = False
            mid.append(["x", self.spell("project-dir", d, "--")])
        for _ in range(n):
            mid.append(["g", self.goflag(cmd)])
        for _ in range(self.c(0, 0, 1, 1, 2, 3)):
            mid.append(["x", self.xflag(cmd, None)])
        mid = [m for m in mid if m[1]]
        # the same flag in both spellings: not specified which one comes last
        name = lambda m: m[1][0].lstrip("-").split("=")[0]
        names = [name(m) for m in mid]
        mid = [m for m in mid if not (name(m).startswith("test.") and name(m)[5:] in names)]
        if not c["relok"]:
            mid = [[k, [t.replace("=alt.mod", "=@/alt.mod").replace("=ov.json", "=@/ov.json") if t not in ("alt.mod", "ov.json") else "@/" + t for t in ts]] for k, ts in mid]
        r.shuffle(mid)
        # some of the flags come from the environment
        if r.random() < .25:
            for m in list(mid):
                if r.random() < .4 and not any((not t) or re.search(r"\s", t) for t in m[1]):
                    mid.remove(m)
                    c["envf"].append(m)
        pk = [["p", p] for p in self.pkgs(cmd, c["relok"])]
        if cmd == "build":
            it += mid
            if r.random() < .15 and pk:
                it.append(["x", ["--"]])
            it += pk
            xs = [m for m in mid if m[0] == "x"]
            if xs and r.random() < .3 and pk and ["x", ["--"]] not in it:
                it.remove(xs[0])
                it.append(xs[0])
        elif cmd == "run":
            it += mid + pk
            t = self.tail()
            while t and t[0].endswith(".go") and pk[-1][1][0].endswith(".go"):
                # one more file of the package
                t = t[1:]
            add("t", t)
        else:
            # packages among the flags: before, in the middle or at the end
            k = r.randint(0, len(mid)) if r.random() < .4 else self.c(0, len(mid))
            it += mid[:k]
            if pk and len(pk) > 1 and r.random() < .2:
                x = self.xflag(cmd, None)
                pk.insert(1, ["x", x]) if x else None
            it += pk + mid[k:]
            t = r.random()
            if t < .3:
                add("t", [self.c("-args", "--args")] + self.tail())
            elif t < .4:
                add("t", ["--"] + self.tail())
            elif t < .5:
                add("t", [self.c("-mine", "--mine=1", "-test.mine", "-mine=", "-update")] + [x for x in self.tail() if x not in XT])
            elif t < .56 and pk and any(m[0] == "g" for m in mid[k:]):
                add("t", ["prog"] + self.tail())
        return c


BAD = [
    ["build", "--project-dir"], ["test", "--strace-dir"], ["run", "--trap"], ["build", "-o"], ["test", "-run"], ["test", "--mock-rule"], ["build", "-tags"], ["build", "--options-from-file"],
    ["test", "--strace=maybe", "."], ["test", "--stack-trace=2", "."], ["test", "--unified=maybe", "."], ["build", "--trap-all=maybe", "."], ["test", "--trap-stdlib=on_", "."],
    ["build", "--use-file-patches=x", "."], ["build", "--use-file-patches=false", "."], ["build", "--xgo-race-safe=maybe", "."], ["build", "--mock-rule", "{", "."], ["build", "--mock-rule", "[1]", "."],
    ["build", "--options-from-file", "none.json", "."], ["build", "--project-dir", "none", "."], ["build", "-overlay", "none.json", "."], ["biuld", "."], [], ["exec"], ["build", "--build-flag"],
    ["test", "-ldflags"], ["build", "-C"], ["build", "-C", "none", "."], ["run", "--prog-flag"], ["exec", "--go"], ["test", "--mock-rule-include-as-main-module"],
    ["build", "--with-goroot", "/none", "."], ["test", "-count"], ["build", "-modfile"],
]

STUB = r"""#!/bin/sh
d=$(dirname "$0")
case "$1" in build|run|test) ;; *) exec "$d/go.real" "$@";; esac
if [ -z "$VERIF_REC" ]; then exec "$d/go.real" "$@"; fi
echo >> "$VERIF_REC/calls"
printf '%s\0' "$@" > "$VERIF_REC/argv"
pwd -P > "$VERIF_REC/cwd"
env -0 > "$VERIF_REC/env"
cat > "$VERIF_REC/stdin"
cat "$VERIF_REC/out"
cat "$VERIF_REC/err" >&2
exit $(cat "$VERIF_REC/rc")
"""


class CmdLines:
    def __init__(self, ck):
        self.ck = ck
        self.L = lab.Lab(ck, "E")
        b = os.path.join(self.L.igoroot, "bin")
        os.rename(b + "/go", b + "/go.real")
        with open(b + "/go", "w") as f:
            f.write(STUB)
        os.chmod(b + "/go", 0o755)
        self.tpl = os.path.join(self.L.dir, "tpl")
        self.template()

    def template(self):
        files = {
            "p/go.mod": "module ex.com/p\n\ngo 1.24\n\nrequire ex.com/dep v0.0.0\n\nreplace ex.com/dep => ../dep\n",
            "dep/go.mod": "module ex.com/dep\n\ngo 1.24\n",
            "dep/d.go": "package dep\n\nfunc D(s string) string { return \"d\" + s }\n",
            "p/main.go": "package main\n\nimport (\n\t\"ex.com/dep\"\n\t\"ex.com/p/sub\"\n)\n\nvar x = 1\n\nfunc main() { println(dep.D(sub.S()), x, other()) }\n",
            "p/other.go": "package main\n\nfunc other() int { return 2 }\n",
            "p/main_test.go": "package main\n\nimport \"testing\"\n\nfunc TestA(t *testing.T) {}\n",
            "p/cmd/main.go": "package main\n\nfunc main() { println(1) }\n",
            "p/sub/s.go": "package sub\n\nfunc S() string { return \"s\" }\n",
            "p/sub/s_test.go": "package sub\n\nimport \"testing\"\n\nfunc TestA(t *testing.T) { S() }\n",
            "p/sub2/s.go": "package sub2\n\nfunc S() string { return \"s\" }\n",
            "p/rules.json": '{"filter_rules":[{"any":true,"action":"include"}]}',
            "p/replaced.go": "//go:build ignore\n\npackage main\n\nfunc other() int { return 3 }\n",
        }
        for n in ("alt", "alt2"):
            files["p/%s.mod" % n] = files["p/go.mod"] + "\n// this is %s\n" % n
        lab.write_tree(self.tpl, files)

    def project(self, name):
        d = os.path.join(self.L.dir, "run", name)
        shutil.copytree(self.tpl, d)
        p = os.path.join(d, "p")
        json.dump({"Replace": {p + "/other.go": p + "/replaced.go"}}, open(p + "/ov.json", "w"))
        os.makedirs(d + "/rec")
        return d, p

    def call(self, d, cwd, args, c, extra=None):
        rec = d + "/rec"
        for k in ("out", "err"):
            open(rec + "/" + k, "wb").write(c[k].encode())
        open(rec + "/rc", "w").write(str(c["rc"]))
        env = self.L.env(VERIF_REC=rec, VERIF_X="a b=c", **(extra or {}))
        pr = subprocess.Popen([self.L.xgo] + args, cwd=cwd, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        try:
            o, e = pr.communicate(c["stdin"].encode(), timeout=120)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.communicate()
            return None
        # the notice of a slow start is about the machine
        e = e.replace(b"xgo is taking a while to setup, please wait...\n", b"")
        return pr.returncode, o, e

    def argv(self, c, p):
        at = lambda t: t.replace("@", p)
        return [at(t) for k, ts in c["items"] for t in ts]

    def run(self, c, name):
        d, p = self.project(name)
        try:
            return self.run1(c, d, p)
        finally:
            rmtree(d)

    def run1(self, c, d, p):
        at = lambda t: t.replace("@", p)
        cmd = c["cmd"]
        cwd = at(c["cwd"])
        args = self.argv(c, p)
        envf = [at(t) for k, ts in c["envf"] for t in ts]
        res = self.call(d, cwd, [cmd] + args, c, {"XGO_FLAGS": " ".join(envf)} if envf else {})
        show = "%sxgo %s   (in %s)" % ("XGO_FLAGS=%r " % " ".join(envf) if envf else "", json.dumps([cmd] + args, ensure_ascii=False), c["cwd"])
        if res is None:
            return show + "\ndoes not end", set()
        rc, o, e = res
        rec = d + "/rec/"
        # what go is to see
        items = c["envf"] + c["items"]
        want_argv = [at(t) for k, ts in items if k in "gpt" for t in ts]
        cl = {cmd}
        if cmd == "exec":
            want = want_argv[1:]
        else:
            i = 0
            want = want_argv
            w = understand(cmd, want)
            if w is None or w[0] == "error":
                if os.path.exists(rec + "calls") or rc == 0:
                    # go reports the error itself
                    pass
                return "", {"invalid"}
        if not os.path.exists(rec + "calls"):
            return "%s\ngo is not called: rc=%d %s%s" % (show, rc, o.decode(errors="replace"), e.decode(errors="replace")[:1500]), cl
        got = open(rec + "argv", "rb").read().decode().split("\0")[:-1]
        gcwd = open(rec + "cwd").read().strip()
        genv = dict(x.split("=", 1) for x in open(rec + "env", "rb").read().decode().split("\0")[:-1] if "=" in x)
        head = show + "\ngo is called with " + json.dumps(got, ensure_ascii=False) + "\n"
        if open(rec + "calls").read() != "\n":
            return head + "more than once", cl
        # exit status and streams
        if rc != c["rc"]:
            return head + "go ends with status %d, xgo with %d" % (c["rc"], rc), cl
        if o != c["out"].encode():
            return head + "go writes %r to stdout, xgo %r" % (c["out"], o), cl
        if e != c["err"].encode():
            return head + "go writes %r to stderr, xgo %r" % (c["err"], e[:1500]), cl
        if open(rec + "stdin", "rb").read() != c["stdin"].encode():
            return head + "go does not get xgo's standard input", cl
        if genv.get("VERIF_X") != "a b=c":
            return head + "the environment does not reach go", cl
        if genv.get("PATH", "").split(":")[0] != self.L.igoroot + "/bin" or genv.get("GOROOT") != self.L.igoroot:
            return head + "PATH or GOROOT is not the prepared toolchain's: %s %s" % (genv.get("PATH"), genv.get("GOROOT")), cl
        if cmd == "exec":
            if got != want:
                return head + "want arguments %s" % json.dumps(want, ensure_ascii=False), cl
            return "", cl
        if got[0] != cmd:
            return head + "not go " + cmd, cl
        wcwd = cwd
        if "C" in c:
            wcwd = at(c["C"])
            cl.add("C")
        if "proj" in c:
            wcwd = at(c["proj"])
            cl.add("project-dir")
        if gcwd != os.path.realpath(wcwd):
            return head + "go runs in %s, want %s" % (gcwd, wcwd), cl
        wf, wp, wa = w
        g = understand(cmd, got[1:])
        if g is None or g[0] == "error":
            return head + "go does not understand its flags: %s" % (g,), cl
        gf, gp, ga = g
        x = self.xflags(c, at)
        for f in x["build-flag"]:
            f = f.lstrip("-")
            n, _, v = f.partition("=")
            if n in ("trimpath", "race"):
                wf.setdefault(n, "true")
            elif n == "gcflags":
                # after the flags of the same name that stand alone
                wf.setdefault(n, [])
                wf[n] = wf[n] + [v]
            else:
                wf.setdefault(n, v)
        if wp != gp:
            return head + "packages %s, want %s" % (gp, wp), cl
        if wa != ga:
            return head + "program arguments %s, want %s" % (json.dumps(ga), json.dumps(wa)), cl
        # xgo's own additions
        gf.pop("overlay", None)
        wf.pop("overlay", None)
        m = gf.pop("mod", "")
        wm = wf.pop("mod", "")
        if m != wm and m != "mod":
            return head + "-mod is %s, want %s" % (m, wm), cl
        mf, wmf = gf.pop("modfile", ""), wf.pop("modfile", "")
        if mf or wmf:
            f = mf if os.path.isabs(mf) else os.path.join(gcwd, mf)
            try:
                t = open(f).read()
            except OSError as ex:
                return head + "-modfile %s: %s" % (mf, ex), cl
            mark = re.findall(r"// this is (\w+)", t)
            wmark = [os.path.basename(wmf)[:-4]] if wmf else []
            if mark != wmark:
                return head + "module file %s is made from %s, want %s" % (mf, mark, wmf or "go.mod"), cl
        if "proj" in c and wf.get("o"):
            v = wf["o"]
            wf["o"] = os.path.normpath(os.path.join(cwd, v)) + ("/" if v.endswith("/") else "")
        if x["no-build-output"] and (cmd == "build" or wf.get("c")):
            wf.pop("o", None)
            if not gf.pop("o", None):
                return head + "--no-build-output without effect", cl
        if wf != gf:
            return head + "go reads the flags %s, want %s" % (json.dumps(gf, sort_keys=True), json.dumps(wf, sort_keys=True)), cl
        if c["envf"]:
            cl.add("XGO_FLAGS")
        if wa:
            cl.add("program arguments")
        if wf:
            cl.add("go flags")
        m = self.effects(c, x, d, p, cmd, wp, genv, wcwd)
        for k in x["used"]:
            cl.add("--" + k)
        return (head + m if m else ""), cl

    def xflags(self, c, at):
        x = {"build-flag": [], "trap": [], "used": set(), "no-build-output": False, "strace": False, "strace-dir": "", "race-safe": False,
             "trap-all": False, "trap-stdlib": c["cmd"] == "test", "no-line-directive": False, "unified": False, "log-debug": None}
        for k, ts in c["envf"] + c["items"]:
            if k != "x" or ts == ["--"]:
                continue
            n, eq, v = ts[0][2:].partition("=")
            if not eq and len(ts) > 1:
                v, eq = ts[1], "="
            v = at(v)
            x["used"].add(n)
            on = v in ("", "true", "on", "1")
            if n in ("build-flag", "trap"):
                x[n].append(v)
            elif n in ("strace", "stack-trace"):
                x["strace"] = on
            elif n in ("strace-dir", "stack-trace-dir"):
                x["strace-dir"] = v
            elif n == "xgo-race-safe":
                x["race-safe"] = on
            elif n in ("trap-all", "trap-stdlib", "unified"):
                x[n] = on
            elif n in ("no-build-output", "no-line-directive"):
                x[n] = True
            elif n == "log-debug":
                x[n] = v
        return x

    def effects(self, c, x, d, p, cmd, pkgs, genv, cwd):
        """xgo's own flags have their effect"""
        gen = p + "/.xgo/gen/"
        if (genv.get("XGO_UNIFIEDTEST") == "true") != x["unified"]:
            return "--unified: environment has XGO_UNIFIEDTEST=%s" % genv.get("XGO_UNIFIEDTEST")
        try:
            flags = open(gen + "modules/github.com/xhd2015/xgo/runtime/internal/flags/flags.go").read()
            ov = json.load(open(gen + "overlay.json"))["Replace"]
        except OSError as ex:
            return "not instrumented: %s" % ex
        f = dict(re.findall(r"(?m)^const (\w+) = (.*)$", flags))
        st = x["strace"] and cmd == "test"
        if (f.get("COLLECT_TEST_TRACE") == "true") != st:
            return "traces collected: %s, want %s" % (f.get("COLLECT_TEST_TRACE"), st)
        if st and f.get("COLLECT_TEST_TRACE_DIR") != json.dumps(x["strace-dir"]) and x["strace-dir"]:
            if f.get("COLLECT_TEST_TRACE_DIR", "").strip('"') != os.path.join(cwd, x["strace-dir"]):
                return "traces go to %s, want %s" % (f.get("COLLECT_TEST_TRACE_DIR"), x["strace-dir"])
        if (f.get("XGO_RACE_SAFE") == "true") != x["race-safe"]:
            return "race safe: %s, want %s" % (f.get("XGO_RACE_SAFE"), x["race-safe"])
        main = [v for k, v in ov.items() if k.endswith("/p/sub/s.go")]
        if main:
            t = open(main[0]).read()
            if ("//line" in t) == x["no-line-directive"]:
                return "--no-line-directive %s, but the file has %s" % (x["no-line-directive"], "//line" if "//line" in t else "none")
        ce = gen + "compiler_extra.json"
        ex = set(json.load(open(ce)).get("packages") or {}) if os.path.exists(ce) else set()
        for q in ("strings", "path", "ex.com/dep"):
            w = q in x["trap"] or (q == "ex.com/dep" and (x["trap-all"] or "--mock-rule-include-as-main-module" in str(c) and "ex.com/dep" in str(c)))
            if q == "ex.com/dep" and any("mock-rule-include" in t for k, ts in c["items"] + c["envf"] for t in ts):
                continue
            inst = q in ex or any(k.endswith("/src/%s/%s.go" % (q, q)) or k.endswith("/dep/d.go") and q == "ex.com/dep" for k in ov)
            if inst != w:
                return "package %s is instrumented: %s, want %s" % (q, inst, w)
        if ("net/http" in ex) != x["trap-stdlib"]:
            return "net/http is instrumented: %s, --trap-stdlib is %s" % ("net/http" in ex, x["trap-stdlib"])
        if x["log-debug"] and not any(os.path.exists(os.path.join(q, x["log-debug"])) for q in (cwd, c["cwd"].replace("@", p), p)):
            return "--log-debug: no file %s" % x["log-debug"]
        return ""

    def bad(self):
        n = 0
        for i, a in enumerate(BAD):
            d, p = self.project("bad%d" % i)
            res = self.call(d, p, a, {"out": "", "err": "", "rc": 0, "stdin": ""})
            n += 1
            show = "xgo " + json.dumps(a)
            m = ""
            if res is None:
                m = "does not end"
            else:
                rc, o, e = res
                if rc == 0:
                    m = "is accepted"
                elif not e.strip() and not o.strip():
                    m = "gives no message"
                elif b"goroutine " in e or b"panic:" in e:
                    m = "panics: " + e.decode(errors="replace")[:800]
                elif os.path.exists(d + "/rec/calls"):
                    m = "calls go"
            rmtree(d)
            if m:
                self.ck.violation("bad", show + " " + m, {"args": a})
                return
        self.ck.add_stats({"evaluations": n, "nontrivial": n, "classes": {"bad flags": n}, "samples": [], "rule": "a table of missing and bad values, each an error with a message"})

    def search(self, n, workers):
        ck = self.ck
        if ck.replay:
            rep = json.load(open(ck.replay))
            if "case" in rep:
                m, cl = self.run(rep["case"], "r")
                if m:
                    ck.violation("lines", m, {"case": rep["case"]})
            else:
                self.bad()
            return
        self.bad()
        rng = random.Random(ck.seed * 104729 + 7)
        cases = [Gen(rng).case() for _ in range(n)]
        classes, nt, done, bad = {}, 0, 0, None
        limit = time.time() + ck.scale(200, 700)
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                return i, self.run(cases[i], "c%d" % i)
            for r in ex.map(one, range(n)):
                if r is None:
                    continue
                done += 1
                i, (m, cl) = r
                for k in cl:
                    classes[k] = classes.get(k, 0) + 1
                if len(cl) > 2:
                    nt += 1
                if m and not bad:
                    bad = (cases[i], m)
        ck.add_stats({"evaluations": done, "nontrivial": nt, "classes": classes, "samples": [{"argv": [c["cmd"]] + [t for k, ts in c["items"] for t in ts]} for c in cases[:6]],
                      "rule": "command lines of build, run, test and exec: go's flags in all spellings, xgo's flags, packages and program arguments; non-trivial: at least two kinds of them"})
        if bad:
            c, m = self.shrink(*bad)
            ck.violation("lines", m, {"case": c})

    def shrink(self, c, m):
        # the same failure, not that of another meaning of the shorter line
        kind = lambda m: re.findall(r"[a-zA-Z]+", re.sub(r"(?s)^.*?\n(go is called with [^\n]*\n)?", "", m, count=1))[:3]
        k, t0 = 0, time.time()
        again = True
        while again and time.time() - t0 < 90:
            again = False
            cands = []
            for key in ("items", "envf"):
                for i in range(len(c[key])):
                    if c["cmd"] == "run" and c[key][i][0] == "p":
                        continue
                    cands.append(dict(c, **{key: c[key][:i] + c[key][i + 1:]}))
                    if c["cmd"] != "test" and c[key][i][0] == "t" and len(c[key][i][1]) > 1:
                        for j in range(1, len(c[key][i][1])):
                            ts = c[key][i][1][:j] + c[key][i][1][j + 1:]
                            cands.append(dict(c, **{key: c[key][:i] + [["t", ts]] + c[key][i + 1:]}))
            for key, v in (("out", ""), ("err", ""), ("stdin", ""), ("rc", 0), ("cwd", "@")):
                if c[key] != v and not (key == "cwd"):
                    cands.append(dict(c, **{key: v}))
            for q in cands:
                if "proj" in q and not any("project-dir" in t for kk, ts in q["items"] + q["envf"] for t in ts):
                    q = {a: b for a, b in q.items() if a != "proj"}
                if "C" in q and not any(kk == "C" for kk, ts in q["items"]):
                    q = {a: b for a, b in q.items() if a != "C"}
                k += 1
                m2, cl = self.run(q, "s%d" % k)
                if m2 and kind(m2) == kind(m):
                    c, m, again = q, m2, True
                    break
        return c, m
