"""What a run leaves behind and what it builds from: generated projects
(layouts, dependency sources, caller overlays, commands, interruptions), the
trees around them before and after, and the output against plain go's."""
import json, os, random, re, shutil, signal, stat, subprocess, time, hashlib, zipfile
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import Err, REPO, GOROOT, base_env, run, rmtree

RT = "github.com/xhd2015/xgo/runtime"
RTV = "v1.2.2"
APP, LIB, RDEP, PDEP = "ex.org/app", "ex.org/lib", "ex.org/rdep", "ex.org/pdep"
STDS = {"strings": "strings.ToLower(\"%s\")", "path": "path.Clean(\"%s\")", "html": "html.EscapeString(\"%s\")"}


def variant(r, names, tag, plain=False):
    v = {"f": names, "tag": tag, "init": r.random() < .3, "std": r.choice((None, None, "strings", "path", "html")),
         "lead": r.choice((0, 0, 1, 3)), "var": r.random() < .4, "kind": "ok", "crlf": r.random() < .07, "nonl": r.random() < .1,
         "loop": r.random() < .3}
    if not plain:
        v["kind"] = r.choice(("ok", "ok", "ok", "ok", "ignored", "garbage", "empty"))
    return v


def render_go(pkg, name, v, module_root=None):
    """name: stem unique in the case, f: suffixes of functions it declares."""
    if v["kind"] == "garbage":
        return "package %s\n\nfunc broken( {\n" % pkg
    if v["kind"] == "empty":
        return "package %s\n" % pkg
    o = ["// comment"] * v["lead"]
    if v["kind"] == "ignored":
        o += ["//go:build ignore", ""]
    o += ["package %s" % pkg, ""]
    imps = ["runtime", "strconv"]
    if v["std"]:
        imps.append(v["std"])
    o += ["import ("] + ["\t\"%s\"" % i for i in sorted(imps)] + [")", ""]
    if v["var"]:
        o.append("var V%s = \"var %s\"" % (name, v["tag"]))
    if v["init"]:
        o += ["func init() { println(\"INIT\", \"%s %s\") }" % (name, v["tag"]), ""]
    for i, f in enumerate(v["f"]):
        val = "\"%s\"" % v["tag"] if not v["std"] else STDS[v["std"]] % v["tag"]
        if v["loop"]:
            # what it gives depends on the language version of the module
            o += ["func loop%s%s() string {" % (name, f), "\tvar fs []func() int", "\tfor i := 0; i < 3; i++ {", "\t\tfs = append(fs, func() int { return i })", "\t}",
                  "\treturn strconv.Itoa(fs[0]())", "}", ""]
            val += " + loop%s%s()" % (name, f)
        o += ["func F%s%s() string {" % (name, f), "\t_, _, line, _ := runtime.Caller(0)", "\treturn %s + \":\" + strconv.Itoa(line)" % val, "}", ""]
    t = "\n".join(o)
    if v["crlf"]:
        t = t.replace("\n", "\r\n")
    return t.rstrip("\n") if v["nonl"] else t


def live(v):
    return v is not None and v != "del" and v["kind"] == "ok"


def effective(f):
    return f["ov"] if f["ov"] is not None else f["disk"]


def gen(seed):
    r = random.Random(seed)
    c = {"seed": seed}
    c["layout"] = r.choice(("plain", "plain", "plain", "vendor", "work", "modfile"))
    c["rt"] = r.choice(("replace", "replace", "proxy", "none"))
    c["main"] = r.choice(("", "", "cmd/app"))
    c["deps"] = [d for d in ("rdep", "pdep", "inner", "lib") if r.random() < .4 and (d != "lib" or c["layout"] == "work")]
    if c["layout"] == "work" and "lib" not in c["deps"]:
        c["deps"].append("lib")
    c["gov"] = r.choice(("1.18", "1.18", "1.21", "1.24", "1.27"))
    c["mod"] = r.choice((None, None, None, "mod", "readonly")) if c["layout"] != "work" else None
    if c["layout"] == "vendor":
        c["mod"] = r.choice((None, None, "vendor"))
    c["git"] = r.choice((None, None, None, "top", "parent"))
    c["gitignore"] = r.choice((None, "*.o\n", "*.o", "/.xgo/gen\n"))
    c["cwd"] = r.choice(("root", "root", "root", "sub", "link", "link", "project-dir", "project-dir-rel", "project-dir-link"))
    c["cmd"] = r.choice(("run", "run", "run", "build", "build-default", "test", "testc"))
    c["strace"] = r.random() < .12
    c["trim"] = r.random() < .1
    c["fail"] = r.choice((None, None, None, None, None, "compile", "pkg", "exit", "badflag", "kill", "term"))
    c["at"] = round(r.random() ** 2 * 1.5, 3)
    hasov = r.random() < .75
    pkgs = [("app", d) for d in ["", "a", "b/c"] if d or c["main"]] + [(d, "") for d in c["deps"]]
    c["files"] = []
    n = 0
    for m, d in pkgs:
        for k in range(r.choice((1, 1, 2, 3))):
            f = {"m": m, "d": d, "n": str(n), "disk": variant(r, [""], "disk%d" % n, plain=True), "ov": None}
            n += 1
            if m != "pdep" and hasov:
                x = r.random()
                if x < .35:
                    f["ov"] = variant(r, r.choice(([""], [""], ["", "x"], ["y"])), "ov%s" % f["n"])
                    if r.random() < .25 and (k or m == "app"):
                        f["disk"]["kind"] = r.choice(("garbage", "ignored", "empty"))
                elif x < .45:
                    f["ov"] = "del"
                    if r.random() < .4 and (k or m == "app"):
                        f["disk"]["kind"] = "garbage"
                elif x < .6 and (k or m == "app"):
                    f["disk"] = None
                    f["ov"] = variant(r, [""], "new%s" % f["n"])
            f["key"] = r.choice(("abs", "abs", "rel", "unclean"))
            f["val"] = r.choice(("out", "out", "outrel", "in", "outlink"))
            c["files"].append(f)
    # a chain: the replacement of one file is another file that is replaced
    # (or deleted) itself, whose text on the disk counts
    c["chain"] = hasov and r.random() < .15
    # what is built must build: no garbage or empty-package effective text
    for f in c["files"]:
        v = effective(f)
        if live(v) or v == "del" or v is None:
            continue
        if v["kind"] == "garbage":
            v["kind"] = "ok"
    for m, d in pkgs:
        fs = [f for f in c["files"] if (f["m"], f["d"]) == (m, d)]
        if not any(live(effective(f)) for f in fs):
            f = fs[0]
            if f["ov"] is None or f["ov"] == "del":
                f["ov"] = None
                f["disk"]["kind"] = "ok"
            else:
                f["ov"]["kind"] = "ok"
    c["mainov"] = hasov and r.random() < .4
    c["testov"] = hasov and r.random() < .3
    c["fork"] = "pdep" in c["deps"] and r.random() < .4
    c["via"] = r.choice(("args", "args", "args", "args", "goflags"))
    mocks = []
    if c["rt"] != "none":
        for f in c["files"]:
            v = effective(f)
            if live(v):
                for s in v["f"]:
                    if r.random() < .5:
                        mocks.append(["F" + f["n"] + s, f["n"]])
                if v["var"] and r.random() < .5:
                    mocks.append(["V" + f["n"], f["n"]])
    c["mocks"] = mocks
    return c


def modpath(m):
    return {"app": APP, "lib": LIB, "rdep": RDEP, "pdep": PDEP, "inner": APP + "/inner"}[m]


def pkgpath(f):
    return modpath(f["m"]) + ("/" + f["d"] if f["d"] else "")


def pkgname(m, d):
    return {"app": "app"}.get(m, m) if not d else d.split("/")[-1]


class Files:
    def __init__(self, ck):
        self.ck = ck
        self.L = lab.Lab(ck, "E", gocmd=True)
        self.prepare()

    def prepare(self):
        self.root = os.path.join(self.L.dir, "files")
        self.proxy = os.path.join(self.root, "proxy")
        self.modcache = os.path.join(self.root, "modcache")
        os.makedirs(self.proxy)
        rt = {}
        for dp, dn, fn in os.walk(REPO + "/runtime"):
            rel = os.path.relpath(dp, REPO + "/runtime")
            if rel.split("/")[0] == "test" or "/.xgo" in dp:
                dn[:] = []
                continue
            for f in fn:
                if f == "go.mod" and rel != ".":
                    continue
                rt[os.path.normpath(os.path.join(rel, f))] = open(os.path.join(dp, f), "rb").read()
        self.publish(RT, RTV, rt)
        self.rtsrc = os.path.join(self.root, "rtsrc")
        self.rtfiles = rt
        # fixed text of the published dependency
        r = random.Random(5)
        self.pdep = [variant(r, [""], "pub%d" % i, plain=True) for i in range(3)]
        self.publish(PDEP, "v1.3.0", dict({"go.mod": b"module ex.org/pdep\n\ngo 1.18\n"},
                     **{"f%d.go" % i: render_go("pdep", "p%d" % i, v).encode() for i, v in enumerate(self.pdep)}))
        self.publish("ex.org/fork", "v1.0.1", dict({"go.mod": b"module ex.org/pdep\n\ngo 1.18\n"},
                     **{"f%d.go" % i: render_go("pdep", "p%d" % i, dict(v, tag="fork%d" % i)).encode() for i, v in enumerate(self.pdep)}))
        d = os.path.join(self.root, "sum")
        self.solo = False
        lab.write_tree(d, {"go.mod": "module s\n\ngo 1.18\n\nrequire (\n\t%s %s\n\t%s v1.3.0\n)\n\nreplace %s => ex.org/fork v1.0.1\n" % (RT, RTV, PDEP, PDEP), "../sum2/go.mod": "module s\n\ngo 1.18\n\nrequire (\n\t%s %s\n\t%s v1.3.0\n)\n" % (RT, RTV, PDEP)})
        o = self.restore()
        self.sums = {}
        for m in json.JSONDecoder().decode("[" + o.strip().replace("}\n{", "},\n{") + "]"):
            self.sums[m["Path"]] = "%s %s %s\n%s %s/go.mod %s\n" % (m["Path"], m["Version"], m["Sum"], m["Path"], m["Version"], m["GoModSum"])

    def restore(self):
        """The module cache and the checked-out runtime, fresh."""
        rmtree(self.modcache)
        rmtree(self.rtsrc)
        for f, t in self.rtfiles.items():
            p = os.path.join(self.rtsrc, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "wb").write(t)
        o = ""
        for x in ("sum", "sum2"):
            rc, o1, e, s = run(["go", "mod", "download", "-json"], cwd=os.path.join(self.root, x), env=self.env(), timeout=120)
            if rc != 0:
                raise Err("go mod download: %s %s" % (o, e))
            o += o1
        self.shared = self.fingerprint()
        return o

    def publish(self, mod, v, files):
        d = os.path.join(self.proxy, mod, "@v")
        os.makedirs(d)
        open(d + "/list", "w").write(v + "\n")
        open(d + "/%s.info" % v, "w").write(json.dumps({"Version": v, "Time": "2024-01-01T00:00:00Z"}))
        open(d + "/%s.mod" % v, "wb").write(files["go.mod"])
        with zipfile.ZipFile(d + "/%s.zip" % v, "w") as z:
            for f, t in sorted(files.items()):
                z.writestr("%s@%s/%s" % (mod, v, f), t)

    def env(self, **kw):
        return self.L.env(GOPROXY="file://" + self.proxy, GOMODCACHE=self.modcache, GOFLAGS="", **kw)

    def fingerprint(self):
        """Listing of what every case shares: the Go installation and the module cache."""
        o = {}
        for k, d in (("the Go installation", GOROOT), ("the module cache", self.modcache), ("the checked-out runtime", self.rtsrc)):
            p = subprocess.run(["find", d, "-name", "lock", "-o", "-path", d + "/cache", "-prune", "-o", "-type", "f", "-printf", "%P %s %m %T@\n", "-o", "-printf", "%P %m %l\n"], capture_output=True)
            o[k] = set(p.stdout.split(b"\n"))
        return o

    # ---------------------------------------------------------------- files

    def names(self, c):
        """[(package path, package name, function or variable)] the probe prints."""
        o = []
        for f in c["files"]:
            if f["m"] == "pdep":
                continue
            v = effective(f)
            if live(v):
                o += [(pkgpath(f), pkgname(f["m"], f["d"]), "F" + f["n"] + s) for s in v["f"]]
                if v["var"]:
                    o.append((pkgpath(f), pkgname(f["m"], f["d"]), "V" + f["n"]))
        if "pdep" in c["deps"]:
            for i, v in enumerate(self.pdep):
                o.append((PDEP, "pdep", "Fp%d" % i))
        return o

    def main_src(self, c, tag):
        ns = self.names(c)
        imps = sorted({(p, n) for p, n, _ in ns})
        o = ["package main", "", "import (", "\t\"fmt\"", "\t\"os\""]
        mocks = [m for m in c["mocks"]]
        if c["rt"] != "none":
            o.append("\t\"%s/mock\"" % RT)
        o += ["\t%s \"%s\"" % (n, p) for p, n in imps] + [")", "", "func probe() {"]
        o.append("\tfmt.Println(\"MAIN %s\", own())" % tag)
        byname = {}
        for p, n, x in ns:
            byname[x] = n
            o.append("\tfmt.Println(\"CALL %s.%s\", %s.%s%s)" % (p, x, n, x, "()" if x[0] == "F" else ""))
        o += ["\tvar fs []func() int", "\tfor i := 0; i < 3; i++ {", "\t\tfs = append(fs, func() int { return i })", "\t}", "\tfmt.Println(\"LANG\", fs[0](), nilPanic())"]
        o += ["\tif os.Getenv(\"PV_MOCK\") == \"\" {", "\t\treturn", "\t}"]
        if c["rt"] != "none":
            o += ["\tfunc() {", "\t\tdefer mock.Patch(own, func() string { return \"mocked\" })()", "\t\tfmt.Println(\"MOCK own\", own())", "\t}()"]
            for x, _ in mocks:
                if x not in byname:
                    continue
                q = byname[x] + "." + x
                if x[0] == "F":
                    o += ["\tfunc() {", "\t\tdefer mock.Patch(%s, func() string { return \"mocked\" })()" % q, "\t\tfmt.Println(\"MOCK %s\", %s())" % (x, q), "\t}()"]
                else:
                    o += ["\tfunc() {", "\t\tdefer mock.Patch(&%s, func() string { return \"mocked\" })()" % q, "\t\tfmt.Println(\"MOCK %s\", %s)" % (x, q), "\t}()"]
        o += ["}", "", "func own() string { return \"own %s\" }" % tag, "",
              "func nilPanic() (r string) {", "\tdefer func() {", "\t\tr = fmt.Sprintf(\"%T\", recover())", "\t}()", "\tpanic(nil)", "}", "", "func main() {", "\tprobe()"]
        if c["fail"] == "exit":
            o.append("\tos.Exit(3)")
        if c["fail"] == "compile":
            o.append("\tundefined()")
        o += ["}", ""]
        return "\n".join(o)

    def test_src(self, c, tag):
        return "package main\n\nimport \"testing\"\n\nfunc TestProbe(t *testing.T) {\n\tprintln(\"TEST\", \"%s\")\n\tprobe()\n%s}\n" % (tag, "\tt.Fail()\n" if c["fail"] == "exit" else "")

    def materialise(self, c, d):
        """Write the case to d; returns what is needed to run it."""
        files, ov = {}, {}
        proj = "ws/app" if c["layout"] == "work" else "proj"
        mdirs = {"app": proj, "lib": "ws/lib", "rdep": "rdep", "inner": proj + "/inner"}
        vend = c["layout"] == "vendor"
        rtd = self.rtsrc
        req, rep, sums = [], [], ""
        if c["rt"] != "none":
            req.append("%s %s" % (RT, RTV))
            if c["rt"] == "replace":
                rep.append("%s => %s" % (RT, rtd))
            else:
                sums += self.sums[RT]
        for x in c["deps"]:
            if x == "lib":
                continue
            req.append("%s %s" % (modpath(x), "v1.3.0" if x == "pdep" else "v0.1.0"))
            if x == "rdep":
                rep.append("%s => ../rdep" % RDEP if c["layout"] != "work" else "%s => ../../rdep" % RDEP)
            elif x == "inner":
                rep.append("%s => ./inner" % modpath(x))
            else:
                sums += self.sums["ex.org/fork" if c["fork"] else PDEP]
                if c["fork"]:
                    rep.append("%s%s => ex.org/fork v1.0.1" % (PDEP, " v1.3.0" if c["seed"] % 3 == 0 else ""))
        gomod = "module %s\n\ngo %s\n" % (APP, c["gov"])
        blk = lambda k, l: ("\n%s (\n%s)\n" % (k, "".join("\t%s\n" % x for x in sorted(l)))) if l else ""
        full = gomod + blk("require", req) + blk("replace", rep)
        if c["fork"] and c["layout"] == "work":
            sums += self.sums[PDEP].splitlines()[1] + "\n"
        if c["layout"] == "modfile":
            files[proj + "/go.mod"] = gomod
            files[proj + "/alt/go.other.mod"] = full
            if sums:
                files[proj + "/alt/go.other.sum"] = sums
        else:
            files[proj + "/go.mod"] = full
            if sums:
                files[proj + "/go.sum"] = sums
        for x in c["deps"]:
            if x != "pdep":
                files[mdirs[x] + "/go.mod"] = "module %s\n\ngo %s\n" % (modpath(x), c["gov"] if c["seed"] % 2 else "1.18")
        if c["layout"] == "work":
            files["ws/go.work"] = "go %s\n\nuse (\n\t./app\n\t./lib\n)\n" % c["gov"]
        files[proj + "/data.txt"] = "data"
        files["ov/readme.txt"] = "x"
        if c["gitignore"] and c["git"]:
            files[("" if c["git"] == "parent" else proj + "/") + ".gitignore"] = c["gitignore"]
        mainrel = proj + ("/" + c["main"] if c["main"] else "") + "/"
        bogus = "package main\n\nfunc main() { println(\"DISK\") }\n\nfunc probe() {}\n"
        add = []  # (disk path relative to d, replacement text or None, key form, value form)
        if c["mainov"]:
            files[mainrel + "main.go"] = bogus
            add.append((mainrel + "main.go", self.main_src(c, "ov"), "abs", "out"))
        else:
            files[mainrel + "main.go"] = self.main_src(c, "disk")
        if c["testov"]:
            if c["seed"] % 2:
                files[mainrel + "main_test.go"] = "package main\n\nthis is not go\n"
            add.append((mainrel + "main_test.go", self.test_src(c, "ov"), "abs", "in"))
        else:
            files[mainrel + "main_test.go"] = self.test_src(c, "disk")
        for f in c["files"]:
            if f["m"] == "pdep":
                continue
            rel = mdirs[f["m"]] + "/" + (f["d"] + "/" if f["d"] else "") + "f%s.go" % f["n"]
            if f["disk"] is not None:
                files[rel] = render_go(pkgname(f["m"], f["d"]), f["n"], f["disk"])
            elif c["cmd"] in ("test", "testc") or c["cwd"] == "sub":
                files[os.path.dirname(rel) + "/keep.txt"] = ""  # vet runs in the directory
            if f["ov"] is not None:
                if vend and f["m"] in ("rdep", "inner"):
                    rel = proj + "/vendor/" + modpath(f["m"]) + "/f%s.go" % f["n"]
                add.append((rel, None if f["ov"] == "del" else render_go(pkgname(f["m"], f["d"]), f["n"], f["ov"]), f["key"], f["val"]))
        lab.write_tree(d, files)
        os.symlink(os.path.join(d, proj.split("/")[0]), os.path.join(d, "link"))
        os.makedirs(d + "/tmp")
        absproj = os.path.join(d, proj)
        linked = os.path.join(d, "link", *proj.split("/")[1:])
        if c["git"]:
            run(["git", "init", "-q", absproj if c["git"] == "top" else d], env=base_env(HOME=d + "/tmp"), timeout=60)
        # where go runs
        gocwd = {"root": absproj, "link": linked, "sub": absproj + "/a"}.get(c["cwd"], absproj)
        mf = ["-modfile", absproj + "/alt/go.other.mod"] if c["layout"] == "modfile" else []
        if vend:
            # vendor what the effective files import
            eff = [(rel, x) for rel, x, _, _ in add if "/vendor/" not in rel]
            for rel, x in eff:
                if x is not None:
                    lab.write_tree(d, {rel: x})
                elif os.path.exists(d + "/" + rel):
                    os.remove(d + "/" + rel)
            rc, o, e, s = run(["go", "mod", "vendor"], cwd=absproj, env=self.env(), timeout=120)
            if rc != 0:
                raise Err("go mod vendor: %s" % e)
            for rel, x in eff:
                if rel in files:
                    lab.write_tree(d, {rel: files[rel]})
                else:
                    os.remove(d + "/" + rel)
                    if not os.listdir(d + "/" + os.path.dirname(rel)):
                        os.rmdir(d + "/" + os.path.dirname(rel))
        replace, n = {}, 0
        os.makedirs(d + "/ov2")
        os.symlink(d + "/ov2", d + "/ovlink")
        for rel, text, key, val in add:
            n += 1
            # go takes the spelling of the directory it runs in, that of $PWD;
            # as with go -C, the one of --project-dir is not used
            p = os.path.join(d, rel)
            base = gocwd
            if c["cwd"] == "link":
                p = p.replace(d + "/" + proj.split("/")[0] + "/", d + "/link/", 1)
            k = {"abs": p, "rel": os.path.relpath(p, base), "unclean": os.path.dirname(p) + "/./x/../" + os.path.basename(p)}[key]
            if text is None:
                replace[k] = ""
                continue
            t = {"out": d + "/ov2/r%d.txt" % n, "outrel": d + "/ov2/r%d.go" % n, "in": absproj + "/data_r%d.txt" % n, "outlink": d + "/ov2/r%d" % n}[val]
            lab.write_tree("/", {t: text})
            replace[k] = {"outrel": os.path.relpath(t, os.path.realpath(gocwd)), "outlink": t.replace("/ov2/", "/ovlink/")}.get(val, t)
            if c["cwd"] == "link" and val == "outrel":
                replace[k] = t
        ks = sorted(k for k in replace if not k.endswith("main.go") and not k.endswith("_test.go"))
        if c["chain"] and len(ks) > 1:
            # the text of the replacement goes to the disk file that another key replaces
            for k1 in ks:
                for k2 in ks:
                    p2 = os.path.normpath(os.path.join(gocwd, k2))
                    if k1 != k2 and replace[k1] and not os.path.exists(p2) and os.path.isdir(os.path.dirname(p2)):
                        os.rename(os.path.join(gocwd, replace[k1]), p2)
                        replace[k1] = k2
                        break
                else:
                    continue
                break
        flags = []
        if replace:
            with open(d + "/ov/overlay.json", "w") as h:
                json.dump({"Replace": replace}, h)
            flags += ["-overlay", d + "/ov/overlay.json"]
        if c["mod"]:
            flags.append("-mod=" + c["mod"])
        flags += mf
        if c["trim"]:
            flags.append("-trimpath")
        goflags = ""
        if c["via"] == "goflags":
            goflags = " ".join(("-modfile=" + f) if flags[i - 1] == "-modfile" else ("-overlay=" + f) if flags[i - 1] == "-overlay" else f
                               for i, f in enumerate(flags) if f not in ("-modfile", "-overlay"))
            flags = []
        pk = APP + ("/" + c["main"] if c["main"] else "")
        if c["fail"] == "pkg":
            pk += "/nosuch"
        cwd, own = gocwd, []
        if c["cwd"] == "project-dir":
            cwd, own = d + "/tmp", ["--project-dir", absproj]
        elif c["cwd"] == "project-dir-link":
            cwd, own = d + "/tmp", ["--project-dir", linked]
        elif c["cwd"] == "project-dir-rel":
            cwd, own = d, ["--project-dir", proj]
        if c["fail"] == "badflag":
            flags = ["-nosuchflag"] + flags
        if c["strace"] and c["rt"] != "none":
            own += ["--strace"] if c["cmd"] in ("test",) else []
            if c["cmd"] == "test":
                own += ["--strace-dir", d + "/out/traces"]
        return {"proj": absproj, "cwd": cwd, "gocwd": gocwd, "flags": flags, "own": own, "pkg": pk, "replace": replace, "goflags": goflags}

    def snapshot(self, d, proj):
        o = {}
        for dp, dn, fn in os.walk(d):
            rel = os.path.relpath(dp, d)
            if dp == proj:
                dn[:] = [x for x in dn if x != ".xgo"]
            if dp == d:
                dn[:] = [x for x in dn if x not in ("out", "tmp")]
            if ".git" in dn:
                dn.remove(".git")
            for x in fn + dn:
                p = os.path.join(dp, x)
                st = os.lstat(p)
                k = os.path.normpath(os.path.join(rel, x))
                if stat.S_ISLNK(st.st_mode):
                    o[k] = "link " + os.readlink(p)
                elif stat.S_ISDIR(st.st_mode):
                    o[k] = "dir %o" % st.st_mode
                else:
                    o[k] = "%o %s" % (st.st_mode, hashlib.sha1(open(p, "rb").read()).hexdigest())
        return o

    # ---------------------------------------------------------------- running

    def command(self, c, w, d, own=True):
        out = d + "/out/bin"
        fl = (w["own"] if own else []) + w["flags"]
        if c["cmd"] == "run":
            return ["run"] + fl + [w["pkg"]]
        if c["cmd"] == "build":
            return ["build"] + fl + ["-o", out, w["pkg"]]
        if c["cmd"] == "build-default":
            return ["build"] + fl + [w["pkg"]]
        if c["cmd"] == "testc":
            return ["test", "-c"] + fl + ["-o", out, w["pkg"]]
        return ["test", "-v", "-count=1"] + fl + [w["pkg"]]

    def artifact(self, c, w, d):
        if c["cmd"] == "build-default":
            return w["gocwd"] + "/" + os.path.basename(w["pkg"])
        return d + "/out/bin"

    @staticmethod
    def lines(t):
        return [re.sub(r" \(\d+\.\d+s\)|\t\d+\.\d+s", "", l) for l in t.splitlines() if re.match(r"MAIN|CALL|MOCK|INIT|TEST|---|FAIL|ok|PASS|DISK|=== ", l)]

    def execute(self, c, w, d, exe, args, cwd, env):
        """(rc, stdout, stderr) of the command and of what it built"""
        os.makedirs(d + "/out", exist_ok=True)
        rc, o, e, s = run([exe] + args, cwd=cwd, env=env, timeout=300)
        if rc is None:
            raise Err("%s %s does not end" % (exe, args))
        if rc == 0 and c["cmd"] in ("build", "build-default", "testc"):
            a = self.artifact(c, w, d)
            if not os.path.exists(a):
                return -1, "", "%s was not written" % a
            rc, o, e, s = run([a] + (["-test.v"] if c["cmd"] == "testc" else []), cwd=w["gocwd"], env=env, timeout=60)
            os.remove(a)
        return rc, o, e

    def run(self, c, name):
        d = os.path.join(self.root, name)
        try:
            os.makedirs(d)
            return self.run_in(c, d)
        finally:
            rmtree(d)

    def run_in(self, c, d):
        if self.solo and self.fingerprint() != self.shared:
            self.restore()
        w = self.materialise(c, d)
        cl = {"layout " + c["layout"]: 1, "runtime " + c["rt"]: 1, "command " + c["cmd"]: 1, "directory " + c["cwd"]: 1}
        for f in c["files"]:
            if f["m"] != "pdep" and f["ov"] is not None:
                k = "deletion" if f["ov"] == "del" else "addition" if f["disk"] is None else "replacement"
                cl["overlay " + k] = cl.get("overlay " + k, 0) + 1
        if c["fail"]:
            cl["end " + c["fail"]] = 1
        env = dict(self.env(PWD=w["cwd"]), GOFLAGS=w["goflags"])
        genv = dict(self.env(PWD=w["gocwd"]), GOFLAGS=w["goflags"])
        args = self.command(c, w, d)
        cov = {k: (v if not v else v) for k, v in w["replace"].items()}
        what = ("in %s: %sxgo %s" % (w["cwd"], "GOFLAGS='%s' " % w["goflags"] if w["goflags"] else "", " ".join(args)) + ("\noverlay %s" % json.dumps(cov) if cov else "") + "\nlayout %s, runtime %s" % (c["layout"], c["rt"])).replace(d, "@")
        before = self.snapshot(d, w["proj"])
        # plain go with the same files
        grc, go_, ge = self.execute(c, w, d, GOROOT + "/bin/go", self.command(c, w, d, False), w["gocwd"], genv)
        after = self.snapshot(d, w["proj"])
        if after != before:
            raise Err("plain go changes the project: %s %s" % (what, self.diff(before, after)))
        if c["fail"] in (None, "kill", "term") and grc != 0:
            raise Err("plain go fails: %s\n%s" % (what, (go_ + ge)[-3000:]))
        if c["fail"] in ("kill", "term"):
            os.makedirs(d + "/out", exist_ok=True)
            p = subprocess.Popen([self.L.xgo] + args, cwd=w["cwd"], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
            time.sleep(c["at"])
            try:
                os.killpg(p.pid, signal.SIGKILL if c["fail"] == "kill" else signal.SIGTERM)
            except ProcessLookupError:
                pass
            p.wait()
            a = self.artifact(c, w, d)
            if os.path.lexists(a) and c["cmd"] in ("build", "build-default", "testc"):
                os.remove(a)
            m = self.trees(c, d, w, before, what + " interrupted after %ss" % c["at"])
            if m:
                return m, cl
        rc, o, e = self.execute(c, w, d, self.L.xgo, args, w["cwd"], env)
        m = self.trees(c, d, w, before, what)
        if m:
            return m, cl
        if (rc == 0) != (grc == 0):
            return "%s\nends with %s, go with %s:\n%s" % (what, rc, grc, (o + e).replace(d, "@")[-2500:]), cl
        if c["fail"] in ("compile", "pkg", "badflag"):
            return "", cl
        x, y = self.lines(o + e), self.lines(go_ + ge)
        if sorted(x) != sorted(y) or self.lines(o) != self.lines(go_):
            return "%s\nprints what go does not:\n%s" % (what, self.cmp(x, y)), cl
        if c["rt"] == "none":
            return "", cl
        rc, o, e = self.execute(c, w, d, self.L.xgo, args, w["cwd"], dict(env, PV_MOCK="1"))
        m = self.trees(c, d, w, before, what)
        if m:
            return m, cl
        got = [l for l in self.lines(o) if l.startswith("MOCK")]
        want = ["MOCK own mocked"] + ["MOCK %s mocked" % x for x, _ in c["mocks"] if x in {n for _, _, n in self.names(c)}]
        cl["mocks of overlaid text"] = sum(1 for _, n in c["mocks"] if any(f["n"] == n and f["ov"] is not None for f in c["files"]))
        if got != want:
            return "%s\nPV_MOCK=1: the mocks do not apply:\n%s\n%s" % (what, self.cmp(got, want), e.replace(d, "@")[-1500:]), cl
        return "", cl

    @staticmethod
    def cmp(x, y):
        o = ["xgo: " + l for l in x if l not in y] + ["go/expected: " + l for l in y if l not in x]
        return "\n".join(o[:12]) or "another order: %s\n%s" % (x[:20], y[:20])

    @staticmethod
    def diff(a, b):
        o = []
        for k in sorted(set(a) | set(b)):
            if a.get(k) != b.get(k):
                o.append("%s: %s" % (k, "removed" if k not in b else "created" if k not in a else "changed"))
        return "; ".join(o[:8])

    def trees(self, c, d, w, before, what):
        after = self.snapshot(d, w["proj"])
        gi = (os.path.relpath(w["proj"], d) + "/" if c["git"] == "top" else "") + ".gitignore"
        if c["git"]:
            # the one documented exception: the line that ignores xgo's directory
            old = (c["gitignore"] or "")
            p = os.path.join(d, gi)
            if os.path.exists(p):
                t = open(p).read()
                if t.splitlines() not in (old.splitlines(), old.splitlines() + ["**/.xgo/gen"]):
                    return "%s\n.gitignore was %r and is %r" % (what, old, t)
                after.pop(gi, None)
            elif gi in before:
                return "%s\nremoves .gitignore" % what
            before = {k: v for k, v in before.items() if k != gi}
        if after != before:
            return "%s\nleaves the project changed: %s" % (what, self.diff(before, after))
        now = self.fingerprint()
        for k in now:
            if now[k] != self.shared[k]:
                x = sorted(now[k] ^ self.shared[k])[:6]
                return "%s\nchanges %s: %s" % (what, k, x)
        return ""

    # ---------------------------------------------------------------- search

    def shrink(self, c, m):
        t0, k = time.time(), 0
        lim = self.ck.scale(60, 200)
        best = m

        def dup(**kw):
            q = json.loads(json.dumps(c))
            q.update(kw)
            return q
        while time.time() - t0 < lim:
            cands = []
            for key, val in (("fail", None), ("via", "args"), ("chain", False), ("fork", False), ("strace", False), ("trim", False), ("git", None), ("mainov", False), ("testov", False), ("layout", "plain"), ("cwd", "root"), ("cmd", "run"), ("rt", "none"), ("rt", "replace"), ("mod", None), ("gov", "1.18"), ("main", "cmd/app")):
                if c[key] != val and not (key == "layout" and "lib" in c["deps"]) and not (key == "rt" and val == "replace" and c["rt"] == "none"):
                    cands.append(dup(**{key: val}, **({"mocks": []} if (key, val) == ("rt", "none") else {}), **({"mod": None} if key == "layout" else {})))
            for x in c["deps"]:
                if x != "lib" or c["layout"] != "work":
                    cands.append(dup(deps=[y for y in c["deps"] if y != x], files=[f for f in c["files"] if f["m"] != x]))
            for i, f in enumerate(c["files"]):
                same = [g for g in c["files"] if (g["m"], g["d"]) == (f["m"], f["d"]) and g is not f]
                if any(live(effective(g)) for g in same) or (f["m"] == "app" and f["d"]):
                    cands.append(dup(files=c["files"][:i] + c["files"][i + 1:]))
                if f["ov"] is not None and f["disk"] is not None and f["disk"]["kind"] == "ok":
                    q = dup()
                    q["files"][i]["ov"] = None
                    cands.append(q)
                for key, val in (("key", "abs"), ("val", "out")):
                    if f[key] != val and f["ov"] is not None:
                        q = dup()
                        q["files"][i][key] = val
                        cands.append(q)
            if c["mocks"]:
                cands.append(dup(mocks=[]))
            for q in cands:
                k += 1
                try:
                    m2, _ = self.run(q, "s%d" % k)
                except Err:
                    m2 = ""
                if m2:
                    c, best = q, m2
                    break
                if time.time() - t0 > lim:
                    return c, best
            else:
                break
        return c, best

    def search(self, n, workers):
        ck = self.ck
        if ck.replay:
            c = json.load(open(ck.replay))["case"]
            self.solo = True
            m, _ = self.run(c, "r")
            if m:
                ck.violation("files", m, {"case": c})
            return
        limit = time.time() + ck.scale(110, 600)
        tot, nt, classes, bad = 0, 0, {}, None
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                c = gen(ck.seed * 7919 + i)
                return c, self.run(c, "c%d" % i)
            for x in ex.map(one, range(n)):
                if x is None:
                    continue
                c, (m, cl) = x
                tot += 1
                nt += c["layout"] != "plain" or bool(c["fail"]) or any(f["ov"] is not None for f in c["files"])
                for k, v in cl.items():
                    classes[k] = classes.get(k, 0) + v
                if m and not bad:
                    bad = (c, m)
        c = gen(ck.seed * 7919)
        ck.add_stats({"evaluations": tot, "nontrivial": nt, "classes": classes, "samples": [c],
                      "rule": "a project with its dependencies, overlay, command and how it ends, run by go and by xgo; non-trivial: another layout, an overlay, a failure or an interruption"})
        if bad:
            self.solo = True
            if "\nchanges the " in bad[1]:
                # what all cases share has changed: whose doing is it?
                for i in range(tot):
                    c = gen(ck.seed * 7919 + i)
                    m, _ = self.run(c, "o%d" % i)
                    if m:
                        bad = (c, m)
                        break
            c, m = self.shrink(*bad)
            ck.violation("files", m, {"case": c})
