"""End-to-end laboratory: build xgo from /repo's working tree, prepare the
instrumented toolchain in a scratch HOME, build and run generated projects."""
import hashlib, json, os, re, shutil, threading
from vlib import REPO, GOROOT, VERIF, VENDIR_STUB, Err, base_env, run, rmtree

GOVERSION = "go1.27.3"


def _walk(d, skip=()):
    out = {}
    for dp, dn, fn in os.walk(d):
        rel = os.path.relpath(dp, d)
        dn[:] = [x for x in dn if os.path.normpath(os.path.join(rel, x)) not in skip]
        for f in fn:
            out[os.path.normpath(os.path.join(rel, f))] = os.path.join(dp, f)
    return out


def embed_replacements():
    """Overlay entries that bring the embedded copies of runtime/, patch/ and
    patches/ in step with their sources. Empty when they are in step."""
    A = REPO + "/cmd/xgo/asset"
    rep = {}
    kinds = set()

    def pair(kind, src, dst):
        if os.path.exists(src):
            a = open(src, "rb").read()
            if os.path.exists(dst) and open(dst, "rb").read() == a:
                return
            rep[dst] = src
            kinds.add(kind)

    have = _walk(A + "/runtime_gen")
    src = _walk(REPO + "/runtime", skip=("test",))
    for f, p in have.items():
        s = {"go.mod.txt": "go.mod"}.get(f, f)
        if s in src:
            pair("runtime", src[s], p)
    for f, p in src.items():
        if f.endswith(".go") and not f.endswith("_test.go") and f not in have and os.path.basename(os.path.dirname(p)) != "testdata":
            rep[A + "/runtime_gen/" + f] = p
            kinds.add("runtime")
    have = _walk(A + "/compiler_patch_gen")
    src = _walk(REPO + "/patch")
    for f, p in have.items():
        s = f
        for c in (f, f[:-4] if f.endswith(".txt") else f):
            if c in src:
                pair("compiler", src[c], p)
                break
    have = _walk(A + "/patches")
    src = _walk(REPO + "/patches")
    for f, p in have.items():
        for c in (f, f[:-4] if f.endswith(".txt") else f):
            if c in src:
                pair("patches", src[c], p)
                break
    return rep, kinds


class Lab:
    """One xgo binary and its prepared toolchain."""

    def __init__(self, ck, name="E", full=False, embed=None, goroot=GOROOT, goversion=GOVERSION, home=None, xgo_only=False, gocmd=False):
        self.ck, self.name, self.full, self.goroot, self.goversion = ck, name, full, goroot, goversion
        # gocmd: with the patched go command as well (unified tests, cache keys)
        self.gocmd = gocmd
        self.dir = os.path.join(ck.scratch, "lab" + name)
        os.makedirs(self.dir)
        self.home = home or os.path.join(self.dir, "home")
        os.makedirs(self.home, exist_ok=True)
        self.xgo = os.path.join(self.dir, "xgo")
        self.build(embed or {})
        self.ready = False
        if not xgo_only:
            self.setup()

    def build(self, embed):
        ov = dict(VENDIR_STUB)
        ov.update(embed)
        if not self.full:
            # the compiler is rebuilt (mocks need it); the go command and the
            # precompiled standard library are only rebuilt in full set-ups
            mm = ".".join(self.goversion.split(".")[:2])
            cf = "%s/cmd/xgo/asset/patches/%s/__config__.json" % (REPO, mm)
            if os.path.exists(cf):
                src = embed.get(cf, cf)
                c = json.load(open(src))
                c["generate"] = [g for g in c["generate"] if g["kind"] != "rebuild-stdlib" and (g["kind"] != "rebuild-go" or self.gocmd)]
                for g in c["generate"]:
                    if "cmd" in g:
                        g["cmd"] = [x for x in g["cmd"] if x != "-a"]
                    if g["kind"] in ("rebuild-compiler", "rebuild-go") and "build" in g["cmd"]:
                        i = g["cmd"].index("build") + 1
                        g["cmd"][i:i] = ["-pgo=off", "-gcflags=cmd/...=-l -c=8"]
                f = os.path.join(self.dir, "config.json")
                json.dump(c, open(f, "w"), indent=1)
                ov[cf] = f
        f = os.path.join(self.dir, "overlay.json")
        json.dump({"Replace": ov}, open(f, "w"))
        rc, o, e, s = run(["go", "build", "-overlay", f, "-o", self.xgo, "./cmd/xgo"], cwd=REPO, timeout=300)
        if rc != 0:
            raise Err("xgo does not build: %s %s" % (o, e))
        self.ck.log("built xgo (%s) in %.1fs" % (self.name, s))

    def env(self, **kw):
        e = base_env(HOME=self.home, PATH=self.goroot + "/bin:" + base_env()["PATH"])
        e.update({k: str(v) for k, v in kw.items()})
        return e

    def instrument_dir(self):
        return os.path.join(self.home, ".xgo", "go-instrument", self._sum(self.goroot))

    def _sum(self, p):
        segs = [re.sub(r"[^0-9A-Za-z_.\-]", "", s)[:2] for s in p.split("/")]
        segs = [s for s in segs if s][:8]
        return self.goversion + "_" + "_".join(segs) + "_" + hashlib.md5(p.encode()).hexdigest()[:8]

    def setup(self):
        rc, o, e, s = run([self.xgo, "setup"], cwd=self.dir, env=self.env(GOGC=400), timeout=600)
        self.ck.log("xgo setup (%s): rc=%s %.1fs" % (self.name, rc, s))
        self.setup_output = (rc, o, e)
        if rc is None:
            raise Err("xgo setup does not end: %s %s" % (o[-2000:], e[-2000:]))
        if rc != 0:
            raise SetupFailed("xgo setup fails: rc=%s\n%s%s" % (rc, o[-3000:], e[-3000:]))
        self.igoroot = o.strip().splitlines()[-1]
        self.ready = True

    def cleanup(self):
        d = self.instrument_dir()
        h = hashlib.md5(d.encode()).hexdigest()[:8]
        base = "/tmp/xgo/go-instrument"
        if os.path.isdir(base):
            for x in os.listdir(base):
                if x.endswith("_" + h):
                    rmtree(os.path.join(base, x))
        rmtree(self.dir)

    def run(self, args, cwd, timeout=600, **kw):
        return run([self.xgo] + args, cwd=cwd, env=self.env(**kw), timeout=timeout)


class SetupFailed(Exception):
    pass


def gomod(module, gov="1.18", extra=""):
    return "module %s\n\ngo %s\n\nrequire github.com/xhd2015/xgo/runtime v1.0.40\n\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n%s" % (module, gov, REPO, extra)


def write_tree(d, files):
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as h:
            h.write(t)


def labs(ck, full=False):
    """The variants to test: the tree as embedded, and (only if the embedded
    copies are out of step) the tree with its sources embedded."""
    yield Lab(ck, "E", full=full)
    rep, kinds = embed_replacements()
    if rep:
        ck.log("embedded copies differ from their sources (%s): testing both" % ",".join(sorted(kinds)))
        yield Lab(ck, "S", full=full, embed=rep)
