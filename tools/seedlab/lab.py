"""Builds xgo from the current directory (the repository), prepares a toolchain
in a scratch HOME and runs commands in scratch projects. Used by demo.sh."""
import atexit, hashlib, json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.getcwd()
GOROOT = "/opt/veriftools/go1.27.3"
TMP = tempfile.mkdtemp(prefix="seed-demo-")
HOME = TMP + "/home"
os.makedirs(HOME)
XGO = TMP + "/xgo"
ENV = {
    "HOME": HOME, "LANG": "C.UTF-8", "TZ": "UTC", "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off",
    "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "GOFLAGS": "",
    "GOCACHE": "/root/.cache/go-build", "GOMODCACHE": "/root/go/pkg/mod", "GOTELEMETRY": "off", "TMPDIR": TMP,
}


@atexit.register
def _clean():
    subprocess.run(["chmod", "-R", "u+rwX", TMP])
    shutil.rmtree(TMP, ignore_errors=True)
    base = "/tmp/xgo/go-instrument"
    d = HOME + "/.xgo/go-instrument"
    if os.path.isdir(base):
        for x in os.listdir(base):
            for r in INSTR:
                if x.endswith("_" + hashlib.md5(r.encode()).hexdigest()[:8]):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)


INSTR = []


def run(cmd, cwd=TMP, check=False, timeout=250, **env):
    e = dict(ENV)
    e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    o, er = p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    if check and p.returncode != 0:
        print("failed: %s\n%s%s" % (" ".join(cmd), o, er))
        sys.exit(1)
    return p.returncode, o, er


def overlay(extra=None):
    ov = {REPO + "/cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go": HERE + "/tables_stub.go.txt"}
    ov.update(extra or {})
    f = TMP + "/overlay%d.json" % len(os.listdir(TMP))
    json.dump({"Replace": ov}, open(f, "w"))
    return f


def build():
    cf = REPO + "/cmd/xgo/asset/patches/go1.27/__config__.json"
    ov = {}
    if os.path.exists(cf):
        # the compiler is all that needs rebuilding here
        c = json.load(open(cf))
        c["generate"] = [g for g in c["generate"] if g["kind"] not in ("rebuild-stdlib", "rebuild-go")]
        for g in c["generate"]:
            if "cmd" in g:
                g["cmd"] = [x for x in g["cmd"] if x != "-a"]
            if g["kind"] == "rebuild-compiler" and "build" in g["cmd"]:
                i = g["cmd"].index("build") + 1
                g["cmd"][i:i] = ["-pgo=off", "-gcflags=cmd/...=-l -c=8"]
        f = TMP + "/config.json"
        json.dump(c, open(f, "w"), indent=1)
        ov[cf] = f
    run(["go", "build", "-overlay", overlay(ov), "-o", XGO, "./cmd/xgo"], cwd=REPO, check=True)


def setup():
    build()
    run([XGO, "setup"], check=True)
    base = HOME + "/.xgo/go-instrument"
    INSTR.extend(os.path.join(base, x) for x in os.listdir(base))


def project(files, module="demo", extra="", runtime=True):
    d = tempfile.mkdtemp(prefix="proj", dir=TMP)
    gm = "module %s\n\ngo 1.18\n" % module
    if runtime:
        gm += "\nrequire github.com/xhd2015/xgo/runtime v1.0.40\n\nreplace github.com/xhd2015/xgo/runtime => %s/runtime\n" % REPO
    files = dict(files)
    files.setdefault("go.mod", gm + extra)
    for f, t in files.items():
        p = os.path.join(d, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)
    return d


def xgo(args, cwd, **kw):
    return run([XGO] + args, cwd=cwd, **kw)


def expect(what, got, want):
    if got != want:
        print("%s:\n got  %r\n want %r" % (what, got, want))
        sys.exit(1)


def demo_test(src, args=(), files=None):
    """Set up xgo, run one test file with `xgo test`; it must pass."""
    setup()
    f = {"demo_test.go": src}
    f.update(files or {})
    rc, o, e = xgo(["test"] + list(args) + ["./..."], cwd=project(f))
    print(o[-3000:] + e[-3000:])
    sys.exit(0 if rc == 0 else 1)
