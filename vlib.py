"""Shared driver code of the checks: environment, evidence, replays, and the
end-to-end laboratory (build xgo from /repo, prepare a toolchain in scratch)."""
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
GOROOT = "/opt/veriftools/go1.27.3"
MODCACHE = "/root/go/pkg/mod"


# git ignores this vendored file; without it cmd/xgo does not build
VENDIR_STUB = {REPO + "/cmd/xgo/internal/vendir/golang.org/x/text/collate/tables.go": VERIF + "/overlay/tables_stub.go.txt"}


class Err(Exception):
    """The check could not decide (build error of the harness, timeout...)."""


def base_env(**kw):
    e = {
        "HOME": "/root", "LANG": "C.UTF-8", "TZ": "UTC",
        "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "", "GOSUMDB": "off", "GONOSUMDB": "*",
        "GOCACHE": "/root/.cache/go-build", "GOMODCACHE": MODCACHE, "GOTELEMETRY": "off",
        "TMPDIR": os.environ.get("TMPDIR", "/tmp"),
    }
    e.update({k: str(v) for k, v in kw.items()})
    return e


def run(cmd, cwd=None, env=None, timeout=None, stdin=None):
    """Run a command; returns (rc, stdout, stderr, seconds). rc None = timeout."""
    t0 = time.time()
    p = subprocess.Popen(cmd, cwd=cwd, env=env or base_env(), stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(stdin, timeout=timeout)
        return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t0
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o.decode("utf8", "replace"), e.decode("utf8", "replace"), time.time() - t0


class Check:
    """State of one run of one property's check."""

    def __init__(self, pid, tier, seed, replay=None):
        self.id, self.tier, self.seed, self.replay = pid, tier, seed, replay
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid.lower())
        self.outdir = os.path.join(OUT, pid)
        shutil.rmtree(self.outdir, ignore_errors=True)
        os.makedirs(self.outdir)
        self.evaluations = 0
        self.nontrivial = 0
        self.classes = {}
        self.rules = []
        self.samples = []
        self.assumptions = []
        self.violations = []   # (message, replay path)
        self.known_hit = []
        self.extra = {}
        kf = os.path.join(VERIF, "KNOWN_FINDINGS.json")
        self.known = {}
        if os.path.exists(kf):
            for k in json.load(open(kf))["findings"]:
                if k["property"] == pid:
                    self.known[k["id"]] = k

    @property
    def quick(self):
        return self.tier == "quick"

    def scale(self, quick, thorough):
        return quick if self.quick else thorough

    def log(self, *a):
        print("[%s %6.1fs]" % (self.id, time.time() - self.t0), *a, file=sys.stderr, flush=True)

    def add_stats(self, st):
        self.evaluations += st.get("evaluations", 0)
        self.nontrivial += st.get("nontrivial", 0)
        for k, v in (st.get("classes") or {}).items():
            self.classes[k] = self.classes.get(k, 0) + v
        if st.get("rule") and st["rule"] not in self.rules:
            self.rules.append(st["rule"])
        self.samples += st.get("samples") or []

    def violation(self, name, message, replay):
        path = os.path.join(self.outdir, "replay-%s.json" % name)
        replay = dict(replay)
        replay.update({"property": self.id, "check": name, "seed": self.seed, "tier": self.tier, "message": message})
        with open(path, "w") as f:
            json.dump(replay, f, indent=1)
        self.violations.append((message, path))
        self.log("violation in %s: %s" % (name, message[:3000]))

    def known_finding(self, kid, what):
        """A fixed reproduction of a recorded finding failed. Unlisted: a violation."""
        if kid in self.known:
            self.known_hit.append((kid, what))
            return True
        return False

    def finish(self):
        wall = time.time() - self.t0
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.nontrivial,
            "rule": " | ".join(self.rules),
            "samples": self.samples[:12],
            "classes": self.classes,
        }
        cov.update(self.extra)
        ev = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "exploration",
              "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
              "violations": len(self.violations)}
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for kid, what in self.known_hit:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.id, kid, " ".join(what.split())[:300]))
        for msg, path in self.violations:
            print("VIOLATION property=%s replay=%s" % (self.id, path))
            print("  " + "\n  ".join(msg.splitlines()[:40]))
        sys.stdout.flush()
        return 1 if self.violations else 0

    def cleanup(self):
        rmtree(self.scratch)


def rmtree(d):
    def onerr(f, p, e):
        try:
            os.chmod(os.path.dirname(p), 0o755)
            os.chmod(p, 0o755)
            f(p)
        except Exception:
            pass
    shutil.rmtree(d, onexc=onerr)


# ---------------------------------------------------------------- in process

def go_harness(ck, pkg, checks, run_re="", timeout=600, race=False, overlay=None, env=None, tags=None, vendir=False):
    """Run the rapid tests of /verif/harness/<pkg> against /repo."""
    hd = os.path.join(VERIF, "harness")
    out = tempfile.mkdtemp(prefix="hout", dir=ck.scratch)
    e = base_env(GOFLAGS="-mod=mod", VERIF_OUT=out, VERIF_TIER=ck.tier, VERIF_SEED=ck.seed, VERIF_SCRATCH=ck.scratch)
    known = os.path.join(ck.scratch, "known.json")
    json.dump(sorted(ck.known), open(known, "w"))
    e["VERIF_KNOWN"] = known
    if env:
        e.update(env)
    if ck.replay:
        e["VERIF_REPLAY"] = ck.replay
    # work on copies of go.mod/go.sum so that nothing committed is rewritten
    mf = os.path.join(ck.scratch, "harness.mod")
    txt = open(os.path.join(hd, "go.mod")).read().replace("=> /repo/runtime", "=> %s/runtime" % REPO)
    txt = txt.replace("=> /repo\n", "=> %s\n" % REPO)
    open(mf, "w").write(txt)
    shutil.copy(os.path.join(hd, "go.sum"), os.path.join(ck.scratch, "harness.sum"))
    if vendir:
        overlay = dict(overlay or {}, **VENDIR_STUB)
    if overlay:
        ov = os.path.join(ck.scratch, "harness-overlay.json")
        json.dump({"Replace": overlay}, open(ov, "w"))
        overlay = ov
    binp = os.path.join(ck.scratch, "t.test")
    cmd = ["go", "test", "-c", "-vet=off", "-modfile", mf, "-o", binp]
    if race:
        cmd.append("-race")
    if tags:
        cmd += ["-tags", tags]
    if overlay:
        cmd += ["-overlay", overlay]
    cmd.append(pkg)
    rc, o, er, s = run(cmd, cwd=hd, env=e, timeout=400)
    if rc != 0:
        raise Err("harness %s does not build: rc=%s\n%s%s" % (pkg, rc, o, er))
    ck.log("built harness %s in %.1fs" % (pkg, s))
    return run_harness_binary(ck, binp, ck.scratch, e, out, checks, run_re, timeout)


def rapid_args(ck, checks):
    seed = (ck.seed * 1000003 + 17) & 0x7fffffffffffffff
    if seed == 0:
        seed = 1
    return ["-rapid.seed=%d" % seed, "-rapid.checks=%d" % checks, "-rapid.nofailfile", "-rapid.shrinktime=%s" % ck.scale("20s", "60s")]


def run_harness_binary(ck, binp, cwd, e, out, checks, run_re, timeout):
    cmd = [binp, "-test.timeout=%ds" % (timeout + 60), "-test.run", run_re or "."] + rapid_args(ck, checks)
    rc, o, er, s = run(cmd, cwd=cwd, env=e, timeout=timeout)
    ck.log("ran harness: rc=%s %.1fs" % (rc, s))
    collect(ck, rc, o, er, out)
    return rc, o, er


def collect(ck, rc, o, er, out, name_suffix=""):
    for f in sorted(glob.glob(os.path.join(out, "stats-*.json"))):
        ck.add_stats(json.load(open(f)))
    fails = sorted(glob.glob(os.path.join(out, "fail-*.json")))
    for f in fails:
        d = json.load(open(f))
        kid = d.get("known")
        if kid and ck.known_finding(kid, d["message"]):
            continue
        ck.violation(d["name"] + name_suffix, d["message"], d)
    if rc == 0:
        return
    real = [f for f in fails if not json.load(open(f)).get("known")]
    if real or any(json.load(open(f)).get("known") not in ck.known for f in fails if json.load(open(f)).get("known")):
        return
    curs = sorted(glob.glob(os.path.join(out, "current-*.json")))
    tail = (o[-3000:] + "\n" + er[-6000:])
    if curs:
        d = json.load(open(curs[-1]))
        what = "did not finish in time" if rc is None else "the process died (rc=%s)" % rc
        ck.violation(d["name"] + name_suffix, "%s on this case\n%s" % (what, tail), d)
        return
    raise Err("harness failed without a failing case: rc=%s\n%s" % (rc, tail))
