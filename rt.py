"""Checks that run inside a program built with xgo: the module rlab
(/verif/e2e/rt) is copied to scratch, compiled with `xgo test -c` and its
rapid properties are run."""
import json, os, shutil
import lab
from vlib import VERIF, REPO, Err, collect, run, rapid_args, rmtree

RAPID = "pgregory.net/rapid v1.3.0"


def make_project(ck, L, gover="1.26"):
    proj = os.path.join(L.dir, "rlab")
    shutil.copytree(os.path.join(VERIF, "e2e", "rt"), proj)
    vh = os.path.join(L.dir, "vh")
    os.makedirs(vh)
    shutil.copy(os.path.join(VERIF, "harness", "vh", "vh.go"), vh)
    for f in os.listdir(os.path.join(VERIF, "e2e", "vhx")):
        shutil.copy(os.path.join(VERIF, "e2e", "vhx", f), vh)
    open(os.path.join(vh, "go.mod"), "w").write("module verif/vh\n\ngo 1.18\n\nrequire %s\n" % RAPID)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), proj)
    shutil.copy(os.path.join(VERIF, "harness", "go.sum"), vh)
    open(os.path.join(proj, "go.mod"), "w").write(
        "module rlab\n\ngo %s\n\nrequire (\n\t%s\n\tgithub.com/xhd2015/xgo/runtime v1.0.40\n\tverif/vh v0.0.0\n)\n\n"
        "replace (\n\tgithub.com/xhd2015/xgo/runtime => %s/runtime\n\tverif/vh => %s\n)\n" % (gover, RAPID, REPO, vh))
    return proj


def rt_run(ck, L, pkg, checks, timeout=400, args=(), run_re="", race=False, env=None, suffix="", proj=None):
    """Build one test package with xgo and run its properties."""
    proj = proj or make_project(ck, L)
    binp = os.path.join(L.dir, pkg + suffix + ".test")
    rc, o, e, s = L.run(["test", "-c", "-o", binp] + (["-race"] if race else []) + list(args) + ["./" + pkg], cwd=proj, timeout=400)
    ck.log("xgo test -c ./%s (%s): rc=%s %.1fs" % (pkg, L.name, rc, s))
    if rc is None:
        raise Err("xgo test -c ./%s does not end" % pkg)
    if rc != 0:
        raise BuildFailed("xgo test -c ./%s fails: rc=%s\n%s%s" % (pkg, rc, o[-3000:], e[-6000:]))
    out = os.path.join(L.dir, "out-" + pkg + suffix)
    os.makedirs(out)
    known = os.path.join(ck.scratch, "known.json")
    json.dump(sorted(ck.known), open(known, "w"))
    en = L.env(VERIF_OUT=out, VERIF_TIER=ck.tier, VERIF_SEED=ck.seed, VERIF_SCRATCH=ck.scratch, VERIF_KNOWN=known, **(env or {}))
    if ck.replay:
        en["VERIF_REPLAY"] = ck.replay
    cmd = [binp, "-test.timeout=%ds" % (timeout + 60), "-test.run", run_re or "."] + rapid_args(ck, checks)
    rc, o, e, s = run(cmd, cwd=proj, env=en, timeout=timeout)
    ck.log("ran %s (%s): rc=%s %.1fs" % (pkg, L.name, rc, s))
    collect(ck, rc, o, e, out, "-" + L.name + suffix if L.name != "E" else suffix)
    return rc, o, e


class BuildFailed(Err):
    pass


def rt_check(ck, pkg, checks, **kw):
    """The usual check: build and run pkg with every variant."""
    for L in lab.labs(ck):
        try:
            try:
                rt_run(ck, L, pkg, checks, **kw)
            except (BuildFailed, lab.SetupFailed) as ex:
                # the programs here are valid Go that the unchanged tree accepts
                ck.violation("build-" + L.name, str(ex), {"package": pkg})
        finally:
            L.cleanup()
        if ck.violations:
            break
