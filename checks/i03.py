import os
from e2e.prog import cover, errs, gen_funcs
from e2e.prog.check import prog_checks
from e2e.prog.cover import CoverSearch
from e2e.prog.errs import ErrSearch
from vlib import base_env, run, rmtree
import lab

INIT = """package main

import (
	"fmt"
	"runtime"
	"strings"
)

func name() string {
	var pcs [10]uintptr
	n := runtime.Callers(2, pcs[:])
	f, _ := runtime.CallersFrames(pcs[:n]).Next()
	return f.Function[strings.LastIndex(f.Function, "/")+1:]
}

var V = 1

func init() { fmt.Println(name(), V) }

func F() {}

func init() { fmt.Println(name()) }

func main() { F() }
"""


def init_names(ck, L, rep):
    """the numbers that the names of init functions get"""
    if rep and rep.get("check") != "init":
        return
    d = os.path.join(ck.scratch, "init")
    lab.write_tree(d, {"go.mod": lab.gomod("pv", "1.27"), "main.go": INIT.replace("import (", "import (\n\t_ \"github.com/xhd2015/xgo/runtime/trap\"")})
    rc, o, e, s = run(["go", "run", "."], cwd=d, env=base_env(GOFLAGS="-mod=mod"), timeout=300)
    rc2, o2, e2, s2 = L.run(["run", "."], cwd=d, GOFLAGS="-mod=mod")
    rmtree(d)
    ck.add_stats({"evaluations": 1, "nontrivial": 1, "classes": {"init functions": 1}})
    if (rc, o) != (rc2, o2):
        what = "init functions are called %s with go and %s with xgo (exit %s) %s" % (o.split(), o2.split(), rc2, e2[-500:])
        import re
        if re.sub(r"init\.\d+", "init.N", o) == re.sub(r"init\.\d+", "init.N", o2) and ck.known_finding("I03-init-numbers", what):
            return
        ck.violation("init", what, {})


def main(ck):
    ck.assumptions += ["lines reported for a function that is returning while its deferred calls run are the compiler's choice and not compared",
                       "columns are not compared: a line directive without column makes the compiler omit them"]
    q = ck.scale
    prog_checks(ck, [
        dict(name="positions", gen=gen_funcs.gen_pos, view=gen_funcs.view_pos, kind=gen_funcs.kind_pos,
             nontrivial=lambda p, a: a.out.count("\nat ") + a.out.count("  frame") >= 3 or "goroutine [" in gen_funcs.view_pos(a),
             rule="generated programs of functions of every declaration shape and layout that print runtime.Caller, Callers frames and function names, and end in panics: output and complete panic trace compared; non-trivial: at least 3 positions or a panic trace",
             plan=[("positions", [], q(220, 5000), q(220, 300)), ("positions trap-all", ["--trap-all"], q(60, 1500), q(60, 250))]),
        dict(name="errors", gen=errs.gen, search=lambda ck, name, gen, rule: ErrSearch(ck, name, gen, [], rule),
             rule="generated programs with 1-3 planted errors of 18 kinds: every error go reports is reported by xgo for the same file and line with the same text; non-trivial: go reports fewer than 10 errors",
             plan=[("errors", [], q(200, 4000), q(200, 400))]),
        dict(name="coverage", gen=cover.gen, search=lambda ck, name, gen, rule: CoverSearch(ck, name, gen, ["-covermode=count"], True, rule),
             rule="generated programs run by one test with -coverpkg=./...: blocks and counts of the profiles are equal; non-trivial: some block is counted",
             plan=[("coverpkg", [], q(80, 2000), q(80, 250))]),
        dict(name="coverage-each", gen=cover.gen, search=lambda ck, name, gen, rule: CoverSearch(ck, name, gen, ["-covermode=atomic"], False, rule),
             rule="the same, each program tested as a package of its own",
             plan=[("each", [], q(10, 600), q(10, 60))]),
    ], init_names)
