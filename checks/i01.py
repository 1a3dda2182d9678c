from e2e.prog import gen_funcs
from e2e.prog.check import prog_checks


def main(ck):
    ck.assumptions += ["expressions of the generated programs have no side effects whose order the language leaves open"]
    nt = lambda p, a: a.rc is not None and a.out.count("\n") >= 10
    what = "generated programs of 5-15 functions, methods, generic functions and generic methods of every declaration shape (named, unnamed, blank, variadic and shadowing parameters and results; value, pointer, generic, parenthesised and unnamed receivers; comments, semicolons and line breaks anywhere), with panics, recovers, defers, closures, labels, init functions, exits"
    f, q = gen_funcs.gen, ck.scale
    prog_checks(ck, [
        dict(name="functions", gen=f, nontrivial=nt, rule=what + "; non-trivial: printed at least 10 lines with go",
             plan=[("default", [], q(320, 6000), q(320, 400)), ("trap-all", ["--trap-all"], q(80, 2000), q(80, 250))]),
        dict(name="dependency", gen=gen_funcs.gen_dep, nontrivial=nt, rule="the same in a module the main module depends on, instrumented by the compiler",
             plan=[("dep trap-all", ["--trap-all"], q(120, 3000), q(120, 300))]),
        dict(name="unprepared", gen=f, nontrivial=nt, link=False, rule="the same in a module that does not require xgo's runtime, which xgo adds itself",
             plan=[("runtime added by xgo", [], q(60, 1500), q(60, 250))]),
    ])
