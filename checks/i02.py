from e2e.prog import gen_vars
from e2e.prog.check import prog_check


def main(ck):
    ck.assumptions += ["expressions of the generated programs have no side effects, so the order of evaluation that Go leaves open does not show"]
    prog_check(ck, "vars", gen_vars.gen,
               "generated programs of a main package (one or two files) and a sub package that declare, initialise, read, write, address, index, slice, shadow, capture and range over package variables of 30 types; non-trivial: the program ran and printed at least 20 lines with go",
               [("default", [], ck.scale(600, 6000), ck.scale(300, 400)), ("trap-all", ["--trap-all"], ck.scale(100, 1000), ck.scale(100, 250))],
               nontrivial=lambda p, a: a.rc == 0 and a.out.count("\n") >= 20)
