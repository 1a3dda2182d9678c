from e2e.prog import gen_funcs, gen_meta, gen_vars, meta
from e2e.prog.check import prog_checks


def main(ck):
    ck.assumptions += ["the names of unnamed and blank parameters are xgo's choice", "function values of generic methods are closures and cannot be intercepted"]
    q = ck.scale

    def part(name, gen, rule, plan):
        return dict(name=name, gen=gen, rule=rule, plan=plan, search=meta.MetaSearch)
    prog_checks(ck, [
        part("declarations", gen_meta.gen, "generated packages (several of a program, dotted and dashed paths, several files) of functions, methods, generics, variables and interfaces; xgo's registry against go/parser and reflect, by every way to look an entry up and by the call itself; non-trivial: at least 8 declarations",
             [("default", [], q(240, 8000), q(240, 400))]),
        part("functions", gen_funcs.gen, "the programs of I01", [("default", [], q(60, 2000), q(60, 250))]),
        part("variables", gen_vars.gen, "the programs of I02", [("default", [], q(60, 2000), q(60, 250))]),
        part("dependency", gen_meta.gen_dep, "packages of a dependency, instrumented by the compiler", [("trap-all", ["--trap-all"], q(160, 4000), q(160, 400))]),
    ])
