from e2e.prog.gen_funcs import gen_dep as gen
VARIANTS = [("", ["--trap-all"])]
