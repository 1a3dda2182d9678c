from e2e.prog.gen_funcs import gen_pos as gen, view_pos as view, kind_pos as kind
