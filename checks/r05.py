import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "calls made from inside a handler reach the handlers of that function only, not the general interceptors (documented in trap.go)"]
    rt.rt_check(ck, "r05", ck.scale(12000, 300000))
