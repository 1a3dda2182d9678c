import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "value receivers are the same receiver when they are equal"]
    rt.rt_check(ck, "r02", ck.scale(1800, 80000))
