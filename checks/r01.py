import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup; mocks installed on the goroutine that calls (and one installed by init)"]
    rt.rt_check(ck, "r01", ck.scale(3000, 60000))
