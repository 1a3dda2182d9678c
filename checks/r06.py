import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "calls that a mock, a filter or an interceptor makes itself are not part of a trace (documented in trap.go); goroutines started by them are"]
    rt.rt_check(ck, "r06", ck.scale(4000, 100000), timeout=ck.scale(400, 800))
