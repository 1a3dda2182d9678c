import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "a goroutine is started by the go statement (or sync.WaitGroup.Go)"]
    rt.rt_check(ck, "r09", ck.scale(5000, 100000), timeout=ck.scale(400, 800))
