import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup; without -race (inheriting is switched off there, see issue 341)",
                       "a goroutine is started by the go statement (or sync.WaitGroup.Go); coroutines of iter.Pull and timer functions are not considered"]
    rt.rt_check(ck, "r04", ck.scale(2500, 60000), timeout=ck.scale(400, 800))
