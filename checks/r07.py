import os
import rt, vlib


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "values whose marshalling does not return, exits the goroutine or overflows the stack in encoding/json itself are outside",
                       "values nested more than 4000 deep may be replaced by an error text; calls nested more than 1000 deep may be shown behind their caller instead of inside"]
    view = os.path.join(ck.scratch, "view")
    os.makedirs(view)
    rt.rt_check(ck, "r07", ck.scale(1600, 60000), timeout=ck.scale(400, 700), env={"VERIF_VIEW": view})
    if not ck.violations or ck.replay:
        vlib.go_harness(ck, "./r07v", ck.scale(1500, 20000), timeout=ck.scale(200, 300), vendir=True, run_re="TestDocuments")
        vlib.go_harness(ck, "./r07v", ck.scale(250, 1000), timeout=ck.scale(200, 300), vendir=True, run_re="TestFiles", env={"VERIF_VIEW": view})
