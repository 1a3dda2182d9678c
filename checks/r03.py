import rt


def main(ck):
    ck.assumptions += ["go1.27.3 toolchain prepared by xgo setup",
                       "variables are declared with a type, or initialised from an expression xgo can type"]
    rt.rt_check(ck, "r03", ck.scale(1500, 40000), timeout=ck.scale(400, 800))
