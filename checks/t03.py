import vlib


def main(ck):
    vlib.go_harness(ck, "./t03", ck.scale(20000, 300000), timeout=ck.scale(300, 800))
