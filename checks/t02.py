import vlib


def main(ck):
    vlib.go_harness(ck, "./t02", ck.scale(15000, 250000), timeout=ck.scale(300, 800))
