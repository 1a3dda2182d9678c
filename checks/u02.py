import vlib


def main(ck):
    vlib.go_harness(ck, "./u02", ck.scale(3000, 100000), timeout=ck.scale(300, 800))
