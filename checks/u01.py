import vlib


def main(ck):
    vlib.go_harness(ck, "./u01", ck.scale(4000, 60000), timeout=ck.scale(300, 800), vendir=True)
