import vlib


def main(ck):
    vlib.go_harness(ck, "./u06", ck.scale(8000, 100000), timeout=ck.scale(300, 800), vendir=True)
