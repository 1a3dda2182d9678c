import vlib


def main(ck):
    vlib.go_harness(ck, "./t01", ck.scale(10000, 150000), run_re="TestScripts", timeout=ck.scale(300, 600))
    vlib.go_harness(ck, "./t01", ck.scale(1000, 10000), run_re="TestDirs", timeout=ck.scale(300, 600))
