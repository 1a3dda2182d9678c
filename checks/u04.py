import vlib


def main(ck):
    n = ck.scale(4000, 60000)
    vlib.go_harness(ck, "./u04", n, run_re="TestSession|TestHandleJSON", timeout=ck.scale(300, 400), vendir=True)
    # every case waits for the polling interval of the server
    vlib.go_harness(ck, "./u04", ck.scale(60, 700), run_re="TestExplorer|TestKnown", timeout=ck.scale(300, 450), vendir=True)
