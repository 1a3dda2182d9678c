from e2e.cmdline.cmd import CmdLines


def main(ck):
    CmdLines(ck).search(ck.scale(260, 2500), 8)
