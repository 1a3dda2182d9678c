from e2e.hist.hist import Histories


def main(ck):
    Histories(ck).search(ck.scale(40, 500), 4, 8)
