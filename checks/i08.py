from e2e.std.std import Std


def main(ck):
    Std(ck).search(ck.scale(24, 300), 8)
