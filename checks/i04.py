from e2e.rules.rules import Rules


def main(ck):
    Rules(ck).search(ck.scale(100, 1500), 8)
