from e2e.files.files import Files


def main(ck):
    Files(ck).search(ck.scale(72, 900), 8)
