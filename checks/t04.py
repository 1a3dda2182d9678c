import json
import vlib
from e2e.setup.hist import Setups


def main(ck):
    rep = json.load(open(ck.replay)) if ck.replay else None
    if not rep or rep.get("check") == "copy":
        vlib.go_harness(ck, "./t04", ck.scale(4000, 60000), timeout=ck.scale(300, 800))
    if not rep or rep.get("check") in ("histories", "first", "original"):
        Setups(ck).search(ck.scale(150, 2500), 8)
