#!/usr/bin/env python3
"""run.py <ID> [--replay FILE]: run the check of one property (VERIF_TIER, VERIF_SEED)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    pid = sys.argv[1]
    replay = None
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        replay = os.path.abspath(sys.argv[3])
        keep = open(replay).read()   # the output directory is cleared below
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if replay:
        import json
        d = json.loads(keep)
        seed, tier = d.get("seed", seed), d.get("tier", tier)
    ck = vlib.Check(pid, tier, seed, None)
    if replay:
        ck.replay = os.path.join(ck.scratch, "replay.json")
        open(ck.replay, "w").write(keep)
    try:
        importlib.import_module("checks." + pid.lower()).main(ck)
        rc = ck.finish()
    except vlib.Err as e:
        print("ERROR (undecided): %s" % e, file=sys.stderr)
        if ck.violations:
            rc = ck.finish()
        else:
            rc = 2
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        ck.cleanup()
    sys.exit(rc)


main()
