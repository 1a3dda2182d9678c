import json, os, random
import lab
from e2e.prog.diff import Search


def seeds(ck, n, salt):
    r = random.Random("%s-%s" % (ck.seed, salt))
    return [r.randrange(1 << 40) for _ in range(n)]


def prog_check(ck, name, gen, rule, plan, nontrivial=None, view=None, gov="1.27", plain_args=(), after=None, kind=None, search=None, link=True):
    """plan: list of (variant name, flags, number of programs, programs per build)"""
    prog_checks(ck, [dict(name=name, gen=gen, rule=rule, plan=plan, nontrivial=nontrivial, view=view, gov=gov,
                          plain_args=plain_args, kind=kind, search=search, link=link)], after)


def prog_checks(ck, parts, after=None):
    """several generators with one laboratory"""
    rep = json.load(open(ck.replay)) if ck.replay else None
    for L in lab.labs(ck):
        try:
            ok = True
            for part in parts:
                if not one(ck, L, rep, **part):
                    ok = False
                    break
            if ok and after:
                after(ck, L, rep)
        except lab.SetupFailed as ex:
            ck.violation("build-" + L.name, str(ex), {})
        finally:
            L.cleanup()
        if ck.violations:
            break


def one(ck, L, rep, name, gen, rule, plan, nontrivial=None, view=None, gov="1.27", plain_args=(), kind=None, search=None, link=True):
    if search:
        s = search(ck, name, gen, rule)
    else:
        s = Search(ck, name, gen, [], rule, nontrivial, view, gov, plain_args, kind, link)
    if rep:
        if rep.get("check") == name and rep.get("files"):
            s.replay(L, rep)
        return True
    try:
        for vname, flags, n, per in plan:
            ss = seeds(ck, n, name + vname)
            for i in range(0, n, per):
                if not s.run(L, ss[i:i + per], [(vname, flags)]):
                    return False
        return True
    finally:
        ck.extra["discarded"] = ck.extra.get("discarded", 0) + s.discards
