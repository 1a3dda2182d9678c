"""Programs that do not compile: the positions and messages of the errors."""
import os, random, re
from vlib import Err, base_env, run, rmtree
from e2e.prog import gen_funcs, gen_vars
from e2e.prog.diff import Result, Search, Opt


def leaves(t, o, i=0):
    for k, x in enumerate(t):
        if isinstance(x, str):
            o.append((t, k))
        else:
            leaves(x, o)
    return o


KINDS = [
    ("undefined", r"\bout\(", "outt("),
    ("undefined 2", r"\bdepth\b", "Depth9"),
    ("type", r"(?<=[(, ])\d+(?=[,)])", '"s"'),
    ("type 2", r'"[a-z ]+"', "7"),
    ("unused", r"\{\n", "{\nvar unused9 int\n"),
    ("return", r"\breturn\b[^\n}]*\n", "return 1, 2, 3, 4, 5\n"),
    ("missing return", r"\breturn\b[^\n}]*\n", "\n"),
    ("syntax: brace", r"\{\n", "\n"),
    ("syntax: close", r"\)\n", "\n"),
    ("syntax: comma", r", ", ",, "),
    ("syntax: keyword", r"\bfunc\b", "fun"),
    ("syntax: stray", r"\n", "\n)\n"),
    ("syntax: string", r'"\n', "\n"),
    ("unused label", r"\{\n", "{\nQ9:\n"),
    ("assignment", r"\n", "\nmissing9 = 1\n"),
    ("duplicate", r"\nfunc ", "\nfunc enter() {}\nfunc "),
    ("import", r"\bfmt\.", "fmtt."),
    ("method", r"\.Show\(\)", ".Shou()"),
]


def gen(seed):
    r = random.Random(seed)
    p = (gen_vars if r.random() < 0.5 else gen_funcs).gen(seed)
    kinds = []
    f = r.choice(sorted(x for x in p.files if x.endswith(".go")))
    ls = leaves(p.files[f], [])
    # not in the import section, whose errors end every command at once
    last = max(i for i, (t, k) in enumerate(ls) if re.search(r"\b(package|import)\b", t[k]))
    ls = ls[next((i for i in range(last + 1, len(ls)) if re.search(r"\b(var|func|const|type)\b", ls[i][0][ls[i][1]])), len(ls)):]
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        name, pat, new = r.choice(KINDS)
        cand = [(t, k, m) for t, k in ls for m in re.finditer(pat, t[k])]
        if not cand:
            continue
        t, k, m = r.choice(cand)
        t[k] = t[k][:m.start()] + new + t[k][m.end():]
        kinds.append(name)
    p.meta = {"classes": kinds}
    return p


def errors(text):
    """package -> list of (file, line, message)"""
    res = {}
    for l in text.splitlines():
        m = re.match(r"(?:\./)?(p\d{3})/(\S+?\.go):(\d+)(?::\d+)?: (.*)$", l)
        if m:
            msg = re.sub(r"_xgo_get(_addr)?\(\)", "", m.group(4))
            msg = re.sub(r"\S+(:\d+)+", "POS", msg)
            res.setdefault(m.group(1), []).append((m.group(2), int(m.group(3)), msg))
    return res


class ErrSearch(Search):
    def compare(self, progs, L, variant):
        d, names = self.batch.write(progs)
        try:
            # a package with an error everybody sees keeps the rest apart
            with open(os.path.join(d, "main.go"), "w") as h:
                h.write("package main\n\nimport _ \"github.com/xhd2015/xgo/runtime/trap\"\n\nfunc main() {}\n")
            rc, o, e, s = run(["go", "build", "./..."], cwd=d, env=base_env(GOFLAGS="-mod=mod", GOWORK="off"), timeout=400)
            self.ck.log("go build of %d programs with errors: rc=%s %.1fs" % (len(names), rc, s))
            if rc is None:
                raise Err("go build does not end")
            pe = errors(o + e)
            rc2, o2, e2, s = run([L.xgo, "build", *variant[1], "./..."], cwd=d, env=L.env(XGO_CHECK_TOOLCHAIN_VERSION="false", GOFLAGS="-mod=mod", GOWORK="off"), timeout=600)
            self.ck.log("xgo build: rc=%s %.1fs" % (rc2, s))
            if rc2 is None:
                raise Err("xgo build does not end")
            xe = errors(o2 + e2)
            res = []
            for n in names:
                es = pe.get(n, [])
                if not es:
                    res.append((Result(build_error="compiles"), None))
                    continue
                if len(es) >= 10 or any("too many errors" in m for _, _, m in es):
                    res.append((Result(build_error="too many errors"), None))
                    continue
                a = Result(None, 1, "\n".join("%s:%d: %s" % x for x in es), "")
                have = set(xe.get(n, []))
                full = len(xe.get(n, [])) >= 10
                miss = [x for x in es if x not in have]
                diff = None
                if rc2 == 0 or not have:
                    diff = "compiles with xgo but not with go, or stops without the errors of go:\n%s\n--- xgo: exit %s\n%s" % (a.out, rc2, (o2 + e2)[:2500])
                elif miss and not full:
                    diff = "go reports\n%s\n--- xgo reports\n%s" % (a.out, "\n".join("%s:%d: %s" % x for x in sorted(have)))
                res.append((a, diff))
            return res
        finally:
            rmtree(d)
