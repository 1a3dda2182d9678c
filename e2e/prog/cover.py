"""Coverage profiles of generated programs: the blocks and counts of go and of xgo."""
import os, random, re
from vlib import Err, base_env, run, rmtree
from e2e.prog import gen_funcs, gen_vars
from e2e.prog.diff import Result, Search


def gen(seed):
    r = random.Random(seed)
    if r.random() < 0.3:
        return gen_vars.gen(seed)
    return gen_funcs.gen(seed, r.random() < 0.4)


TEST = '''package PKG

import "testing"

func TestMain_(t *testing.T) {
	defer func() { recover() }()
	Main()
}
'''


class CoverSearch(Search):
    """variant: (name, xgo flags, go test flags, together)"""

    def __init__(self, ck, name, gen, flags, together, rule, **kw):
        Search.__init__(self, ck, name, gen, [], rule, **kw)
        self.flags, self.together = flags, together

    def compare(self, progs, L, variant):
        d, names = self.batch.write(progs)
        try:
            with open(os.path.join(d, "main.go"), "w") as h:
                h.write("package main\n\nimport _ \"github.com/xhd2015/xgo/runtime/trap\"\n\nfunc main() {}\n")
            live = []
            res = {}
            for n, p in zip(names, progs):
                src = "".join(p.values())
                if self.together and re.search(r"os\.Exit\(\d|in goroutine|runtime\.Goexit\(\)", src):
                    res[n] = Result(build_error="ends the process")
                    rmtree(os.path.join(d, n))
                    continue
                live.append(n)
                if not self.together:
                    with open(os.path.join(d, n, "x_test.go"), "w") as h:
                        h.write(TEST.replace("PKG", n))
            pk = ["-coverpkg=./...", "."] if self.together else ["./..."]
            for attempt in range(5):
                if self.together:
                    with open(os.path.join(d, "x_test.go"), "w") as h:
                        h.write("package main\n\nimport (\n\t\"testing\"\n\n" + "".join('\t"pv/%s"\n' % n for n in live) + ")\n\nfunc try(f func()) {\n\tdefer func() { recover() }()\n\tf()\n}\n\n" +
                                "func TestAll(t *testing.T) {\n" + "".join("\ttry(%s.Main)\n" % n for n in live) + "}\n")
                a, ao = self.profile(["go"], base_env(GOFLAGS="-mod=mod", GOWORK="off"), d, "go.cov", self.flags + pk)
                bad = set(re.findall(r"^# pv/(p\d{3})", ao, re.M)) | set(re.findall(r"^(p\d{3})/\S+:\d+", ao, re.M))
                bad &= set(live)
                # programs that go refuses must not be in the way
                for n in bad:
                    live.remove(n)
                    res[n] = Result(build_error="does not compile: " + ao[-300:])
                    rmtree(os.path.join(d, n))
                if a is not None and not bad:
                    break
                if not bad:
                    raise Err("go test -coverprofile: %s" % ao[-2000:])
            b, bo = self.profile([L.xgo], L.env(XGO_CHECK_TOOLCHAIN_VERSION="false", GOFLAGS="-mod=mod", GOWORK="off"), d, "xgo.cov", list(variant[1]) + self.flags + pk)
            out = []
            for n in names:
                if n in res:
                    out.append((res[n], None))
                    continue
                la = (a or {}).get(n)
                if not la or not any(not x.endswith(" 0") for x in la):
                    out.append((Result(build_error="no coverage with go: " + ao[-300:]), None))
                    continue
                lb = (b or {}).get(n, [])
                diff = None
                if la != lb:
                    sa, sb = set(la), set(lb)
                    diff = "go and xgo report different coverage\n--- only go\n%s\n--- only xgo\n%s%s" % (
                        "\n".join([x for x in la if x not in sb][:15]), "\n".join([x for x in lb if x not in sa][:15]), "" if lb else "\n(no coverage) " + bo[-1500:])
                out.append((Result(None, 0, "\n".join(la), ""), diff))
            return out
        finally:
            rmtree(d)

    def profile(self, cmd, env, d, out, args):
        p = os.path.join(d, out)
        rc, o, e, s = run(cmd + ["test", "-vet=off", "-coverprofile", p] + args, cwd=d, env=env, timeout=600)
        self.ck.log("%s test -coverprofile %s: rc=%s %.1fs" % (os.path.basename(cmd[0]), " ".join(args), rc, s))
        if rc is None:
            raise Err("test with coverage does not end")
        if not os.path.exists(p):
            return None, o + e
        res = {}
        for l in open(p):
            m = re.match(r"(?:pv/)(p\d{3})/(.*)", l.strip())
            if m:
                res.setdefault(m.group(1), []).append(m.group(2))
        return {n: sorted(v) for n, v in res.items()}, o + e
