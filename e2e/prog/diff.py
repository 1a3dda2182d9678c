"""Differential testing of generated programs: plain go against xgo.

A program is a tree: a list whose elements are strings (kept) and Opt nodes
(a subtree that may be removed when shrinking), one tree per file. Every
program is one package pNNN (plus its sub packages) of a single module; the
binary runs the program whose name is its argument, so one build of the
module serves the whole batch."""
import concurrent.futures, json, os, re, shutil, sys
import lab
from vlib import Err, REPO, VERIF, base_env, run, rmtree


class Opt(list):
    """a part that shrinking may drop"""


def text(t, drop=frozenset(), _c=None):
    """the source text of a tree, without the Opt nodes numbered in drop"""
    c = _c if _c is not None else [0]
    out = []
    for x in t:
        if isinstance(x, str):
            out.append(x)
        elif isinstance(x, Opt):
            n = c[0]
            c[0] += 1
            if n in drop:
                c[0] += count(x)
            else:
                out.append(text(x, drop, c))
        else:
            out.append(text(x, drop, c))
    return "".join(out)


def count(t):
    n = 0
    for x in t:
        if isinstance(x, Opt):
            n += 1 + count(x)
        elif not isinstance(x, str):
            n += count(x)
    return n


class Program:
    def __init__(self, files, meta=None):
        self.files = files      # name -> tree
        self.meta = meta or {}

    def render(self, drop=frozenset()):
        c = [0]
        return {f: text(self.files[f], drop, c) for f in sorted(self.files)}

    def opts(self):
        return sum(count(self.files[f]) for f in self.files)


class Result:
    def __init__(self, build_error=None, rc=None, out=None, err=None):
        self.build_error, self.rc, self.out, self.err = build_error, rc, out, err

    def short(self):
        if self.build_error:
            return "does not build: " + self.build_error[:1500]
        return "exit %s\n%s\n%s" % (self.rc, self.out[-1500:], self.err[-1500:])


def plain_gomod(module, gov, extra=""):
    return "module %s\n\ngo %s\n%s" % (module, gov, extra)


class Batch:
    """Builds and runs programs with plain go or with an xgo lab."""

    def __init__(self, ck, gov="1.27", link=True):
        """link: the module requires and imports xgo's runtime itself"""
        self.ck, self.gov, self.n, self.link = ck, gov, 0, link

    def write(self, progs):
        """progs: list of dicts file -> text. PKG in the text is the package name."""
        self.n += 1
        d = os.path.join(self.ck.scratch, "batch%d" % self.n)
        names = []
        self.paths = {}
        for i, p in enumerate(progs):
            name = "p%03d" % i
            names.append(name)
            # a program may live in another module, a dependency
            base = os.path.join(d, "dep", name) if "@dep" in p else os.path.join(d, name)
            self.paths[name] = "dep.x/dep/" + name if "@dep" in p else "pv/" + name
            for f, t in p.items():
                if f[0] == "@":
                    continue
                path = os.path.join(base, f)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w") as h:
                    h.write(t.replace("PKG", name))
        with open(os.path.join(d, "go.mod"), "w") as h:
            h.write((lab.gomod if self.link else plain_gomod)("pv", self.gov, "\nrequire dep.x/dep v0.0.0\n\nreplace dep.x/dep => ./dep\n" if any("@dep" in p for p in progs) else ""))
        if any("@dep" in p for p in progs):
            with open(os.path.join(d, "dep", "go.mod"), "w") as h:
                h.write("module dep.x/dep\n\ngo %s\n" % self.gov)
        return d, names

    def main(self, d, names, link=True):
        link = link and self.link
        with open(os.path.join(d, "main.go"), "w") as h:
            h.write("package main\n\nimport (\n\t\"os\"\n" + ("\t_ \"github.com/xhd2015/xgo/runtime/trap\"\n" if link else "") +
                    "".join('\t"%s"\n' % self.paths[n] for n in names) + ")\n\nfunc main() {\n\tswitch os.Args[1] {\n" +
                    "".join('\tcase "%s":\n\t\t%s.Main()\n' % (n, n) for n in names) + "\t}\n}\n")

    def split_errors(self, e, names):
        """build errors per program"""
        errs = {}
        cur = None
        for l in e.splitlines():
            m = re.match(r"# (?:pv|dep\.x/dep)/(p\d+)", l)
            if m:
                cur = m.group(1)
                continue
            if l.startswith("#"):
                cur = None
                continue
            m = re.match(r"(?:\S*/)?(p\d{3})/\S*?:\d+", l) or re.match(r"package (?:pv|dep\.x/dep)/(p\d+)", l)
            n = m.group(1) if m else cur
            if n in names:
                errs.setdefault(n, []).append(l)
        return errs

    def build_run(self, d, names, cmd, env, out, timeout, run_env=None, args=(), link=True):
        """-> {name: Result}"""
        res = {}
        live = list(names)
        binp = os.path.join(d, out)
        for attempt in range(8):
            self.main(d, live, link)
            rc, o, e, s = run(cmd + ["build", *args, "-o", binp, "./"], cwd=d, env=env, timeout=timeout)
            self.ck.log("%s: %d programs rc=%s %.1fs" % (out, len(live), rc, s))
            if rc is None:
                raise Err("build of %d programs does not end" % len(live))
            if rc == 0 and not self.link:
                # every package named on the command line gets an import of xgo's
                rc, o, e, s = run(cmd + ["build", *args, "./..."], cwd=d, env=env, timeout=timeout)
                self.ck.log("%s: ./... rc=%s %.1fs" % (out, rc, s))
            if rc == 0:
                break
            errs = self.split_errors(o + "\n" + e, set(live))
            if not errs:
                return {n: Result(build_error=o + e) for n in names} if len(live) == 1 else self.one_by_one(d, live, cmd, env, out, timeout, args, res, link)
            for n, ls in errs.items():
                res[n] = Result(build_error="\n".join(ls))
            live = [n for n in live if n not in errs]
            if not live:
                return res
        else:
            raise Err("no set of programs builds: %s" % e[-2000:])
        for attempt in range(20):
            # a panic during initialisation would end every program of the batch
            rc, o, e, s = run([binp, "none"], cwd=d, env=base_env(XGO_CHECK_TOOLCHAIN_VERSION="false"), timeout=60)
            if rc == 0:
                break
            m = re.search(r"^(?:pv|dep\.x/dep)/(p\d{3})[./]", e, re.M)
            if not m or m.group(1) not in live:
                raise Err("the programs do not start: rc=%s %s" % (rc, e[-3000:]))
            res[m.group(1)] = Result(None, rc, "init", e)
            live.remove(m.group(1))
            self.main(d, live, link)
            rc, o, e, s = run(cmd + ["build", *args, "-o", binp, "./"], cwd=d, env=env, timeout=timeout)
            self.ck.log("%s: %d programs rc=%s %.1fs (initialisation)" % (out, len(live), rc, s))
            if rc != 0:
                raise Err("no set of programs builds: %s" % e[-2000:])
        self.run_all(binp, live, res, run_env)
        return res

    def one_by_one(self, d, live, cmd, env, out, timeout, args, res, link):
        """the build failed as a whole (a crash, say): find the programs at fault by halving"""
        binp = os.path.join(d, out)

        def go(names):
            self.main(d, names, link)
            rc, o, e, s = run(cmd + ["build", *args, "-o", binp, "./"], cwd=d, env=env, timeout=timeout)
            self.ck.log("%s: %d programs rc=%s %.1fs (halving)" % (out, len(names), rc, s))
            if rc == 0:
                self.run_all(binp, names, res, None)
            elif len(names) == 1:
                res[names[0]] = Result(build_error=o + e)
            else:
                go(names[:len(names) // 2])
                go(names[len(names) // 2:])
        go(live)
        return res

    def run_all(self, binp, names, res, run_env):
        e = base_env(XGO_CHECK_TOOLCHAIN_VERSION="false", GOTRACEBACK="single")
        e.update(run_env or {})
        cwd = os.path.dirname(binp)

        def one(n):
            rc, o, er, s = run([binp, n], cwd=cwd, env=e, timeout=60)
            er = "\n".join(l for l in er.splitlines() if not l.startswith("WARNING: failed to link") and not l.startswith("WARNING: xgo toolchain") and not l.startswith("note: this message can be"))
            return n, Result(None, rc, o, er)
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            for n, r in ex.map(one, names):
                res[n] = r


def plain(batch, d, names, out="plain", args=()):
    return batch.build_run(d, names, ["go"], base_env(GOFLAGS="-mod=mod", GOWORK="off"), out, 400, args=args)


def with_xgo(batch, d, names, L, out="xgo", flags=()):
    return batch.build_run(d, names, [L.xgo], L.env(XGO_CHECK_TOOLCHAIN_VERSION="false", GOFLAGS="-mod=mod", GOWORK="off"), out, 600, args=list(flags))


def differ(a, b, view=None):
    """None, or what differs between the plain result a and the xgo result b"""
    if b.build_error:
        return "compiles with go but not with xgo:\n" + b.build_error[:3000]
    va, vb = (view or default_view)(a), (view or default_view)(b)
    if va == vb:
        return None
    return "behaves differently with xgo\n--- go\n%s\n--- xgo\n%s" % show_diff(va, vb)


def default_view(r):
    return "exit %s\n%s\n%s" % (r.rc, r.out, first_line(r.err))


def first_line(s):
    """the panic message, without addresses and traces"""
    out = []
    for l in s.splitlines():
        if l.startswith("goroutine "):
            break
        out.append(l)
    return re.sub(r"0x[0-9a-f]+", "0xX", "\n".join(out)).strip()


def show_diff(a, b):
    x, y = a.splitlines(), b.splitlines()
    i = 0
    while i < min(len(x), len(y)) and x[i] == y[i]:
        i += 1
    return "\n".join(x[max(0, i - 2):i + 8])[:1500], "\n".join(y[max(0, i - 2):i + 8])[:1500]


class Search:
    """generate, compare, shrink"""

    def __init__(self, ck, name, gen, variants, rule, nontrivial=None, view=None, gov="1.27", plain_args=(), kind=None, link=True):
        """gen(seed) -> Program; variants: list of (name, xgo build flags)"""
        self.ck, self.name, self.gen, self.variants, self.rule = ck, name, gen, variants, rule
        self.nontrivial, self.view = nontrivial, view
        self.batch = Batch(ck, gov, link)
        self.plain_args = plain_args
        self.discards = 0
        self.kind = lambda diff: diff.startswith("compiles") or (kind or (lambda d: ""))(diff)

    def compare(self, progs, L, variant):
        """progs: rendered programs -> list of (ok_plain, difference)"""
        d, names = self.batch.write(progs)
        try:
            a = plain(self.batch, d, names, args=self.plain_args)
            for n in names:
                if a[n].out == "init":
                    a[n] = Result(build_error="panics when it is initialised: " + first_line(a[n].err)[:200])
            good = [n for n in names if a[n].build_error is None and a[n].rc is not None]
            # a program that plain go refuses must not be in xgo's way
            for n in names:
                if n not in good:
                    rmtree(os.path.join(d, n))
                    rmtree(os.path.join(d, "dep", n))
            b = with_xgo(self.batch, d, good, L, "xgo", variant[1]) if good else {}
            return [(a[n], differ(a[n], b[n], self.view) if n in good else None) for n in names]
        finally:
            rmtree(d)

    def run(self, L, seeds, variants=None, shrink_rounds=10):
        ck = self.ck
        progs = [self.gen(s) for s in seeds]
        classes = {}
        done = False
        for vi, variant in enumerate(variants or self.variants):
            r = self.compare([p.render() for p in progs], L, variant)
            bad = []
            for s, p, (a, diff) in zip(seeds, progs, r):
                if a.build_error is not None or a.rc is None:
                    if vi == 0:
                        self.discards += 1
                        ck.log("discarded seed %s: %s" % (s, (a.build_error or "timeout")[:300]))
                    continue
                st = {"evaluations": 1, "nontrivial": 1 if (self.nontrivial is None or self.nontrivial(p, a)) else 0,
                      "classes": dict([(k, 1) for k in p.meta.get("classes", ())] + [("variant " + variant[0], 1)]),
                      "rule": self.rule}
                if len(ck.samples) < 3:
                    st["samples"] = [{"seed": s, "variant": variant[0], "program": p.render(), "output": (a.out or "")[:500]}]
                ck.add_stats(st)
                if diff:
                    bad.append((s, p, diff))
            if bad:
                ck.log("%d programs differ (%s)" % (len(bad), variant[0]))
                s, p, diff = min(bad, key=lambda x: sum(map(len, x[1].render().values())))
                files, diff = self.shrink(p, diff, L, variant, shrink_rounds)
                ck.violation(self.name, "program of seed %s, built with xgo%s, %s\n%s" % (
                    s, " " + " ".join(variant[1]) if variant[1] else "", diff,
                    "\n".join("== %s\n%s" % (f, t) for f, t in files.items())[:6000]),
                    {"seed_case": s, "variant": [variant[0], list(variant[1])], "files": files, "lab": L.name})
                return False
        return True

    def replay(self, L, rep):
        r = self.compare([rep["files"]], L, (rep["variant"][0], rep["variant"][1]))
        a, diff = r[0]
        if a.build_error:
            raise Err("the program of the replay does not build with go: %s" % a.build_error)
        self.ck.add_stats({"evaluations": 1, "nontrivial": 1, "rule": self.rule})
        if diff:
            self.ck.violation(self.name, diff, {k: rep[k] for k in ("files", "variant", "lab") if k in rep})

    def shrink(self, p, diff, L, variant, rounds):
        """drop Opt nodes as long as the programs still differ; the candidates
        of one round are built together"""
        drop = frozenset()
        n = p.opts()
        size = max(1, n // 2)
        best = p.render(drop)
        kind = self.kind(diff)
        for _ in range(rounds):
            live = [i for i in range(n) if i not in drop]
            if not live:
                break
            chunks = [live[i:i + size] for i in range(0, len(live), size)]
            cands = []
            seen = {json.dumps(best)}
            for c in chunks:
                for dset in (drop | set(c), frozenset(live) - set(c) | drop):
                    r = p.render(dset)
                    k = json.dumps(r)
                    if k not in seen:
                        seen.add(k)
                        cands.append((dset, r))
            cands = cands[:60]
            if not cands:
                if size == 1:
                    break
                size = max(1, size // 2)
                continue
            try:
                res = self.compare([r for _, r in cands], L, variant)
            except Err as e:
                self.ck.log("shrinking stopped: %s" % e)
                break
            ok = [(sum(map(len, r.values())), i) for i, ((dset, r), (a, df)) in enumerate(zip(cands, res)) if df and self.kind(df) == kind]
            if ok:
                _, i = min(ok)
                drop = frozenset(cands[i][0])
                best, diff = cands[i][1], res[i][1]
                # all single drops that still fail may go together: try next round
                size = max(1, min(size, len(live) // 4 or 1))
            elif size == 1:
                break
            else:
                size = max(1, size // 4)
        return best, diff
