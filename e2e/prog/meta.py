"""Function metadata: what the functab of a program says about its packages
against what go/parser sees in them (e2e/metagen, e2e/meta)."""
import os, re, shutil
from e2e.prog import diff
from vlib import Err, VERIF, base_env, run, rmtree


class MetaBatch(diff.Batch):
    gen = None

    def tool(self):
        if MetaBatch.gen is None or not os.path.exists(MetaBatch.gen):
            MetaBatch.gen = os.path.join(self.ck.scratch, "metagen")
            rc, o, e, s = run(["go", "build", "-o", MetaBatch.gen, "main.go"], cwd=os.path.join(VERIF, "e2e", "metagen"),
                              env=base_env(GOFLAGS="-mod=mod", GOWORK="off", GO111MODULE="on"), timeout=120)
            if rc != 0:
                raise Err("metagen: %s" % (o + e))
        return MetaBatch.gen

    def write(self, progs):
        d, names = super().write(progs)
        os.makedirs(os.path.join(d, "metachk"))
        shutil.copy(os.path.join(VERIF, "e2e", "meta", "metachk.go"), os.path.join(d, "metachk"))
        shutil.copy(os.path.join(VERIF, "e2e", "meta", "mdecl.go.txt"), os.path.join(d, "mdecl.go"))
        with open(os.path.join(d, "main.go"), "w") as h:
            h.write("package main\n\nfunc main() {\n}\n")
        self.pkgs = {}
        lines = ["%s pv all" % d]
        for n, p in zip(names, progs):
            dep = "@dep" in p
            base = os.path.join(d, "dep", n) if dep else os.path.join(d, n)
            dirs = sorted({os.path.dirname(f) for f in p if f[0] != "@"})
            self.pkgs[n] = []
            for x in dirs:
                path = self.paths[n] + ("/" + x if x else "")
                self.pkgs[n].append(path)
                lines.append("%s %s %s" % (os.path.join(base, x) if x else base, path, "maybe" if dep else "all"))
        rc, o, e, s = run([self.tool()], cwd=d, env=base_env(), timeout=60, stdin=("\n".join(lines) + "\n").encode())
        if rc != 0:
            raise Err("metagen: %s" % e[-2000:])
        self.ck.log("metagen: %d packages %.1fs" % (len(lines), s))
        return d, names

    def main(self, d, names, link=True):
        imports, cases = [], []
        for n in names:
            cases.append('\tcase "%s":\n' % n)
            for i, path in enumerate(self.pkgs[n]):
                imports.append('%s_%d "%s"' % (n, i, path))
                cases.append("\t\t%s_%d.MetaCheck()\n" % (n, i))
        # main is on line 3, as in write
        with open(os.path.join(d, "main.go"), "w") as h:
            h.write('package main; import ("os"; ' + "; ".join(imports) + ")\n\nfunc main() {\n\tif os.Args[1] != \"none\" {\n\t\tMetaCheck()\n\t}\n\tswitch os.Args[1] {\n" + "".join(cases) + "\t}\n}\n")


class MetaSearch(diff.Search):
    def __init__(self, ck, name, gen, rule, **kw):
        super().__init__(ck, name, gen, [], rule, nontrivial=lambda p, a: a.rc == 0 and sum(int(x) for x in re.findall(r": (\d+) declarations", a.out)) >= 22,
                         view=view, **kw)
        self.batch = MetaBatch(ck)

    def compare(self, progs, L, variant):
        d, names = self.batch.write(progs)
        try:
            a = diff.plain(self.batch, d, names)
            for n in names:
                if a[n].out == "init":
                    a[n] = diff.Result(build_error="panics when it is initialised: " + diff.first_line(a[n].err)[:200])
            good = [n for n in names if a[n].build_error is None and a[n].rc is not None]
            for n in names:
                if n not in good:
                    rmtree(os.path.join(d, n))
                    rmtree(os.path.join(d, "dep", n))
            b = self.batch.build_run(d, good, [L.xgo], L.env(XGO_CHECK_TOOLCHAIN_VERSION="false", GOFLAGS="-mod=mod", GOWORK="off"), "xgo", 600,
                                     args=list(variant[1]), run_env={"VERIF_META": "1"}) if good else {}
            return [(a[n], diff.differ(a[n], b[n], self.view) if n in good else None) for n in names]
        finally:
            rmtree(d)


def view(r):
    # without warnings of the runtime and paths of the scratch directory
    return "exit %s\n%s\n%s" % (r.rc, re.sub(r"/\S*/batch\d+/", "", r.out), diff.first_line(r.err))
