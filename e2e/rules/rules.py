"""Which functions can be intercepted: generated projects of several modules,
generated flags and rules, and the set of functions a probe finds interceptable
against a model of the documented selection."""
import copy, json, os, random, re, shutil, time
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import Err, REPO, run, rmtree

MAIN = "ex.org/mm"
# module -> packages (directories in it)
MODULES = {
    "ex.org/mm": ["", "a", "a/b", "internal/c"],
    "ex.org/mm2": ["", "a"],               # shares a textual prefix with the main module
    "ex.org/d1": ["", "x", "x/y", "xz"],
    "ex.org/d1/x/sub": ["", "z"],          # a module within a module's path
    "gopkg.in/d2.v3": ["", "p.q"],
}
# std packages whose functions are probed: name -> [(function, type, call, mock)]
STD = {
    "html": [("EscapeString", "func(string) string", "html.EscapeString(s)"), ("UnescapeString", "func(string) string", "html.UnescapeString(s)")],
    "net/url": [("QueryEscape", "func(string) string", "url.QueryEscape(s)"), ("PathEscape", "func(string) string", "url.PathEscape(s)")],
    "encoding/hex": [("EncodeToString", "func([]byte) string", "hex.EncodeToString([]byte(s))"), ("Dump", "func([]byte) string", "hex.Dump([]byte(s))")],
    "text/template": [("HTMLEscapeString", "func(string) string", "template.HTMLEscapeString(s)")],
    "os": [("Getenv", "func(string) string", "os.Getenv(s)"), ("TempDir", "func() string", "os.TempDir()"), ("ExpandEnv", "func(string) string", "os.ExpandEnv(s)")],
    "path": [("Base", "func(string) string", "path.Base(s)"), ("Clean", "func(string) string", "path.Clean(s)")],
    "reflect": [("TypeOf", "func(interface{}) reflect.Type", None)],
}
WHITE = {("os", "Getenv")}  # always prepared, see GetPkgConfig
PREDEF = {"time", "os", "os/exec", "net", "net/http", "io", "io/ioutil"}  # --trap-stdlib


def pkgpath(m, d):
    return m + "/" + d if d else m


def within(p, m):
    return p == m or p.startswith(m + "/")


def ident(p):
    return re.sub(r"\W", "_", p)


def gen(seed):
    r = random.Random(seed)
    c = {"pkgs": {}, "targets": [], "std": sorted(r.sample(sorted(STD), 4)), "icpt": r.random() < .25, "flags": [], "env": None, "file": None,
         "cmd": r.choice(("run", "run", "run", "build", "test")), "dir": r.choice(("", "", "", "a"))}
    for m, ds in MODULES.items():
        for d in ds:
            files = []
            big = r.random() < .15
            for fi in range(r.choice((1, 1, 2)) if not big else r.choice((1, 7, 8))):
                n = r.randint(1, 5) if not big else r.choice((15, 16, 17, 20))
                fs = []
                for _ in range(n):
                    k = r.choice("FFFFfMmPp" if not big else "FFFFFFFMf")
                    fs.append(k)
                files.append(fs)
            c["pkgs"][pkgpath(m, d)] = {"files": files, "var": r.random() < .6}
    allf = [f for f in funcs(c) if f["pkg"] != "reflect"]
    # targets
    cand = [f for f in allf if (f["exported"] or f["pkg"] == MAIN) and not (f["pkg"].endswith("internal/c"))]
    for f in r.sample(cand, r.randint(0, 6)):
        c["targets"].append([f["pkg"], f["id"], r.choice(("Patch", "Mock", "RecordCall", "AddFuncInterceptor", "MarkIntercept", "Record")), r.choice(("main", "a", "test"))])
    if r.random() < .25:
        # many of one package
        p = r.choice(sorted(c["pkgs"]))
        for f in allf:
            if f["pkg"] == p and f["exported"] and not p.endswith("internal/c"):
                c["targets"].append([p, f["id"], "Patch", "main"])
    # flags
    pk = sorted(c["pkgs"])
    dep = [p for p in pk if not within(p, MAIN)]

    def pat(sep):
        x = r.random()
        if x < .45:
            return r.choice(dep)
        if x < .8:
            return r.choice([p for p in dep if any(within(q, p) and q != p for q in dep)]) + "/" + sep
        if x < .9:
            return r.choice([x for x in c["std"] if x != "os"])
        return r.choice(pk)
    for _ in range(r.choice((0, 0, 1, 1, 2))):
        c["flags"].append(r.choice((["--trap", pat("...")], ["--trap=" + pat("...")])))
    rules = []
    for _ in range(r.choice((0, 0, 1, 2, 3))):
        x = r.random()
        if x < .45:
            d = {"pkg": ",".join(pat("**") for _ in range(r.choice((1, 1, 2)))), "action": "include"}
            if r.random() < .2:
                d["pkg"] = d["pkg"].replace(",", " , ")
            if r.random() < .2:
                d["kind"] = "func"
        elif x < .6:
            d = {"pkg": pat("**"), "action": r.choice(("exclude", ""))}
        elif x < .75:
            d = {"main_module": True, "action": "exclude"}
            if r.random() < .6:
                d["kind"] = r.choice(("func", "var", "func,var", "var, func"))
        elif x < .8:
            # a part of the main module: no effect
            d = {"main_module": True, "action": "exclude"}
            d.update(r.choice(({"pkg": "ex.org/mm/a"}, {"name": "F1"}, {"exported": True}, {"generic": True}, {"closure": True})))
        elif x < .88:
            d = {"main_module": True, "action": "include", "kind": r.choice(("func", "var,const"))}
        else:
            d = {"any": True, "action": "exclude"}
        rules.append(d)
    if r.random() < .12:
        rules.insert(0, {"main_module": True, "action": "exclude"})
    if rules and r.random() < .3:
        k = r.randint(0, len(rules) - 1)
        c["file"] = rules[k:]
        rules = rules[:k]
        c["flags"].append(r.choice((["--options-from-file", "@F"], ["--options-from-file=@F"])))
    for d in rules:
        j = json.dumps(d)
        c["flags"].append(r.choice((["--mock-rule", j], ["--mock-rule=" + j])))
    x = r.random()
    mods = r.sample([m for m in MODULES if m != MAIN] + ["ex.org/d1/x", "ex.org/d", MAIN], r.choice((1, 1, 2)))
    if x < .15:
        c["flags"].append(["--mock-rule-include-as-main-module", ",".join(mods)])
    elif x < .22:
        c["env"] = r.choice((",", " , ")).join(mods)
    elif x < .27:
        c["env"] = "ex.org/mm2"
        c["flags"].append(["--mock-rule-include-as-main-module=" + ",".join(mods)])
    x = r.random()
    if x < .2:
        c["flags"].append(["--trap-all"])
    elif x < .3:
        c["flags"].append(["--trap-all=false"])
    elif x < .34:
        c["flags"].append(["--trap-stdlib"])
    elif x < .4 and c["cmd"] == "test":
        c["flags"].append(["--trap-stdlib=false"])
    if r.random() < .06:
        c["bad"] = r.choice(("ex.org/d1/*", "ex.org/d1*", "ex.org/*/x", "**", "*", "ex.org/d1**", "ex.org/**/x", "ex.org/d1,ex.org/d*"))
        c["flags"].append(["--mock-rule", json.dumps({"pkg": c["bad"], "action": "include"})])
    r.shuffle(c["flags"])
    return c


def funcs(c):
    """all functions, in the order of the source"""
    out = []
    for p, v in c["pkgs"].items():
        n = 0
        for fi, fs in enumerate(v["files"]):
            for k in fs:
                n += 1
                e = {"pkg": p, "file": fi, "kind": k, "n": n}
                if k in "Ff":
                    e["name"] = e["id"] = "%s%d" % (k, n)
                elif k in "Mm":
                    e["name"], e["id"] = "%s%d" % (k, n), "T.%s%d" % (k, n)
                else:
                    e["name"], e["id"] = "%s%d" % (k, n), "(*T).%s%d" % (k, n)
                e["exported"] = k.isupper()
                out.append(e)
    for p in c["std"]:
        for nm, t, call in STD[p]:
            out.append({"pkg": p, "std": True, "id": nm, "name": nm, "exported": True, "type": t, "call": call, "kind": "F"})
    return out


def flagvals(c, name):
    vs = []
    for f in c["flags"]:
        if f[0] == name:
            vs.append(f[1] if len(f) > 1 else "")
        elif f[0].startswith(name + "="):
            vs.append(f[0][len(name) + 1:])
    return vs


def model(c):
    """(pkg, id) -> can it be intercepted; variables: (pkg, "V")"""
    rules = [json.loads(x) for x in flagvals(c, "--mock-rule")] + (c["file"] or [])
    split = lambda s: [x.strip() for x in s.split(",") if x.strip()]
    ex = {"func": None, "var": None}
    listed = flagvals(c, "--trap")
    for d in rules:
        if d.get("main_module"):
            if set(d) - {"main_module", "kind", "action"}:
                continue
            for k in split(d.get("kind", "")) or ["func", "var"]:
                if k in ex and ex[k] is None and d["action"] in ("include", "exclude"):
                    ex[k] = d["action"]
        elif d["action"] == "include":
            listed += [x.replace("**", "...") for x in split(d.get("pkg", ""))]
    mainin = not (ex["func"] == "exclude" and ex["var"] == "exclude")
    inc = flagvals(c, "--mock-rule-include-as-main-module")
    inc = split(inc[-1]) if inc else split(c["env"] or "")
    std = set()
    # on by default for tests
    ts = flagvals(c, "--trap-stdlib")
    if (ts[-1] != "false") if ts else c["cmd"] == "test":
        std |= PREDEF

    def matches(p, l):
        if l.endswith("/..."):
            return within(p, l[:-4])
        return p == l
    ta = flagvals(c, "--trap-all")
    res, quota = {}, {}
    # targets are those named in the packages of the main module that are not excluded
    seen = lambda p: mainin or any(matches(p, l) for l in listed)
    tg = {(p, i) for p, i, how, where in c["targets"] if seen(MAIN + "/a" if where == "a" else MAIN) and (where != "test" or c["cmd"] == "test")}
    trapall = (ta[-1] in ("", "true")) if ta else (c["icpt"] and seen(MAIN))
    loaded = mainin or listed
    for f in funcs(c):
        p = f["pkg"]
        key = (p, f["id"])
        if p == "reflect":
            res[key] = False
            continue
        ismain = (within(p, MAIN) and mainin) or any(within(p, m) for m in inc if m != MAIN)
        lst = any(matches(p, l) for l in listed) or p in std
        if ismain or lst:
            res[key] = True
            continue
        if within(p, MAIN):
            res[key] = False
            continue
        if key in tg:
            res[key] = True
            continue
        if not f.get("std") and trapall and f["exported"]:
            q = quota.setdefault(p, {"pkg": 0})
            if q.get(f["file"], 0) < 16 and q["pkg"] < 96:
                q[f["file"]] = q.get(f["file"], 0) + 1
                q["pkg"] += 1
                res[key] = True
            else:
                res[key] = None  # beyond the limits
            continue
        res[key] = key in WHITE
    if not mainin:
        # a dependency of packages that are excluded need not be considered
        for k, w in res.items():
            if w and not within(k[0], MAIN) and not any(matches(k[0], l) for l in listed) and k[0] not in std:
                res[k] = None
    for p, v in c["pkgs"].items():
        if v["var"]:
            if within(p, MAIN):
                res[(p, "V")] = seen(p)
            elif any(within(p, m) for m in inc):
                res[(p, "V")] = True if mainin else None
            else:
                res[(p, "V")] = False
    return res


def render(c, tag):
    fs = {}
    by = {}
    for f in funcs(c):
        by.setdefault(f["pkg"], []).append(f)
    for m in MODULES:
        req = "".join("require %s %s\nreplace %s => ../%s\n" % (x, "v3.0.0" if x.endswith(".v3") else "v1.0.0", x, ident(x)) for x in MODULES if x not in (m, MAIN)) if m == MAIN else ""
        fs[ident(m) + "/go.mod"] = lab.gomod(m, "1.21", req) if m == MAIN else "module %s\n\ngo 1.21\n" % m
        if m == MAIN:
            continue
    for m, ds in MODULES.items():
        for d in ds:
            p = pkgpath(m, d)
            v = c["pkgs"][p]
            base = ident(m) + "/" + (d + "/" if d else "")
            name = "main" if p == MAIN else ident(p.split("/")[-1])
            for fi in range(len(v["files"])):
                t = "package %s\n\n// %s\n" % (name, tag)
                for f in by.get(p, []):
                    if f["file"] != fi:
                        continue
                    recv = {"M": "(t T) ", "m": "(t T) ", "P": "(t *T) ", "p": "(t *T) "}.get(f["kind"], "")
                    t += "func %s%s(x int) int { return x*%d + %d }\n" % (recv, f["name"], f["n"] % 7 + 2, f["n"])
                fs[base + "f%d.go" % fi] = t
            t = "package %s\n\n// %s\n\ntype T struct{ X int }\n\n" % (name, tag)
            if v["var"]:
                t += "var V = 5\n\nfunc zreadV(x int) int { return V + x }\n\n"
            t += "//go:nosplit\nfunc Zcall(id string, x int) int {\n\tswitch id {\n"
            for f in by.get(p, []):
                e = {"F": f["name"], "f": f["name"], "M": "T{}." + f["name"], "m": "T{}." + f["name"], "P": "new(T)." + f["name"], "p": "new(T)." + f["name"]}[f["kind"]]
                t += "\tcase %s:\n\t\treturn %s(x)\n" % (json.dumps(f["id"]), e)
            if v["var"]:
                t += "\tcase \"V\":\n\t\treturn zreadV(x)\n"
            t += "\t}\n\tpanic(id)\n}\n"
            fs[base + "zz.go"] = t
    base = ident(MAIN) + "/"
    # targets
    alias = {p: "q" + ident(p) for p in by}

    def ref(f, here):
        q = "" if f["pkg"] == here else alias[f["pkg"]] + "."
        k = f["kind"]
        return q + f["name"] if k in "Ff" else (q + "T." if k in "Mm" else "(*" + q + "T).") + f["name"]

    def ftype(f, here):
        q = "" if f["pkg"] == here else alias[f["pkg"]] + "."
        if f.get("std"):
            return f["type"]
        return {"F": "func(int) int", "M": "func(%sT, int) int" % q, "P": "func(*%sT, int) int" % q}[f["kind"].upper()]
    idx = {(f["pkg"], f["id"]): f for l in by.values() for f in l}
    for where in ("main", "a", "test"):
        here = MAIN + "/a" if where == "a" else MAIN
        body, imps, rt = "", set(), set()
        for p, i, how, w in c["targets"]:
            if w != where or (p, i) not in idx:
                continue
            f = idx[(p, i)]
            if (not f["exported"] or p == MAIN) and here != p:
                continue
            if where == "a" and p == MAIN + "/a/b" and False:
                continue
            x = ref(f, here)
            if p != here:
                imps.add(p)
            if how in ("Patch", "Mock"):
                rt.add("mock")
                body += "\tmock.Patch(%s, (%s)(nil))\n" % (x, ftype(f, here)) if how == "Patch" else "\tmock.Mock(%s, nil)\n" % x
            elif how in ("RecordCall", "Record"):
                rt.add("trace")
                body += "\ttrace.%s(%s, nil%s)\n" % (how, x, ", nil" if how == "Record" else "")
            else:
                rt.add("trap")
                body += "\ttrap.%s(%s%s)\n" % (how, x, ", nil" if how == "AddFuncInterceptor" else "")
        if where == "main" and c["icpt"]:
            rt.add("trap")
            body += "\ttrap.AddInterceptor(nil)\n"
        fs[base + {"main": "targets.go", "a": "a/targets.go", "test": "t_test.go"}[where]] = (
            "package %s\n\nimport (\n%s%s%s)\n\nfunc zzTargets%s() {\n%s}\n%s" % (
                "a" if where == "a" else "main", "".join("\t\"github.com/xhd2015/xgo/runtime/%s\"\n" % x for x in sorted(rt)),
                "".join("\t%s \"%s\"\n" % (alias[p], p) for p in sorted(imps)), "\t\"testing\"\n" if where == "test" else "", where, body,
                "\nfunc TestProbe(t *testing.T) { main() }\n\nvar _ = zzTargetstest\n" if where == "test" else "\nvar _ = zzTargets%s\n" % where))
    # the probe: names are not literals, so that they are no targets
    t = "package main\n\nimport (\n\t\"fmt\"\n\t\"runtime\"\n\t\"os\"\n\t\"github.com/xhd2015/xgo/runtime/mock\"\n"
    if "reflect" in by:
        t += "\t\"reflect\"\n"
    for p in sorted(by):
        if p == MAIN:
            continue
        if p in STD:
            if p not in ("reflect", "os"):
                t += "\t\"%s\"\n" % p
        else:
            t += "\t%s \"%s\"\n" % (alias[p] + "_", p)
    t += ")\n\ntype entry struct {\n\tpkg, id string\n\tcall func() interface{}\n\trepl interface{}\n}\n\n"
    t += """func probe(e entry) (res string) {
	before := fmt.Sprint(e.call())
	undo, why := install(e)
	if undo == nil {
		if now := fmt.Sprint(e.call()); now != before {
			return "CHANGED " + why + before + " " + now
		}
		return why
	}
	now := fmt.Sprint(e.call())
	undo()
	if after := fmt.Sprint(e.call()); after != before {
		return "NOT UNDONE " + before + " " + after
	}
	switch now {
	case before:
		return "silently not"
	case "-77", "mocked":
		return "yes"
	}
	return "WRONG " + now
}

func install(e entry) (undo func(), why string) {
	defer func() {
		if r := recover(); r != nil {
			undo, why = nil, "no"
			if s, ok := r.(runtime.Error); ok {
				why = "PANIC " + s.Error()
			}
		}
	}()
	return mock.PatchByName(e.pkg, e.id, e.repl), ""
}

func call(f func(string, int) int, id string) func() interface{} {
	return func() interface{} { return f(id, 7) }
}

"""
    t += "func main() {\n\ts := \"<a b>/c\"\n\tfor _, e := range []entry{\n"
    for p in sorted(by):
        for f in by[p]:
            if f.get("std"):
                if p == "reflect":
                    t += "\t\t{\"reflect\", \"TypeOf\", func() interface{} { return reflect.TypeOf(s).String() }, func(interface{}) reflect.Type { return nil }},\n"
                    continue
                ps = f["type"][4:f["type"].rindex(")") + 1]
                t += "\t\t{\"%s\", \"%s\", func() interface{} { return %s }, func%s string { return \"mocked\" }},\n" % (p, f["id"], f["call"], ps)
            else:
                q = "" if p == MAIN else alias[p] + "_."
                rp = {"F": "", "M": q + "T, ", "P": "*" + q + "T, "}[f["kind"].upper()]
                t += "\t\t{\"%s\", \"%s\", call(%sZcall, \"%s\"), func(%s) int { return -77 }},\n" % (p, f["id"], q, f["id"], (rp + "int"))
        if p in c["pkgs"] and c["pkgs"][p]["var"]:
            q = "" if p == MAIN else alias[p] + "_."
            t += "\t\t{\"%s\", \"V\", call(%sZcall, \"V\"), func() int { return -84 }},\n" % (p, q)
    t += "\t} {\n\t\tfmt.Println(\"PROBE\", e.pkg, e.id, probe(e))\n\t}\n\t_ = os.Args\n}\n"
    fs[base + "main.go"] = t
    return fs


class Rules:
    def __init__(self, ck):
        self.ck = ck
        self.L = lab.Lab(ck, "E", gocmd=True)
        self.root = os.path.join(self.L.dir, "rules")
        os.makedirs(self.root)

    def run(self, c, name):
        """(message, classes)"""
        d = os.path.join(self.root, name)
        try:
            lab.write_tree(d, render(c, "case"))
            if c["file"] is not None:
                with open(d + "/rules.json", "w") as h:
                    json.dump({"filter_rules": c["file"]}, h)
            cwd = os.path.join(d, ident(MAIN), c["dir"])
            fl = [x.replace("@F", d + "/rules.json") for f in c["flags"] for x in f]
            env = {} if c["env"] is None else {"XGO_MOCK_RULE_INCLUDE_AS_MAIN_MODULE": c["env"]}
            env["GOFLAGS"] = "-mod=mod"
            if c["cmd"] == "test":
                args = ["test", "-v"] + fl + ["-run", "TestProbe", MAIN]
            elif c["cmd"] == "build":
                args = ["build", "-o", d + "/out.bin"] + fl + [MAIN]
            else:
                args = ["run"] + fl + [MAIN]
            rc, o, e, s = self.L.run(args, cwd=cwd, timeout=300, **env)
            if rc is None:
                raise Err("xgo %s does not end" % args)
            what = "xgo %s%s" % (" ".join("'%s'" % a if "{" in a else a for a in args), " with XGO_MOCK_RULE_INCLUDE_AS_MAIN_MODULE=" + c["env"] if c["env"] is not None else "")
            what = what.replace(d, "@")
            if c["file"] is not None:
                what += " rules.json: " + json.dumps(c["file"])
            if c.get("bad"):
                if rc == 0 or c["bad"].split(",")[-1] not in e or "goroutine " in e:
                    return "%s: the pattern %s is not reported as an error: exit %s %s" % (what, c["bad"], rc, e[-500:]), {}
                return "", {"bad pattern": 1}
            if rc != 0:
                return "%s fails (%s): %s" % (what, rc, (o + e)[-1500:].replace(d, "@")), {}
            if c["cmd"] == "build":
                rc, o, e, s = run([d + "/out.bin"], cwd=d, env=self.L.env(), timeout=60)
                if rc != 0:
                    return "%s: the program fails (%s): %s" % (what, rc, (o + e)[-1500:]), {}
            got = {}
            for l in o.splitlines():
                if l.startswith("PROBE "):
                    _, p, i, x = l.split(" ", 3)
                    got[(p, i)] = x
            want = model(c)
            cl, bad = {}, []
            if set(got) != set(want):
                return "%s: the program did not print every function: %s" % (what, o[-1000:]), {}
            for k, w in want.items():
                g = got[k]
                kind = "main" if within(k[0], MAIN) else "std" if k[0] in STD else "dependency"
                kind += " variable" if k[1] == "V" else ""
                n = "%s: %s" % (kind, {True: "can", False: "cannot", None: "unspecified"}[w])
                cl[n] = cl.get(n, 0) + 1
                if g not in ("yes", "no"):
                    bad.append("%s %s: %s" % (k[0], k[1], g))
                elif w is not None and (g == "yes") != w:
                    bad.append("%s.%s %s be intercepted, but %s" % (k[0], k[1], "can" if g == "yes" else "cannot", "should not" if g == "yes" else "should"))
            if bad:
                t = [x for x in c["targets"]]
                return "%s (targets %s%s):\n%s" % (what, t, ", trap.AddInterceptor" if c["icpt"] else "", "\n".join(bad[:8])), cl
            return "", cl
        finally:
            rmtree(d)

    def shrink(self, c, m):
        t0, k = time.time(), 0
        while time.time() - t0 < self.ck.scale(60, 200):
            cands = []
            for i in range(len(c["flags"])):
                cands.append(dict(c, flags=c["flags"][:i] + c["flags"][i + 1:], file=None if "@F" in " ".join(c["flags"][i]) else c["file"]))
            n = len(c["targets"])
            for z in (n // 2, 1):
                for i in range(0, n, z or 1):
                    if z:
                        cands.append(dict(c, targets=c["targets"][:i] + c["targets"][i + z:]))
            if c["env"] is not None:
                cands.append(dict(c, env=None))
            if c["icpt"]:
                cands.append(dict(c, icpt=False))
            if c["dir"]:
                cands.append(dict(c, dir=""))
            if c["cmd"] != "run":
                cands.append(dict(c, cmd="run"))
            for p, v in c["pkgs"].items():
                if sum(map(len, v["files"])) > 6 or len(v["files"]) > 1:
                    used = [x for x in c["targets"] if x[0] == p]
                    if not used:
                        cands.append(dict(c, pkgs=dict(c["pkgs"], **{p: {"files": [["F"]], "var": False}})))
            for q in cands:
                k += 1
                m2, _ = self.run(q, "s%d" % k)
                if m2:
                    c, m = q, m2
                    break
                if time.time() - t0 > self.ck.scale(60, 200):
                    return c, m
            else:
                break
        return c, m

    def search(self, n, workers):
        ck = self.ck
        if ck.replay:
            c = json.load(open(ck.replay))["case"]
            m, _ = self.run(c, "r")
            if m:
                ck.violation("rules", m, {"case": c})
            return
        limit = time.time() + ck.scale(110, 600)
        tot, nt, classes, bad = 0, 0, {}, None
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                c = gen(ck.seed * 7919 + i)
                return c, self.run(c, "c%d" % i)
            for x in ex.map(one, range(n)):
                if x is None:
                    continue
                c, (m, cl) = x
                tot += 1
                nt += bool(c["flags"] or c["env"] or c["targets"])
                for k, v in cl.items():
                    classes[k] = classes.get(k, 0) + v
                if m and not bad:
                    bad = (c, m)
        c = gen(ck.seed * 7919)
        ck.add_stats({"evaluations": tot, "nontrivial": nt, "classes": classes, "samples": [{k: c[k] for k in ("flags", "file", "env", "targets", "icpt", "cmd")}],
                      "rule": "a project of 5 modules and 13 packages, with rules, --trap, --trap-all, modules treated as main, targets, and every function and variable of it probed; non-trivial: some flag, rule or target"})
        if bad:
            c, m = self.shrink(*bad)
            ck.violation("rules", m, {"case": c})
