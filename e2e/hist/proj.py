"""A generated multi-package project as a value: functions, variables, mocks,
tests and module layout, rendered to files. Edits change the value."""

PKGS = {"main": ("p", "ex.com/p"), "a": ("p/a", "ex.com/p/a"), "b": ("p/a/b", "ex.com/p/a/b"), "dep": ("DEP", "ex.com/dep"), "x": ("DEP/x", "ex.com/dep/x")}
STD = {
    "html.EscapeString": ("html", "EscapeString", '"<b>"', "func(s string) string { return %s }", '"mock%d:" + s'),
    "html.UnescapeString": ("html", "UnescapeString", '"&lt;"', "func(s string) string { return %s }", '"mock%d:" + s'),
    "url.QueryEscape": ("net/url", "QueryEscape", '"a b"', "func(s string) string { return %s }", '"mock%d:" + s'),
    "url.PathEscape": ("net/url", "PathEscape", '"a/b"', "func(s string) string { return %s }", '"mock%d:" + s'),
}
KINDS = ("func", "func", "ptr", "val", "gen")


def new(r):
    s = {"funcs": [], "vars": [], "mocks": [], "vmocks": [], "icept": False, "recs": [], "top": {}, "tag": {}, "dep": "dep", "depk": {"dep": 1, "dep2": 2}, "tests": {},
         "trace": False, "err": None, "n": 0, "std": ["html.EscapeString"], "note": 0, "gov": "1.18"}
    for p in ("main", "a", "b", "dep", "x"):
        for i in range(r.randint(1, 3)):
            addfunc(r, s, p)
        if r.random() < .7:
            addvar(r, s, p)
    # a name made of two others
    s["n"] += 3
    n = s["n"]
    s["joined"] = ["A%d" % n, "B%d" % n, "A%dB%d" % (n, n)]
    for x in s["joined"]:
        s["funcs"].append({"pkg": "dep", "file": "f1", "name": x, "kind": "func", "k": n, "pad": 0, "sh": 0})
    for t in ("main", "a"):
        s["tests"][t] = [1]
    return s


def addfunc(r, s, p=None):
    s["n"] += 1
    p = p or r.choice(list(PKGS))
    s["funcs"].append({"pkg": p, "file": r.choice(("f1", "f1", "f2")), "name": r.choice("FGH") + str(s["n"]), "kind": r.choice(KINDS), "k": r.randint(1, 99), "pad": 0, "sh": 0})


def addvar(r, s, p=None):
    s["n"] += 1
    s["vars"].append({"pkg": p or r.choice(("main", "a", "b")), "file": r.choice(("f1", "f2")), "name": "V" + str(s["n"]), "k": r.randint(1, 99), "const": False})


def ref(f, frm, fn=True):
    """the function as seen from package frm"""
    q = "" if f["pkg"] == frm else f["pkg"] + "."
    n = f["name"]
    if f["kind"] == "func":
        return q + n
    if f["kind"] == "gen":
        return q + n + "[int]"
    if f["kind"] == "ptr":
        return "(&%sT%s{}).M%s" % (q, n, n)
    return "%sT%s{}.M%s" % (q, n, n)


def decl(f):
    n, k = f["name"], f["k"]
    body = "x*100 + %d" % k
    pad = "".join("\t// line %d\n" % i for i in range(f["pad"]))
    if f["sh"]:
        body = "int(int64(x)*100 + %d)" % k
    if f["kind"] == "func":
        return "func %s(x int) int {\n%s\treturn %s\n}\n" % (n, pad, body)
    if f["kind"] == "gen":
        return "func %s[T int | string](t T) int {\n%s\treturn len([]T{t}) + %d\n}\n" % (n, pad, k)
    if f["kind"] == "ptr":
        return "type T%s struct{ k int }\n\nfunc (t *T%s) M%s(x int) int {\n%s\treturn t.k + %s\n}\n" % (n, n, n, pad, body)
    return "type T%s struct{ k int }\n\nfunc (t T%s) M%s(x int) int {\n%s\treturn t.k + %s\n}\n" % (n, n, n, pad, body)


def mockval(f, i):
    return "func(x int) int { return -%d }" % i


def render(s):
    """path -> text, for both dep and dep2"""
    out = {}
    out["p/go.mod"] = "module ex.com/p\n\ngo %s\n\nrequire ex.com/dep v0.0.0\n\nreplace ex.com/dep => ../%s\n@RUNTIME@" % (s["gov"], s["dep"])
    out["p/rules.json"] = '{"filter_rules":[{"pkg":"ex.com/dep/**","kind":"func","action":"include"}]}'
    for d in ("dep", "dep2"):
        out[d + "/go.mod"] = "module ex.com/dep\n\ngo 1.18\n"
    for p, (dir, path) in PKGS.items():
        for d in (("dep", "dep2") if dir.startswith("DEP") else ("",)):
            dd = dir.replace("DEP", d)
            files = {}
            for f in s["funcs"]:
                if f["pkg"] == p:
                    g = f if not d else dict(f, k=f["k"] + s["depk"][d])
                    files.setdefault(f["file"], []).append(decl(g))
            for v in s["vars"]:
                if v["pkg"] == p:
                    files.setdefault(v["file"], []).append("var %s = %s\n" % (v["name"], "%d" % v["k"] if not v["const"] else "int(%d)" % v["k"]))
            if p != "main":
                files.setdefault("f1", [])
                files["f1"].append("func Vars() []int {\n\treturn []int{%s}\n}\n" % ", ".join(v["name"] for v in s["vars"] if v["pkg"] == p and not s["tag"].get("%s/%s" % (p, v["file"]))))
                files["f1"].append("func Where() string {\n\t_, f, l, _ := runtime.Caller(0)\n\treturn fmt.Sprint(filepath.Base(f), \":\", l)\n}\n")
            for fn, ds in files.items():
                key = "%s/%s" % (p, fn)
                head = ""
                t = s["tag"].get(key)
                head += "//go:build %s\n\n" % t if t else ""
                head += "// note %d\n" % s["note"] if s["note"] and fn == "f1" else ""
                head += "".join("// %d\n" % i for i in range(s["top"].get(key, 0)))
                if head and not head.endswith("\n\n"):
                    head += "\n"
                imp = "import (\n\t\"fmt\"\n\t\"path/filepath\"\n\t\"runtime\"\n)\n\n" if fn == "f1" and p != "main" else ""
                text = head + "package %s\n\n" % p + imp + "\n".join(ds)
                if s["err"] and s["err"][1] == key:
                    text += {"syntax": "\nfunc {\n", "type": "\nvar bad int = \"s\"\n", "import": "\nvar bad = undefined.X\n"}[s["err"][0]]
                out["%s/%s.go" % (dd, fn)] = text
    out["p/main.go"] = main(s)
    for p, ts in s["tests"].items():
        dd = PKGS[p][0]
        b = ["package %s\n\nimport \"testing\"\n" % p]
        for t in ts:
            fs = [f for f in s["funcs"] if f["pkg"] == p and not s["tag"].get("%s/%s" % (p, f["file"]))]
            lines = "".join("\tt.Log(%s(%s))\n" % (ref(f, p), "2") for f in fs)
            if p == "main" and t == 1:
                lines += "\tobserve()\n"
            b.append("func Test%s%d(t *testing.T) {\n%s\tif len(t.Name()) == 0 {\n\t\tt.Fatal(1)\n\t}\n}\n" % (p.upper(), t, lines))
        out["%s/x_test.go" % dd] = "\n".join(b)
    return out


def visible(s, f):
    return not s["tag"].get("%s/%s" % (f["pkg"], f["file"]))


def main(s):
    fs = [f for f in s["funcs"] if visible(s, f)]
    used = {f["pkg"] for f in fs} | {"a", "b", "dep", "x"}
    std = sorted(set(s["std"]) | {m["std"] for m in s["mocks"] if m.get("std")})
    imps = ["fmt", "os"] + sorted({STD[x][0] for x in std})
    imps += [PKGS[p][1] for p in ("a", "b", "dep", "x")]
    by = {f["name"]: f for f in fs}
    mocks = [m for m in s["mocks"] if m.get("std") or m["f"] in by]
    vmocks = [m for m in s["vmocks"] if any(v["name"] == m["v"] and v["pkg"] == "main" and visible(s, v) for v in s["vars"])]
    recs = [n for n in s["recs"] if n in by]
    if mocks or vmocks:
        imps.append("github.com/xhd2015/xgo/runtime/mock")
    if s["icept"] or recs:
        imps.append("github.com/xhd2015/xgo/runtime/trap")
        imps.append("github.com/xhd2015/xgo/runtime/core")
        imps.append("context")
    if s["trace"]:
        imps.append("github.com/xhd2015/xgo/runtime/trace")
    o = ["package main\n\nimport (\n" + "".join('\t"%s"\n' % i for i in sorted(imps)) + ")\n"]
    o.append("var seen []string\n\nfunc obs(name string, f func() interface{}) {\n\tseen = nil\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tfmt.Println(name, \"panic\", e)\n\t\t}\n\t}()\n\tr := f()\n\tfmt.Println(name, r, seen)\n}\n")
    o.append("func try(name string, f func()) {\n\tdefer func() {\n\t\tif e := recover(); e != nil {\n\t\t\tfmt.Println(\"setup\", name, \"failed\")\n\t\t}\n\t}()\n\tf()\n}\n")
    o.append("func main() {\n\tobserve()\n\tif len(os.Args) > 1 {\n\t\tfmt.Println(os.Args[1:])\n\t}\n}\n")
    b = []
    if s["icept"]:
        b.append("\ttrap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {\n\t\tif f.IdentityName != \"obs\" && f.IdentityName != \"observe\" && f.IdentityName != \"try\" {\n\t\t\tseen = append(seen, f.IdentityName)\n\t\t}\n\t\treturn nil, nil\n\t}})\n")
    for n in recs:
        b.append("\ttry(\"%s\", func() {\n\t\ttrap.AddFuncInterceptor(%s, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {\n\t\t\tseen = append(seen, \"rec:\"+f.IdentityName)\n\t\t\treturn nil, nil\n\t\t}})\n\t})\n" % (n, ref(by[n], "main")))
    for i, m in enumerate(mocks):
        if m.get("std"):
            pkg, name, arg, sig, val = STD[m["std"]]
            fv = sig % (val % m["v"])
            if m["how"] == "name":
                b.append("\ttry(\"%s\", func() { mock.PatchByName(\"%s\", \"%s\", %s) })\n" % (m["std"], pkg, name, fv))
            else:
                b.append("\ttry(\"%s\", func() { mock.Patch(%s, %s) })\n" % (m["std"], m["std"], fv))
        else:
            f = by[m["f"]]
            fv = mockval(f, m["v"])
            if m["how"] == "name" and f["kind"] == "func":
                b.append("\ttry(\"%s\", func() { mock.PatchByName(\"%s\", \"%s\", %s) })\n" % (f["name"], PKGS[f["pkg"]][1], f["name"], fv))
            else:
                b.append("\ttry(\"%s\", func() { mock.Patch(%s, %s) })\n" % (f["name"], ref(f, "main"), fv))
    for m in vmocks:
        b.append("\ttry(\"%s\", func() { mock.Patch(&%s, func() int { return -%d }) })\n" % (m["v"], m["v"], m["k"]))
    if s["trace"]:
        b.append("\ttrace.Trace(trace.Config{OnFinish: func(st trace.Stack) { fmt.Println(\"traced\") }}, nil, func() (interface{}, error) {\n\t\tcalls()\n\t\treturn nil, nil\n\t})\n")
    else:
        b.append("\tcalls()\n")
    o.append("func observe() {\n" + "".join(b) + "}\n")
    c = []
    for f in fs:
        c.append("\tobs(\"%s\", func() interface{} { return %s(3) })\n" % (f["name"], ref(f, "main")))
    for x in std:
        c.append("\tobs(\"%s\", func() interface{} { return %s(%s) })\n" % (x, x, STD[x][2]))
    for v in s["vars"]:
        if v["pkg"] == "main" and visible(s, v):
            c.append("\tobs(\"%s\", func() interface{} { return %s })\n" % (v["name"], v["name"]))
    for p in ("a", "b", "dep", "x"):
        c.append("\tobs(\"%s.Vars\", func() interface{} { return %s.Vars() })\n\tobs(\"%s.Where\", func() interface{} { return %s.Where() })\n" % (p, p, p, p))
    o.append("func calls() {\n" + "".join(c) + "}\n")
    return "\n".join(o)


def edit(r, s):
    """one edit in place; returns its name"""
    k = r.choice(["k", "k", "k", "k", "addf", "delf", "movef", "pad", "top", "top", "mock", "mock", "mock", "mock", "stdmock", "stdmock", "std", "unmock", "unmock", "icept", "rec", "rec", "vmock", "var",
                  "varshape", "tag", "dep", "depk", "tests", "trace", "err", "note", "kind", "shape", "gov", "join", "join", "restore", "none", "vis"])
    s["err"] = None if s["err"] and r.random() < .8 else s["err"]
    f = r.choice(s["funcs"])
    if k == "k":
        f["k"] = r.randint(1, 99)
    elif k == "addf":
        addfunc(r, s)
    elif k == "delf" and len(s["funcs"]) > 4:
        s["funcs"].remove(f)
    elif k == "movef":
        f["file"] = r.choice(("f1", "f2", "f3"))
    elif k == "pad":
        f["pad"] = r.randint(0, 3)
    elif k == "top":
        s["top"]["%s/%s" % (f["pkg"], f["file"])] = r.randint(0, 3)
    elif k == "mock":
        s["mocks"].append({"f": f["name"], "v": r.randint(1, 99), "how": r.choice(("name", "ref"))})
    elif k == "stdmock":
        s["mocks"].append({"std": r.choice(list(STD)), "v": r.randint(1, 99), "how": r.choice(("name", "ref"))})
    elif k == "std":
        s["std"] = r.sample(list(STD), r.randint(1, len(STD)))
    elif k == "unmock" and s["mocks"]:
        s["mocks"].pop(r.randrange(len(s["mocks"])))
    elif k == "join":
        a, b, ab = s["joined"]
        had = {m.get("f") for m in s["mocks"]}
        s["mocks"] = [m for m in s["mocks"] if m.get("f") not in (a, b, ab)]
        for x in ([a, b] if ab in had else [ab]):
            s["mocks"].append({"f": x, "v": r.randint(1, 99), "how": "ref"})
    elif k == "icept":
        s["icept"] = not s["icept"]
    elif k == "rec":
        if s["recs"] and r.random() < .5:
            s["recs"].pop()
        else:
            s["recs"].append(f["name"])
            s["recs"] = sorted(set(s["recs"]))
    elif k == "vmock":
        vs = [v for v in s["vars"] if v["pkg"] == "main"]
        if s["vmocks"] and r.random() < .4:
            s["vmocks"].pop()
        elif vs:
            s["vmocks"] = [{"v": r.choice(vs)["name"], "k": r.randint(1, 99)}]
    elif k == "var":
        addvar(r, s)
    elif k == "varshape" and s["vars"]:
        v = r.choice(s["vars"])
        v["const"] = not v["const"]
    elif k == "tag":
        key = "%s/%s" % (r.choice(("a", "b", "main")), "f2")
        s["tag"][key] = r.choice((None, "t1", "!t1", "ignore"))
        # only functions in it that nothing refers to by name
    elif k == "dep":
        s["dep"] = "dep2" if s["dep"] == "dep" else "dep"
    elif k == "depk":
        s["depk"][r.choice(("dep", "dep2"))] = r.randint(1, 9)
    elif k == "tests":
        p = r.choice(("main", "a", "b"))
        t = s["tests"].setdefault(p, [])
        if t and r.random() < .4 and len(t) > 1:
            t.pop()
        else:
            t.append(len(t) + 1)
    elif k == "trace":
        s["trace"] = not s["trace"]
    elif k == "err":
        s["err"] = [r.choice(("syntax", "type", "import")), "%s/%s" % (r.choice(("main", "a", "b", "dep")), "f1")]
    elif k == "note":
        s["note"] += 1
    elif k == "kind":
        f["kind"] = r.choice(KINDS)
    elif k == "shape":
        f["sh"] = 1 - f["sh"]
    elif k == "gov":
        s["gov"] = r.choice(("1.18", "1.21", "1.24"))
    else:
        return "none"
    return k
