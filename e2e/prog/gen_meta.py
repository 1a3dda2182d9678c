"""Packages of declarations of every shape, for the checks of metadata. Bodies
are never run."""
import random
from e2e.prog.diff import Opt, Program

DIRS = ["", "sub.v2", "a-b", "in/same", "out/same", "v1.2.x", "e~f", "g+h", "x.y/z", "Upper", "pkg/w.1", "main", "_u", "T"]
NAMES = ["F", "f", "FF", "F_", "Get", "get", "String", "T0", "Méthode", "世", "ΔF", "a", "Do", "do", "X", "Y", "Main2", "init2", "Close", "Error", "New", "T0_F", "run", "F1"]
FIELDS = ["a", "b", "ctx", "err", "é", "_", "_", "x1", "self", "args", "result", "r"]
TYPES = ["int", "string", "error", "context.Context", "[]int", "map[string]int", "func(int) error", "interface{}", "*int", "struct{}", "chan int", "[3]byte", "struct{ A, B int }", "context.CancelFunc"]


class G:
    def __init__(self, seed, dep=False):
        self.dep = dep
        self.r = random.Random(seed)
        self.classes = set()

    def ch(self, p):
        return self.r.random() < p

    def pick(self, xs):
        return self.r.choice(xs)

    def fields(self, n, taken, result=False):
        """a list of parameters or results with parentheses"""
        r = self.r
        if n == 0:
            return "()" if not result else r.choice(["", "()"])
        ts = [self.pick(TYPES) for _ in range(n)]
        if n and self.ch(0.3):
            ts[-1 if result else 0] = "error" if result else "context.Context"
        if not self.ch(0.6):  # unnamed
            if result and n == 1 and self.ch(0.8):
                return " " + ts[0]
            if not result and self.ch(0.2):
                ts[-1] = "..." + ts[-1]
            self.classes.add("unnamed fields")
            return "(" + ", ".join(ts) + ")"
        out = []
        names = []
        for t in ts:
            name = self.pick(FIELDS)
            if name == "_":
                self.classes.add("blank fields")
            elif name in taken:
                name = "n%d" % len(taken)
            taken.add(name)
            names.append(name)
        i = 0
        while i < n:
            k = 2 if i + 1 < n and self.ch(0.3) else 1
            out.append(", ".join(names[i:i + k]) + " " + ts[i + k - 1])
            i += k
        if not result and self.ch(0.15):
            last = out[-1].rsplit(",", 1)[-1]
            if k == 1:
                out[-1] = names[-1] + " ..." + ts[-1]
        sep = self.pick([", ", ", ", ",\n\t", ", /* c */ "])
        return "(" + sep.join(out) + (",\n" if sep == ",\n\t" else "") + ")"

    def tparams(self, taken):
        n = self.r.randint(1, 2)
        names = ["A", "B"][:n]
        taken.update(names)
        c = [self.pick(["any", "comparable", "~int | ~string", "interface{}"]) for _ in names]
        if n == 2 and self.ch(0.4):
            return "[%s any]" % ", ".join(names), names
        return "[%s]" % ", ".join("%s %s" % x for x in zip(names, c)), names

    def package(self, path):
        r = self.r
        name = r.choice(["p", "pk", "q9"]) if path else "PKG"
        types = []  # name, generic parameters, methods allowed
        decls = []
        used = set()

        def fresh(cands):
            for _ in range(20):
                n = self.pick(cands)
                if n not in used:
                    used.add(n)
                    return n
            n = "N%d" % len(used)
            used.add(n)
            return n

        for i in range(r.randint(1, 4)):
            tn = fresh(["T0", "T1", "T", "TT", "t", "Типа", "F", "Get", "S"])
            k = r.randint(0, 6)
            if k <= 2:
                body = self.pick(["struct{ A int }", "struct{}", "int", "[]string", "func()", "map[string]int", "struct {\n\tA, B int\n}"])
                types.append((tn, []))
            elif k <= 4:
                tp, ns = self.tparams(set())
                body = tp + " " + self.pick(["struct{ X %s }" % ns[0], "[]%s" % ns[0], "struct{}", "func(%s)" % ns[-1]])
                types.append((tn, ns))
                self.classes.add("generic type")
            elif k == 5:
                body = self.pick(["interface{ M(a int) error }", "interface {\n\tM()\n\tGet(context.Context) (int, error)\n}", "interface{}", "[A any] interface{ M(A) }"])
                self.classes.add("interface")
            else:
                body = "= " + self.pick(["int", "struct{ A int }", "map[string]error"])
            if self.ch(0.25):
                decls.append("type (\n\n\t%s %s\n)\n" % (tn, body))
            else:
                decls.append("type %s %s\n" % (tn, body))
        for i in range(r.randint(2, 9)):
            taken = set()
            doc = self.pick(["", "", "", "// comment\n", "//go:noinline\n", "/* c\n c */\n", "/* c */ "])
            if self.ch(0.08):
                doc = self.pick(["//go:nosplit\n", "// x\n//go:nosplit\n"])
                self.classes.add("nosplit")
            # the compiler knows the line of the name only
            nl = self.pick([" ", " ", " ", " " if self.dep else "\n", " /* c */ "])
            if types and self.ch(0.55):
                tn, ns = self.pick(types)
                # methods are unique per type
                for _ in range(20):
                    m = self.pick(NAMES)
                    if (tn, m) not in used and m != "X" and m not in ("A", "B"):
                        break
                else:
                    continue
                used.add((tn, m))
                t = tn
                if ns:
                    tn2 = [self.pick([n, n, n + "1", "_"]) for n in ns]
                    t += "[" + ", ".join(tn2) + "]"
                    taken.update(tn2)
                p = r.randint(0, 7)
                t = t if p <= 2 else "*" + t if p <= 5 else "(*%s)" % t if p == 6 else "*(%s)" % t
                if p >= 6 and ns:
                    t = "*" + t.strip("(*)")
                rn = self.pick(["", "_ ", "r ", "t ", "self "])
                if rn.strip() and rn.strip() not in ("_",):
                    taken.add(rn.strip())
                tp = ""
                if self.ch(0.1):
                    names = ["C", "D"][:r.randint(1, 2)]
                    tp = "[%s any]" % ", ".join(names)
                    taken.update(names)
                    self.classes.add("generic method")
                self.classes.add("method")
                head = "func%s(%s%s) %s%s" % (nl, rn, t, m, tp)
            else:
                m = fresh(NAMES)
                tp = ""
                if self.ch(0.3):
                    tp, _ = self.tparams(taken)
                    self.classes.add("generic function")
                head = "func%s%s%s" % (nl, m, tp)
            ps = self.fields(r.randint(0, 4), taken)
            rs = self.fields(self.pick([0, 0, 1, 1, 2, 3]), taken, True)
            decls.append(Opt(["%s%s%s%s {%spanic(\"run\")%s}\n" % (doc, head, ps, rs, *self.pick([("\n\t", "\n"), (" ", " "), ("", "")]))]))
        if self.ch(0.3):
            decls.append("func init() {\n\t_ = 1\n}\n")
        if self.ch(0.2):
            decls.append("func _() {}\n")
        for i in range(r.randint(0, 4)):
            n = fresh(["v", "V", "vv", "err0", "v2", "Vé", "x", "Default"])
            t = self.pick(["int", "string", "[]int", "map[string]int", "error", "func() int", "*int", "struct{ A int }", "context.Context"])
            form = r.randint(0, 4)
            if form == 0:
                decls.append(Opt(["var %s %s\n" % (n, t)]))
            elif form == 1:
                decls.append(Opt(["var (\n\t// c\n\n\t%s %s\n)\n" % (n, t)]))
            elif form == 2:
                m = fresh(["w", "W", "w2"])
                decls.append(Opt(["var %s,\n\t%s %s\n" % (n, m, t)]))
                self.classes.add("two variables")
            elif form == 3:
                decls.append(Opt(["var %s = %s\n" % (n, self.pick(["1", '"s"', "[]int{1}", "struct{ A int }{}", "new(int)", "1.5"]))]))
            else:
                m = fresh(["w", "W", "w2"])
                decls.append(Opt(["var (\n\t%s, _ %s\n\n\t%s = 'x' // c\n)\n" % (n, t, m)]))
                self.classes.add("group of variables")
        r.shuffle(decls)
        nf = self.pick([1, 1, 2, 3])
        files = {}
        for i in range(nf):
            f = self.pick(["a", "b", "z", "éf", "c.d", "e-f"]) + str(i) + ".go"
            pre = self.pick(["", "", "// c\n\n", "\n\n", "/* c\n*/ "])
            imp = self.pick(['import "context"\n', 'import (\n\t"context"\n)\n'])
            files[f] = [pre + "package %s\n\n%s\nvar _ context.Context\n\n" % (name, imp)] + [[d, self.pick(["", "\n", "\n\n"])] for d in decls[i::nf]]
        return files


def gen(seed, dep=False):
    g = G(seed, dep)
    files = {}
    # the root needs a file, for it is the one imported
    dirs = [""] + g.r.sample(DIRS[1:], g.r.randint(0, 3))
    for d in dirs:
        for f, t in g.package(d).items():
            files[(d + "/" if d else "") + f] = t
        if d:
            g.classes.add("sub package")
        if "." in d.rsplit("/", 1)[-1]:
            g.classes.add("dotted path")
    return Program(files, {"classes": sorted(g.classes)})


def gen_dep(seed):
    p = gen(seed, True)
    p.files["@dep"] = ["1"]
    return p
