"""Random programs around function declarations (I01, I03).

Every declaration form the language has: the generator chooses how each
parameter, result, receiver and type parameter is written, in what layout and
with which comments, and a body with defers, recovers, gotos, closures,
goroutines and calls of the other functions."""
import random
from e2e.prog.diff import Opt, Program

PRELUDE = '''
type T struct {
	N int
	S string
}

type PT = *T

type Num int
type Str string
type Sl []int
type Mp map[string]int
type Fn func(int) int
type Ch chan int
type Ar [3]int

type Box[X any] struct {
	V X
	N int
}

type Pair[K comparable, V any] struct {
	K K
	V V
}

type Inner struct{ T }
type Outer struct {
	*Inner
	Num
	Box[int]
	X int
}

type Shower interface{ Show() string }

type Number interface {
	~int | ~int64 | ~float64
}

type (
	Gen[X any]   interface{ Do(X) X }
	Empty        interface{}
	Both         interface {
		Shower
		Number
	}
	Alias = interface{ Show() string }
	Cmp   interface{ comparable }
)

type myErr struct{ c int }

func (e *myErr) Error() string { return fmt.Sprint("myErr ", e.c) }

func (t T) Show() string      { return fmt.Sprint("T", t.N, t.S) }
func (t *T) Inc(d int)        { t.N += d }
func (n Num) Show() string    { return fmt.Sprint("Num", int(n)) }

var depth int
var logN int

func out(a ...interface{}) {
	logN++
	if logN < 3000 && os.Args[1] == "PKG" {
		fmt.Println(a...)
	}
}

func enter() bool {
	depth++
	return depth < 30 && logN < 3000
}
func leave() { depth-- }

func try(name string, f func()) {
	d := depth
	defer func() {
		if e := recover(); e != nil {
			depth = d
			out(name, "panicked:", rec(e))
		}
	}()
	f()
}

func rec(e interface{}) string {
	if x, ok := e.(runtime.Error); ok {
		return "runtime error " + x.Error()
	}
	if x, ok := e.(error); ok {
		return "error " + x.Error()
	}
	return fmt.Sprintf("%T %v", e, e)
}

func seq(n int) iter.Seq[int] {
	return func(yield func(int) bool) {
		defer func() { logN++ }()
		for i := 0; i < n; i++ {
			if !yield(i) {
				return
			}
		}
	}
}

func sh(x interface{}) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case int, string, bool, float64, rune, []int, [3]int, map[string]int, T, Num, Str, Sl, Mp, Ar, Box[int], Box[string], []string, struct{ a, b int }, complex128, byte, []byte, struct{}:
		return fmt.Sprintf("%v", v)
	case *T:
		if v == nil {
			return "nil T"
		}
		return "&" + v.Show()
	case error:
		return "err " + v.Error()
	case Shower:
		return v.Show()
	}
	return fmt.Sprintf("%T", x)
}
'''

IMPORTS = ["fmt", "iter", "runtime", "strings", "sync", "errors"]

# type -> literals
LIT = {
    "int": lambda r: str(r.randrange(9)),
    "string": lambda r: '"%s"' % r.choice(["", "a", "bc", "é"]),
    "bool": lambda r: r.choice(["true", "false"]),
    "float64": lambda r: r.choice(["1.5", "0.25"]),
    "rune": lambda r: r.choice(["'a'", "'é'"]),
    "[]int": lambda r: r.choice(["nil", "[]int{%d, 2}" % r.randrange(5)]),
    "[3]int": lambda r: "[3]int{%d, 1}" % r.randrange(5),
    "map[string]int": lambda r: 'map[string]int{"k": %d}' % r.randrange(5),
    "T": lambda r: 'T{%d, "t"}' % r.randrange(5),
    "*T": lambda r: r.choice(["nil", '&T{%d, "p"}' % r.randrange(5)]),
    "PT": lambda r: '&T{%d, "q"}' % r.randrange(5),
    "Num": lambda r: "Num(%d)" % r.randrange(5),
    "Str": lambda r: 'Str("s%d")' % r.randrange(5),
    "Sl": lambda r: "Sl{%d}" % r.randrange(5),
    "Mp": lambda r: 'Mp{"m": %d}' % r.randrange(5),
    "Ar": lambda r: "Ar{%d}" % r.randrange(5),
    "error": lambda r: r.choice(["nil", 'errors.New("e%d")' % r.randrange(3), "&myErr{%d}" % r.randrange(3)]),
    "interface{}": lambda r: r.choice(["nil", "%d" % r.randrange(5), '"i"', "T{1, \"i\"}"]),
    "any": lambda r: r.choice(["nil", "2.5", "Num(3)"]),
    "Shower": lambda r: r.choice(["nil", "Num(4)", 'T{2, "w"}']),
    "interface{ Show() string }": lambda r: "Num(6)",
    "func(int) int": lambda r: "func(x int) int { return x + %d }" % r.randrange(5),
    "func(a, b int, _ string) (x int, err error)": lambda r: "func(a, b int, _ string) (int, error) { return a - b, nil }",
    "func()": lambda r: "func() {}",
    "Fn": lambda r: "Fn(func(int) int { return %d })" % r.randrange(5),
    "chan int": lambda r: "make(chan int, 2)",
    "<-chan int": lambda r: "make(<-chan int)",
    "chan<- func() int": lambda r: "make(chan<- func() int, 1)",
    "struct{}": lambda r: "struct{}{}",
    "struct{ a, b int }": lambda r: "struct{ a, b int }{%d, 2}" % r.randrange(5),
    "Box[int]": lambda r: "Box[int]{V: %d}" % r.randrange(5),
    "Box[string]": lambda r: 'Box[string]{V: "b"}',
    "*Box[int]": lambda r: "&Box[int]{V: %d}" % r.randrange(5),
    "Pair[string, int]": lambda r: 'Pair[string, int]{"pk", %d}' % r.randrange(5),
    "[]string": lambda r: '[]string{"x%d"}' % r.randrange(5),
    "complex128": lambda r: "1 + 2i",
    "[]byte": lambda r: '[]byte("by")',
    "func(...int) []int": lambda r: "func(a ...int) []int { return a }",
    "*[3]int": lambda r: "&[3]int{7}",
    "uintptr": lambda r: "uintptr(9)",
    "*func() error": lambda r: "new(func() error)",
    "map[T][]*T": lambda r: "map[T][]*T{}",
    "iter.Seq[int]": lambda r: "seq(%d)" % r.randrange(4),
    "*sync.Mutex": lambda r: "new(sync.Mutex)",
    "strings.Builder": lambda r: "strings.Builder{}",
}
COMMON = ["int"] * 8 + ["string"] * 3 + ["error"] * 3 + ["*T"] * 2 + ["bool", "interface{}"]
ALLT = list(LIT)
VIEWABLE = {t: "%s" for t in ALLT if t not in ("func(int) int", "func(a, b int, _ string) (x int, err error)", "func()", "Fn", "chan int", "<-chan int", "chan<- func() int", "*[3]int", "*Box[int]", "Pair[string, int]", "func(...int) []int", "*func() error", "map[T][]*T", "iter.Seq[int]", "*sync.Mutex", "strings.Builder", "uintptr")}
VIEWABLE["*Box[int]"] = "(*%s)"
PNAMES = ["a", "b", "c", "x", "y", "n", "s", "err", "ok", "r", "t", "v", "f", "i", "p", "ctx", "recv", "res", "args", "results", "post", "stop", "info", "fmtx", "len", "cap", "string", "int", "error", "append", "make", "new", "panic", "recover", "print", "true", "iota", "any", "min", "fmt", "runtime", "strings", "é", "_x", "T", "Num", "out2", "Box", "init", "main", "PKG", "unsafe", "sub", "__xgo", "float64", "copy", "byte", "func1", "L1", "trap", "nil_"]
# names whose use in the body would break what the generator writes
PREDECL = {"len", "cap", "string", "int", "error", "append", "make", "new", "panic", "recover", "print", "true", "iota", "any", "min", "fmt", "runtime", "strings", "T", "Num", "Box", "float64", "copy", "byte"}


class Fun:
    pass


class G:
    def __init__(self, seed, pos=False, dep=False):
        self.r = random.Random(seed)
        self.funs = []
        self.classes = set()
        self.k = 0
        self.pos, self.dep = pos, dep
        self.line_dir = False

    def ch(self, p):
        return self.r.random() < p

    def uid(self):
        self.k += 1
        return self.k

    def typ(self, hidden=()):
        while True:
            t = self.r.choice(COMMON) if self.ch(0.6) else self.r.choice(ALLT)
            if not any(h in t for h in hidden):
                return t

    def sp(self):
        """white space and comments where any may be"""
        return self.r.choice([""] * 12 + [" ", " ", "/*c*/", " /* a, b int) */ ", " /* { */ "])

    # ------------------------------------------------------------ signatures
    def fields(self, named, n, allow_variadic, taken, hidden, result=False):
        """-> list of (name or None, type, variadic)"""
        r = self.r
        fs = []
        for i in range(n):
            t = self.typ(hidden)
            name = None
            if named:
                if self.ch(0.2):
                    name = "_"
                else:
                    name = r.choice(PNAMES)
                    if name in taken or name in t or (name in PREDECL and self.ch(0.6)):
                        name = "q%d" % self.uid()
                    taken.add(name)
            fs.append([name, t, False])
        if allow_variadic and fs and self.ch(0.15):
            fs[-1][2] = True
        if named:
            # a name must not hide a type that is written in the signature
            used = " ".join(t for _, t, _ in fs)
            for f in fs:
                if f[0] != "_" and f[0] in PREDECL and f[0] in used:
                    taken.discard(f[0])
                    f[0] = "q%d" % self.uid()
        return [tuple(f) for f in fs]

    def write_fields(self, fs, result=False):
        r = self.r
        if not fs:
            return "(" + self.sp() + ")"
        parts = []
        i = 0
        while i < len(fs):
            name, t, var = fs[i]
            j = i + 1
            if name is not None:
                while j < len(fs) and fs[j][1] == t and not fs[j][2] and not var and self.ch(0.7):
                    j += 1
                names = ("," + r.choice(["", " ", "/*,*/"])).join(f[0] for f in fs[i:j])
                parts.append(names + " " + self.sp() + ("..." if var else "") + t)
            else:
                tt = "(%s)" % t if self.ch(0.05) and not var else t
                parts.append(self.sp() + ("..." if var else "") + tt)
            i = j
        style = r.randrange(12)
        if style == 0:
            return "(\n\t" + ",\n\t".join(parts) + ",\n)"
        if style == 1:
            return "(" + ",\n\t".join(parts) + ")"
        if style == 2:
            return "(" + ", ".join(parts) + ",)"
        if style == 3:
            return "(\n\t// a comment (\n\t" + ", // {\n\t".join(parts) + ", // }\n)"
        return "(" + self.sp() + (",%s" % r.choice([" ", " ", ""])).join(parts) + self.sp() + ")"

    def fun(self, pkg="main"):
        r = self.r
        f = Fun()
        f.id = self.uid()
        f.name = "%s%d" % (r.choice(["f", "F", "f", "é", "_g", "Init", "x_init"] + (["F", "Get", "É"] * 4 if self.dep else [])), f.id)
        f.kind = r.choice(["func"] * 6 + ["T", "*T", "Num", "*Num", "Sl", "Mp", "Fn", "Ch", "Ar", "Box", "*Box", "Pair", "*Inner", "Outer", "(T)", "*(T)", "(*T)", "generic", "generic", "generic", "genericmethod"])
        f.tparams = None
        taken = set()
        hidden = set()
        f.recv = None
        f.rname = None
        if f.kind in ("func", "generic"):
            pass
        else:
            f.rname = r.choice(["", "_", "t", "t", "recv", "T", "r%d" % f.id, "x"])
            if f.rname in ("T",):
                f.rname = "t" if "T" in f.kind or self.ch(0.5) else "T"
            base = {"Box": "Box[%s]", "*Box": "*Box[%s]", "Pair": "Pair[%s, %s]", "genericmethod": "T"}.get(f.kind, f.kind)
            if "%s" in base:
                tn = [r.choice(["X", "_", "E", "int", "Y"]) for _ in range(base.count("%s"))]
                if len(tn) == 2 and tn[0] == tn[1] and tn[0] != "_":
                    tn[1] = "Z"
                if "int" in tn:
                    hidden |= {"int"}
                base = base % tuple(tn)
                f.rtn = [x for x in tn if x != "_"]
            if f.rname and f.rname != "_":
                taken.add(f.rname)
                if f.rname == "T":
                    hidden.add("T")
            f.recv = base
        if f.kind in ("generic", "genericmethod"):
            forms = [("[X any]", "X", "[int]", "int"), ("[X any]", "X", "[string]", "string"), ("[X any]", "X", "[*T]", "*T"), ("[X Number]", "X", "[int]", "int"), ("[X ~int | ~string]", "X", "[Str]", "Str"), ("[X, Y any]", "X", "[T, error]", "T"),
                     ("[E any, S ~[]E]", "S", "[int, Sl]", "Sl"), ("[K comparable, V any]", "V", "[string, bool]", "bool"), ("[X interface{ Show() string }]", "X", "[Num]", "Num"), ("[\n\tX any,\n]", "X", "[[]int]", "[]int"), ("[X interface{ *T; Inc(int) }]", "X", "[*T]", "*T"), ("[_ any, X any]", "X", "[int, string]", "string"), ("[int any]", "int", "[string]", "string")]
            f.tparams = r.choice(forms)
            if f.tparams[0] == "[int any]":
                hidden.add("int")
                taken.add("int")
        named = self.ch(0.65)
        n = r.choice([0, 1, 1, 2, 2, 3, 4, 6])
        f.params = self.fields(named, n, True, taken, hidden)
        rn = r.choice([0, 0, 1, 1, 1, 1, 2, 2, 3, 4])
        f.rnamed = self.ch(0.45)
        if "int" in hidden:
            for h in ("fmt",):
                pass
        f.results = self.fields(f.rnamed, rn, False, taken, hidden, True)
        f.hidden = hidden
        # parameter names hide types written later in the signature? no: only in the body
        f.taken = taken
        if f.tparams:
            if f.params and not f.params[-1][2] or not f.params:
                nm = None
                if not f.params:
                    named = True
                if named:
                    nm = "gx%d" % f.id
                f.params = f.params + [(nm, f.tparams[1], False)]
            if self.ch(0.5) and (f.rnamed or not f.results):
                f.results = f.results + [("gr%d" % f.id, f.tparams[1], False)]
                f.rnamed = True
        f.body = None
        return f

    def signature(self, f):
        r = self.r
        s = "func " + self.sp()
        if f.recv is not None:
            inner = (f.rname + " " if f.rname else "") + f.recv
            s += r.choice(["(%s) ", "(%s) ", "(%s)", "( %s ) ", "(%s,) ", "(\n\t%s,\n) "]) % inner
        s += f.name + (f.tparams[0] if f.tparams else "") + self.sp()
        s += self.write_fields(f.params)
        if f.results:
            t = f.results[0][1]
            if len(f.results) == 1 and f.results[0][0] is None and self.ch(0.8):
                s += r.choice([" ", " ", "/*r*/"]) + t
            else:
                s += r.choice([" ", ""]) + self.write_fields(f.results)
        elif self.ch(0.05):
            s += " ()"
        return s

    # ------------------------------------------------------------ bodies
    def seen(self, f):
        """expressions that show parameters and named results"""
        o = []
        for name, t, var in f.params:
            if name and name != "_":
                if var:
                    o.append("PL(%s)" % name)
                elif f.tparams and t == f.tparams[1]:
                    o.append("sh(%s)" % name)
                elif t in VIEWABLE:
                    e = VIEWABLE[t] % name
                    o.append("sh(%s)" % e)
                else:
                    o.append("PF(%s)" % name)
        return o

    def value(self, f, t, shadow):
        """an expression of type t within f: a parameter or a literal"""
        if f.tparams and t == f.tparams[1]:
            n, ty, var = f.params[-1]
            return n if n and n != "_" and not var else "*new(%s)" % t
        c = [n for n, ty, var in f.params if ty == t and not var and n and n != "_"]
        if c and self.ch(0.6):
            return self.r.choice(c)
        for _ in range(20):
            l = LIT[t](self.r)
            if not any(w in shadow for w in words(l)):
                return l
        return "zero%s()" % ZERO.setdefault(t, len(ZERO))

    def body(self, f, depth=0):
        """a tree of statements"""
        r = self.r
        shadow = {n for n, _, _ in f.params + f.results if n} | f.hidden | ({f.rname} if f.rname else set())
        ok = lambda *w: not (set(w) & shadow)
        st = []
        me = '"%s"' % f.name
        show = self.seen(f)
        if f.rname and f.rname not in ("", "_"):
            show.append("PR(%s)" % f.rname)
        post = []
        def log(extra=""):
            return "out(%s)" % ", ".join([me] + show + ([extra] if extra else []))
        # guard against endless recursion
        guard = "if !enter() {\n\tleave()\n\treturn%s\n}\ndefer leave()\n" % self.ret(f, shadow)
        one = self.ch(0.12)
        if one:
            x = self.r.randrange(4)
            rt = "return" + self.ret(f, shadow)
            if x == 0 and not f.results:
                return [r.choice(["{}", "{ }", "{\n}", "{ /* empty */ }", "{ // c\n}"])]
            if x == 1:
                return ["{ " + log() + "; " + rt + " }"]
            if x == 2:
                return ["{\n\n\n" + rt + "\n}"]
            return ["{" + rt + "}"]
        label = self.ch(0.1)
        pre = r.choice(["", "", "", "\n", " // comment\n", " /* c */ ", "\n// TODO }\n", "\t\n"])
        if label:
            st.append("L%d:\n" % f.id)
        st.append(guard)
        st.append(log() + "\n")
        n = r.randrange(1, 6)
        tags = []
        for _ in range(n):
            c = r.randrange(22)
            t = None
            i = self.uid()
            if c == 0:
                t = "defer out(%s, \"deferred\", %d)\n" % (me, i)
            elif c == 1 and ok("recover"):
                t = "defer func() {\n\tif e := recover(); e != nil {\n\t\tout(%s, \"recovered\", rec(e))\n%s\t}\n}()\n" % (me, self.set_result(f, shadow))
            elif c == 2 and f.rnamed:
                t = "defer func() { %s }()\n" % self.set_result(f, shadow).strip().replace("\n", "; ")
            elif c == 3 and ok("panic"):
                t = "if logN%%%d == 0 {\n\tpanic(%s)\n}\n" % (r.randrange(2, 6), r.choice(['"p%d"' % i, "&myErr{%d}" % i, "%d" % i]))
            elif c == 4:
                t = self.call(f, shadow)
            elif c == 5:
                t = self.call(f, shadow)
            elif c == 6:
                x = self.call(f, shadow)
                t = x and "for i%d := 0; i%d < 2; i%d++ {\n%s}\n" % (i, i, i, x)
            elif c == 7:
                x = self.call(f, shadow)
                t = x and "func() {\n%s}()\n" % x
            elif c == 8:
                x = self.call(f, shadow)
                t = x and ok("sync") and "{\n\tvar wg sync.WaitGroup\n\twg.Add(1)\n\tgo func() {\n\t\tdefer wg.Done()\n\t\ttry(\"go\", func() {\n%s})\n\t}()\n\twg.Wait()\n}\n" % x
            elif c == 9:
                t = "M%d:\nfor k := 0; k < 3; k++ {\n\tfor {\n\t\tif k == 1 {\n\t\t\tcontinue M%d\n\t\t}\n\t\tif k == 2 {\n\t\t\tbreak M%d\n\t\t}\n\t\tout(\"loop\", k)\n\t\tbreak\n\t}\n}\n" % (i, i, i)
            elif c == 10:
                t = "{\n\tk := 0\nG%d:\n\tif k < 2 {\n\t\tk++\n\t\tout(\"goto\", k)\n\t\tgoto G%d\n\t}\n}\n" % (i, i)
            elif c == 11:
                x = self.call(f, shadow)
                t = x and ok("v") and "for v := range seq(3) {\n\tif v == 2 {\n\t\tbreak\n\t}\n\tdefer out(\"in range\", v)\n%s}\n" % x
            elif c == 12 and f.results and ok("v") and not (f.tparams and self.ch(0.5)):
                t = "for v := range seq(3) {\n\tif v == 1 && logN%%3 == 0 {\n\t\treturn%s\n\t}\n}\n" % self.ret(f, shadow)
            elif c == 13:
                # named parameters changed
                ps = [n for n, ty, var in f.params if n and n != "_" and ty == "int" and not var]
                if ps and "int" not in f.hidden:
                    t = "%s += %d\nout(%s)\n" % (r.choice(ps), i % 7, ", ".join([me] + show))
            elif c == 14 and ok("int", "fmt"):
                t = "{\n\ttype L struct{ z int }\n\tf := func(int, ...L) (a int, _ L) { return 5, L{1} }\n\tx, y := f(1)\n\tout(\"local\", x, y.z, fmt.Sprintf(\"%T\", f)[:9])\n}\n"
            elif c == 15 and ok("string"):
                t = "switch x := interface{}(logN %% 3).(type) {\ncase string:\n\tout(x)\ncase %s:\n\tout(\"int\", x)\n}\n" % ("interface{}" if not ok("int") else "int")
            elif c == 16 and ok("make", "int"):
                t = "{\n\tc := make(chan int, 1)\n\tselect {\n\tcase c <- %d:\n\t\tout(\"sent\", <-c)\n\tdefault:\n\t}\n}\n" % i
            elif c == 17 and not self.pos:   # the line of a function that runs its deferred calls is the compiler's choice
                x = self.call(f, shadow, deferred=True)
                t = x
            elif c == 18:
                t = "_ = func(int, string) (_ bool) { return }\n" if ok("int", "string", "bool") else None
            elif c == 19 and ok("runtime"):
                t = self.posstmt(i)
            elif c == 20:
                t = "return%s\n" % self.ret(f, shadow) if self.ch(0.3) else None
                if t:
                    t = "if logN%%%d == 1 {\n%s}\n" % (r.randrange(2, 5), t)
            elif c == 21:
                t = "{\n\tvar %s = %d\n\t_ = %s\n}\n" % (r.choice(["T2", "fmt2", "post", "stop", "__xgo_trap_0", "__xgo_post_1"]), i, "0")
                v = t.split()[2]
                t = t.replace("_ = 0", "_ = " + v)
            if t:
                if self.ch(0.05):
                    t = t.rstrip("\n") + " // trailing\n"
                if self.pos and self.line_dir and self.ch(0.1):
                    t = "//line gen%d.y:%d\n" % (i, r.randrange(1, 500)) + t
                st.append(Opt([t]))
        if label:
            st.append(Opt(["if depth < 4 && logN%%7 == 3 {\n\tdepth++\n\tgoto L%d\n}\n" % f.id]) if not any("defer" in str(x) or ":=" in str(x) for x in st) else "if false {\n\tgoto L%d\n}\n" % f.id)
        end = r.randrange(10)
        if end == 0 and ok("panic") and self.ch(0.5):
            st.append('panic("end of %s")\n' % f.name)
        elif end == 1 and ok("panic", "error") and self.ch(0.5):
            st.append("panic(%s)\n" % r.choice(["errors.New(\"end\")", "&myErr{9}", "struct{ a int }{1}"]) if ok("errors", "struct", "int") else "panic(&myErr{1})\n")
        elif end == 2:
            st.append("if logN >= 0 {\n\treturn%s\n} else {\n\treturn%s\n}\n" % (self.ret(f, shadow), self.ret(f, shadow)))
        elif end == 3 and self.ch(0.7):
            st.append("for {\n\treturn%s\n}\n" % self.ret(f, shadow))
        elif end == 4:
            st.append("switch {\ndefault:\n\treturn%s\n}\n" % self.ret(f, shadow))
        elif f.results:
            st.append("return%s\n" % self.ret(f, shadow))
        nl = r.choice(["\n", "\n", "\n", " "])
        return ["{" + (pre if "\n" in pre or nl == "\n" else nl)] + (["\n"] if pre.endswith("*/ ") or not pre.endswith("\n") else []) + st + [r.choice(["}", "}", "// end\n}"])]

    def posstmt(self, i):
        if not self.pos:
            return None
        x = self.r.randrange(4)
        if x == 0:
            return "here()\n"
        if x == 1:
            return "func() {\n\there()\n}()\n"
        if x == 2:
            return "stack()\n"
        return "defer func() {\n\there()\n}()\n"

    def set_result(self, f, shadow):
        if not f.rnamed:
            return ""
        o = []
        for n, t, _ in f.results:
            if n and n != "_" and self.ch(0.6) and not (f.tparams and t == f.tparams[1]):
                o.append("\t\t%s = %s\n" % (n, self.value(f, t, shadow)))
        return "".join(o)

    def ret(self, f, shadow):
        if not f.results:
            return ""
        if f.rnamed and self.ch(0.35):
            return ""
        return " " + ", ".join(self.value(f, t, shadow) for _, t, _ in f.results)

    def call(self, f, shadow, deferred=False):
        """a statement calling an already declared function"""
        if not self.funs:
            return None
        g = self.r.choice(self.funs)
        return self.invoke(g, shadow, deferred)

    def invoke(self, g, shadow, deferred=False, top=False):
        r = self.r
        args = []
        for n, t, var in g.params:
            if g.tparams and t == g.tparams[1]:
                ct = g.tparams[3]
                t = ct
            if var:
                k = r.randrange(4)
                if k == 3:
                    a = ["[]%s{%s}..." % (t, self.lit(t))]
                else:
                    a = [self.lit(t) for _ in range(k)]
            else:
                a = [self.lit(t)]
            args += a
        a = ", ".join(args)
        inst = g.tparams[2] if g.tparams else ""
        k = r.randrange(4)
        need = set(words(a)) | set(words(inst))
        if g.recv is None:
            fn = g.name + inst
            if k == 0 and not deferred:
                fn = "(%s)" % fn
        else:
            recv = {"T": 'T{%d, "rv"}', "(T)": 'T{%d, "rv"}', "*T": '(&T{%d, "rp"})', "*(T)": '(&T{%d, "rp"})', "(*T)": '(&T{%d, "rp"})', "Num": "Num(%d)", "*Num": "np(%d)", "Sl": "Sl{%d}", "Mp": 'Mp{"z": %d}', "Fn": "Fn(func(int) int { return %d })", "Ch": "make(Ch, %d)", "Ar": "Ar{%d}",
                    "Box": "Box[%s]{N: %%d}", "*Box": "(&Box[%s]{N: %%d})", "Pair": "Pair[string, int]{\"q\", %d}", "*Inner": '(&Inner{T{%d, "in"}})', "Outer": 'Outer{X: %d, Inner: &Inner{T{1, "o"}}}', "genericmethod": 'T{%d, "gm"}'}[g.kind]
            if "%s" in recv:
                recv = recv % r.choice(["int", "string", "T", "*T", "[]int"])
            recv = recv % r.randrange(5)
            if g.kind in ("Num",) and k == 1:
                recv = "Outer{Num: 3}"
            if g.kind in ("T", "(T)") and k == 1:
                recv = r.choice(['Inner{T{2, "emb"}}', 'Outer{Inner: &Inner{T{3, "deep"}}}', '(&T{4, "ptr"})'])
            if g.kind == "Box" and k == 1:
                recv = "Outer{Box: Box[int]{V: 3}}"
            need |= set(words(recv))
            if k == 2 and g.kind in ("T", "(T)", "*T", "*(T)", "(*T)", "Num", "Sl", "Mp", "Ar", "Fn") and not g.tparams:
                me = "(%s)" % g.recv.replace("(T)", "T").replace("(*T)", "*T") + "." + g.name
                fn = me
                a = recv + (", " + a if a else "")
                need |= {"T"}
            else:
                fn = recv + "." + g.name + inst
        # unhide
        if need & shadow:
            return None
        call = "%s(%s)" % (fn, a)
        if deferred:
            return "defer %s\n" % call
        n = len(g.results)
        if n == 0 or (k == 3 and not top):
            return "%s\n" % call
        vs = ["z%d" % self.uid() for _ in g.results]
        o = "%s := %s\n" % (", ".join(vs), call)
        sh = []
        for v, (_, t, _) in zip(vs, g.results):
            if g.tparams and t == g.tparams[1]:
                t = g.tparams[3]
            sh.append("sh(%s)" % v if t in VIEWABLE and VIEWABLE[t] == "%s" else "PF(%s)" % v)
        return "{\n%sout(\"= %s\", %s)\n}\n" % (o, g.name, ", ".join(sh))

    def lit(self, t):
        return LIT[t](self.r)


ZERO = {}


def words(s):
    import re
    return re.findall(r"[A-Za-z_]\w*", s)


EXTRA = '''
func PF(a ...interface{}) string {
	s := ""
	for _, x := range a {
		s += fmt.Sprintf("%T ", x)
	}
	return s
}
func PL(a interface{}) string {
	return strings.Split(fmt.Sprintf("%#v", PN(a)), "(0x")[0]
}
func PN(a interface{}) int {
	return reflect.ValueOf(a).Len()
}
func PR(a interface{}) string {
	switch v := a.(type) {
	case T, Num, Sl, Mp, Ar, Box[int], Box[string], Pair[string, int]:
		return fmt.Sprint(v)
	case *T:
		return v.Show()
	case *Num:
		return v.Show()
	case *Inner:
		return v.Show()
	case Outer:
		return fmt.Sprint("Outer", v.X)
	}
	return fmt.Sprintf("%T", a)
}
func np(n int) *Num {
	x := Num(n)
	return &x
}
'''

POS = '''
func here() {
	pc, file, line, ok := runtime.Caller(1)
	out("at", path.Base(file), line, fn(runtime.FuncForPC(pc).Name()), ok)
}

func fn(s string) string { return s[strings.LastIndex(s, "/")+1:] }

func stack() {
	var pcs [60]uintptr
	n := runtime.Callers(1, pcs[:])
	fs := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fs.Next()
		if strings.HasPrefix(f.Function, "runtime.") {
			break
		}
		out("  frame", fn(f.Function), path.Base(f.File), f.Line)
		if !more {
			break
		}
	}
}

func funcAt(f interface{}) {
	x := runtime.FuncForPC(reflect.ValueOf(f).Pointer())
	file, _ := x.FileLine(x.Entry())
	out("func", fn(x.Name()), path.Base(file))
}
'''


def gen(seed, pos=False, dep=False):
    g = G(seed, pos, dep)
    r = g.r
    ZERO.clear()
    g.line_dir = pos and g.ch(0.3)
    files = {}
    imps = IMPORTS + ["reflect"] + (["path"] if pos else [])
    # ------------------------------ functions
    nf = r.randrange(5, 16)
    decls = []
    for _ in range(nf):
        f = g.fun()
        doc = r.choice([""] * 8 + ["// doc\n", "//go:noinline\n", "/* doc */ ", "// doc\n//\n//go:noinline\n", "//go:nosplit\n", "//go:norace\n"])
        if "nosplit" in doc:
            doc = "//go:noinline\n"
        body = g.body(f)
        g.funs.append(f)
        sig = g.signature(f)
        decls.append((f, [doc + sig + " "] + body))
        for cl, cond in (("generic", f.tparams), ("method", f.recv), ("named results", f.rnamed and f.results), ("variadic", any(p[2] for p in f.params)), ("blank parameters", any(p[0] == "_" for p in f.params)), ("unnamed parameters", any(p[0] is None for p in f.params)), ("unnamed results", f.results and not f.rnamed), ("name hides a predeclared one", any(p[0] in PREDECL for p in f.params + f.results)), ("generic method", f.kind == "genericmethod")):
            if cond:
                g.classes.add(cl)
    inits = []
    for i in range(r.choice([0, 0, 1, 2, 3])):
        x = g.call(None, set())
        inits.append(["func init() " + r.choice(["{\n", "{ "]), 'out("init", %d)\n' % i, Opt(["try(\"init\", func() {\n%s})\n" % x]) if x else "", "}"])
    pvars = []
    for i in range(r.choice([0, 0, 1, 3])):
        gs = [f for f in g.funs if f.recv is None and len(f.results) == 1 and not f.tparams]
        if gs:
            f = r.choice(gs)
            a = ", ".join(g.lit(t) for _, t, var in f.params if not var)
            pvars.append(Opt(["var pv%d = func() interface{} { out(\"pv%d\"); var z interface{}; try(\"pv\", func() { z = %s(%s) }); return z }()\n" % (i, i, f.name, a)]))
    methods = Opt(["func methods() {\n\tfor _, x := range []interface{}{T{}, &T{}, Num(0), Sl{}, Outer{}, &Outer{}, Box[int]{}, &Box[string]{}, Fn(nil)} {\n\t\tt := reflect.TypeOf(x)\n\t\tfor i := 0; i < t.NumMethod(); i++ {\n\t\t\tout(t.Method(i).Name, strings.ReplaceAll(t.Method(i).Type.String(), \"PKG\", \"pkg\"))\n\t\t}\n\t}\n}\n"])
    # ------------------------------ Main
    main = ["func Main() {\n"]
    order = list(g.funs)
    r.shuffle(order)
    for f in order:
        for _ in range(r.choice([1, 1, 2])):
            x = g.invoke(f, set(), top=True)
            main.append(Opt(["try(%s, func() {\n%s})\n" % ('"%s"' % f.name, x)]))
        main.append("depth = 0\n")
    if pos:
        for f in order:
            if f.recv is None and not f.tparams:
                main.append(Opt(["funcAt(%s)\n" % f.name]))
            elif f.kind in ("T", "*T", "Num", "Sl"):
                main.append(Opt(["funcAt((%s).%s)\n" % (f.recv, f.name)]))
    if methods:
        pass
    main.append(Opt(["mth()\n"]))
    for i in range(3):
        main.append("pvs()\n" if i == 0 else "")
    end = r.randrange(8)
    if end == 0:
        main.append("os.Exit(%d)\n" % r.randrange(1, 5))
    elif end in (1, 2, 3) or pos and end < 6:
        f = r.choice(g.funs)
        x = g.invoke(f, set())
        main.append("depth, logN = 0, 0\n" + x)
        main.append(r.choice(['panic("last")\n', "panic(&myErr{3})\n", "var z []int\nz[len(z)+2]++\n", "var z *T\nz.Inc(1)\n", "panic(fmt.Sprint(1, 2))\n", "defer func() { panic(\"second\") }()\npanic(\"first\")\n", "defer func() { panic(recover()) }()\npanic(\"again\")\n", "panic(nil)\n", "type E struct{ a, b int }\npanic(E{1, 2})\n", "ch := make(chan int)\nclose(ch)\nclose(ch)\n", "go func() { panic(\"in goroutine\") }()\nselect {}\n", "runtime.Goexit()\n" if not pos else "panic(1)\n"]))
    main.append("}\n")
    main.append("func pvs() {\n" + "".join("_ = pv%d\n" % i for i in range(0)) + "}\n")
    main.append("func mth() {\n")
    main.append(Opt(["methods()\n"]))
    main.append("}\n")
    # ------------------------------ files
    two = g.ch(0.4)
    head = lambda: r.choice(["", "", "// a comment\n\n", "/* copyright\n*/\n\n", "//go:build linux\n\n", "// doc of the package\n"]) + r.choice(["package PKG\n\n", "package PKG // c\n\n", "package PKG; ", "package /* x */ PKG\n\n"])
    def imports(names):
        style = r.randrange(4)
        if style == 0:
            s = "".join('import "%s"\n' % n for n in names)
        elif style == 1:
            s = "import (" + "; ".join('"%s"' % n for n in names) + ")\n"
        else:
            s = "import (\n" + "".join('\t"%s"%s\n' % (n, r.choice(["", "", " // c"])) for n in names) + ")\n"
        return s
    USES = {"fmt": "fmt.Sprint", "iter": "iter.Pull[int]", "runtime": "runtime.GC", "strings": "strings.Join", "sync": "sync.NewCond", "errors": "errors.New", "reflect": "reflect.TypeOf", "path": "path.Base", "os": "os.Exit"}
    names = imps + ["os"]
    use = lambda: "".join("var _ = %s\n" % USES[n] for n in names)
    def sep():
        return r.choice(["\n\n"] * 6 + ["\n", "; ", "\n\n// between\n\n", "\n\n\n\n"])
    def assemble(ds):
        o = []
        for x in ds:
            o.append(Opt([x, "\n"]) if False else x)
            o.append("; " if g.ch(0.06) else sep().replace("; ", "\n"))
        for i in range(1, len(o), 2):
            if o[i] == "; " and i + 1 < len(o) and str(o[i + 1][0]).startswith("//go:"):
                o[i] = "\n"
        return o
    a = [t for _, t in decls]
    rest = []
    if two:
        cut = r.randrange(len(a) + 1)
        rest, a = a[cut:], a[:cut]
    if pos and g.line_dir:
        pass
    files["a.go"] = [head(), imports(names), use(), PRELUDE, EXTRA, POS if pos else ""] + [methods if False else "", "\n"]
    files["a.go"] += assemble(a + inits) + pvars + ["\n"] + main
    files["a.go"].append("\nfunc methods() {\n\tfor _, x := range []interface{}{T{}, &T{}, Num(0), Sl{}, Outer{}, &Outer{}, Box[int]{}, &Box[string]{}, Fn(nil)} {\n\t\tt := reflect.TypeOf(x)\n\t\tfor i := 0; i < t.NumMethod(); i++ {\n\t\t\tout(t.Method(i).Name, strings.ReplaceAll(t.Method(i).Type.String(), \"PKG\", \"pkg\"))\n\t\t}\n\t}\n}\n")
    files["a.go"].append("".join("func zero%d() (z %s) { return }\n" % (n, t) for t, n in ZERO.items()))
    if dep:
        files["@dep"] = ["1"]
    if two:
        files["b.go"] = [head(), imports(names), use()] + assemble(rest)
    return Program(files, {"classes": sorted(g.classes)})


def gen_dep(seed):
    return gen(seed, False, True)


def gen_pos(seed):
    return gen(seed, True)


def view_pos(r):
    """everything but addresses and argument values"""
    import re
    o = []
    for l in r.err.splitlines():
        if l.startswith("exit status"):
            continue
        m = re.match(r"goroutine \d+.*?\[(.*?)\]:", l)
        if m:
            l = "goroutine [%s]" % m.group(1)
        l = re.sub(r"\s*(\+0x[0-9a-f]+)?$", "", l)
        l = re.sub(r"\S+/src/((?:runtime|sync|iter|internal)/\S*?):\d+", r"GOROOT/\1", l)
        l = re.sub(r"created by (\S+) in goroutine \d+", r"created by \1", l)
        m = re.match(r"^(\S.*)\([^()]*\)$", l)
        if m:
            l = m.group(1) + "(..)"
        l = re.sub(r"0x[0-9a-f]+", "0xX", l)
        o.append(l)
    # the numbers of init functions are looked at separately (a known finding)
    return re.sub(r"\.init\.\d+\b", ".init.N", "exit %s\n%s\n%s" % (r.rc, r.out, "\n".join(o)))


def kind_pos(diff):
    """the sort of the first line that differs"""
    import re
    x, y = diff.split("--- go\n")[1].split("\n--- xgo\n")[:2]
    for a, b in zip(x.splitlines() + [""], y.splitlines() + [""]):
        if a != b:
            return re.sub(r"\d+", "0", a.split(" ")[0] if not a.startswith("  frame") else "frame") + ("func" if "func" in a else "") + ("init" if ".init." in a else "")
    return ""
