"""Random programs around package-level variables (I02)."""
import random
import re
from e2e.prog.diff import Opt, Program

PRELUDE = '''package PKG

import (
	"errors"
	"fmt"
	"pv/PKG/sub"
	"sort"
	"strings"
	"sync"
	"time"
)

var _ time.Duration
var _ = errors.New
var _ = fmt.Sprint
var _ = sort.Ints
var _ = strings.Join
var _ sync.Mutex
var _ = sub.Mk

type Num int

func (n Num) Dbl() int   { return int(n) * 2 }
func (n *Num) Add(d int) { *n += Num(d) }

type Base struct {
	BN int
	BS []int
}

func (b Base) BVal() int     { return b.BN + len(b.BS) }
func (b *Base) BPGet() int   { return b.BN * 3 }
func (b *Base) BInc(d int)   { b.BN += d }

type St struct {
	A  int
	B  string
	L  []int
	M  map[string]int
	R  [3]int
	P  *St
	E  Base
	F  func(int) int
	I  interface{}
	X  struct{ Q, W int }
	Base
	*sub.Deep
}

func (s St) Val() int      { return s.A + len(s.B) + s.R[0] }
func (s *St) PGet() int    { return s.A*2 + s.E.BN }
func (s *St) Set(d int)    { s.A += d; s.R[1] = d }
func (s St) Str() string {
	p := "nil"
	if s.P != nil {
		p = fmt.Sprint(s.P.A, s.P.B, s.P.L)
	}
	return fmt.Sprint("{", s.A, s.B, s.L, s.M, s.R, p, s.E, s.F == nil, s.I, s.X, s.Base, s.Deep == nil, "}")
}

type Box[T any] struct {
	V T
	N int
}

func (b Box[T]) Get() T      { return b.V }
func (b *Box[T]) Put(v T)    { b.V = v; b.N++ }

func mkSt(k int) *St {
	return &St{A: k, B: "s" + fmt.Sprint(k), L: []int{k, 2}, M: map[string]int{"a": k}, R: [3]int{k, 1, 2}, F: func(x int) int { return x + k }, I: k, E: Base{k, []int{k, 6}}, Base: Base{1, []int{k}}, Deep: &sub.Deep{Z: k, ZS: []string{"u"}}}
}
func ix(i, n int) int {
	if n <= 0 {
		return 0
	}
	return ((i % n) + n) % n
}
func sum(xs ...int) (t int) {
	for _, x := range xs {
		t += x
	}
	return
}
func out(a ...interface{}) { fmt.Println(a...) }
func id[T any](x T) T    { return x }
func pair(a int, b string) (int, string) { return a + 1, b + "p" }
'''

SUB = '''package sub

import "fmt"

type Deep struct {
	Z  int
	ZS []string
}

func (d Deep) DVal() int   { return d.Z + 1 }
func (d *Deep) DInc(n int) { d.Z += n }
func (d *Deep) DPGet() int { return d.Z - 1 }

type In struct {
	Deep
	K map[string]int
	T [2]Deep
}

func Mk(k int) *In { return &In{Deep: Deep{Z: k, ZS: []string{"q"}}, K: map[string]int{"k": k}} }

func (i In) Str() string { return fmt.Sprint("{", i.Z, i.ZS, i.K, i.T, "}") }
'''

# imported with a dot
DOTS = '''package dots

import "fmt"

type DotT struct {
	DotN int
	DotI []int
}

func (d DotT) DotGet() int       { return d.DotN + len(d.DotI) }
func (d *DotT) DotInc(n int) int { d.DotN += n; return d.DotN }

var (
	DotI         = 4
	DotS         = "dot"
	DotB         = true
	DotL         = []int{3, 1, 2}
	DotM         = map[string]int{"a": 1, "dot": 2}
	DotR         = [3]int{7, 8, 9}
	DotP         = &DotT{DotN: 1, DotI: []int{1}}
	DotV         = DotT{DotI: []int{2}}
	DotF         = func(x int) int { return x + DotI }
	DotE error   = fmt.Errorf("dot %d", 1)
	DotA interface{} = DotS
	DotQ         = &DotR
	DotX         = &DotI
)
'''
DOTVARS = {"DotI": "int", "DotS": "string", "DotB": "bool", "DotL": "[]int", "DotM": "map[string]int", "DotR": "[3]int", "DotF": "func(int) int",
           "DotE": "error", "DotA": "interface{}", "DotQ": "*[3]int", "DotX": "*int", "DotP.DotI": "[]int", "DotV.DotI": "[]int", "DotP.DotN": "int", "DotV.DotN": "int"}


def with_dots(t):
    return t.replace('/sub"\n', '/sub"\n\t. "pv/PKG/dots"\n', 1).replace(".Mk\n", ".Mk\nvar _ = DotI\n", 1)


# types that print without addresses
PRINT = {"int", "string", "bool", "float64", "rune", "byte", "Num", "[]int", "[]string", "map[string]int", "[3]int", "interface{}", "Box[int]", "error", "struct{ x, y int }", "[2]string", "[][]int", "int64", "time.Duration", "uintptr", "any", "complex128"}
TYPES = ["int"] * 6 + ["string"] * 3 + ["bool"] * 2 + ["float64", "rune", "byte", "Num", "Num", "[]int", "[]int", "[]string", "map[string]int", "map[string]int", "[3]int", "[3]int", "St", "St", "St", "*St", "*St", "func(int) int", "interface{}", "Box[int]", "error", "[]St", "map[string]*St", "[2]St", "chan int", "*int", "struct{ x, y int }", "[2]string", "[][]int", "sub.In", "*sub.In", "[]*St", "*[3]int", "func() *St", "sync.Mutex", "int64", "time.Duration", "strings.Builder", "uintptr", "any", "complex128"]
# names of package variables; many coincide with fields, methods, builtins' or local names
NAMES = ["A", "B", "L", "M", "R", "P", "E", "F", "I", "X", "Q", "W", "V", "N", "Z", "K", "T", "x", "y", "n", "i", "j", "k", "v", "err", "ok", "s", "p", "m", "q", "w", "fn", "res", "tmp", "val", "list", "key", "cnt", "mu", "ch", "Val", "Get", "Set", "Deep", "BN", "DVal", "name", "str", "a", "b", "c", "d", "e", "t", "r", "u", "len2", "data", "buf", "next", "in", "Str"]
LOCALS = ["x", "y", "n", "i", "j", "k", "v", "err", "ok", "s", "p", "m", "q", "w", "a", "b", "c", "d", "tmp", "res", "val", "key", "fn", "A", "B", "V", "sub", "name", "list", "data"]


HEAD_B = PRELUDE[:PRELUDE.index("type Num")].replace('"pv/PKG/sub"', 'sb "pv/PKG/sub"').replace("sub.Mk", "sb.Mk")


def rename(t):
    """sub is called sb in the other file"""
    if isinstance(t, str):
        return re.sub(r"\bsub\.", "sb.", t)
    return type(t)(rename(x) for x in t)


class G:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.scopes = [{}]      # name -> type or None (shadowed by something else)
        self.pkg = {}           # package variables name -> type
        self.subvars = {}
        self.dots = DOTVARS if self.r.random() < 0.4 else {}
        self.uniq = 0
        self.classes = set()
        self.initial = True     # generating initialisers, which must not panic
        self.closure = 0
        self.funcs = []

    # ------------------------------------------------------------ names
    def pick(self, xs):
        return self.r.choice(list(xs))

    def chance(self, p):
        return self.r.random() < p

    def fresh(self, p="z"):
        self.uniq += 1
        return "%s%d_" % (p, self.uniq)

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return self.pkg.get(name)

    def visible(self):
        out = dict(self.dots)
        for n, t in self.pkg.items():
            out[n] = t
        for s in self.scopes:
            out.update(s)
        res = {n: t for n, t in out.items() if t}
        for n in self.dots:
            if "." in n and n.split(".")[0] not in self.dots and n.split(".")[0] in out:
                res.pop(n, None)
        if "sub" not in out:
            for n, t in self.subvars.items():
                res["sub." + n] = t
        return res

    def sub_ok(self):
        return not any("sub" in s for s in self.scopes)

    def declare(self, name, typ):
        self.scopes[-1][name] = typ

    def local(self):
        # half of the local names hide a package variable
        if self.chance(0.6) and self.pkg:
            n = self.pick(self.pkg)
        elif self.dots and self.chance(0.2):
            n = self.pick(["DotI", "DotL", "DotS", "DotM"])
        else:
            n = self.pick(LOCALS)
        if n in self.scopes[-1]:
            n = self.fresh(n)
        return n

    # ------------------------------------------------------------ expressions
    def vars_of(self, t):
        return [n for n, ty in self.visible().items() if ty == t]

    def place(self, t, need, d=2):
        """an operand of type t denoting (part of) a variable. need: read, addr or assign"""
        c = []
        vs = self.vars_of(t)
        for v in vs:
            c.append(lambda v=v: v)
            c.append(lambda v=v: v)
            if "." in v:
                c.append(lambda v=v: v)
        if d > 0:
            F = {"int": ["A", "BN", "X.Q", "X.W", "Z", "E.BN", "Base.BN", "Deep.Z"], "string": ["B"], "[]int": ["L", "BS", "E.BS"], "map[string]int": ["M"], "[3]int": ["R"], "*St": ["P"], "func(int) int": ["F"], "interface{}": ["I"], "[]string": ["ZS", "Deep.ZS"]}
            for f in F.get(t, []):
                if f == "P" and self.initial:
                    continue    # might be nil
                for st in ("St", "*St"):
                    c.append(lambda f=f, st=st: self.operand(st, need, d - 1) + "." + f)
            if t in ("int", "[]string", "map[string]int"):
                f = {"int": ["Z", "Deep.Z", "T[%s].Z"], "[]string": ["ZS"], "map[string]int": ["K"]}[t]
                for st in ("sub.In", "*sub.In"):
                    def g(f=f, st=st):
                        x = self.pick(f)
                        if "%s" in x:
                            x = x % self.idx("2", d - 1)
                        return self.operand(st, need, d - 1) + "." + x
                    c.append(g)
            E = {"int": ["[]int", "[3]int", "*[3]int"], "string": ["[]string", "[2]string"], "St": ["[]St", "[2]St"], "*St": ["[]*St"], "[]int": ["[][]int"]}
            for cont in E.get(t, []):
                def g(cont=cont):
                    p = self.operand(cont, need, d - 1)
                    n = {"[3]int": "3", "*[3]int": "3", "[2]string": "2", "[2]St": "2"}.get(cont)
                    if n is None:
                        n = "len(%s)" % p
                    return "%s[%s]" % (p, self.idx(n, d - 1))
                c.append(g)
            if need != "addr":
                M = {"int": "map[string]int", "*St": "map[string]*St"}
                if t in M and (need == "read" or t == "int"):
                    # existing keys only, so that pointers are not nil
                    c.append(lambda: self.operand(M[t], "read", d - 1) + '["a"]')
            if t == "int":
                c.append(lambda: "(*" + self.expr("*int", d - 1) + ")" if need == "read" else "*" + self.expr("*int", d - 1))
                for w in ("x", "y"):
                    c.append(lambda w=w: self.operand("struct{ x, y int }", need, d - 1) + "." + w)
                c.append(lambda: self.operand("Box[int]", need, d - 1) + "." + self.pick(["V", "N"]))
            if t == "St":
                c.append(lambda: "(*" + self.expr("*St", d - 1) + ")")
            if t == "[3]int":
                c.append(lambda: "(*" + self.expr("*[3]int", d - 1) + ")")
        if not c:
            return None
        return self.pick(c)()

    def operand(self, t, need, d):
        """a primary expression of type t fit for need (pointers, slices and maps may be any value)"""
        byref = t[0] == "*" or t.startswith("[]") or t.startswith("map")
        if need == "read" or byref:
            if byref and self.chance(0.15) and d > 0:
                e = self.expr(t, d - 1)
                return e if e[-1] in ")]" and e[0] != "&" and e[0] != "*" else "(" + e + ")"
            p = self.place(t, "read", d)
            if p:
                return "(%s)" % p if self.chance(0.08) else p
            return "(" + self.expr(t, 0) + ")"
        p = self.place(t, need, d)
        if p:
            return "(%s)" % p if self.chance(0.08) else p
        if t == "St":
            return "(*" + self.expr("*St", 0) + ")"
        # no variable of the type: make one
        return "(*func() *%s { z := %s; return &z }())" % (t, self.expr(t, 0))

    def idx(self, n, d):
        if n.isdigit() and self.chance(0.5):
            return str(self.r.randrange(int(n)))
        if self.chance(0.4):
            return "0"
        return "ix(%s, %s)" % (self.expr("int", max(d - 1, 0)), n)

    def lit(self, t):
        r = self.r
        k = r.randrange(20)
        if t == "int":
            return str(k)
        if t == "int64":
            return "int64(%d)" % k
        if t == "time.Duration":
            return self.pick(["time.Second", "%d * time.Millisecond" % k, "time.Duration(%d)" % k])
        if t == "strings.Builder":
            return "strings.Builder{}"
        if t == "uintptr":
            return "uintptr(%d)" % k
        if t == "any":
            return "any(%d)" % k
        if t == "complex128":
            return self.pick(["complex(%d, 1)" % k, "2i", "1.5 + 3i"])
        if t == "string":
            return '"%s"' % self.pick(["a", "bc", "", "x y", "é", "%d"])
        if t == "bool":
            return self.pick(["true", "false"])
        if t == "float64":
            return self.pick(["1.5", "2.0", "0.25", "float64(%d)" % k])
        if t == "rune":
            return self.pick(["'a'", "'é'", "rune(%d)" % (65 + k)])
        if t == "byte":
            return "byte(%d)" % k
        if t == "Num":
            return "Num(%d)" % k
        if t == "[]int":
            return "[]int{%d, 2, %d}" % (k, k + 1)
        if t == "[]string":
            return '[]string{"p", "q%d"}' % k
        if t == "map[string]int":
            return 'map[string]int{"a": %d, "b": 2}' % k
        if t == "[3]int":
            return self.pick(["[3]int{%d, 2, 3}" % k, "[3]int{1: %d}" % k, "[...]int{1, 2, %d}" % k])
        if t == "[2]string":
            return '[2]string{"m", "n%d"}' % k
        if t == "[][]int":
            return "[][]int{{%d, 1}, {2, 3}}" % k
        if t == "St":
            return "*mkSt(%d)" % k
        if t == "*St":
            return "mkSt(%d)" % k
        if t == "func(int) int":
            return "func(x int) int { return x * %d }" % (k % 5)
        if t == "func() *St":
            return "func() *St { return mkSt(%d) }" % k
        if t == "interface{}":
            return self.pick(["interface{}(%d)" % k, 'interface{}("i%d")' % k, "interface{}([]int{%d})" % k, "interface{}(nil)"])
        if t == "Box[int]":
            return self.pick(["Box[int]{V: %d}" % k, "Box[int]{%d, 1}" % k])
        if t == "error":
            return 'errors.New("e%d")' % k
        if t == "[]St":
            return "[]St{*mkSt(%d), *mkSt(1)}" % k
        if t == "[]*St":
            return "[]*St{mkSt(%d), mkSt(2)}" % k
        if t == "map[string]*St":
            return 'map[string]*St{"a": mkSt(%d)}' % k
        if t == "[2]St":
            return "[2]St{*mkSt(%d), *mkSt(3)}" % k
        if t == "chan int":
            return "make(chan int, 8)"
        if t == "*int":
            return "func() *int { z := %d; return &z }()" % k
        if t == "*[3]int":
            return "&[3]int{%d, 8, 9}" % k
        if t == "struct{ x, y int }":
            return "struct{ x, y int }{%d, %d}" % (k, k + 1)
        if t == "sub.In":
            return "*sub.Mk(%d)" % k if self.sub_ok() else None
        if t == "*sub.In":
            return "sub.Mk(%d)" % k if self.sub_ok() else None
        if t == "sync.Mutex":
            return "sync.Mutex{}"
        raise Exception(t)

    def flit(self, params, res, d):
        """a pure function literal; params: list of (name,type)"""
        self.scopes.append({n: t for n, t in params})
        e = self.expr(res, d)
        pre = ""
        if self.chance(0.3):
            n = self.local()
            if n not in dict(params):
                t = self.pick(["int", "string", "[]int"])
                v = self.expr(t, 0)
                self.declare(n, t)
                e = self.expr(res, d)
                pre = "%s := %s; _ = %s; " % (n, v, n)
        self.scopes.pop()
        return "func(%s) %s { %sreturn %s }" % (", ".join("%s %s" % p for p in params), res, pre, e)

    def expr(self, t, d=2):
        """a value of type t; it has no side effects"""
        e = self._expr(t, d)
        if e is None:
            e = self.lit(t)
        if e is None:   # needs sub where it is hidden
            e = "func() (z %s) { return }()" % t
        return e

    def _expr(self, t, d):
        r = self.r
        if t in ("sync.Mutex", "strings.Builder"):
            return self.lit(t)
        if self.chance(0.7 if d > 0 else 0.6):
            p = self.place(t, "read", min(d, 2))
            if p and self.chance(0.85):
                return p
        if d <= 0:
            return self.lit(t)
        c = [lambda: self.lit(t)]
        x = lambda tt, dd=1: self.expr(tt, d - dd)
        if self.chance(0.12):
            return "id(%s)" % x(t)
        if self.chance(0.1) and not t.startswith("func"):
            # closure reading from outside
            ps = [(self.local(), self.pick(["int", "string", "[]int"]))] if self.chance(0.5) else []
            if ps and ps[0][0] == "sub" and "sub" in t:
                ps = []
            args = ", ".join(x(p[1]) for p in ps)
            return "%s(%s)" % (self.flit(ps, t, d - 1), args)
        if t == "int":
            c += [
                lambda: "(%s %s %s)" % (x("int"), self.pick("+-*&|^"), x("int")),
                lambda: "%s %s %s" % (x("int"), self.pick("+-"), self.operand("int", "read", d - 1)),
                lambda: "len(%s)" % x(self.pick(["[]int", "string", "map[string]int", "[]string", "[3]int", "[]St", "*[3]int", "[2]St"])),
                lambda: "cap(%s)" % x(self.pick(["[3]int", "chan int", "*[3]int"])),
                lambda: "-" + self.operand("int", "read", d - 1),
                lambda: "^" + self.operand("int", "read", d - 1),
                lambda: "int(%s)" % x(self.pick(["Num", "rune", "byte", "int64"])),
                lambda: self.operand(self.pick(["St", "*St"]), "read", d - 1) + ".Val()",
                lambda: self.operand("St", "addr", d - 1) + ".PGet()",
                lambda: self.operand("*St", "read", d - 1) + ".PGet()",
                lambda: self.operand(self.pick(["St", "*St"]), "read", d - 1) + ".BVal()",
                lambda: self.operand("St", "addr", d - 1) + ".BPGet()",
                lambda: self.operand("St", "addr", d - 1) + ".E.BPGet()",
                lambda: self.operand(self.pick(["St", "*St"]), "read", d - 1) + self.pick([".DVal()", ".DPGet()", ".Deep.DVal()", ".Deep.DPGet()"]),
                lambda: self.operand(self.pick(["sub.In", "*sub.In"]), "read", d - 1) + ".DVal()",
                lambda: self.operand("sub.In", "addr", d - 1) + self.pick([".DPGet()", ".Deep.DPGet()", ".T[1].DPGet()"]),
                lambda: self.operand("Num", "read", d - 1) + ".Dbl()",
                lambda: self.operand("Box[int]", "read", d - 1) + ".Get()",
                lambda: self.operand("func(int) int", "read", d - 1) + "(%s)" % x("int"),
                lambda: self.operand("func() *St", "read", d - 1) + "().A",
                lambda: "sum(%s...)" % x("[]int"),
                lambda: "sum(%s, %s)" % (x("int"), x("int")),
                lambda: "(&%s).%s" % (self.operand("St", "addr", d - 1), self.pick(["A", "PGet()", "Val()", "Base.BN", "BPGet()"])),
                lambda: "(*&%s)" % self.operand("int", "addr", d - 1),
                lambda: "func() int { if z, ok := %s.(int); ok { return z }; return -1 }()" % self.operand("interface{}", "read", d - 1),
                lambda: "1 << uint(ix(%s, 5))" % x("int"),
                lambda: "Num.Dbl(%s)" % x("Num"),
                lambda: "(*St).PGet(%s)" % x("*St"),
                lambda: "min(%s, %s)" % (x("int"), x("int")),
                lambda: "int(%s.Milliseconds())" % self.operand("time.Duration", "read", d - 1),
                lambda: "int(real(id(%s)))" % x("complex128"),
                lambda: (self.place("strings.Builder", "addr", 1) or "new(strings.Builder)") + ".Len()",
                lambda: "int(%s)" % x("uintptr"),
                lambda: "func() (z int) { for range %s { z++ }; return }()" % x(self.pick(["[]int", "[3]int", "[]string", "map[string]int"])),
            ]
        elif t == "string":
            c += [
                lambda: "%s + %s" % (x("string"), x("string")),
                lambda: "fmt.Sprint(%s)" % x(self.pick(sorted(PRINT))),
                lambda: self.operand(self.pick(["St", "*St"]), "read", d - 1) + ".Str()",
                lambda: "string(%s)" % x("rune"),
                lambda: "%s[:ix(%s, 2)*0]" % (self.operand("string", "read", d - 1), x("int")),
                lambda: 'strings.Join(%s, ",")' % x("[]string"),
                lambda: self.operand(self.pick(["sub.In", "*sub.In"]), "read", d - 1) + ".Str()",
                lambda: "fmt.Sprint(%s == nil)" % x(self.pick(["error", "interface{}", "*St", "chan int", "func(int) int", "*int"])),
            ]
        elif t == "bool":
            c += [
                lambda: "(%s %s %s)" % (x("int"), self.pick(["==", "!=", "<", ">", "<=", ">="]), x("int")),
                lambda: "(%s == %s)" % (x("string"), x("string")),
                lambda: "!" + self.operand("bool", "read", d - 1),
                lambda: "(%s && %s)" % (x("bool"), x("bool")),
                lambda: "(%s || %s)" % (x("bool"), x("bool")),
                lambda: "(%s == %s)" % (self.operand("[3]int", "read", d - 1), self.operand("[3]int", "read", d - 1)),
                lambda: "(%s != nil)" % x("error"),
                lambda: "errors.Is(%s, %s)" % (x("error"), x("error")),
                lambda: "(&%s == &%s)" % ((lambda v: (v, v))(self.pick(self.vars_of("int") or ["*mkInt"]))) if self.vars_of("int") else "true",
            ]
        elif t == "float64":
            c += [lambda: "(%s * %s)" % (x("float64"), x("float64")), lambda: "float64(%s)" % x("int"), lambda: "%s / 4" % self.operand("float64", "read", d - 1)]
        elif t == "Num":
            c += [lambda: "Num(%s)" % x("int"), lambda: "%s + 1" % self.operand("Num", "read", d - 1), lambda: "%s * %s" % (self.operand("Num", "read", d - 1), self.operand("Num", "read", d - 1))]
        elif t == "rune":
            c += [lambda: "rune(%s)" % x("byte"), lambda: "%s + 1" % self.operand("rune", "read", d - 1)]
        elif t == "int64":
            c += [lambda: "int64(%s)" % x("int"), lambda: "%s << 2" % self.operand("int64", "read", d - 1)]
        elif t == "time.Duration":
            c += [lambda: "%s * 2" % self.operand("time.Duration", "read", d - 1), lambda: "time.Duration(%s)" % x("int")]
        elif t == "complex128":
            c += [lambda: "(%s + %s)" % (x("complex128"), x("complex128")), lambda: "complex(%s, 1)" % x("float64")]
        elif t == "uintptr":
            c += [lambda: "%s << 1" % self.operand("uintptr", "read", d - 1)]
        elif t == "any":
            c += [lambda: "any(%s)" % x(self.pick(["int", "string", "interface{}"]))]
        elif t == "byte":
            c += [lambda: "byte(ix(%s, 200))" % x("int"), lambda: '("z"+%s)[0]' % x("string")]
        elif t == "[]int":
            c += [
                lambda: "append([]int(nil), %s...)" % x("[]int"),
                lambda: "append(%s[:1:1], %s)" % (self.operand("[]int", "read", d - 1), x("int")),
                lambda: "%s[%s:]" % (self.operand("[3]int", "addr", d - 1), self.pick(["", "1", "0"])),
                lambda: "%s[:1]" % (self.operand("[]int", "read", d - 1)),
                lambda: "%s[0:1:1]" % (self.operand("[]int", "read", d - 1)),
                lambda: "%s[:]" % (self.operand("*[3]int", "read", d - 1)),
                lambda: "%s[:2:3]" % (self.operand("[3]int", "addr", d - 1)),
                lambda: "[]int{%s, 1: %s}" % (x("int"), x("int")),
            ]
        elif t == "map[string]int":
            c += [lambda: 'map[string]int{"a": %s, %s + "k": %s}' % (x("int"), x("string"), x("int"))]
        elif t == "[3]int":
            c += [lambda: "[3]int{%s, %s}" % (x("int"), x("int"))]
        elif t == "[]string":
            c += [lambda: "[]string{%s, %s}" % (x("string"), x("string"))]
        elif t == "St":
            c += [lambda: "St{A: %s, B: %s, L: %s, M: %s, P: %s, E: Base{BN: %s, BS: []int{3}}, F: %s, Base: Base{BS: []int{4}}, Deep: &sub.Deep{Z: %s, ZS: []string{\"z\"}}}" % (x("int"), x("string"), x("[]int"), x("map[string]int"), x("*St", 2), x("int"), x("func(int) int", 2), x("int")) if self.sub_ok() else self.lit(t)]
        elif t == "*St":
            c += [
                lambda: "&" + self.operand("St", "addr", d - 1),
                lambda: "&" + self.operand("St", "addr", d - 1),
                lambda: self.operand("func() *St", "read", d - 1) + "()",
                lambda: "&St{A: %s, B: %s, L: %s, M: %s, P: mkSt(1), F: %s, Base: Base{BS: []int{5}}, E: Base{BS: []int{7}}, Deep: %s.Deep}" % (x("int"), x("string"), x("[]int"), x("map[string]int"), x("func(int) int", 2), self.operand("*St", "read", d - 1)),
            ]
        elif t == "*int":
            c += [lambda: "&" + self.operand("int", "addr", d - 1)] * 3
        elif t == "*[3]int":
            c += [lambda: "&" + self.operand("[3]int", "addr", d - 1)] * 2
        elif t == "*sub.In":
            c += [lambda: "&" + self.operand("sub.In", "addr", d - 1)] * 2
        elif t == "func(int) int":
            n = self.local()
            c += [lambda: self.flit([(n, "int")], "int", d - 1)] * 2
        elif t == "func() *St":
            c += [lambda: self.flit([], "*St", d - 1)]
        elif t == "interface{}":
            c += [lambda: "interface{}(%s)" % x(self.pick(["int", "string", "[]int", "bool", "Num"]))]
        elif t == "Box[int]":
            c += [lambda: "Box[int]{V: %s, N: %s}" % (x("int"), x("int"))]
        elif t == "error":
            c += [lambda: 'fmt.Errorf("w %%w", %s)' % x("error"), lambda: "errors.New(%s)" % x("string")]
        elif t == "[]St":
            c += [lambda: "[]St{%s, %s}" % (x("St"), x("St")), lambda: "%s[:1]" % self.operand("[2]St", "addr", d - 1)]
        elif t == "struct{ x, y int }":
            c += [lambda: "struct{ x, y int }{x: %s, y: %s}" % (x("int"), x("int"))]
        return self.pick(c)()

    def some_type(self, mutex=False):
        """a type, likely one of a visible variable"""
        ts = [t for t in TYPES if mutex or t not in ("sync.Mutex", "strings.Builder")]
        if self.chance(0.6):
            vs = [t for t in self.visible().values() if t in ts]
            if vs:
                return self.pick(sorted(vs))
        return self.pick(ts)

    # ------------------------------------------------------------ statements
    def block(self, n, d, scope=None):
        self.scopes.append(dict(scope or {}))
        out = []
        for _ in range(n):
            s = self.stmt(d)
            if s is not None:
                out.append(Opt(s + ["\n"]))
        self.scopes.pop()
        return out

    def printable(self, d=2):
        t = self.some_type()
        if t not in PRINT:
            if t == "St" or t == "*St":
                return self.operand(t, "read", d) + ".Str()"
            t = self.pick(sorted(PRINT))
        e = self.expr(t, d)
        return e

    def out(self):
        n = self.r.randrange(1, 4)
        return ["out(" + ", ".join(['"%s"' % self.fresh("o")] + [self.printable() for _ in range(n)]) + ")"]

    def define(self, name, t, e):
        """after evaluating e"""
        self.declare(name, t)
        return "_ = %s" % name if t != "sync.Mutex" else "%s.TryLock()" % name

    def stmt(self, d):
        r = self.r
        k = r.randrange(100)
        x = self.expr
        if k < 22:
            return self.out()
        if k < 34:
            t = self.some_type(True)
            if t == "strings.Builder":
                p = self.place("strings.Builder", "addr", 1)
                if p:
                    return ["%s.WriteString(%s); out(%s.String())" % (p, x("string", 1), p)]
                return self.out()
            if t == "sync.Mutex":
                p = self.operand("sync.Mutex", "addr", 1) if self.vars_of("sync.Mutex") else None
                if p:
                    return ["%s.Lock(); %s.Unlock()" % (p, p)]
                return self.out()
            p = self.place(t, "assign")
            if not p:
                return self.out()
            self.classes.add("assign")
            return ["%s = %s" % (p, x(t))]
        if k < 40:
            t, ops = self.pick([("int", ["+=", "-=", "*=", "|=", "^=", "&^=", "%= 7 +0*"]), ("string", ["+="]), ("float64", ["*=", "+="]), ("Num", ["+="]), ("int64", ["+="])])
            p = self.place(t, "assign")
            if not p:
                return self.out()
            op = self.pick(ops)
            if op[0] == "%":
                return ["%s %%= 7" % p]
            if t == "string":
                return ["%s %s %s" % (p, op, self.lit("string"))]
            return ["%s %s %s" % (p, op, x(t, 1))]
        if k < 44:
            p = self.place(self.pick(["int", "Num", "byte", "rune", "float64"]), "assign")
            return ["%s%s" % (p, self.pick(["++", "--"]))] if p else self.out()
        if k < 48:
            t = self.pick(["int", "string", "[]int", "St", "bool"])
            a, b = self.place(t, "assign", 1), self.place(t, "assign", 1)
            if not a or not b or "(" in a + b:
                return self.out()
            self.classes.add("swap")
            return ["%s, %s = %s, %s" % (a, b, b, a)]
        if k < 62:
            # declarations
            form = r.randrange(12)
            if form >= 10:
                # a local that hides a package variable, the redefinition of
                # others, and only then its use
                vis = self.visible()
                hide = sorted(n for n in self.pkg if n not in self.scopes[-1] and n != "sub" and n != "_")
                ns = sorted(n for n in vis if n not in self.scopes[-1] and "." not in n and vis[n] not in ("sync.Mutex", "strings.Builder") and n != "sub")
                if hide and len(ns) > 1:
                    h = self.pick(hide)
                    t = self.pick(["int", "string", "int64"]) if self.chance(0.5) or self.pkg[h] not in ("int", "string") else self.pkg[h]
                    self.classes.add("hide-redefine-use")
                    how = r.randrange(4)
                    if how == 0:
                        ln = ["const %s = %s; " % (h, self.lit("int"))]
                        self.declare(h, None)
                    else:
                        ln = ["var %s %s = %s; " % (h, t, self.lit(t)) if how < 3 else "%s := %s; " % (h, self.lit(t)), self.define(h, t, ""), "; "]
                    for _ in range(r.randrange(1, 3)):
                        rest = [n for n in ns if n != h and n not in self.scopes[-1]]
                        if not rest:
                            break
                        n = self.pick(rest)
                        ln += ["%s := %s; " % (n, n), self.define(n, vis[n], n), "; "]
                    o = self.fresh("o")
                    ln.append(self.pick(['out("%s", %s)' % (o, h), 'func() { out("%s", %s) }()' % (o, h), 'if %s == %s { out("%s", %s) }' % (h, h, o, h)]))
                    return ln
                form = 0
            if form >= 8:
                # x := x, or x, y := y, x
                vis = self.visible()
                ns = sorted(n for n in vis if n not in self.scopes[-1] and "." not in n and vis[n] not in ("sync.Mutex", "strings.Builder") and n != "sub")
                if ns:
                    inner = [n for n in ns if any(n in s for s in self.scopes)]
                    n = self.pick(inner) if inner and self.chance(0.4) else self.pick(ns)
                    self.classes.add("redefine")
                    same = [m for m in ns if vis[m] == vis[n] and m != n]
                    if same and form == 9:
                        m = self.pick(same)
                        ln = "%s, %s := %s, %s; " % (n, m, m, n)
                        self.declare(m, vis[m])
                        self.declare(n, vis[n])
                        return [ln, "_, _ = %s, %s" % (n, m)]
                    return ["%s := %s; " % (n, n), self.define(n, vis[n], n)]
                form = 0
            t = self.some_type()
            n = self.local()
            self.classes.add("hides" if n in self.pkg else "local")
            if n == "sub" and "sub" in t:
                n = self.fresh()
            if form < 3:
                # x := x is the classic
                e = n if self.lookup(n) == t and self.chance(0.5) else x(t)
                if t == "error":
                    return [self.pick(["%s := error(%s); ", "var %s error = %s; "]) % (n, e), self.define(n, t, e)]
                return ["%s := %s; " % (n, e), self.define(n, t, e)]
            if form == 3:
                e = x(t)
                return ["var %s %s = %s; " % (n, t, e), self.define(n, t, e)]
            if form == 4:
                if t[0] == "*" or t in ("[]int", "[]string", "[]St", "[]*St", "[][]int", "map[string]int", "map[string]*St", "func(int) int", "func() *St", "chan int", "error", "interface{}", "St", "[2]St", "sub.In"):
                    t = "int"
                return ["var %s %s; " % (n, t), self.define(n, t, "")]
            if form == 5:
                e = x("int", 1)
                s = x("string", 1)
                m = self.local()
                if m == n:
                    m = self.fresh()
                ln = "%s, %s := pair(%s, %s); " % (n, m, e, s)
                self.declare(n, "int")
                self.declare(m, "string")
                return [ln, "_, _ = %s, %s" % (n, m)]
            if form == 6:
                self.declare(n, None)
                self.classes.add("const")
                arr = self.place("[3]int", "addr", 0)
                v = "len(%s)" % arr if arr and self.chance(0.5) and arr != n else self.lit("int")
                return ["const %s = %s; out(%s)" % (n, v, n)]
            self.declare(n, None)
            self.classes.add("local type")
            f = self.local()
            if f == n:
                f = self.fresh()
            return ["type %s struct { %s int }; out(%s{%s: %s})" % (n, f, n, f, self.expr("int", 1))] if n not in ("int",) else self.out()
        if d <= 0:
            return self.out()
        n = r.randrange(1, 4)
        if k < 67:
            form = r.randrange(4)
            self.classes.add("if")
            if form == 0:
                return ["if ", x("bool"), " {\n", self.block(n, d - 1), "} else {\n", self.block(1, d - 1), "}"]
            if form == 1:
                v = self.local()
                e = x("int", 1)
                sc = {v: "int"}
                self.scopes.append(sc)
                cond = "%s > %s" % (v, self.expr("int", 0))
                res = ["if %s := %s; %s {\n" % (v, e, cond), self.block(n, d - 1), "} else if ", self.expr("bool", 1), " {\n", self.block(1, d - 1), "}"]
                self.scopes.pop()
                return res
            if form == 2:
                v, o = self.local(), self.local()
                if o == v:
                    o = self.fresh()
                m = x("map[string]int", 1)
                if m[0] == "m" and m.startswith("map["):
                    m = "(" + m + ")"
                key = x("string", 1)
                self.scopes.append({v: "int", o: "bool"})
                res = ["if %s, %s := %s[%s]; %s || %s > 3 {\n" % (v, o, m, key, o, v), self.block(n, d - 1), "}"]
                self.scopes.pop()
                return res
            v = self.local()
            e = x("error", 1)
            if "{" in e:
                e = "(" + e + ")"
            self.scopes.append({v: "error"})
            res = ["if %s := %s; %s != nil {\n" % (v, e, v), self.block(n, d - 1), "}"]
            self.scopes.pop()
            return res
        if k < 76:
            form = r.randrange(7)
            self.classes.add("for")
            if form == 0:
                v = self.local()
                self.scopes.append({v: None})   # not assignable inside
                b = self.block(n, d - 1)
                self.scopes.pop()
                return ["for %s := 0; %s < 2; %s++ {\n_ = %s\n" % (v, v, v, v), b, "}"]
            if form in (1, 2):
                ct, et = self.pick([("[]int", "int"), ("[3]int", "int"), ("[]string", "string"), ("[]St", "St"), ("[2]string", "string"), ("*[3]int", "int"), ("[][]int", "[]int")])
                c = x(ct, 1)
                if "{" in c:
                    c = "(" + c + ")"
                i, v = self.local(), self.local()
                if i == v:
                    v = self.fresh()
                if self.chance(0.3):
                    i = "_"
                sc = {v: et}
                if i != "_":
                    sc[i] = "int"
                b = self.block(n, d - 1, sc)
                cnt = self.fresh("n")
                use = "_ = %s\n" % v + ("_ = %s\n" % i if i != "_" else "")
                return ["{ %s := 0\nfor %s, %s := range %s {\n%s++; if %s > 3 { break }\n%s" % (cnt, i, v, c, cnt, cnt, use), b, "} }"]
            if form == 3:
                v = self.local()
                e = "ix(%s, 3)" % x("int", 1)
                b = self.block(n, d - 1, {v: None})
                return ["for %s := range %s {\n_ = %s\n" % (v, e, v), b, "}"]
            if form == 4:
                p = self.place("int", "assign", 1)
                if not p:
                    return self.out()
                c = x("[3]int", 1)
                if "{" in c:
                    c = "(" + c + ")"
                return ["for %s = range %s {\n" % (p, c), self.block(1, d - 1) if False else "", "}"]
            if form == 5:
                kv = self.fresh("kk")
                m = x("map[string]int", 1)
                if "{" in m:
                    m = "(" + m + ")"
                return ["{ ks := []string{}; for %s := range %s { ks = append(ks, %s) }; sort.Strings(ks); out(ks) }" % (kv, m, kv)]
            lab = self.pick(list(self.pkg) or ["Lx"])
            if self.scopes and lab in ("_",):
                lab = "Lx"
            lab2 = lab if self.chance(0.4) and not getattr(self, "labels", None) else self.fresh("L")
            if lab2 == lab:
                self.labels = True
            v = self.fresh("i")
            return ["%s:\nfor %s := 0; %s < 3; %s++ {\nfor range 2 {\nif %s { continue %s }\n" % (lab2, v, v, v, x("bool", 1), lab2), self.block(n, d - 1), "break %s\n}\n}" % lab2]
        if k < 82:
            form = r.randrange(4)
            self.classes.add("switch")
            if form == 0:
                v = self.local()
                e = x("int", 1)
                self.scopes.append({v: "int"})
                res = ["switch %s := %s; ix(%s, 4) {\ncase 0, %s + 100:\n" % (v, e, v, self.operand("int", "read", 1)), self.block(n, d - 1), "case 1:\n", self.block(1, d - 1), "fallthrough\n" if self.chance(0.3) else "", "default:\n", self.block(1, d - 1), "}"]
                self.scopes.pop()
                return res
            if form == 1:
                return ["switch {\ncase ", x("bool"), ":\n", self.block(n, d - 1), "case ", x("bool"), ":\n", self.block(1, d - 1), "}"]
            if form == 2:
                v = self.local()
                e = x("interface{}", 1)
                if "{" in e:
                    e = "(" + e + ")"
                elif not e.replace(".", "").replace("_", "").isalnum():
                    e = "(" + e + ")"
                a = self.block(n, d - 1, {v: "int"})
                b = self.block(1, d - 1, {v: "string"})
                c = self.block(1, d - 1, {v: "interface{}"})
                return ["switch %s := %s.(type) {\ncase int:\n_ = %s\n" % (v, e, v), a, "case string:\n_ = %s\n" % v, b, "case []int, bool:\n_ = %s\n" % v, c, "default:\n}"]
            e = x("string", 1)
            if "{" in e:
                e = "(" + e + ")"
            return ["switch ", e, " {\ncase ", x("string", 1), ":\n", self.block(n, d - 1), "default:\n", self.block(1, d - 1), "}"]
        if k < 85:
            ch = self.operand("chan int", "read", 1)
            v = self.local()
            self.classes.add("select")
            form = r.randrange(3)
            if form == 0:
                return ["select {\ncase %s <- %s:\n" % (ch, x("int", 1)), self.block(1, d - 1), "default:\n", self.block(1, d - 1), "}"]
            if form == 1:
                b = self.block(n, d - 1, {v: "int"})
                return ["select {\ncase %s := <-%s:\n_ = %s\n" % (v, ch, v), b, "default:\n", self.block(1, d - 1), "}"]
            p = self.place("int", "assign", 1)
            if not p:
                return self.out()
            return ["select {\ncase %s = <-%s:\n" % (p, ch), self.block(1, d - 1), "default:\n}"]
        if k < 91:
            # closures, immediately called, deferred or concurrent
            form = r.randrange(4)
            self.classes.add("closure")
            ps = [(self.local(), self.pick(["int", "string", "St", "[]int", "*St"]))]
            args = ", ".join(x(p[1], 1) for p in ps)
            sc = {ps[0][0]: ps[0][1]}
            b = self.block(n, d - 1, sc)
            head = "func(%s) {\n" % ", ".join("%s %s" % p for p in ps)
            if form == 0:
                return [head, b, "}(", args, ")"]
            if form == 1:
                return ["defer ", head, b, "}(", args, ")"]
            if form == 2:
                return ["{ done := make(chan bool); arg := ", args if args != "nil" else "0", "; go func(%s) {\ndefer close(done); defer func() { if e := recover(); e != nil { out(\"goroutine panic\", fmt.Sprint(e)) } }()\n" % ", ".join("%s %s" % p for p in ps), b, "}(arg); <-done }"]
            f = self.fresh("f")
            return ["%s := " % f, head, b, "}; ", "%s(%s)" % (f, args)]
        if k < 96:
            self.classes.add("pointer method")
            form = r.randrange(9)
            a = x("int", 1)
            if form == 0:
                return ["%s.Set(%s)" % (self.operand("St", "addr", 2), a)]
            if form == 1:
                return ["%s.%s(%s)" % (self.operand("St", "addr", 2), self.pick(["BInc", "E.BInc", "Base.BInc", "DInc", "Deep.DInc"]), a)]
            if form == 2:
                p = self.place("Num", "addr")
                return ["%s.Add(%s)" % (p, a)] if p else self.out()
            if form == 3:
                p = self.place("Box[int]", "addr")
                return ["%s.Put(%s)" % (p, a)] if p else self.out()
            if form == 4:
                return ["%s.%s(%s)" % (self.operand("sub.In", "addr", 2), self.pick(["DInc", "Deep.DInc", "T[0].DInc"]), a)]
            if form == 5:
                return ["%s.%s(%s)" % (self.operand("*St", "read", 2), self.pick(["Set", "BInc", "DInc"]), a)]
            if form == 6:
                f = self.fresh("f")
                return ["%s := %s.Set; %s(%s)" % (f, self.operand("St", "addr", 2), f, a)]
            if form == 7:
                return ["(*St).Set(&%s, %s)" % (self.operand("St", "addr", 1), a)]
            return ["(&%s).Set(%s)" % (self.operand("St", "addr", 1), a)]
        if k < 98:
            return ["{\n", self.block(n, d - 1), "}"]
        if k < 99:
            return ['delete(%s, "b")' % self.operand("map[string]int", "read", 1)]
        return ["copy(%s, %s)" % (self.operand("[]int", "read", 1), x("[]int", 1))]

    # ------------------------------------------------------------ program
    def program(self):
        r = self.r
        subdecl = []
        names = [n for n in NAMES if n[0].isupper()]
        r.shuffle(names)
        for n in names[:r.randrange(3, 8)]:
            t = self.pick(["int", "string", "[]int", "map[string]int", "[3]int", "In", "*In", "Deep"])
            if n in ("Deep", "In", "Mk"):
                continue
            l = {"In": "In{Deep: Deep{Z: 4, ZS: []string{\"t\"}}, K: map[string]int{\"a\": 1}}", "*In": "Mk(5)", "Deep": "Deep{Z: 6}"}.get(t) or self.lit(t)
            subdecl.append(Opt([self.pick(["var %s %s = %s\n" % (n, t, l), "var %s = %s\n" % (n, l)])]))
            tt = {"In": "sub.In", "*In": "*sub.In", "Deep": None}.get(t, t)
            if tt:
                self.subvars[n] = tt
        # package variables
        decls = []
        names = [n for n in NAMES if n not in ("in",)]
        r.shuffle(names)
        nv = r.randrange(8, 22)
        inits = []
        for i in range(nv):
            n = names[i]
            if n in ("St", "Base", "Num", "Box", "ix", "sum", "out", "id", "pair", "mkSt"):
                continue
            t = self.pick(TYPES)
            form = r.randrange(10)
            zero_ok = t in ("int", "string", "bool", "float64", "rune", "byte", "Num", "[3]int", "interface{}", "Box[int]", "struct{ x, y int }", "[2]string", "sync.Mutex", "int64", "error", "time.Duration", "strings.Builder", "uintptr", "any", "complex128")
            self.scopes = [{}]
            if form == 0 and zero_ok:
                decls.append(Opt(["var %s %s\n" % (n, t)]))
            elif form < 5:
                # initialised from variables declared before: with a type or without
                e = self.expr(t, 2)
                if t in ("sync.Mutex", "strings.Builder"):
                    decls.append(Opt(["var %s %s\n" % (n, t)]))
                else:
                    decls.append(Opt(["var %s %s = %s\n" % (n, t, e)]))
            elif form < 9:
                e = self.expr(t, 2)
                if t == "error":
                    e = "error(%s)" % e
                decls.append(Opt(["var %s = %s\n" % (n, e)]))
            else:
                m = names[-1 - i]
                if m in self.pkg:
                    continue
                e1, e2 = self.expr("int", 1), self.expr("string", 1)
                decls.append(Opt([self.pick(["var %s, %s = %s, %s\n" % (n, m, e1, e2), "var %s, %s = pair(%s, %s)\n" % (n, m, e1, e2), "var (\n\t%s int = %s\n\t%s = %s\n)\n" % (n, e1, m, e2), "var (%s = %s; %s string)\n" % (n, e1, m)])]))
                self.pkg[m] = "string"
                t = "int"
            self.pkg[n] = t
            self.classes.add("var " + t)
        decls2 = list(decls)
        if self.chance(0.5):
            r.shuffle(decls2)   # initialisation order is by dependency
        self.initial = False
        fns = []
        main = ["func Main() {\n"]
        for i in range(r.randrange(2, 6)):
            f = "f%d" % i
            self.scopes = [{}]
            self.labels = False
            kind = r.randrange(5)
            ps = []
            for _ in range(r.randrange(3)):
                n = self.local()
                if n in dict(ps) or n == "sub":
                    continue
                ps.append((n, self.pick(["int", "string", "[]int", "St", "*St", "map[string]int", "func(int) int"])))
            sc = dict(ps)
            args = ", ".join(self.expr(t, 1) for _, t in ps)
            plist = ", ".join("%s %s" % p for p in ps)
            res, ret = "", []
            if self.chance(0.4):
                n = self.local()
                if n not in sc and n != "sub":
                    sc[n] = "int"
                    res = " (%s int)" % n
                    ret = ["return %s\n" % (n if self.chance(0.5) else "")]
            self.scopes = [{}]
            if kind == 0:
                tp = self.pick([n for n in self.pkg if n not in sc] or ["TP"])
                sc[tp] = None
                b = self.block(r.randrange(2, 8), 2, sc)
                fns.append(Opt(["func %s[%s any](%s)%s {\n" % (f, tp, plist, res), Opt(["var z %s; _ = z\n" % tp]), b] + ret + ["}\n"]))
                call = "%s[int](%s)" % (f, args)
            elif kind == 1:
                rn = self.pick([n for n in self.pkg if n not in sc] or ["rv"])
                if "sub" != rn:
                    sc[rn] = self.pick(["St", "*St"])
                b = self.block(r.randrange(2, 8), 2, sc)
                fns.append(Opt(["func (%s %s) %s(%s)%s {\n" % (rn, sc.get(rn, "St"), f, plist, res), b] + ret + ["}\n"]))
                call = "mkSt(3).%s(%s)" % (f, args)
            else:
                b = self.block(r.randrange(3, 10), 2, sc)
                fns.append(Opt(["func %s(%s)%s {\n" % (f, plist, res), b] + ret + ["}\n"]))
                call = "%s(%s)" % (f, args)
            main.append(Opt(["func() {\ndefer func() { if e := recover(); e != nil { out(\"panic\", fmt.Sprint(e)) } }()\nout(\"%s\")\n%s\n}()\n" % (f, call)]))
        # final state, written by functions that xgo does not see differently
        self.scopes = [{}]
        for n, t in sorted(self.visible().items()):
            if t in PRINT:
                main.append(Opt(["out(\"%s\", %s)\n" % (n, n)]))
            elif t in ("St", "*St", "sub.In"):
                main.append(Opt(["out(\"%s\", %s.Str())\n" % (n, n)]))
        main.append("}\n")
        files = {"a.go": [PRELUDE], "sub/sub.go": [SUB] + subdecl}
        if self.chance(0.6):
            # a second file, with another name for the import
            files["b.go"] = [HEAD_B]
            self.classes.add("two files")
            for x in decls2 + fns:
                if self.chance(0.5):
                    files["b.go"].append(rename(x))
                else:
                    files["a.go"].append(x)
        else:
            files["a.go"] += decls2 + fns
        files["a.go"].append(main)
        if self.dots:
            self.classes.add("dot import")
            files["dots/dots.go"] = [DOTS]
            for k in ("a.go", "b.go"):
                if k in files:
                    files[k][0] = with_dots(files[k][0])
        return Program(files, {"classes": sorted(self.classes)})


def gen(seed):
    return G(seed).program()
