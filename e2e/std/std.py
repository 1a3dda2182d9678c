"""Functions of the standard library as targets: programs that call some dozens
of them, mock, intercept and record some, and print what they give."""
import json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
import lab
from vlib import Err, REPO, base_env, run, rmtree

HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = ("patch", "mock", "icpt", "rec")

# generic functions, as their instantiations are written by users
GENERIC = [
    ("slices", "Index", "slices_.Index[[]int, int]", "slices_.Index([]int{1, 2}, 2)", 1),
    ("slices", "Max", "slices_.Max[[]string]", "slices_.Max([]string{\"a\", \"b\"})", 1),
    ("slices", "Sort", "slices_.Sort[[]string]", "slices_.Sort([]string{\"b\", \"a\"})", 0),
    ("slices", "Reverse", "slices_.Reverse[[]int]", "slices_.Reverse([]int{1, 2})", 0),
    ("maps", "Clone", "maps_.Clone[map[string]int]", "maps_.Clone(map[string]int{\"a\": 1})", 1),
    ("cmp", "Compare", "cmp_.Compare[int]", "cmp_.Compare(1, 2)", 1),
]

HELP = r'''
type ent struct {
	name string
	call func() []interface{}
	out  string
}

// get runs the call; what it gives is shown later, when nothing is mocked
func get(call func() []interface{}) (res []interface{}, pan interface{}) {
	defer func() { pan = recover() }()
	return call(), nil
}

func show(res []interface{}, pan interface{}) string {
	if pan != nil {
		if e, ok := pan.(error); ok {
			pan = e.Error()
		}
		return fmt.Sprintf("panic %.200v", pan)
	}
	s := ""
	for _, r := range res {
		s += show1(reflect.ValueOf(r), 0) + " "
	}
	return s
}

func show1(v reflect.Value, depth int) (s string) {
	if !v.IsValid() {
		return "nil"
	}
	defer func() {
		if recover() != nil {
			s += "!"
		}
	}()
	if depth == 0 && v.CanInterface() {
		if e, ok := v.Interface().(error); ok && !(v.Kind() == reflect.Ptr && v.IsNil()) {
			return "error " + e.Error()
		}
	}
	t := v.Type().String()
	switch v.Kind() {
	case reflect.String:
		return fmt.Sprintf("%s(%.300q)", t, v.String())
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
		return fmt.Sprintf("%s(%v)", t, show0(v))
	case reflect.Slice, reflect.Array:
		s = t + "{"
		for i := 0; i < v.Len() && i < 20; i++ {
			s += show1(v.Index(i), depth+1) + ","
		}
		return s + "}"
	case reflect.Struct:
		s = t + "{"
		for i := 0; i < v.NumField() && depth < 3; i++ {
			if v.Type().Field(i).IsExported() {
				s += show1(v.Field(i), depth+1) + ","
			}
		}
		return s + "}"
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return t + " nil"
		}
		if depth < 3 {
			return "&" + show1(v.Elem(), depth+1)
		}
	case reflect.Map, reflect.Func, reflect.Chan:
		if v.IsNil() {
			return t + " nil"
		}
	}
	return t
}

func show0(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.Complex64, reflect.Complex128:
		return v.Complex()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return v.Uint()
	}
	return v.Int()
}

// zero returns a replacement of f that counts and returns zero values
func zero(f interface{}, n *int) interface{} {
	t := reflect.TypeOf(f)
	return reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value {
		*n++
		return zeros(t)
	}).Interface()
}

func zeros(t reflect.Type) []reflect.Value {
	var r []reflect.Value
	for i := 0; i < t.NumOut(); i++ {
		r = append(r, reflect.Zero(t.Out(i)))
	}
	return r
}

// recorder returns a function that gets pointers to what f gets and returns
func recorder(f interface{}, n *int) interface{} {
	t := reflect.TypeOf(f)
	var in []reflect.Type
	for i := 0; i < t.NumIn(); i++ {
		in = append(in, reflect.PtrTo(t.In(i)))
	}
	for i := 0; i < t.NumOut(); i++ {
		in = append(in, reflect.PtrTo(t.Out(i)))
	}
	return reflect.MakeFunc(reflect.FuncOf(in, nil, false), func([]reflect.Value) []reflect.Value {
		*n++
		return nil
	}).Interface()
}

func bad(f string, a ...interface{}) { fmt.Printf("BAD "+f+"\n", a...) }

func safely(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			bad("%s panics: %v", what, e)
		}
	}()
	f()
}

// all runs everything and compares with what it gave at first
func all(what string) {
	type r struct {
		res []interface{}
		pan interface{}
	}
	rs := make([]r, len(ents))
	for i := range ents {
		rs[i].res, rs[i].pan = get(ents[i].call)
	}
	after = append(after, func() {
		for i, x := range rs {
			if s := show(x.res, x.pan); s != ents[i].out {
				bad("%s: %s gives %s instead of %s", what, ents[i].name, s, ents[i].out)
			}
		}
	})
}

var after []func()

func flush() {
	for _, f := range after {
		f()
	}
	after = nil
}

func replaced(name string, f interface{}, i int, n *int, undo func()) {
	res, pan := get(ents[i].call)
	c := *n
	undo()
	if c == 0 {
		bad("%s is not mocked: %s", name, show(res, pan))
		return
	}
	var want []interface{}
	for _, z := range zeros(reflect.TypeOf(f)) {
		want = append(want, z.Interface())
	}
	if s, w := show(res, pan), show(want, nil); s != w && len(res) == len(want) && pan == nil {
		bad("%s is mocked but gives %s instead of %s", name, s, w)
	}
	res, pan = get(ents[i].call)
	if s := show(res, pan); s != ents[i].out || *n != c {
		bad("after the mock of %s it gives %s instead of %s", name, s, ents[i].out)
	}
}

// seen: the call is observed, and nothing changes
func seen(name string, i int, n *int, undo func()) {
	res, pan := get(ents[i].call)
	c := *n
	all("while " + name + " is observed")
	undo()
	flush()
	if c == 0 {
		bad("%s is not seen: %s", name, show(res, pan))
	}
	if s := show(res, pan); s != ents[i].out {
		bad("%s gives %s instead of %s when observed", name, s, ents[i].out)
	}
	c = *n
	get(ents[i].call)
	if *n != c {
		bad("%s is still seen", name)
	}
}
'''

# xgo's own use of the clock: the trace's times must be real ones
CLOCK = r'''
func traced(f func()) {
	t0 := time.Now()
	var begin string
	var roots, first, last int64
	var walk func(es []*stack_model.StackEntry)
	walk = func(es []*stack_model.StackEntry) {
		for _, e := range es {
			roots++
			if e.BeginNs < first {
				first = e.BeginNs
			}
			if e.EndNs > last {
				last = e.EndNs
			}
			if e.EndNs != 0 && e.EndNs < e.BeginNs {
				bad("a traced call ends at %d before its begin %d", e.EndNs, e.BeginNs)
			}
			walk(e.Children)
		}
	}
	out := filepath.Join(os.Args[2], "trace.json")
	trace.Trace(trace.Config{OutputFile: out, OnFinish: func(s stack_model.IStack) {}}, nil, func() (interface{}, error) {
		f()
		return nil, nil
	})
	el := time.Since(t0)
	b, err := os.ReadFile(out)
	if err != nil {
		bad("no trace: %v", err)
		return
	}
	var st stack_model.Stack
	if err := json.Unmarshal(b, &st); err != nil {
		bad("the trace is not JSON: %v", err)
		return
	}
	walk(st.Children)
	begin = st.Begin
	if first < 0 || time.Duration(last) > el+time.Second {
		bad("traced calls from %d to %d in %v", first, last, el)
	}
	if t, err := time.Parse(time.RFC3339, begin); err != nil || t.Before(t0.Add(-2*time.Second)) || t.After(t0.Add(el+2*time.Second)) {
		bad("the trace begins at %s instead of %s", begin, t0)
	}
}

func clock() {
	n, slept := 0, time.Duration(0)
	u1 := mock.Patch(time.Now, func() time.Time { n++; return time.Unix(1000, 0).UTC() })
	u2 := mock.Patch(time.Sleep, func(d time.Duration) { slept += d })
	u3 := mock.Patch((time.Time).Format, func(t time.Time, l string) string { return "formatted" })
	u4 := mock.Patch((time.Time).UnixNano, func(t time.Time) int64 { return -5 })
	u5 := mock.Patch((time.Time).Sub, func(t, u time.Time) time.Duration { return -7 })
	done := make(chan [2]interface{})
	start := time.Unix(5, 0)
	_ = start
	go func() { time.Sleep(time.Hour); x := time.Now(); done <- [2]interface{}{x.Unix(), x.Format("")} }()
	x := <-done
	if x[0] != int64(1000) || x[1] != "formatted" || slept != time.Hour {
		bad("mocks of the clock on another goroutine: %v %v", x, slept)
	}
	k := n
	undo := func() { u5(); u4(); u3(); u2(); u1() }
	traced2(func() { time.Sleep(time.Minute); helper(2) }, undo)
	if n != k+3 || slept != time.Hour+time.Minute {
		bad("xgo itself called the mocked clock: %d times instead of %d, slept %v", n-k, 3, slept)
	}
	if y := time.Now().Year(); y < 2000 {
		bad("time.Now is still mocked: %d", y)
	}
	t0 := time.Now()
	time.Sleep(3 * time.Millisecond)
	if d := time.Since(t0); d < 3*time.Millisecond {
		bad("slept only %v", d)
	}
}

// traced2 undoes the mocks before the trace is looked at
func traced2(f func(), undo func()) {
	out := filepath.Join(os.Args[2], "trace2.json")
	t0 := realNow
	trace.Trace(trace.Config{OutputFile: out}, nil, func() (interface{}, error) {
		f()
		return nil, nil
	})
	undo()
	b, err := os.ReadFile(out)
	var st stack_model.Stack
	if err == nil {
		err = json.Unmarshal(b, &st)
	}
	if err != nil {
		bad("trace with a mocked clock: %v", err)
		return
	}
	var walk func(es []*stack_model.StackEntry)
	walk = func(es []*stack_model.StackEntry) {
		for _, e := range es {
			if e.BeginNs < 0 || e.EndNs < e.BeginNs || time.Duration(e.EndNs) > time.Minute/2 {
				bad("with a mocked clock a traced call lasts from %d to %d", e.BeginNs, e.EndNs)
			}
			walk(e.Children)
		}
	}
	walk(st.Children)
	if t, err := time.Parse(time.RFC3339, st.Begin); err != nil || t.Before(t0.Add(-2*time.Second)) || t.After(time.Now().Add(2*time.Second)) {
		bad("with a mocked clock the trace begins at %q instead of %s", st.Begin, t0)
	}
}

var realNow = time.Now()

func helper(n int) time.Time {
	if n > 0 {
		time.Now()
		return helper(n - 1)
	}
	return time.Now()
}
'''


# what xgo's own bookkeeping of a trace calls, or might call
OWN = """encoding/json.Marshal encoding/json.MarshalIndent encoding/json.Valid os.WriteFile os.MkdirAll os.Open os.OpenFile
os.Create os.Stat os.Getenv os.ReadFile fmt.Sprint fmt.Sprintf fmt.Errorf fmt.Fprintf fmt.Println strings.Join strings.HasPrefix strings.HasSuffix strings.Contains
strings.Split strings.TrimPrefix strings.LastIndex strings.Index strings.Cut path/filepath.Join path/filepath.Dir path.Base strconv.Itoa strconv.Quote strconv.AppendInt context.Background context.TODO
time.Now time.Since time.Unix errors.New errors.Is errors.As sort.Strings sort.Slice bytes.NewBuffer io.WriteString""".split()
OWN = [(t.rsplit(".", 1)[0], t.rsplit(".", 1)[1], None) for t in OWN] + [
    ("time", "Time", m) for m in "Format UnixNano Sub Add IsZero Unix Before Equal MarshalJSON String".split()] + [
    ("encoding/json", "*Encoder", "Encode"), ("os", "*File", "Write"), ("os", "*File", "Close"), ("bytes", "*Buffer", "String"),
    ("bytes", "*Buffer", "Write"), ("bytes", "*Buffer", "Bytes"), ("strings", "*Builder", "WriteString"), ("strings", "*Builder", "String"),
    ("encoding/json", "RawMessage", "MarshalJSON"), ("time", "Duration", "Nanoseconds"), ("time", "Duration", "String")]

QUIET = r'''
type Inner struct {
	When time.Time
	D    time.Duration
	M    map[string][]int
	Raw  json.RawMessage
	Own  Own
}

// Own marshals itself, with calls xgo makes too
type Own int

func (o Own) MarshalJSON() ([]byte, error) { return append([]byte(nil), '"', 'o', byte('0'+int(o)%10), '"'), nil }

type myErr string

func (e myErr) Error() string { return string("my " + e) }

var Config = Inner{D: 3}

//go:noinline
func leaf(name string, in *Inner, n int) (m map[string]int, err error) {
	if n == 1 {
		return nil, myErr("error")
	}
	if n == 2 {
		panic(myErr("panic"))
	}
	if Config.D != 3 {
		return nil, nil
	}
	return map[string]int{name: n}, nil
}

//go:noinline
func work(in *Inner, n int, f float64, any interface{}) (res []string) {
	func() {
		defer func() { recover() }()
		leaf("a", in, n)
	}()
	done := make(chan bool)
	go func() { leaf("b", in, 0); done <- true }()
	<-done
	if n > 0 {
		return append(work(in, n-1, f/2, n), "x")
	}
	return []string{"y"}
}

func shape(es []*stack_model.StackEntry) (s string) {
	for _, e := range es {
		s += strings.TrimSuffix(e.FuncInfo.Name, " (running)") + fmt.Sprintf("(%v)=%v!%v%v[", e.Args, e.Results, e.Error, e.Panic) + shape(e.Children) + "]"
	}
	return s
}

type Obj struct{ n int }

//go:noinline
func (o *Obj) Get(ctx context.Context, k int) int { return o.n + k }

//go:noinline
func (o Obj) Val(k int) string { return string(rune('a' + o.n + k)) }

//go:noinline
func plain(a, b int) int { return a + b }

//go:noinline
func plain2(a, b int) (int, error) { return a - b, nil }

func gen[T any](x T) T { return x }

var Flag = 5

// setup: mocks are set up, run and undone the same while something else is mocked
func setup() (s [14]interface{}) {
	o := &Obj{1}
	ctx := theCtx
	u1 := mock.Patch(plain, func(a, b int) int { return 100 })
	u2 := mock.Patch(o.Get, func(ctx context.Context, k int) int { return 200 })
	u3 := mock.Patch((Obj).Val, func(o Obj, k int) string { return "val" })
	u4 := mock.PatchByName("pv", "plain2", func(a, b int) (int, error) { return 300, nil })
	u5 := mock.Patch(gen[int], func(int) int { return 400 })
	u6 := mock.Patch(&Flag, func() int { return 500 })
	s[0], s[1], s[2], s[4], s[5] = plain(1, 2), o.Get(ctx, 1), o.Val(2), gen(1), Flag
	s[3], _ = plain2(1, 2)
	u6()
	u5()
	u4()
	u3()
	u2()
	u1()
	u1 = mock.Mock(plain, func(c context.Context, fn *core.FuncInfo, args, results core.Object) error {
		results.GetFieldIndex(0).Set(args.GetFieldIndex(0).Value().(int) + 1000)
		return nil
	})
	u2 = mock.MockMethodByName(o, "Get", func(c context.Context, fn *core.FuncInfo, args, results core.Object) error {
		results.GetFieldIndex(0).Set(600)
		return nil
	})
	u3 = trap.AddFuncInterceptor(plain2, &trap.Interceptor{Pre: func(c context.Context, f *core.FuncInfo, args, results core.Object) (interface{}, error) { return 7, nil },
		Post: func(c context.Context, f *core.FuncInfo, args, results core.Object, data interface{}) error {
			results.GetFieldIndex(0).Set(700 + data.(int))
			return nil
		}})
	rec := 0
	u4 = trace.RecordCall(o.Val, func(k *int, r *string) { rec = *k })
	s[6], s[7] = plain(1, 2), o.Get(ctx, 1)
	s[8], _ = plain2(1, 2)
	s[9], s[10] = o.Val(3), rec
	u4()
	u3()
	u2()
	u1()
	s[11], s[12] = plain(1, 2), o.Get(ctx, 1)
	s[13], _ = plain2(1, 2)
	return
}

var theCtx = context.Background()

// quiet: what xgo does for a trace is not seen by the program
func quiet(name string, n *int, install func() func()) {
	out := filepath.Join(os.Args[2], "quiet.json")
	in := &Inner{When: time.Unix(9, 0).UTC(), D: 3, M: map[string][]int{"b": {1}, "a": nil}, Raw: json.RawMessage(`{"x":1}`), Own: 7}
	run := func() (shown string, in2 int) {
		os.Remove(out)
		trace.Trace(trace.Config{OutputFile: out}, in, func() (interface{}, error) {
			work(in, 3, 2.5, in)
			return in, nil
		})
		return "", 0
	}
	look := func() string {
		b, err := os.ReadFile(out)
		var st stack_model.Stack
		if err == nil {
			err = json.Unmarshal(b, &st)
		}
		if err != nil {
			return fmt.Sprint("no trace: ", err)
		}
		if t, err := time.Parse(time.RFC3339, st.Begin); err != nil || time.Since(t) > time.Minute || time.Since(t) < -time.Minute {
			return "begins at " + st.Begin
		}
		last := int64(0)
		var walk func(es []*stack_model.StackEntry)
		walk = func(es []*stack_model.StackEntry) {
			for _, e := range es {
				if e.BeginNs < 0 || e.EndNs < e.BeginNs || time.Duration(e.EndNs) > time.Minute/2 {
					last = e.EndNs
				}
				walk(e.Children)
			}
		}
		walk(st.Children)
		if last != 0 {
			return fmt.Sprint("a call ends at ", last)
		}
		return shape(st.Children)
	}
	run()
	want := look()
	*n = 0
	undo := install()
	run()
	c := *n
	set := setup()
	set2 := *n
	undo()
	if w := [14]interface{}{100, 200, "val", 300, 400, 500, 1001, 600, 707, "e", 3, 3, 2, -1}; set != w {
		bad("mocks set up while %s is replaced give %v instead of %v", name, set, w)
	}
	if set2 != c {
		bad("setting up mocks calls %s %d times, which is replaced", name, set2-c)
	}
	if got := look(); got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		if i > 200 {
			got, want = got[i-200:], want[i-200:]
		}
		bad("while %s is replaced the trace is ..%.900s instead of ..%.900s", name, got, want)
	}
	if c != 0 {
		bad("while traced %s is called %d times, by nobody", name, c)
	}
}
'''


def alias(p):
    return re.sub(r"[/.]", "_", p) + "_"


def stmt(e):
    if e["n"] == 0:
        return "%s; return nil" % e["call"]
    v = ", ".join("r%d" % i for i in range(e["n"]))
    return "%s := %s; return []interface{}{%s}" % (v, e["call"], v)


# modules the program depends on, and the ways to name what they have
DEP = """package dep

type Base struct{ N int }

func (b *Base) Inc(by int) int { b.N += by; r := b.N; b.N -= by; return r }

type T struct {
	Base
	name string
}

func New(n int) *T { return &T{Base{n}, "t"} }

func (t *T) Ptr(s string) (string, error) { return t.name + s, nil }

func (t T) Val(s ...string) int { return len(s) + t.N }

type hidden struct{ n int }

func NewHidden(n int) *hidden { return &hidden{n} }

func (h *hidden) Do() int { return h.n * 2 }

func (h hidden) Show() string { return string(rune('a' + h.n)) }

type Alias = hidden

var Default = New(3)

func Add(a, b int) int { return a + b }

func Variadic(p string, xs ...interface{}) int { return len(p) + len(xs) }

func Gen[X comparable](a, b X) bool { return a == b }

type G[X any] struct{ X X }

func (g *G[X]) Get(n int) (X, int) { return g.X, n }

func Multi() (a int, _ string, err error) { return 1, "m", nil }

type Fn func(int) int

func (f Fn) Call(n int) int { return f(n) }

type Iface interface{ Name(n int) string }

type impl struct{}

func (impl) Name(n int) string { return "impl" }

func NewIface() Iface { return impl{} }
"""
DEPFILES = {
    "deps/dep/go.mod": "module example.com/dep\n\ngo 1.20\n",
    "deps/dep/dep.go": DEP,
    "deps/dep/sub/sub.go": "package sub\n\nfunc Mul(a, b int) int { return a * b }\n\ntype S string\n\nfunc (s S) Len(extra int) int { return len(s) + extra }\n",
    "deps/go-odd/go.mod": "module example.com/go-odd/v2\n\ngo 1.18\n",
    "deps/go-odd/odd.go": "package odd\n\nimport \"example.com/go-odd/v2/internal/x\"\n\nfunc Odd(n int) bool { return x.Mod(n) == 1 }\n\ntype X = x.X\n",
    "deps/go-odd/internal/x/x.go": "package x\n\nfunc Mod(n int) int { return n % 2 }\n\ntype X struct{ N int }\n\nfunc (x *X) Twice(n int) int { return x.N*2 + n }\n",
    "deps/dot/go.mod": "module example.com/dot\n\ngo 1.18\n",
    "deps/dot/dot.go": "package dot\n\nfunc DotAdd(a, b int) int { return a + b + 1 }\n\ntype DotT struct{ N int }\n\nfunc (d *DotT) DotGet(n int) int { return d.N + n }\n",
}
DEPMOD = "".join("\nrequire example.com/%s v%d.0.0\nreplace example.com/%s => ./deps/%s\n" % (m, v, m, d) for m, v, d in
                 (("dep", 1, "dep"), ("go-odd/v2", 2, "go-odd"), ("dot", 1, "dot")))
DEPDECL = """
type localT = dep.T

type wrapT struct {
	*dep.T
	x int
}

type wrapV struct{ dep.T }

var (
	tv = dep.New(5)
	hv = dep.NewHidden(4)
	wv = wrapT{dep.New(6), 1}
	wv2 = &wrapV{*dep.New(6)}
	gv = &dep.G[string]{X: "g"}
	sv = sub.S("abc")
	xv = &odd.X{N: 4}
	dv = &DotT{N: 2}
	iv = dep.NewIface()
)

var _ localT
"""
DEPENTS = [("dep", n, t, c, k) for n, t, c, k in (
    ("Add", "dep.Add", "dep.Add(1, 2)", 1),
    ("Variadic", "dep.Variadic", "dep.Variadic(\"x\", 1, \"y\")", 1),
    ("Multi", "dep.Multi", "dep.Multi()", 3),
    ("New", "dep.New", "dep.New(9)", 1),
    ("Gen", "dep.Gen[int]", "dep.Gen[int](1, 1)", 1),
    ("Gen", "dep.Gen[string]", "dep.Gen(\"a\", \"a\")", 1),
    ("T.Ptr", "(*dep.T).Ptr", "dep.New(1).Ptr(\"p\")", 2),
    ("T.Ptr", "(*localT).Ptr", "tv.Ptr(\"p\")", 2),
    ("T.Val", "dep.T.Val", "tv.Val(\"a\", \"b\")", 1),
    ("T.Ptr", "tv.Ptr", "tv.Ptr(\"p\")", 2),
    ("T.Val", "tv.Val", "tv.Val(\"p\")", 1),
    ("T.Ptr", "dep.Default.Ptr", "dep.Default.Ptr(\"p\")", 2),
    ("Base.Inc", "(*dep.Base).Inc", "tv.Inc(2)", 1),
    ("Base.Inc", "tv.Inc", "tv.Inc(3)", 1),
    ("Base.Inc", "tv.Base.Inc", "tv.Base.Inc(3)", 1),
    ("T.Ptr", "wv.Ptr", "wv.Ptr(\"w\")", 2),
    ("Base.Inc", "wv.Inc", "wv.Inc(1)", 1),
    ("T.Val", "wv2.Val", "wv2.Val(\"w\")", 1),
    ("T.Ptr", "wv2.Ptr", "wv2.Ptr(\"w\")", 2),
    ("hidden.Do", "hv.Do", "hv.Do()", 1),
    ("hidden.Show", "hv.Show", "hv.Show()", 1),
    ("hidden.Do", "(*dep.Alias).Do", "hv.Do()", 1),
    ("hidden.Show", "dep.Alias.Show", "hv.Show()", 1),
    ("G.Get", "gv.Get", "gv.Get(1)", 2),
    ("Fn.Call", "dep.Fn.Call", "dep.Fn(func(i int) int { return i + 1 }).Call(4)", 1),
    ("sub.Mul", "sub.Mul", "sub.Mul(3, 4)", 1),
    ("sub.S.Len", "sub.S.Len", "sv.Len(1)", 1),
    ("sub.S.Len", "sv.Len", "sv.Len(1)", 1),
    ("Odd", "odd.Odd", "odd.Odd(3)", 1),
    ("x.X.Twice", "(*odd.X).Twice", "xv.Twice(3)", 1),
    ("x.X.Twice", "xv.Twice", "xv.Twice(3)", 1),
    ("DotAdd", "DotAdd", "DotAdd(1, 1)", 1),
    ("DotT.DotGet", "(*DotT).DotGet", "dv.DotGet(1)", 1),
    ("DotT.DotGet", "dv.DotGet", "dv.DotGet(1)", 1),
)]
DEPIMPORTS = {"dep": "example.com/dep", "sub": "example.com/dep/sub", "odd": "example.com/go-odd/v2", ".": "example.com/dot"}
INTRINSIC = ("math", "math/bits", "sync/atomic", "unique")


def catalogue():
    es = [json.loads(l) for l in open(os.path.join(HERE, "catalogue.jsonl"))]
    # the compiler replaces calls of these by instructions
    es = [e for e in es if e["pkg"] not in INTRINSIC]
    return es + [dict(pkg=p, name=n, target=t, call=c, n=k, uses=[]) for p, n, t, c, k in GENERIC]


def gen(cat, seed, ntargets=40):
    r = random.Random(seed)
    by = {}
    for e in cat:
        by.setdefault(e["pkg"], []).append(e)
    ps = r.sample(sorted(by), r.randint(3, 12))
    pool = [e for p in ps for e in by[p]]
    ents = r.sample(pool, min(len(pool), 70))
    ts = [[i, r.choice(KINDS)] for i in r.sample(range(len(ents)), min(len(ents), ntargets))]
    own = [[r.randrange(len(OWN)), r.choice(KINDS)] for _ in range(r.randint(3, 12))] if r.random() < .6 else []
    if r.random() < .5:
        ds = r.sample(DEPENTS, r.randint(6, 30))
        n = len(ents)
        ents = ents + [dict(pkg=p, name=m, target=t, call=c, n=k, uses=[], dep=True) for p, m, t, c, k in ds]
        ts += [[n + i, r.choice(KINDS)] for i in range(len(ds)) if r.random() < .8]
    return {"ents": ents, "targets": ts, "clock": r.random() < .5, "own": own}


def render(c):
    pk = set()
    dep = any(e.get("dep") for e in c["ents"])
    for e in c["ents"]:
        if not e.get("dep"):
            pk.add(e["pkg"])
        pk |= set(e.get("uses") or [])
    own = c.get("own") or []
    pk |= set(OWN[i][0] for i, _ in own)
    t = "package main\n\nimport (\n\t\"context\"\n\t\"fmt\"\n\t\"os\"\n\t\"reflect\"\n"
    if c["clock"] or own:
        t += "\t\"strings\"\n\t\"encoding/json\"\n\t\"path/filepath\"\n\t\"time\"\n\t\"github.com/xhd2015/xgo/runtime/trace/stack_model\"\n"
    t += "".join("\t\"github.com/xhd2015/xgo/runtime/%s\"\n" % x for x in ("core", "mock", "trace", "trap"))
    t += "".join("\t%s %s\n" % (alias(p), json.dumps(p)) for p in sorted(pk))
    if dep:
        t += "".join("\t%s \"%s\"\n" % (a if a == "." else "", p) for a, p in sorted(DEPIMPORTS.items()))
    t += ")\n" + (DEPDECL if dep else "")
    t += HELP + (CLOCK if c["clock"] else "") + (QUIET if own else "") + ("var _ = strings.TrimSuffix\n" if own or c["clock"] else "")
    t += "\nvar ents = []*ent{\n"
    for e in c["ents"]:
        t += "\t{name: %s, call: func() []interface{} { %s }},\n" % (json.dumps(e["pkg"] + "." + e["name"]), stmt(e))
    t += "}\n\nfunc main() {\n\tfor _, e := range ents {\n\t\te.out = show(get(e.call))\n\t\tfmt.Println(\"OUT\", e.name, e.out)\n\t}\n\tif os.Args[1] == \"plain\" {\n\t\treturn\n\t}\n"
    for i, k in c["targets"]:
        e = c["ents"][i]
        n, T = json.dumps(e["pkg"] + "." + e["name"]), e["target"]
        if k == "patch":
            b = "replaced(%s, %s, %d, &n, mock.Patch(%s, zero(%s, &n).(%s)))" % (n, T, i, T, T, "@") if False else "replaced(%s, %s, %d, &n, mock.Patch(%s, zero(%s, &n)))" % (n, T, i, T, T)
        elif k == "mock":
            b = "replaced(%s, %s, %d, &n, mock.Mock(%s, func(ctx context.Context, fn *core.FuncInfo, args, results core.Object) error { n++; return nil }))" % (n, T, i, T)
        elif k == "icpt":
            b = "seen(%s, %d, &n, trap.AddFuncInterceptor(%s, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, results core.Object) (interface{}, error) { %sn++; return nil, nil }}))" % (n, i, T, "" if e.get("dep") else "if f.Pkg != %s { bad(\"%%s has package %%s\", %s, f.Pkg) }; " % (json.dumps(e["pkg"]), n))
        else:
            b = "seen(%s, %d, &n, trace.RecordCall(%s, recorder(%s, &n)))" % (n, i, T, T)
        t += "\tsafely(%s, func() { n := 0; %s })\n" % (json.dumps(e["pkg"] + "." + e["name"] + " (" + k + ")"), b)
    if c["clock"]:
        t += "\tsafely(\"a trace\", func() { traced(func() { all(\"while traced\") }); flush() })\n\tsafely(\"the clock\", clock)\n"
    for i, k in own:
        p, n, m = OWN[i]
        T = ("(%s%s.%s).%s" % ("*" if n[0] == "*" else "", alias(p), n.lstrip("*"), m)) if m else "%s.%s" % (alias(p), n)
        what = json.dumps("%s (%s)" % (T, k))
        b = {"patch": "mock.Patch(%s, zero(%s, &n))" % (T, T),
             "mock": "mock.Mock(%s, func(ctx context.Context, fn *core.FuncInfo, args, results core.Object) error { n++; return nil })" % T,
             "icpt": "trap.AddFuncInterceptor(%s, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args, results core.Object) (interface{}, error) { n++; return nil, nil }})" % T,
             "rec": "trace.RecordCall(%s, recorder(%s, &n))" % (T, T)}[k]
        t += "\tsafely(%s, func() { n := 0; quiet(%s, &n, func() func() { return %s }) })\n" % (what, what, b)
    t += "\tall(\"at the end\")\n\tflush()\n\tfmt.Println(\"DONE\")\n\tvar _ context.Context\n\tvar _ *core.FuncInfo\n\tvar _ = trap.ErrMocked\n\tvar _ trace.Config\n\tvar _ = mock.Patch\n}\n"
    return t


class Std:
    def __init__(self, ck):
        self.ck = ck
        self.L = lab.Lab(ck, "E", gocmd=True)
        self.root = os.path.join(self.L.dir, "std")
        os.makedirs(self.root)

    def run(self, c, name, plain=True):
        d = os.path.join(self.root, name)
        try:
            dep = any(e.get("dep") for e in c["ents"])
            lab.write_tree(d, dict(DEPFILES if dep else {}, **{"go.mod": lab.gomod("pv", "1.27") + (DEPMOD if dep else ""), "main.go": render(c)}))
            os.makedirs(d + "/t")
            want = None
            if plain:
                rc, o, e, s = run(["go", "run", ".", "plain", d + "/t"], cwd=d, env=self.L.env(GOFLAGS="-mod=mod"), timeout=300)
                if rc != 0:
                    raise Err("the program does not run with go (%s): %s" % (rc, e[-2000:]))
                want = [l for l in o.splitlines() if l.startswith("OUT ")]
            rc, o, e, s = self.L.run(["build", "-o", "x", "."], cwd=d, timeout=400, GOFLAGS="-mod=mod")
            if rc != 0:
                return "xgo build fails (%s): %s" % (rc, (o + e)[-2500:])
            rc, o, e, s = run([d + "/x", "mock", d + "/t"], cwd=d, env=self.L.env(), timeout=120)
            got = [l for l in o.splitlines() if l.startswith("OUT ")]
            if want is not None and got != want:
                x = [(a, b) for a, b in zip(want + [""], got + [""]) if a != b]
                return "with xgo and no mock: %s, with go: %s" % (x[0][1], x[0][0]) if x else "output differs"
            bads = [l for l in o.splitlines() if l.startswith("BAD ")]
            if bads:
                return "\n".join(bads[:8])
            if rc != 0 or "DONE" not in o:
                return "the program ends with %s: %s" % (rc, e[:3000])
            return ""
        finally:
            rmtree(d)

    def shrink(self, c, m):
        t0, k = time.time(), 0

        def left():
            return time.time() - t0 < self.ck.scale(120, 300)
        changed = True
        while changed and left():
            changed = False
            cands = []
            n = len(c["targets"])
            for z in (n // 2, n // 4, 1):
                if z:
                    for i in range(0, n, z):
                        cands.append(dict(c, targets=c["targets"][:i] + c["targets"][i + z:]))
            if c["clock"]:
                cands.append(dict(c, clock=False))
            own = c.get("own") or []
            for z in (len(own) // 2, 1):
                if z:
                    cands += [dict(c, own=own[:i] + own[i + z:]) for i in range(0, len(own), z)]
            for z in (len(c["ents"]) // 2, 4, 1):
                for i in range(0, len(c["ents"]), z or 1):
                    keep = [j for j in range(len(c["ents"])) if not i <= j < i + (z or 1)]
                    if all(t[0] in keep for t in c["targets"]) and keep:
                        cands.append(dict(c, ents=[c["ents"][j] for j in keep], targets=[[keep.index(t[0]), t[1]] for t in c["targets"]]))
            for q in cands:
                if not left():
                    break
                k += 1
                m2 = self.run(q, "s%d" % k)
                if m2:
                    c, m, changed = q, m2, True
                    break
        return c, m

    def search(self, n, workers):
        ck = self.ck
        if ck.replay:
            c = json.load(open(ck.replay))["case"]
            m = self.run(c, "r")
            if m:
                ck.violation("std", m, {"case": c})
            return
        limit = time.time() + ck.scale(110, 600)
        cat = catalogue()
        tot, classes, bad, pk = 0, {}, None, set()
        with ThreadPoolExecutor(workers) as ex:
            def one(i):
                if bad or time.time() > limit:
                    return None
                c = gen(cat, ck.seed * 7919 + i)
                return c, self.run(c, "c%d" % i)
            for x in ex.map(one, range(n)):
                if x is None:
                    continue
                c, m = x
                tot += len(c["targets"])
                tot += len(c["own"])
                classes["own"] = classes.get("own", 0) + len(c["own"])
                for i, k in c["targets"]:
                    classes[k] = classes.get(k, 0) + 1
                    pk.add(c["ents"][i]["pkg"])
                classes["programs"] = classes.get("programs", 0) + 1
                if c["clock"]:
                    classes["clock"] = classes.get("clock", 0) + 1
                if m and not bad:
                    bad = (c, m)
        classes["packages"] = len(pk)
        c = gen(cat, ck.seed * 7919)
        ck.add_stats({"evaluations": tot, "nontrivial": tot, "classes": classes, "samples": [[c["ents"][i]["target"], k] for i, k in c["targets"][:5]],
                      "rule": "a function or method of the standard library that is mocked, intercepted or recorded in a program that calls up to 70 of them"})
        if bad:
            c, m = self.shrink(*bad)
            ck.violation("std", m, {"case": c})
