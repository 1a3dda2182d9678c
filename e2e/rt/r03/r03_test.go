package r03

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
)

type form struct {
	name string
	read func() string
	addr bool
	want func(v interface{}) string
}

type writeForm struct {
	name  string
	write func(k int)
}

// one variable
type vari struct {
	name, pkg string
	forms     []form
	writes    []writeForm
	// value number k
	val    func(k int) interface{}
	store  func(v interface{})
	stored func() interface{}
	patch  func(how int, k int, log func()) func()
	patchA func(how int, k int, log func()) func()
	// mock.Patch(&name, ...) and mock.Mock(&name, ...) written out
	patchLit  func(get func() interface{}) func()
	patchALit func(get func() interface{}) func()
	mockLit   func(set func(results core.Object)) func()
	initial   interface{}
	addr      interface{}
}

type tv[T any] struct {
	*vari
	mk func(k int) T
}

var all []*vari

const nVals = 40

func vals[T any](p *T, name string, mk func(k int) T) *tv[T] {
	var list []T
	for k := 0; k < nVals; k++ {
		list = append(list, mk(k))
	}
	v := &vari{name: name, pkg: "rlab/r03", initial: *p, addr: p}
	v.val = func(k int) interface{} { return list[k%nVals] }
	v.store = func(x interface{}) { a, _ := x.(T); *p = a }
	v.stored = func() interface{} { return *p }
	v.patch = func(how int, k int, log func()) func() {
		x := list[k%nVals]
		if v.patchLit != nil && how >= 4 {
			if how == 4 {
				return v.patchLit(func() interface{} { log(); return x })
			}
			return v.mockLit(func(results core.Object) { log(); results.GetFieldIndex(0).Set(x) })
		}
		switch how % 4 {
		case 0:
			return mock.Patch(p, func() T { log(); return x })
		case 1:
			return mock.PatchByName(v.pkg, v.name, func() T { log(); return x })
		case 2:
			return mock.Mock(p, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				log()
				results.GetFieldIndex(0).Set(x)
				return nil
			})
		default:
			return mock.MockByName(v.pkg, v.name, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				log()
				results.GetFieldIndex(0).Set(x)
				return nil
			})
		}
	}
	v.patchA = func(how int, k int, log func()) func() {
		x := list[k%nVals]
		if v.patchALit != nil && how >= 3 {
			return v.patchALit(func() interface{} { log(); return &x })
		}
		switch how % 3 {
		case 0:
			return mock.Patch(p, func() *T { log(); return &x })
		case 1:
			return mock.PatchByName(v.pkg, "*"+v.name, func() *T { log(); return &x })
		default:
			return mock.MockByName(v.pkg, "*"+v.name, func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
				log()
				results.GetFieldIndex(0).Set(&x)
				return nil
			})
		}
	}
	all = append(all, v)
	return &tv[T]{v, mk}
}

func (t *tv[T]) in(pkg string) *tv[T] { t.pkg = pkg; return t }

func (t *tv[T]) f(name string, read func() string, want func(T) string) *tv[T] {
	t.forms = append(t.forms, form{name, read, false, func(v interface{}) string { x, _ := v.(T); return want(x) }})
	return t
}

func (t *tv[T]) addr(name string, read func() string, want func(T) string) *tv[T] {
	t.f(name, read, want)
	t.forms[len(t.forms)-1].addr = true
	return t
}

func (t *tv[T]) write(name string, w func(T)) *tv[T] {
	t.writes = append(t.writes, writeForm{name, func(k int) { x, _ := t.val(k).(T); w(x) }})
	return t
}

func init() { forms(); literals() }

type Op struct {
	Op  string // patch, addr, undo, read, write, other, trace
	V   int
	N   int `json:",omitempty"`
	K   int `json:",omitempty"`
	How int `json:",omitempty"`
}

type Case struct{ Ops []Op }

func genCase(t *rapid.T) Case {
	n := rapid.IntRange(1, 24).Draw(t, "n")
	// a few variables, so that things meet
	vs := rapid.SliceOfN(rapid.IntRange(0, len(all)-1), 1, 3).Draw(t, "vars")
	var c Case
	for i := 0; i < n; i++ {
		o := Op{V: rapid.SampledFrom(vs).Draw(t, "v")}
		switch w := rapid.IntRange(0, 99).Draw(t, "op"); {
		case w < 20:
			o.Op, o.K, o.How = "patch", rapid.IntRange(0, nVals-1).Draw(t, "k"), rapid.IntRange(0, 5).Draw(t, "how")
		case w < 26:
			o.Op, o.K, o.How = "addr", rapid.IntRange(0, nVals-1).Draw(t, "k"), rapid.IntRange(0, 4).Draw(t, "how")
		case w < 42:
			o.Op, o.N = "undo", rapid.IntRange(0, 5).Draw(t, "i")
		case w < 78:
			o.Op, o.N = "read", rapid.IntRange(0, 1000).Draw(t, "form")
		case w < 92:
			o.Op, o.K, o.N = "write", rapid.IntRange(0, nVals-1).Draw(t, "k"), rapid.IntRange(0, 10).Draw(t, "form")
		case w < 97:
			o.Op, o.N = "other", rapid.IntRange(0, 1000).Draw(t, "form")
		default:
			o.Op, o.N = "traced", rapid.IntRange(0, 1000).Draw(t, "form")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

type inst struct {
	v, k int
	addr bool
	undo func()
}

var notes []string

func oracle(c Case) (res vh.Result) {
	notes = nil
	for _, v := range all {
		v.store(v.initial)
	}
	var set []inst
	defer func() {
		for i := len(set) - 1; i >= 0; i-- {
			set[i].undo()
		}
	}()
	stored := map[int]interface{}{}
	cur := func(vi int) interface{} {
		if x, ok := stored[vi]; ok {
			return x
		}
		return all[vi].initial
	}
	seen := map[string]bool{}
	value := func(vi int, addr bool) interface{} {
		x := cur(vi)
		for _, m := range set {
			if m.v == vi && m.addr == addr {
				x = all[vi].val(m.k)
			}
		}
		return x
	}
	check := func(n int, vi int, f *form, where string) error {
		want := f.want(value(vi, f.addr))
		got := vh.Catch(f.read)
		if got != want {
			return fmt.Errorf("step %d%s: reading %s as '%s' gives %s, want %s", n, where, all[vi].name, f.name, got, want)
		}
		return nil
	}
	for n, o := range c.Ops {
		v := all[o.V]
		switch o.Op {
		case "patch", "addr":
			m := inst{v: o.V, k: o.K, addr: o.Op == "addr"}
			if m.addr {
				m.undo = v.patchA(o.How, o.K, func() {})
			} else {
				m.undo = v.patch(o.How, o.K, func() {})
			}
			set = append(set, m)
			seen["mocked "+fmt.Sprintf("%T", v.initial)] = true
			res.NonTrivial = true
		case "undo":
			if len(set) > 0 {
				i := o.N % len(set)
				set[i].undo()
				set = append(set[:i:i], set[i+1:]...)
			}
		case "read":
			f := &v.forms[o.N%len(v.forms)]
			if err := check(n, o.V, f, ""); err != nil {
				return vh.Result{Err: err}
			}
			if len(set) > 0 {
				seen["form "+f.name] = true
			}
		case "other":
			f := &v.forms[o.N%len(v.forms)]
			want := f.want(cur(o.V))
			got := make(chan string)
			reqs <- func() { got <- vh.Catch(f.read) }
			if g := <-got; g != want {
				return vh.Errf("step %d: on another goroutine, reading %s as '%s' gives %s, want the stored %s", n, v.name, f.name, g, want)
			}
		case "traced":
			f := &v.forms[o.N%len(v.forms)]
			var err error
			trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
				err = check(n, o.V, f, " under a trace")
				return nil, nil
			})
			if err != nil {
				return vh.Result{Err: err}
			}
		case "write":
			w := &v.writes[o.N%len(v.writes)]
			w.write(o.K)
			stored[o.V] = v.val(o.K)
			seen["write "+w.name] = true
		}
		// the stored values are as written, whatever is mocked
		for vi, v := range all {
			if !same(v.stored(), cur(vi)) {
				return vh.Errf("step %d: variable %s now holds %v, want %v", n, v.name, v.stored(), cur(vi))
			}
		}
	}
	for _, m := range set {
		m.undo()
	}
	set = nil
	for vi, v := range all {
		for i := range v.forms {
			if err := check(len(c.Ops), vi, &v.forms[i], " (after undoing all)"); err != nil {
				return vh.Result{Err: err}
			}
		}
	}
	for k := range seen {
		res.Classes = append(res.Classes, k)
	}
	return res
}

func same(a, b interface{}) bool {
	return canon(a) == canon(b)
}

func canon(a interface{}) string {
	if f, ok := a.(func(int) string); ok {
		return f(1)
	}
	if f, ok := a.(func(int) int); ok {
		return fmt.Sprint(f(1), f(2))
	}
	if e, ok := a.(error); ok {
		return e.Error()
	}
	if c, ok := a.(chan int); ok {
		return fmt.Sprint(cap(c), len(c))
	}
	s := vh.CanonAny(a)
	return strings.TrimSpace(s)
}

// a goroutine that has no mocks
var reqs = make(chan func())

func TestMain(m *testing.M) {
	go func() {
		for f := range reqs {
			f()
		}
	}()
	m.Run()
}

func TestVars(t *testing.T) {
	vh.Run(t, "vars", vh.Options{Crashy: true, Timeout: 60 * time.Second,
		Rule: "histories of mocking (by value, address, name, interceptor), undoing, writing and reading variables in 80 syntactic forms, on this and on another goroutine; non-trivial: something was mocked"},
		genCase, oracle)
}
