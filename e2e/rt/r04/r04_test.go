package r04

import (
	"bytes"
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rlab/tgt"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trap"
)

var t0, t1 = &tgt.T{ID: 3}, &tgt.T{ID: 4}
var v0, v1 = tgt.V{ID: 5, Tag: "x"}, tgt.V{ID: 6, Tag: "y"}
var s0, s1 = tgt.SliceT{1, 2, 3}, tgt.SliceT{9, 9}

// what is called
const (
	cLeaf = iota
	cVia  // calls Leaf
	cP0
	cP1
	cV0
	cV1
	cS0
	cS1
	cGI
	cGS
	cA
	cB
	cPA
	nCall
)

// what handlers are bound to
type target struct {
	name string
	fn   interface{}
	on   []int
	v    bool // a variable
	recv bool // function replacements get the receiver
	ptr  bool // the address of a variable
}

var targets = []target{
	{name: "Leaf", fn: tgt.Leaf, on: []int{cLeaf}},
	{name: "ViaLeaf", fn: tgt.ViaLeaf, on: []int{cVia}},
	{name: "t0.Ptr", fn: t0.Ptr, on: []int{cP0}},
	{name: "t1.Ptr", fn: t1.Ptr, on: []int{cP1}},
	{name: "(*T).Ptr", fn: (*tgt.T).Ptr, on: []int{cP0, cP1}, recv: true},
	{name: "v0.Val", fn: v0.Val, on: []int{cV0}},
	{name: "V.Val", fn: tgt.V.Val, on: []int{cV0, cV1}, recv: true},
	{name: "s0.Sum", fn: s0.Sum, on: []int{cS0}},
	{name: "s1.Sum", fn: s1.Sum, on: []int{cS1}},
	{name: "G[int]", fn: tgt.G[int], on: []int{cGI}},
	{name: "G[string]", fn: tgt.G[string], on: []int{cGS}},
	{name: "VarA", fn: &VarA, on: []int{cA}, v: true},
	{name: "VarB", fn: &VarB, on: []int{cB}, v: true},
	{name: "*VarA", fn: &VarA, on: []int{cPA}, v: true, ptr: true},
}

func orig(call int, a int) string {
	switch call {
	case cLeaf:
		return vh.CanonAny(a*3 + 1)
	case cP0:
		return vh.CanonAny(t0.ID*100 + a)
	case cP1:
		return vh.CanonAny(t1.ID*100 + a)
	case cV0:
		return vh.CanonAny(tgt.V{ID: v0.ID + a, Tag: "xv"})
	case cV1:
		return vh.CanonAny(tgt.V{ID: v1.ID + a, Tag: "yv"})
	case cS0:
		return "6"
	case cS1:
		return "18"
	case cGI:
		return vh.CanonAny(a)
	case cGS:
		return vh.CanonAny(fmt.Sprint("g", a))
	case cA:
		return "10"
	case cB:
		return vh.CanonAny("b")
	case cPA:
		return "&10"
	}
	return "?"
}

func do(call int, a int) string {
	switch call {
	case cLeaf:
		return vh.CanonAny(tgt.Leaf(a))
	case cVia:
		return vh.CanonAny(tgt.ViaLeaf(a))
	case cP0:
		return vh.CanonAny(t0.Ptr(a))
	case cP1:
		f := t1.Ptr
		return vh.CanonAny(f(a))
	case cV0:
		return vh.CanonAny(v0.Val(a))
	case cV1:
		return vh.CanonAny(v1.Val(a))
	case cS0:
		return vh.CanonAny(s0.Sum())
	case cS1:
		return vh.CanonAny(s1.Sum())
	case cGI:
		return vh.CanonAny(tgt.G(a))
	case cGS:
		return vh.CanonAny(tgt.G(fmt.Sprint("g", a)))
	case cA:
		return vh.CanonAny(ReadA())
	case cB:
		return vh.CanonAny(ReadB())
	case cPA:
		return vh.CanonAny(PtrA())
	}
	return "?"
}

type Op struct {
	Op   string // mock, rec, fic (function interceptor), gic (general interceptor), undo, call, all, go, gone, yield, gc
	T    int    `json:",omitempty"`
	N    int    `json:",omitempty"`
	How  int    `json:",omitempty"`
	Kids []Op   `json:",omitempty"`
	Each int    `json:",omitempty"` // that many goroutines of the kind
}

type Case struct {
	Order []int // schedule: who goes next
	Free  bool  // run without a schedule
	Root  []Op
}

// ---- model

type inst struct {
	id   int
	kind string
	t    int // -1: general
}

func (x inst) covers(call int) bool {
	if x.kind == "gic" {
		return true
	}
	for _, c := range targets[x.t].on {
		if c == call {
			return true
		}
	}
	return false
}

var resTypes = [nCall]reflect.Type{
	cLeaf: reflect.TypeOf(0), cVia: reflect.TypeOf(0), cP0: reflect.TypeOf(0), cP1: reflect.TypeOf(0),
	cV0: reflect.TypeOf(v0), cV1: reflect.TypeOf(v0), cS0: reflect.TypeOf(0), cS1: reflect.TypeOf(0),
	cGI: reflect.TypeOf(0), cGS: reflect.TypeOf(""), cA: reflect.TypeOf(0), cB: reflect.TypeOf(""), cPA: reflect.TypeOf((*int)(nil)),
}

func model(set []inst, call int, a int) (string, []string) {
	var ev []string
	var mock *inst
	for i := range set {
		x := set[i]
		if !x.covers(call) {
			continue
		}
		switch x.kind {
		case "mock":
			mock = &set[i]
		default:
			ev = append(ev, fmt.Sprintf("%s%d", x.kind, x.id))
		}
	}
	if mock != nil {
		return vh.Canon(vh.Gen(mock.id, "", resTypes[call], 0)), ev
	}
	if call == cVia {
		r, ev2 := model(set, cLeaf, a)
		var n int
		fmt.Sscan(r, &n)
		return vh.CanonAny(n + 100), append(ev, ev2...)
	}
	return orig(call, a), ev
}

// ---- running

var sinks sync.Map // goroutine id -> *[]string

func goid() string {
	var buf [64]byte
	b := buf[:runtime.Stack(buf[:], false)]
	return string(b[:bytes.IndexByte(b, '[')])
}

func event(s string) {
	if v, ok := sinks.Load(goid()); ok {
		p := v.(*[]string)
		*p = append(*p, s)
		return
	}
	strayMu.Lock()
	stray = append(stray, s)
	strayMu.Unlock()
}

var strayMu sync.Mutex
var stray []string

func install(x inst) func() {
	if x.kind == "gic" {
		return trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			if strings.HasPrefix(f.Pkg, "rlab/tgt") || f.IdentityName == "VarA" || f.IdentityName == "VarB" || f.IdentityName == "*VarA" {
				event(fmt.Sprintf("gic%d", x.id))
			}
			return nil, nil
		}})
	}
	tg := &targets[x.t]
	switch x.kind {
	case "rec":
		if tg.ptr {
			return trace.RecordCall(&VarA, func(v **int) { event(fmt.Sprintf("rec%d", x.id)) })
		}
		if tg.v {
			if tg.name == "VarA" {
				return trace.RecordCall(&VarA, func(v *int) { event(fmt.Sprintf("rec%d", x.id)) })
			}
			return trace.RecordCall(&VarB, func(v *string) { event(fmt.Sprintf("rec%d", x.id)) })
		}
		ft := reflect.TypeOf(tg.fn)
		var in []reflect.Type
		for i := 0; i < ft.NumIn(); i++ {
			in = append(in, reflect.PtrTo(ft.In(i)))
		}
		for i := 0; i < ft.NumOut(); i++ {
			in = append(in, reflect.PtrTo(ft.Out(i)))
		}
		pre := reflect.MakeFunc(reflect.FuncOf(in, nil, false), func([]reflect.Value) []reflect.Value {
			event(fmt.Sprintf("rec%d", x.id))
			return nil
		})
		return trace.RecordCall(tg.fn, pre.Interface())
	case "fic":
		if tg.ptr { // interceptors are for values
			return trace.RecordCall(&VarA, func(v **int) { event(fmt.Sprintf("fic%d", x.id)) })
		}
		return trap.AddFuncInterceptor(tg.fn, &trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			event(fmt.Sprintf("fic%d", x.id))
			return nil, nil
		}})
	}
	res := vh.Gen(x.id, "", resTypes[tg.on[0]], 0)
	if tg.v {
		ft := reflect.FuncOf(nil, []reflect.Type{res.Type()}, false)
		return mock.Patch(tg.fn, reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return []reflect.Value{res} }).Interface())
	}
	return mock.Patch(tg.fn, reflect.MakeFunc(reflect.TypeOf(tg.fn), func([]reflect.Value) []reflect.Value { return []reflect.Value{res} }).Interface())
}

type world struct {
	c     *Case
	mu    sync.Mutex
	errs  []string
	wg    sync.WaitGroup
	id    int
	nGo   int
	nCall int
	depth int
	inh   int // calls of goroutines with a non-empty inherited set
	// deterministic schedule
	live []*gor
	ack  chan bool
}

type gor struct {
	w    *world
	step chan bool
	set  []inst
	undo map[int]func()
	n    int
	name string
	inh  bool
	sink []string
}

func (w *world) newID() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.id++
	return w.id
}

func (w *world) fail(f string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, fmt.Sprintf(f, args...))
}

func (g *gor) wait() {
	if g.w.c.Free {
		if g.n%3 == 1 {
			runtime.Gosched()
		}
		return
	}
	<-g.step
}

func (g *gor) done() {
	if !g.w.c.Free {
		g.w.ack <- true
	}
}

func (g *gor) check(call int, how string) {
	g.n++
	a := g.n
	want, wantEv := model(g.set, call, a)
	g.sink = nil
	got := vh.Catch(func() string { return do(call, a) })
	ev := g.sink
	sort.Strings(ev)
	sort.Strings(wantEv)
	g.w.mu.Lock()
	g.w.nCall++
	if g.inh {
		g.w.inh++
	}
	g.w.mu.Unlock()
	if got != want || strings.Join(ev, ",") != strings.Join(wantEv, ",") {
		g.w.fail("goroutine %s%s: call %d(%d) with %v active: result %s, want %s; handlers %v, want %v", g.name, how, call, a, g.set, got, want, ev, wantEv)
	}
}

func (g *gor) run(ops []Op) {
	defer g.w.wg.Done()
	sinks.Store(goid(), &g.sink)
	defer sinks.Delete(goid())
	for i := range ops {
		g.wait()
		if i == 0 {
			g.all("at start")
		}
		g.op(&ops[i])
		g.done()
	}
	g.wait()
	g.all("at end")
	g.w.mu.Lock()
	for i, x := range g.w.live {
		if x == g {
			g.w.live = append(g.w.live[:i:i], g.w.live[i+1:]...)
		}
	}
	g.w.mu.Unlock()
	g.done()
}

func (g *gor) all(how string) {
	for c := 0; c < nCall; c++ {
		g.check(c, " "+how)
	}
}

type starter struct{ f func() }

func (s *starter) start()       { s.f() }
func startFn(f func())          { f() }
func gen[A any](f A, g func(A)) { g(f) }

func (g *gor) spawn(ops []Op, how int) {
	w := g.w
	w.mu.Lock()
	w.nGo++
	c := &gor{w: w, step: make(chan bool), undo: map[int]func(){}, name: fmt.Sprintf("%s.%d", g.name, w.nGo)}
	c.set = append([]inst(nil), g.set...)
	c.inh = len(c.set) > 0
	w.live = append(w.live, c)
	w.mu.Unlock()
	w.wg.Add(1)
	switch how % 6 {
	case 0:
		go c.run(ops)
	case 1:
		go func() { c.run(ops) }()
	case 2:
		s := &starter{func() { c.run(ops) }}
		go s.start()
	case 3:
		go startFn(func() { c.run(ops) })
	case 4:
		go gen(c, func(c *gor) { c.run(ops) })
	case 5:
		var wg sync.WaitGroup
		wg.Go(func() { c.run(ops) })
	}
}

func (g *gor) op(o *Op) {
	switch o.Op {
	case "mock", "rec", "fic", "gic":
		x := inst{id: g.w.newID(), kind: o.Op, t: o.T}
		if o.Op == "gic" {
			x.t = -1
		}
		if o.Op == "fic" && targets[o.T].v {
			x.kind = "rec"
		}
		undo := install(x)
		g.undo[x.id] = undo
		g.set = append(g.set, x)
		// handlers that only a call can show
		return
	case "undo":
		var own []int
		for i, x := range g.set {
			if g.undo[x.id] != nil {
				own = append(own, i)
			}
		}
		if len(own) == 0 {
			return
		}
		i := own[o.N%len(own)]
		g.undo[g.set[i].id]()
		g.undo[g.set[i].id] = nil
		g.set = append(g.set[:i:i], g.set[i+1:]...)
	case "call":
		g.check(o.N%nCall, "")
	case "all":
		g.all("")
	case "go":
		for i := 0; i <= o.Each; i++ {
			g.spawn(o.Kids, o.How)
		}
	case "gone":
		// a mocked function is what the goroutine runs
		x := g.w.newID()
		ch := make(chan string, 1)
		undo := mock.Patch(Body, func(out chan string, a int) int { out <- fmt.Sprint("mock", x, a); return 0 })
		go Body(ch, o.N)
		undo()
		if got, want := <-ch, fmt.Sprint("mock", x, o.N); got != want {
			g.w.fail("goroutine %s: 'go Body()' of a mocked Body ran %s, want %s", g.name, got, want)
		}
		go Body(ch, o.N)
		if got := <-ch; got != "orig" {
			g.w.fail("goroutine %s: 'go Body()' after undo ran %s", g.name, got)
		}
	case "yield":
		runtime.Gosched()
	case "gc":
		runtime.GC()
	}
}

func genOps(t *rapid.T, depth int, n int) []Op {
	var ops []Op
	k := rapid.IntRange(1, n).Draw(t, "n")
	for i := 0; i < k; i++ {
		w := rapid.IntRange(0, 99).Draw(t, "op")
		switch {
		case w < 36:
			kind := []string{"mock", "mock", "mock", "rec", "fic", "gic"}[rapid.IntRange(0, 5).Draw(t, "kind")]
			ops = append(ops, Op{Op: kind, T: rapid.IntRange(0, len(targets)-1).Draw(t, "t")})
		case w < 52:
			ops = append(ops, Op{Op: "undo", N: rapid.IntRange(0, 5).Draw(t, "i")})
		case w < 64:
			ops = append(ops, Op{Op: "call", N: rapid.IntRange(0, nCall-1).Draw(t, "c")})
		case w < 68:
			ops = append(ops, Op{Op: "all"})
		case w < 72:
			ops = append(ops, Op{Op: "gone", N: rapid.IntRange(0, 9).Draw(t, "a")})
		case w < 75:
			ops = append(ops, Op{Op: "yield"})
		case w < 76:
			ops = append(ops, Op{Op: "gc"})
		default:
			if depth > 0 {
				ops = append(ops, Op{Op: "go", How: rapid.IntRange(0, 5).Draw(t, "how"), Each: rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "each"), Kids: genOps(t, depth-1, n-1)})
			}
		}
	}
	return ops
}

func genCase(t *rapid.T) Case {
	c := Case{Free: rapid.Bool().Draw(t, "free")}
	c.Root = genOps(t, 3, 7)
	if !c.Free {
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 60), 1, 40).Draw(t, "order")
	}
	return c
}

func oracle(c Case) vh.Result {
	w := &world{c: &c, ack: make(chan bool)}
	strayMu.Lock()
	stray = nil
	strayMu.Unlock()
	// goroutines that have nothing to do with it
	stop := make(chan bool)
	var by sync.WaitGroup
	var byErr string
	by.Add(1)
	clean := func(name string) string {
		for k := 0; k < nCall; k++ {
			want, _ := model(nil, k, k)
			if got := vh.Catch(func() string { return do(k, k) }); got != want {
				return fmt.Sprintf("%s: call %d gives %s, want %s", name, k, got, want)
			}
		}
		return ""
	}
	go func() {
		defer by.Done()
		for {
			if e := clean("a goroutine that has no mocks, beside those that have"); e != "" {
				byErr = e
				return
			}
			select {
			case <-stop:
				return
			default:
				runtime.Gosched()
			}
		}
	}()
	root := &gor{w: w, step: make(chan bool), undo: map[int]func(){}, name: "g"}
	w.live = []*gor{root}
	w.wg.Add(1)
	go root.run(c.Root)
	if !c.Free {
		for i := 0; ; i++ {
			w.mu.Lock()
			n := len(w.live)
			if n == 0 {
				w.mu.Unlock()
				break
			}
			g := w.live[c.Order[i%len(c.Order)]%n]
			w.mu.Unlock()
			g.step <- true
			<-w.ack
		}
	}
	w.wg.Wait()
	close(stop)
	by.Wait()
	if byErr != "" {
		return vh.Errf("%s", byErr)
	}
	// the structures of ended goroutines are used for new ones
	var wg sync.WaitGroup
	for i := 0; i < w.nGo+2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			if e := clean("a goroutine started after all others ended"); e != "" {
				w.fail("%s", e)
			}
		}()
	}
	wg.Wait()
	if e := clean("the goroutine that started all"); e != "" {
		return vh.Errf("%s", e)
	}
	if len(w.errs) > 0 {
		return vh.Errf("%s", strings.Join(w.errs, "\n"))
	}
	strayMu.Lock()
	defer strayMu.Unlock()
	if len(stray) > 0 {
		return vh.Errf("handlers ran on goroutines that have none: %v", stray)
	}
	r := vh.Result{NonTrivial: w.inh > 0}
	if w.inh > 0 {
		r.Classes = append(r.Classes, "inherited")
	}
	if w.nGo > 2 {
		r.Classes = append(r.Classes, "many goroutines")
	}
	if c.Free {
		r.Classes = append(r.Classes, "free running")
	} else {
		r.Classes = append(r.Classes, "scheduled")
	}
	return r
}

type fin struct{ p *int }

// The goroutine that runs finalizers and cleanups is started by the first
// goroutine that sets one. It must not get the mocks of that goroutine.
func TestA(t *testing.T) {
	vh.Fixed(t, "R04-finalizer", "finalizers run with the mocks of the goroutine that set the first one", func() error {
		undo := mock.Patch(tgt.Leaf, func(int) int { return -1 })
		undo2 := trap.AddInterceptor(&trap.Interceptor{Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
			if f.Pkg == "rlab/tgt" {
				event("stray")
			}
			return nil, nil
		}})
		ch := make(chan int, 2)
		func() {
			x := &fin{p: new(int)}
			runtime.SetFinalizer(x, func(*fin) { ch <- tgt.Leaf(1) })
			y := &fin{p: new(int)}
			runtime.AddCleanup(y, func(int) { ch <- tgt.Leaf(1) }, 1)
		}()
		undo()
		undo2()
		for i := 0; i < 2; i++ {
			for n := 0; ; n++ {
				runtime.GC()
				select {
				case v := <-ch:
					if v != 4 {
						return fmt.Errorf("Leaf(1)=%d in a finalizer, want 4", v)
					}
				case <-time.After(20 * time.Millisecond):
					if n < 100 {
						continue
					}
				}
				break
			}
		}
		if len(stray) > 0 {
			return fmt.Errorf("an interceptor ran on the finalizer goroutine")
		}
		return nil
	})
}

func TestGoroutines(t *testing.T) {
	vh.Run(t, "goroutines", vh.Options{Crashy: true, Timeout: 60 * time.Second,
		Rule: "a tree of goroutines that install, undo, call and start goroutines in generated order, on a generated schedule or free running, beside goroutines without mocks; non-trivial: calls were made by a goroutine that inherited something"},
		genCase, oracle)
}
