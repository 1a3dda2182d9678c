package r09

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rlab/tgt"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/tls"
)

// declared when the package is initialised, and by the builder in all orders
var fixed = []tls.TLSKey{
	tls.Declare("a"),
	tls.DeclareInherit("b"),
	tls.New().Name("c").Inherit().Declare(),
	tls.New().Inherit().Name("c").Declare(), // same name, another key
	tls.New().Name("a").Declare(),
	tls.New().Declare(),
}
var fixedInherit = []bool{false, true, true, true, false, false}

type Op struct {
	Op   string // set, get, all, declare, go, mock, undo, yield, gc
	K    int    `json:",omitempty"`
	V    int    `json:",omitempty"`
	How  int    `json:",omitempty"`
	Each int    `json:",omitempty"`
	Kids []Op   `json:",omitempty"`
}

type Case struct {
	Order []int
	Free  bool
	Root  []Op
}

type val struct {
	ok bool
	v  interface{}
}

type world struct {
	c       *Case
	mu      sync.Mutex
	keys    []tls.TLSKey
	inherit []bool
	errs    []string
	wg      sync.WaitGroup
	live    []*gor
	ack     chan bool
	n, inh  int
	dyn     int
}

type gor struct {
	w    *world
	step chan bool
	m    map[int]val
	name string
	n    int
	undo []func()
	inh  bool
}

func (w *world) fail(f string, args ...interface{}) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, fmt.Sprintf(f, args...))
}

func (w *world) nKeys() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return len(w.keys)
}

func (w *world) key(k int) (int, tls.TLSKey) {
	w.mu.Lock()
	defer w.mu.Unlock()
	k %= len(w.keys)
	return k, w.keys[k]
}

type ptr struct{ n int }

var ptrs = []*ptr{{1}, {2}}

func value(n int) interface{} {
	switch n % 5 {
	case 0:
		return nil
	case 1:
		return ptrs[n/5%2]
	case 2:
		return fmt.Sprint("s", n)
	case 3:
		return [2]int{n, 1}
	}
	return n
}

func (g *gor) check(i int, how string) {
	k, key := g.w.key(i)
	want := g.m[k]
	got, ok := key.GetOK()
	if got2 := key.Get(); got2 != got {
		g.w.fail("goroutine %s%s: key %d: Get gives %v, GetOK gives %v", g.name, how, k, got2, got)
	}
	if ok != want.ok || got != want.v {
		g.w.fail("goroutine %s%s: key %d (inherit=%v) is %v,%v, want %v,%v", g.name, how, k, g.w.inherit[k], got, ok, want.v, want.ok)
	}
	if g.inh && want.ok {
		g.w.mu.Lock()
		g.w.inh++
		g.w.mu.Unlock()
	}
}

func (g *gor) all(how string) {
	for k := 0; k < g.w.nKeys(); k++ {
		g.check(k, how)
	}
}

func (g *gor) wait() {
	if g.w.c.Free {
		if g.n++; g.n%3 == 1 {
			runtime.Gosched()
		}
		return
	}
	<-g.step
}

func (g *gor) done() {
	if !g.w.c.Free {
		g.w.ack <- true
	}
}

func (g *gor) run(ops []Op) {
	defer g.w.wg.Done()
	for i := range ops {
		g.wait()
		if i == 0 {
			g.all(" at start")
		}
		g.op(&ops[i])
		g.done()
	}
	g.wait()
	g.all(" at end")
	for _, u := range g.undo {
		u()
	}
	g.w.mu.Lock()
	for i, x := range g.w.live {
		if x == g {
			g.w.live = append(g.w.live[:i:i], g.w.live[i+1:]...)
		}
	}
	g.w.mu.Unlock()
	g.done()
}

func (g *gor) Start(ops []Op) { g.run(ops) }

func (g *gor) op(o *Op) {
	w := g.w
	switch o.Op {
	case "set":
		k, key := w.key(o.K)
		v := value(o.V)
		key.Set(v)
		g.m[k] = val{true, v}
	case "get":
		g.check(o.K, "")
	case "all":
		g.all("")
	case "declare":
		w.mu.Lock()
		w.dyn++
		inherit := o.V%2 == 0
		var key tls.TLSKey
		if inherit {
			key = tls.DeclareInherit("d")
		} else {
			key = tls.Declare("d")
		}
		w.keys = append(w.keys, key)
		w.inherit = append(w.inherit, inherit)
		w.mu.Unlock()
	case "mock":
		g.undo = append(g.undo, mock.Patch(tgt.Leaf, func(int) int { return o.V }))
		if got := tgt.Leaf(1); got != o.V {
			w.fail("goroutine %s: mocked Leaf gives %d, want %d", g.name, got, o.V)
		}
	case "undo":
		for i := len(g.undo) - 1; i >= 0; i-- {
			g.undo[i]()
		}
		g.undo = nil
	case "yield":
		runtime.Gosched()
	case "gc":
		runtime.GC()
	case "go":
		for i := 0; i <= o.Each; i++ {
			w.mu.Lock()
			w.n++
			c := &gor{w: w, step: make(chan bool), name: fmt.Sprintf("%s.%d", g.name, w.n), m: map[int]val{}}
			for k, v := range g.m {
				if w.inherit[k] {
					c.m[k] = v
					c.inh = true
				}
			}
			w.live = append(w.live, c)
			w.mu.Unlock()
			w.wg.Add(1)
			switch o.How % 4 {
			case 0:
				go c.run(o.Kids)
			case 1:
				go func() { c.Start(o.Kids) }()
			case 2:
				go func(f func([]Op)) { f(o.Kids) }(c.run)
			case 3:
				var wg sync.WaitGroup
				wg.Go(func() { c.run(o.Kids) })
			}
		}
	}
}

func genOps(t *rapid.T, depth, n int) []Op {
	var ops []Op
	for i, k := 0, rapid.IntRange(1, n).Draw(t, "n"); i < k; i++ {
		switch w := rapid.IntRange(0, 99).Draw(t, "op"); {
		case w < 40:
			ops = append(ops, Op{Op: "set", K: rapid.IntRange(0, 9).Draw(t, "k"), V: rapid.IntRange(0, 40).Draw(t, "v")})
		case w < 52:
			ops = append(ops, Op{Op: "get", K: rapid.IntRange(0, 9).Draw(t, "k")})
		case w < 58:
			ops = append(ops, Op{Op: "all"})
		case w < 66:
			ops = append(ops, Op{Op: "declare", V: rapid.IntRange(0, 1).Draw(t, "v")})
		case w < 69:
			ops = append(ops, Op{Op: "mock", V: rapid.IntRange(0, 9).Draw(t, "v")})
		case w < 71:
			ops = append(ops, Op{Op: "undo"})
		case w < 74:
			ops = append(ops, Op{Op: "yield"})
		case w < 75:
			ops = append(ops, Op{Op: "gc"})
		default:
			if depth > 0 {
				ops = append(ops, Op{Op: "go", How: rapid.IntRange(0, 3).Draw(t, "how"), Each: rapid.SampledFrom([]int{0, 0, 0, 1, 4}).Draw(t, "each"), Kids: genOps(t, depth-1, n-1)})
			}
		}
	}
	return ops
}

func genCase(t *rapid.T) Case {
	c := Case{Free: rapid.Bool().Draw(t, "free"), Root: genOps(t, 3, 8)}
	if !c.Free {
		c.Order = rapid.SliceOfN(rapid.IntRange(0, 60), 1, 40).Draw(t, "order")
	}
	return c
}

func oracle(c Case) vh.Result {
	w := &world{c: &c, ack: make(chan bool)}
	w.keys = append(w.keys, fixed...)
	w.inherit = append(w.inherit, fixedInherit...)
	root := &gor{w: w, step: make(chan bool), name: "g", m: map[int]val{}}
	w.live = []*gor{root}
	w.wg.Add(1)
	go root.run(c.Root)
	if !c.Free {
		for i := 0; ; i++ {
			w.mu.Lock()
			n := len(w.live)
			if n == 0 {
				w.mu.Unlock()
				break
			}
			g := w.live[c.Order[i%len(c.Order)]%n]
			w.mu.Unlock()
			g.step <- true
			<-w.ack
		}
	}
	w.wg.Wait()
	// the structures of ended goroutines are used for new ones
	var wg sync.WaitGroup
	clean := &gor{w: w, m: map[int]val{}, name: "started after all others ended"}
	for i := 0; i < w.n+2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			clean.all("")
		}()
	}
	wg.Wait()
	clean = &gor{w: w, m: map[int]val{}, name: "that started all"}
	clean.all("")
	if len(w.errs) > 0 {
		return vh.Errf("%s", strings.Join(w.errs, "\n"))
	}
	r := vh.Result{NonTrivial: w.inh > 0}
	if w.inh > 0 {
		r.Classes = append(r.Classes, "inherited value read")
	}
	if w.dyn > 0 {
		r.Classes = append(r.Classes, "keys declared at run time")
	}
	if c.Free {
		r.Classes = append(r.Classes, "free running")
	} else {
		r.Classes = append(r.Classes, "scheduled")
	}
	return r
}

func TestTLS(t *testing.T) {
	vh.Run(t, "tls", vh.Options{Crashy: true, Timeout: 60 * time.Second,
		Rule: "a tree of goroutines that declare, set, read keys and start goroutines, on a generated schedule or free running; non-trivial: a goroutine read a value it inherited"},
		genCase, oracle)
}
