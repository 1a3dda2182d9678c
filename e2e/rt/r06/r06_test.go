package r06

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
)

const (
	fA = iota
	fM0
	fM1
	fV
	fGI
	fGS
	fBox
	fX
	fW
	fN
	fPure
	fPanicErr
	fFib
	fTrace
	nFn
	fBlk  = 99
	fFlat = 98
)

// a call made by the function of a go statement itself
type flat struct {
	k   int
	s   *vh.Sh
	r   int
	err error
}

const (
	_ = iota
)

var fnNames = [nFn]string{"A", "(*P).M", "(*P).M", "PV.V", "G", "G", "(*Box).Get", "X", "W", "N", "Pure", "PanicErr", "Fib", "Trace"}

var p0, p1 = &P{ID: 3}, &P{ID: 4}

type obj = map[string]interface{}

// Mock of a function for a round (and later ones if Keep).
type Mock struct {
	Fn    int
	Kind  string // val err panic kids
	Keep  bool   `json:",omitempty"`
	After bool   `json:",omitempty"` // installed inside the trace
}

type Round struct {
	Untraced bool     `json:",omitempty"`
	End      string   `json:",omitempty"` // "", err, panic
	Filter   []string `json:",omitempty"` // names that are not traced
	File     bool     `json:",omitempty"`
	Mocks    []Mock   `json:",omitempty"`
	Kids     []*vh.ShNode
}

type Case struct {
	Threads [][]Round
	Icpt    bool `json:",omitempty"`
}

// thread state
type th struct {
	stack   []Mock
	undo    []func()
	traced  bool
	inTrace bool
	icpts   int64
	shots   []string
	err     error
	class   map[string]bool
	nodes   int
}

func exec(c *vh.C, n *vh.ShNode, base int) (ret int) {
	sh := &vh.Sh{}
	c.Sh.Kids = append(c.Sh.Kids, sh)
	d := c.Child(n, sh)
	x := n.X + base%5
	normal := false
	if (n.ID+x)%3 == 0 {
		defer func() {
			if normal {
				return
			}
			sh.NoRes = true
			if e := recover(); e != nil {
				sh.Panic = true
				sh.Error = fmt.Sprint(e)
				panic(e)
			}
		}()
	} else {
		defer func() {
			if normal {
				return
			}
			sh.NoRes = true
			if !sh.Exited {
				sh.Panic = true
				sh.Error = "*"
			}
		}()
	}
	cj := obj{"ID": n.ID}
	if n.Fn == fBlk {
		d.Data = c.Data
		sh.Name, sh.Args = "Blk", vh.JSONOf(obj{"c": cj, "x": x})
		sh.Running = true
		Blk(d, x)
		normal = true
		return 0
	}
	if n.Fn == fFlat {
		// nothing of the harness is called on the goroutine, so that these
		// calls are the outermost ones of it
		sh.Name = "go"
		var calls []*flat
		fill := func(g *vh.Sh, cnt int) (list []*flat) {
			for i := 0; i < cnt; i++ {
				f := &flat{k: n.ID + 7*i + x, s: &vh.Sh{}}
				switch f.k % 4 {
				case 0:
					f.s.Name, f.s.Args = "Pure", vh.JSONOf(obj{"a": f.k, "b": x})
				case 1, 2:
					f.s.Name, f.s.Args = "PanicErr", vh.JSONOf(obj{"a": f.k + x})
				case 3:
					f.s.Name, f.s.Args = "Fib", vh.JSONOf(obj{"n": f.k % 2})
				}
				g.Kids = append(g.Kids, f.s)
				list = append(list, f)
			}
			calls = append(calls, list...)
			return
		}
		do := func(f *flat) {
			ok := false
			defer func() {
				if !ok {
					f.s.NoRes, f.s.Panic, f.s.Error = true, true, fmt.Sprint(recover())
				}
			}()
			switch f.k % 4 {
			case 0:
				f.r = Pure(f.k, x)
			case 1, 2:
				f.r, f.err = PanicErr(f.k + x)
			case 3:
				f.r = Fib(f.k % 2)
			}
			ok = true
		}
		first := fill(sh, 1+n.ID%3)
		inner := &vh.Sh{Name: "go"}
		sh.Kids = append(sh.Kids, inner)
		second := fill(inner, 2)
		third := fill(sh, x%3)
		done, done2 := make(chan bool), make(chan bool)
		go func() {
			for _, f := range first {
				do(f)
			}
			go func() {
				for _, f := range second {
					do(f)
				}
				close(done2)
			}()
			for _, f := range third {
				do(f)
			}
			close(done)
		}()
		<-done
		<-done2
		for _, f := range calls {
			if f.s.NoRes {
				continue
			}
			f.s.Results = vh.JSONOf(obj{"__field_0": f.r})
			if f.err != nil {
				f.s.Error = f.err.Error()
			}
			ret += f.r
		}
		normal = true
		return ret
	}
	sh.Name = fnNames[n.Fn]
	errText := func(err error) string {
		if err == nil {
			return ""
		}
		return err.Error()
	}
	switch n.Fn {
	case fA:
		s := []int{1, x, 3}[:x%3]
		sh.Args = vh.JSONOf(obj{"c": cj, "x": x, "s": s})
		r, err := A(d, x, s)
		sh.Results, sh.Error = vh.JSONOf(obj{"r": r}), errText(err)
		ret = r + len(sh.Error)
	case fM0, fM1:
		p := p0
		if n.Fn == fM1 {
			p = p1
		}
		sh.Args = vh.JSONOf(obj{"t": p, "c": cj, "x": x})
		ret = p.M(d, x)
		sh.Results = vh.JSONOf(obj{"__field_0": ret})
	case fV:
		v := PV{ID: x, Tag: "<&"}
		arg := fmt.Sprint("s", x)
		sh.Args = vh.JSONOf(obj{"v": v, "c": cj, "x": arg})
		var i interface {
			V(*vh.C, string) (string, map[string]int)
		} = v
		r, m := i.V(d, arg)
		sh.Results = vh.JSONOf(obj{"r": r, "m": m})
		ret = len(r) + m["n"]
	case fGI:
		sh.Args = vh.JSONOf(obj{"c": cj, "x": x})
		r, err := G(d, x)
		sh.Results, sh.Error = vh.JSONOf(obj{"__field_0": r}), errText(err)
		ret = r + len(sh.Error)
	case fGS:
		a := fmt.Sprint("\x00é", x)
		sh.Args = vh.JSONOf(obj{"c": cj, "x": a})
		r, err := G(d, a)
		sh.Results, sh.Error = vh.JSONOf(obj{"__field_0": r}), errText(err)
		ret = len(r) + len(sh.Error)
	case fBox:
		b := &Box[[]int]{V: []int{x}, ID: n.ID}
		sh.Args = vh.JSONOf(obj{"b": b, "c": cj})
		r := b.Get(d)
		sh.Results = vh.JSONOf(obj{"__field_0": r})
		ret = r[0]
	case fX:
		sh.Args = vh.JSONOf(obj{"c": cj, "x": x})
		s, err := X(context.Background(), d, x)
		sh.Results, sh.Error = vh.JSONOf(obj{"s": s}), errText(err)
		ret = len(s) + len(sh.Error)
	case fW:
		xs := []int{x, 1, 2}[:x%4%3]
		var v interface{} = xs
		if len(xs) == 0 {
			v = nil
			sh.Args = vh.JSONOf(obj{"c": cj, "xs": v})
			ret = W(d)
		} else {
			sh.Args = vh.JSONOf(obj{"c": cj, "xs": v})
			ret = W(d, xs...)
		}
		sh.Results = vh.JSONOf(obj{"__field_0": ret})
	case fN:
		sh.Args = vh.JSONOf(obj{"c": cj})
		f := N
		f(d)
		sh.Results = "{}"
		ret = 1
	case fPure:
		sh.Args = vh.JSONOf(obj{"a": x, "b": base})
		ret = Pure(x, base)
		sh.Results = vh.JSONOf(obj{"__field_0": ret})
	case fPanicErr:
		sh.Args = vh.JSONOf(obj{"a": x})
		r, err := PanicErr(x)
		sh.Results, sh.Error = vh.JSONOf(obj{"__field_0": r}), errText(err)
		ret = r + len(sh.Error)
	case fFib:
		m := x % 5
		var sim func(s *vh.Sh, k int) int
		sim = func(s *vh.Sh, k int) int {
			s.Name = "Fib"
			s.Args = vh.JSONOf(obj{"n": k})
			r := k
			if k >= 2 {
				a, b := &vh.Sh{}, &vh.Sh{}
				s.Kids = append(s.Kids, a, b)
				r = sim(a, k-1) + sim(b, k-2)
			}
			s.Results = vh.JSONOf(obj{"__field_0": r})
			return r
		}
		sim(sh, m)
		ret = Fib(m)
	case fTrace:
		sh.Args = "*"
		sh.Results = "*"
		res, err := trace.Trace(trace.Config{OnFinish: func(stack stack_model.IStack) { c.Data["nested"].(*th).nested() }}, nil, func() (interface{}, error) {
			return d.RunKids(x), nil
		})
		sh.Error = errText(err)
		ret, _ = res.(int)
	}
	normal = true
	return ret
}

func (t *th) nested() {
	if t.inTrace {
		t.err = errors.New("a trace inside of a trace reported a trace of its own")
	}
}

func (t *th) install(m Mock) {
	do := func(c *vh.C) int {
		switch m.Kind {
		case "panic":
			panic(fmt.Sprintf("mock %d", m.Fn))
		case "kids":
			sh := c.Sh
			tmp := &vh.Sh{}
			d := *c
			d.Sh = tmp
			defer func() {
				sh.Kids = append(sh.Kids, tmp.GoKids()...)
				sh.Exited = tmp.Exited
			}()
			return d.RunKids(2)
		}
		return 70 + m.Fn
	}
	er := func() error {
		if m.Kind == "err" {
			return errors.New("mocked err")
		}
		return nil
	}
	var undo func()
	switch m.Fn {
	case fA:
		undo = mock.Patch(A, func(c *vh.C, x int, s []int) (int, error) { return do(c), er() })
	case fM0:
		undo = mock.Patch(p0.M, func(c *vh.C, x int) int { return do(c) })
	case fM1:
		undo = mock.Patch((*P).M, func(p *P, c *vh.C, x int) int { return do(c) + p.ID })
	case fV:
		undo = mock.Patch(PV.V, func(v PV, c *vh.C, x string) (string, map[string]int) { return fmt.Sprint(do(c)), nil })
	case fGI:
		undo = mock.Patch(G[int], func(c *vh.C, x int) (int, error) { return do(c), er() })
	case fGS:
		undo = mock.Patch(G[string], func(c *vh.C, x string) (string, error) { return fmt.Sprint(do(c)), er() })
	case fX:
		undo = mock.Patch(X, func(ctx context.Context, c *vh.C, x int) (string, error) { return fmt.Sprint(do(c)), er() })
	case fW:
		undo = mock.Patch(W, func(c *vh.C, xs ...int) int { return do(c) })
	case fN:
		undo = mock.Patch(N, func(c *vh.C) { do(c) })
	case fPure:
		undo = mock.Patch(Pure, func(a, b int) int {
			if m.Kind == "panic" {
				panic("mock pure")
			}
			return 5
		})
	case nFn: // the variable
		undo = mock.PatchByName("rlab/r06", "Counter", func() int { return 50 })
	}
	t.undo = append(t.undo, undo)
	t.stack = append(t.stack, m)
}

func (t *th) round(i int, r *Round, dir string, id int) {
	// undo what is not kept
	defer func() {
		var us []func()
		var ms []Mock
		for j, m := range t.stack {
			if m.Keep {
				us, ms = append(us, t.undo[j]), append(ms, m)
			} else {
				t.undo[j]()
			}
		}
		t.undo, t.stack = us, ms
	}()
	root := &vh.Sh{Name: "Trace", Args: "*", Results: "*"}
	c := &vh.C{ID: -1, N: &vh.ShNode{Kids: r.Kids}, Sh: root, Rel: make(chan bool), WG: &sync.WaitGroup{}, Exec: exec,
		Data: map[string]interface{}{"nested": t},
		VarV: func(name string) string {
			if name == "Title" {
				return `"t\"itle"`
			}
			for _, m := range t.stack {
				if m.Fn == nFn {
					return "50"
				}
			}
			return "5"
		}}
	for _, m := range r.Mocks {
		if !m.After {
			t.install(m)
		}
	}
	body := func() (interface{}, error) {
		for _, m := range r.Mocks {
			if m.After {
				t.install(m)
			}
		}
		n := c.RunKids(1)
		switch r.End {
		case "err":
			root.Error = fmt.Sprint("end ", n)
			return n, errors.New(root.Error)
		case "panic":
			root.Panic = true
			root.Error = fmt.Sprint("endp ", n)
			panic(root.Error)
		}
		return n, nil
	}
	var res interface{}
	var err error
	var got *stack_model.Stack
	var gotJSON []byte
	fin := 0
	file := filepath.Join(dir, fmt.Sprintf("t%d-%d.json", id, i))
	func() {
		defer func() {
			if e := recover(); e != nil {
				root.NoRes, root.Panic = true, true
				if root.Error == "" {
					root.Error = "*"
				}
				err = fmt.Errorf("panic %v", e)
			}
		}()
		if r.Untraced || !t.traced {
			res, err = body()
			return
		}
		cfg := trace.Config{OnFinish: func(s stack_model.IStack) {
			fin++
			got = s.Data()
			gotJSON, _ = s.JSON()
		}}
		if r.File {
			cfg.OutputFile = file
		}
		if len(r.Filter) > 0 {
			cfg.FilterTrace = func(f *core.FuncInfo) bool {
				return !has(r.Filter, f.IdentityName) || has(helpers, f.IdentityName)
			}
		}
		t.inTrace = true
		res, err = trace.Trace(cfg, "req", body)
	}()
	t.inTrace = false
	close(c.Rel)
	c.WG.Wait()
	t.shots = append(t.shots, fmt.Sprintf("round %d: %v %v", i, res, err))
	if r.Untraced || !t.traced {
		return
	}
	if fin != 1 {
		t.fail(fmt.Errorf("round %d: the trace was reported %d times", i, fin))
		return
	}
	root.Flatten(func(s *vh.Sh) bool { return s.Name == "go" || !has(r.Filter, s.Name) })
	t.nodes += count(root)
	if err := cmpJSON(root, gotJSON); err != nil {
		t.fail(fmt.Errorf("round %d: JSON of the trace: %v", i, err))
	}
	dj, _ := json.Marshal(got)
	if err := cmpJSON(root, dj); err != nil {
		t.fail(fmt.Errorf("round %d: data of the trace: %v", i, err))
	}
	if r.File {
		fj, err := os.ReadFile(file)
		if err == nil {
			err = cmpJSON(root, fj)
		}
		if err != nil {
			t.fail(fmt.Errorf("round %d: trace file: %v", i, err))
		}
		os.Remove(file)
	}
}

func count(s *vh.Sh) int {
	n := 1
	for _, k := range s.Kids {
		n += count(k)
	}
	return n
}

func (t *th) fail(err error) {
	if t.err == nil {
		t.err = err
	}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func cmpJSON(want *vh.Sh, data []byte) error {
	var st struct {
		Children []*entry
	}
	if err := json.Unmarshal(data, &st); err != nil {
		return fmt.Errorf("%v: %.300s", err, data)
	}
	got := &vh.Sh{}
	conv(got, st.Children)
	if len(got.Kids) != 1 {
		return fmt.Errorf("%d roots", len(got.Kids))
	}
	if d := diff(want, got.Kids[0], ""); d != "" {
		return fmt.Errorf("%s\nwant:\n%sgot:\n%s", d, want.Format(), got.Kids[0].Format())
	}
	return nil
}

var helpers = []string{"exec", "p0", "p1", "fnNames", "(*th).install", "(*th).nested", "has", "oracle"}

type entry struct {
	FuncInfo struct{ Name, Pkg string }
	Args     json.RawMessage
	Results  json.RawMessage
	Panic    bool
	Error    string
	Children []*entry
}

func conv(into *vh.Sh, es []*entry) {
	for _, e := range es {
		s := &vh.Sh{Name: e.FuncInfo.Name, Args: string(e.Args), Results: strings.ReplaceAll(string(e.Results), `"__xgo_auto_res_`, `"__field_`), Panic: e.Panic, Error: e.Error}
		if strings.HasSuffix(s.Name, " (running)") {
			s.Name, s.Running = strings.TrimSuffix(s.Name, " (running)"), true
		}
		conv(s, e.Children)
		if e.FuncInfo.Pkg == "verif/vh" || e.FuncInfo.Pkg == "rlab/r06" && has(helpers, s.Name) {
			// what the harness does
			into.Kids = append(into.Kids, s.Kids...)
			continue
		}
		into.Kids = append(into.Kids, s)
	}
}

func sameJSON(a, b string) bool {
	if a == "*" || a == b {
		return true
	}
	var x, y interface{}
	if a == "" || a == "null" {
		return b == "" || b == "null"
	}
	if json.Unmarshal([]byte(a), &x) != nil || json.Unmarshal([]byte(b), &y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func diff(w, g *vh.Sh, path string) string {
	path += "/" + w.Name
	if w.Name != g.Name {
		return path + ": got a call of " + g.Name
	}
	if w.Name != "go" || w.Running {
		if w.Running != g.Running {
			return fmt.Sprintf("%s: running %v, want %v", path, g.Running, w.Running)
		}
	}
	if !sameJSON(w.Args, g.Args) {
		return fmt.Sprintf("%s: args %s, want %s", path, g.Args, w.Args)
	}
	if !w.NoRes && !w.Running && !sameJSON(w.Results, g.Results) {
		return fmt.Sprintf("%s: results %s, want %s", path, g.Results, w.Results)
	}
	if w.Panic != g.Panic {
		return fmt.Sprintf("%s: panic %v, want %v", path, g.Panic, w.Panic)
	}
	if w.Error == "*" && g.Error == "" || w.Error != "*" && w.Error != g.Error {
		return fmt.Sprintf("%s: error %q, want %q", path, g.Error, w.Error)
	}
	if len(w.Kids) != len(g.Kids) {
		return fmt.Sprintf("%s: %d calls inside, want %d", path, len(g.Kids), len(w.Kids))
	}
	for i := range w.Kids {
		if d := diff(w.Kids[i], g.Kids[i], fmt.Sprintf("%s[%d]", path, i)); d != "" {
			return d
		}
	}
	return ""
}

func oracle(c Case) vh.Result {
	var res vh.Result
	class := map[string]bool{}
	dir := vh.OutDir()
	nodes := 0
	var cls func(ns []*vh.ShNode)
	cls = func(ns []*vh.ShNode) {
		for _, n := range ns {
			if n.How != "" {
				class["how-"+n.How] = true
			}
			if n.Panic {
				class["panic"] = true
			}
			if n.Fn == fTrace {
				class["nested-trace"] = true
			}
			if n.Fn == fFlat {
				class["goroutine-outermost-calls"] = true
			}
			if len(n.Then) > 0 {
				class["goroutine-more-calls"] = true
			}
			cls(n.Kids)
			cls(n.Then)
		}
	}
	var shots [2][]string
	for pass := 0; pass < 2; pass++ {
		var wg sync.WaitGroup
		ths := make([]*th, len(c.Threads))
		p0, p1 = &P{ID: 3}, &P{ID: 4}
		for i := range c.Threads {
			i := i
			t := &th{traced: pass == 1}
			ths[i] = t
			wg.Add(1)
			go func() {
				defer wg.Done()
				if c.Icpt {
					trap.AddInterceptor(&trap.Interceptor{
						Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
							if f.Pkg == "rlab/r06" && has(fnNames[:fTrace], f.IdentityName) {
								atomic.AddInt64(&t.icpts, 1)
							}
							return nil, nil
						},
					})
				}
				for j := range c.Threads[i] {
					t.round(j, &c.Threads[i][j], dir, i)
				}
				for _, u := range t.undo {
					u()
				}
				// nothing may be left
				t.shots = append(t.shots, fmt.Sprint("after ", Pure(1, 2), p0.ID, p1.ID))
			}()
		}
		wg.Wait()
		for i, t := range ths {
			if t.err != nil {
				res.Err = fmt.Errorf("thread %d %v", i, t.err)
				return res
			}
			shots[pass] = append(shots[pass], fmt.Sprintf("thread %d icpt %d %v", i, t.icpts, t.shots))
			nodes += t.nodes
		}
	}
	if !reflect.DeepEqual(shots[0], shots[1]) {
		return vh.Errf("tracing changed what the program computes\nuntraced: %q\ntraced:   %q", shots[0], shots[1])
	}
	for _, t := range c.Threads {
		for _, r := range t {
			cls(r.Kids)
			if len(r.Filter) > 0 {
				class["filter"] = true
			}
			if r.End != "" {
				class["end-"+r.End] = true
			}
			for _, m := range r.Mocks {
				class["mock-"+m.Kind] = true
				if m.Keep && m.After {
					class["mock-kept"] = true
				}
			}
		}
	}
	if len(c.Threads) > 1 {
		class["threads"] = true
	}
	for k := range class {
		res.Classes = append(res.Classes, k)
	}
	res.NonTrivial = nodes >= 6
	return res
}

func genNode(rt *rapid.T, depth int, id *int, budget *int, parentGo bool) *vh.ShNode {
	*id++
	*budget--
	n := &vh.ShNode{ID: *id, Fn: rapid.IntRange(0, nFn-1).Draw(rt, "fn"), X: rapid.IntRange(0, 9).Draw(rt, "x")}
	n.How = rapid.SampledFrom([]string{"", "", "", "catch", "catch", "defer", "go", "par", "nest", "block", "flat"}).Draw(rt, "how")
	if n.How == "flat" {
		n.How, n.Fn = "", fFlat
		return n
	}
	if n.How == "block" {
		n.Fn = fBlk
		return n
	}
	if n.Fn == fTrace && rapid.IntRange(0, 2).Draw(rt, "notrace") > 0 {
		n.Fn = fA
	}
	n.Panic = rapid.IntRange(0, 6).Draw(rt, "panic") == 0
	n.Recover = rapid.IntRange(0, 3).Draw(rt, "recover") == 0
	n.ReadVar = rapid.IntRange(0, 3).Draw(rt, "var") == 0
	if n.How == "go" || n.How == "par" || n.How == "nest" {
		for i, k := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(rt, "then"); i < k && *budget > 0; i++ {
			n.Then = append(n.Then, genNode(rt, depth+1, id, budget, true))
		}
	}
	if n.How == "go" || n.How == "par" {
		if rapid.IntRange(0, 9).Draw(rt, "goexit") == 0 {
			n.Goexit, n.Panic, n.Recover = true, false, false
			return n
		}
	}
	if depth < 4 {
		k := rapid.IntRange(0, 3).Draw(rt, "kids")
		for i := 0; i < k && *budget > 0; i++ {
			n.Kids = append(n.Kids, genNode(rt, depth+1, id, budget, false))
		}
	}
	return n
}

func gen(rt *rapid.T) Case {
	var c Case
	c.Icpt = rapid.IntRange(0, 3).Draw(rt, "icpt") == 0
	nt := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "threads")
	id := 0
	for i := 0; i < nt; i++ {
		var rs []Round
		for j, k := 0, rapid.IntRange(1, 3).Draw(rt, "rounds"); j < k; j++ {
			var r Round
			r.Untraced = rapid.IntRange(0, 5).Draw(rt, "untraced") == 0
			r.End = rapid.SampledFrom([]string{"", "", "err", "panic"}).Draw(rt, "end")
			r.File = rapid.IntRange(0, 3).Draw(rt, "file") == 0
			if rapid.IntRange(0, 3).Draw(rt, "filter") == 0 {
				r.Filter = rapid.SliceOfNDistinct(rapid.SampledFrom(append(append([]string{}, fnNames[:13]...), "Counter")), 1, 4, rapid.ID[string]).Draw(rt, "filters")
			}
			for a, b := 0, rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(rt, "mocks"); a < b; a++ {
				m := Mock{Fn: rapid.SampledFrom([]int{fA, fM0, fM1, fV, fGI, fGS, fX, fW, fN, fPure, nFn}).Draw(rt, "mfn"),
					Kind: rapid.SampledFrom([]string{"val", "err", "panic", "kids"}).Draw(rt, "mkind"),
					Keep: rapid.Bool().Draw(rt, "keep"), After: rapid.Bool().Draw(rt, "after")}
				r.Mocks = append(r.Mocks, m)
			}
			budget := 14
			for a, b := 0, rapid.IntRange(0, 4).Draw(rt, "top"); a < b && budget > 0; a++ {
				r.Kids = append(r.Kids, genNode(rt, 0, &id, &budget, false))
			}
			rs = append(rs, r)
		}
		c.Threads = append(c.Threads, rs)
	}
	return c
}

// The first gc starts goroutines of the runtime on the goroutine that happens
// to allocate, and more of them when GOMAXPROCS grows.
func TestA(t *testing.T) {
	vh.Fixed(t, "R06-gc", "goroutines of the runtime are not part of a trace and inherit nothing", func() error {
		for p := 1; p <= 24; p++ {
			runtime.GOMAXPROCS(p)
			undo := mock.Patch(Pure, func(a, b int) int { return -1 })
			var got []byte
			fins := make(chan int, 100)
			trace.Trace(trace.Config{OnFinish: func(s stack_model.IStack) { got, _ = s.JSON() }}, nil, func() (interface{}, error) {
				runtime.GC()
				x := &P{ID: p}
				runtime.SetFinalizer(x, func(x *P) { fins <- Pure(x.ID, 0) })
				for i := 0; i < 2000; i++ {
					Fib(i % 2)
				}
				return nil, nil
			})
			undo()
			n := strings.Count(string(got), `"go`)
			if n > 0 {
				return fmt.Errorf("GOMAXPROCS %d: %d goroutines in the trace", p, n)
			}
			runtime.GC()
			select {
			case r := <-fins:
				if r != p*10 {
					return fmt.Errorf("a finalizer ran with the mocks of another goroutine: %d", r)
				}
			case <-time.After(3 * time.Second):
			}
		}
		return nil
	})
}

func init() { debug.SetGCPercent(-1) }

func TestTree(t *testing.T) {
	runtime.GOMAXPROCS(8)
	debug.SetGCPercent(50)
	vh.Run(t, "tree", vh.Options{
		Rule:    "a case is 1..3 goroutines, each doing up to 3 rounds (traced or not, with kept or dropped mocks, filters, ending normally, with an error or a panic) of a generated call tree (methods, generics, contexts, variadics, recursion, variable reads, panics passing, recovered or caught, deferred calls, goroutines waited for, concurrent, nested, exiting or still running, nested traces); the exported data, its JSON and the file are compared with the tree the callers noted, and all results with an untraced run; non-trivial: at least 6 calls traced",
		Crashy:  true,
		Timeout: 20 * time.Second,
	}, gen, oracle)
}
