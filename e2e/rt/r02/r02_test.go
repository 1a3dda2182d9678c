package r02

import (
	"context"
	"fmt"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rlab/tgt"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
)

func C(vs ...interface{}) string { return vh.CanonAny(vs...) }

// Subject is one receiver of a method, or one instantiation of a generic
// function, with the ways to name and to call it.
type Subject struct {
	Name           string
	Group          string // the method or generic function
	Inst           string // instantiation ("" if not generic)
	Key            string // identity of the receiver ("" for functions)
	Recv           interface{}
	Bound          []interface{} // method values
	Expr           interface{}   // method expression, or the function
	ByName, Method string
	Calls          []func(a int) string
	Args           func(a int) []interface{}
	Orig           func(a int) string
}

func i1(a int) []interface{}   { return []interface{}{a} }
func none(a int) []interface{} { return nil }

type MyInt int
type MyStr string
type Pt struct{ X, Y int }

func makeSubjects() []*Subject {
	var ss []*Subject
	add := func(s *Subject) {
		if s.Name == "" {
			s.Name = s.Group + "#" + s.Inst + "#" + s.Key
		}
		if s.Args == nil {
			s.Args = i1
		}
		ss = append(ss, s)
	}
	// pointers: identity is the address, even with equal contents
	for i, id := range []int{1, 1, 2} {
		r := &tgt.T{ID: id}
		add(&Subject{Group: "(*T).Ptr", Key: fmt.Sprint(i), Recv: r, Bound: []interface{}{r.Ptr}, Expr: (*tgt.T).Ptr, ByName: "(*T).Ptr", Method: "Ptr",
			Calls: []func(a int) string{func(a int) string { return C(r.Ptr(a)) }, func(a int) string { return C((*tgt.T).Ptr(r, a)) }, func(a int) string { f := r.Ptr; return C(f(a)) }},
			Orig:  func(a int) string { return C(id*100 + a) }})
	}
	// comparable values: identity is ==
	for i, v := range []tgt.V{{ID: 1, Tag: "a"}, {ID: 1, Tag: "a"}, {ID: 1, Tag: "b"}, {ID: 2, Tag: "a"}} {
		v := v
		key := fmt.Sprint(v)
		add(&Subject{Name: fmt.Sprintf("V.Val#%d", i), Group: "V.Val", Key: key, Recv: v, Bound: []interface{}{v.Val}, Expr: tgt.V.Val, ByName: "V.Val", Method: "Val",
			Calls: []func(a int) string{func(a int) string { return C(v.Val(a)) }, func(a int) string { p := &v; return C(p.Val(a)) }, func(a int) string { w := v; return C(w.Val(a)) }, func(a int) string { return C(tgt.V.Val(v, a)) }},
			Orig:  func(a int) string { return C(tgt.V{ID: v.ID + a, Tag: v.Tag + "v"}) }})
	}
	for _, m := range []tgt.MyInt{0, 3} {
		m := m
		add(&Subject{Group: "MyInt.Inc", Key: fmt.Sprint(int(m)), Recv: m, Bound: []interface{}{m.Inc}, Expr: tgt.MyInt.Inc, ByName: "MyInt.Inc", Method: "Inc",
			Calls: []func(a int) string{func(a int) string { return C(m.Inc(a)) }, func(a int) string { return C(tgt.MyInt(int(m)).Inc(a)) }},
			Orig:  func(a int) string { return C(m + tgt.MyInt(a)) }})
	}
	// not comparable: identity is content
	for _, l := range [][]int{{1, 2}, {1, 2, 3}} {
		s := tgt.SliceT(l)
		sum := 0
		for _, x := range l {
			sum += x
		}
		s2 := append(tgt.SliceT(nil), s...)
		add(&Subject{Group: "SliceT.Sum", Key: fmt.Sprint(l), Recv: s, Bound: []interface{}{s.Sum}, Expr: tgt.SliceT.Sum, ByName: "SliceT.Sum", Method: "Sum", Args: none,
			Calls: []func(a int) string{func(a int) string { return C(s.Sum()) }, func(a int) string { return C(s2.Sum()) }},
			Orig:  func(a int) string { return C(sum) }})
	}
	for _, u := range []tgt.U{{ID: 1, List: []int{1}}, {ID: 1, List: []int{2}}, {ID: 2, M: map[string]int{"a": 1}}} {
		u := u
		add(&Subject{Group: "U.Look", Key: fmt.Sprint(u), Recv: u, Bound: []interface{}{u.Look}, Expr: tgt.U.Look, ByName: "U.Look", Method: "Look",
			Calls: []func(a int) string{func(a int) string { return C(u.Look(a)) }, func(a int) string {
				w := u
				w.List = append([]int(nil), u.List...)
				p := &w
				_ = p
				return C(u.Look(a))
			}},
			Orig: func(a int) string { return C(fmt.Sprintf("%d/%v/%d", u.ID, u.List, a)) }})
	}
	// a nil pointer among others
	var nilU *tgt.U
	for i, u := range []*tgt.U{nilU, {ID: 4}, {ID: 4}} {
		u := u
		add(&Subject{Group: "(*U).LookPtr", Key: fmt.Sprint(i), Recv: u, Bound: []interface{}{u.LookPtr}, Expr: (*tgt.U).LookPtr, ByName: "(*U).LookPtr", Method: "LookPtr",
			Calls: []func(a int) string{func(a int) string { return C(u.LookPtr(a)) }},
			Orig: func(a int) string {
				if u == nil {
					return C(fmt.Sprintf("nil %d", a))
				}
				return C(fmt.Sprintf("4/%d", a))
			}})
	}
	for _, x := range []tgt.Arr{{1, 2}, {3, 4}} {
		x := x
		add(&Subject{Group: "Arr.At", Key: fmt.Sprint(x), Recv: x, Bound: []interface{}{x.At}, Expr: tgt.Arr.At, ByName: "Arr.At", Method: "At",
			Calls: []func(a int) string{func(a int) string { return C(x.At(a)) }}, Orig: func(a int) string { return C(x[a%2]) }})
	}
	for _, x := range []tgt.Holder{{V: 1}, {V: "1"}, {V: nil}, {V: []int{1}}, {V: int8(1)}} {
		x := x
		add(&Subject{Group: "Holder.Show", Key: fmt.Sprintf("%T%v", x.V, x), Recv: x, Bound: []interface{}{x.Show}, Expr: tgt.Holder.Show, ByName: "Holder.Show", Method: "Show",
			Calls: []func(a int) string{func(a int) string { return C(x.Show(a)) }}, Orig: func(a int) string { return C(fmt.Sprint(x.V, a)) }})
	}
	for i, x := range []tgt.Str{"x", "yy"} {
		x := x
		p := &x
		add(&Subject{Group: "Str.Len", Key: string(x), Recv: x, Bound: []interface{}{x.Len}, Expr: tgt.Str.Len, ByName: "Str.Len", Method: "Len",
			Calls: []func(a int) string{func(a int) string { return C(x.Len(a)) }, func(a int) string { return C(p.Len(a)) }}, Orig: func(a int) string { return C(len(x) + a) }})
		add(&Subject{Group: "(*Str).Grow", Key: fmt.Sprint(i), Recv: p, Bound: []interface{}{p.Grow}, Expr: (*tgt.Str).Grow, ByName: "(*Str).Grow", Method: "Grow",
			Calls: []func(a int) string{func(a int) string { return C(p.Grow(a)) }, func(a int) string { return C(x.Grow(a)) }}, Orig: func(a int) string { return C(len(x) * a) }})
	}
	add(&Subject{Group: "Empty.Do", Key: "e", Recv: tgt.Empty{}, Bound: []interface{}{tgt.Empty{}.Do}, Expr: tgt.Empty.Do, ByName: "Empty.Do", Method: "Do",
		Calls: []func(a int) string{func(a int) string { return C(tgt.Empty{}.Do(a)) }}, Orig: func(a int) string { return C(a + 2) }})
	// embedding: the receiver is the embedded value
	b0, b1 := &tgt.Base{N: 1}, &tgt.Base{N: 1}
	for i, b := range []*tgt.Base{b0, b1} {
		b := b
		d := tgt.Derived{Base: b, Name: "n"}
		dd := &tgt.Deep{Derived: tgt.Derived{Base: b, Name: "other"}}
		add(&Subject{Group: "(*Base).Hello", Key: fmt.Sprint(i), Recv: b, Bound: []interface{}{b.Hello, d.Hello, d.Base.Hello, dd.Hello}, Expr: (*tgt.Base).Hello, ByName: "(*Base).Hello", Method: "Hello",
			Calls: []func(a int) string{func(a int) string { return C(b.Hello(a)) }, func(a int) string { return C(d.Hello(a)) }, func(a int) string { return C(dd.Hello(a)) },
				func(a int) string { var x interface{ Hello(int) string } = d; return C(x.Hello(a)) }},
			Orig: func(a int) string { return C(fmt.Sprintf("hello1-%d", a)) }})
	}
	for _, n := range []int{5, 6} {
		n := n
		d := tgt.DerivedVal{Base: tgt.Base{N: n}, Name: "n"}
		d2 := &tgt.DerivedVal{Base: tgt.Base{N: n}, Name: "m"}
		add(&Subject{Group: "Base.Bye", Key: fmt.Sprint(n), Recv: d.Base, Bound: []interface{}{d.Bye, d.Base.Bye, d2.Bye}, Expr: tgt.Base.Bye, ByName: "Base.Bye", Method: "Bye",
			Calls: []func(a int) string{func(a int) string { return C(d.Bye(a)) }, func(a int) string { return C(d2.Bye(a)) }, func(a int) string { return C(d.Base.Bye(a)) }},
			Orig:  func(a int) string { return C(fmt.Sprintf("bye%d-%d", n, a)) }})
	}
	// through interfaces
	for i, s := range []int{2, 2} {
		q := &tgt.Sq{S: s}
		var sh tgt.Shape = q
		add(&Subject{Group: "(*Sq).Area", Key: fmt.Sprint(i), Recv: q, Bound: []interface{}{q.Area, sh.Area}, Expr: (*tgt.Sq).Area, ByName: "(*Sq).Area", Method: "Area",
			Calls: []func(a int) string{func(a int) string { return C(sh.Area(a)) }, func(a int) string { return C(q.Area(a)) }, func(a int) string { f := sh.Area; return C(f(a)) }},
			Orig:  func(a int) string { return C(4 * a) }})
	}
	for _, w := range []int{2, 3} {
		q := tgt.Rect{W: w, H: 1}
		w := w
		var sh, sp tgt.Shape = q, &q
		add(&Subject{Group: "Rect.Area", Key: fmt.Sprint(w), Recv: q, Bound: []interface{}{q.Area, sh.Area, sp.Area}, Expr: tgt.Rect.Area, ByName: "Rect.Area", Method: "Area",
			Calls: []func(a int) string{func(a int) string { return C(sh.Area(a)) }, func(a int) string { return C(sp.Area(a)) }, func(a int) string { return C(q.Area(a)) }},
			Orig:  func(a int) string { return C(w * a) }})
	}
	addInstances(add)
	add(&Subject{Group: "Conv", Inst: "int,float64", Expr: tgt.Conv[int, float64], Calls: []func(a int) string{func(a int) string { return C(tgt.Conv[int, float64](a)) }}, Orig: func(a int) string { return C(float64(a) + 1) }})
	add(&Subject{Group: "Conv", Inst: "int,MyInt", Expr: tgt.Conv[int, MyInt], Calls: []func(a int) string{func(a int) string { return C(tgt.Conv[int, MyInt](a)) }}, Orig: func(a int) string { return C(MyInt(a) + 1) }})
	add(&Subject{Group: "Conv", Inst: "int,int", Expr: tgt.Conv[int, int], Calls: []func(a int) string{func(a int) string { return C(tgt.Conv[int, int](a)) }}, Orig: func(a int) string { return C(a + 1) }})
	add(&Subject{Group: "SizeOf", Inst: "int", Expr: tgt.SizeOf[int], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.SizeOf[int]()) }}, Orig: func(a int) string { return C("int") }})
	add(&Subject{Group: "SizeOf", Inst: "string", Expr: tgt.SizeOf[string], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.SizeOf[string]()) }}, Orig: func(a int) string { return C("string") }})
	return ss
}

var subjects = makeSubjects()
var byName = map[string]*Subject{}
var groups = map[string][]*Subject{}

func init() {
	for _, s := range subjects {
		if byName[s.Name] != nil {
			panic("duplicate " + s.Name)
		}
		byName[s.Name] = s
		groups[s.Group] = append(groups[s.Group], s)
	}
}

type Mock struct {
	ID   int
	S    *Subject
	Any  bool // installed with the expression
	Type reflect.Type
	Recv bool
	undo func()
}

func (m *Mock) matches(s *Subject) bool {
	if m.S.Group != s.Group || m.S.Inst != s.Inst {
		return false
	}
	return m.Any || m.S.Key == s.Key
}

type Op struct {
	Kind string
	S    string `json:",omitempty"`
	Mech string `json:",omitempty"`
	A    int    `json:",omitempty"`
	Form int    `json:",omitempty"`
}

type Case struct{ Ops []Op }

func (s *Subject) mechs() []string {
	m := []string{"patchExpr", "mockExpr"}
	if s.Key != "" {
		m = append(m, "patch", "mock", "patch", "mock")
		if s.Method != "" && s.Recv != nil {
			m = append(m, "patchMethod", "mockMethod")
		}
	}
	if s.ByName != "" {
		m = append(m, "patchName", "mockName")
	}
	return m
}

func install(s *Subject, mech string, form, id int) *Mock {
	m := &Mock{ID: id, S: s}
	var fn interface{}
	switch mech {
	case "patchExpr", "mockExpr", "patchName", "mockName":
		fn = s.Expr
		m.Any = true
		m.Recv = s.Key != ""
	default:
		fn = s.Bound[form%len(s.Bound)]
	}
	m.Type = reflect.TypeOf(fn)
	repl := reflect.MakeFunc(m.Type, func(in []reflect.Value) []reflect.Value {
		lastMocks = append(lastMocks, id)
		return vh.GenResults(id, vh.Canons(in), m.Type)
	}).Interface()
	icpt := func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) error {
		lastMocks = append(lastMocks, id)
		var vs []interface{}
		for i := 0; i < args.NumField(); i++ {
			vs = append(vs, args.GetFieldIndex(i).Value())
		}
		for i, r := range vh.GenResults(id, vh.CanonAny(vs...), m.Type) {
			results.GetFieldIndex(i).Set(r.Interface())
		}
		return nil
	}
	switch mech {
	case "patchMethod":
		m.undo = mock.PatchMethodByName(s.Recv, s.Method, repl)
	case "mockMethod":
		m.undo = mock.MockMethodByName(s.Recv, s.Method, icpt)
	case "patchName":
		m.undo = mock.PatchByName("rlab/tgt", s.ByName, repl)
	case "mockName":
		m.undo = mock.MockByName("rlab/tgt", s.ByName, icpt)
	case "mock", "mockExpr":
		m.undo = mock.Mock(fn, icpt)
	default:
		m.undo = mock.Patch(fn, repl)
	}
	return m
}

// the replacements that ran
var lastMocks []int

type world struct {
	ms      []*Mock
	nextID  int
	classes map[string]bool
}

func (w *world) expect(s *Subject, a int) string {
	for i := len(w.ms) - 1; i >= 0; i-- {
		m := w.ms[i]
		if !m.matches(s) {
			continue
		}
		args := s.Args(a)
		if m.Recv {
			args = append([]interface{}{s.Recv}, args...)
		}
		return vh.Canons(vh.GenResults(m.ID, C(args...), m.Type)) + fmt.Sprintf(" by %d", m.ID)
	}
	return s.Orig(a) + " by the original"
}

func (w *world) check(s *Subject, form, a int) error {
	want := w.expect(s, a)
	before := vh.TotalHits()
	lastMocks = nil
	got := vh.Catch(func() string { return s.Calls[form%len(s.Calls)](a) })
	if vh.TotalHits() != before {
		got += " by the original"
	}
	for _, id := range lastMocks {
		got += fmt.Sprintf(" by %d", id)
	}
	if got != want {
		var act []string
		for _, m := range w.ms {
			n := m.S.Name
			if m.Any {
				n = "any " + m.S.Group + " " + m.S.Inst
			}
			act = append(act, fmt.Sprintf("%d:%s", m.ID, n))
		}
		return fmt.Errorf("%s (form %d, a=%d), active %v: got %s, want %s", s.Name, form%len(s.Calls), a, act, got, want)
	}
	return nil
}

func (w *world) checkGroup(g string, form, a int) error {
	for _, s := range groups[g] {
		if err := w.check(s, form, a); err != nil {
			return err
		}
	}
	return nil
}

func (w *world) run(ops []Op) error {
	for _, op := range ops {
		switch op.Kind {
		case "mock":
			s := byName[op.S]
			mech := op.Mech
			ok := false
			for _, m := range s.mechs() {
				ok = ok || m == mech
			}
			if !ok {
				mech = "patchExpr"
			}
			w.nextID++
			m := install(s, mech, op.Form, w.nextID)
			for _, o := range w.ms {
				if o.S.Group == s.Group && o.S.Key != s.Key && !o.Any && !m.Any {
					w.classes["several receivers mocked"] = true
				}
				if o.S.Group == s.Group && o.S.Inst != s.Inst {
					w.classes["several instantiations mocked"] = true
				}
				if o.S.Group == s.Group && o.Any != m.Any {
					w.classes["bound and unbound mocks mixed"] = true
				}
			}
			w.ms = append(w.ms, m)
			if err := w.checkGroup(s.Group, op.Form, op.A); err != nil {
				return err
			}
		case "undo":
			if len(w.ms) == 0 {
				continue
			}
			i := op.A % len(w.ms)
			m := w.ms[i]
			w.ms = append(w.ms[:i:i], w.ms[i+1:]...)
			m.undo()
			if err := w.checkGroup(m.S.Group, op.Form, op.A); err != nil {
				return fmt.Errorf("after undoing %d: %v", m.ID, err)
			}
		case "all":
			for _, s := range subjects {
				if err := w.check(s, op.Form, op.A); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func TestR02(t *testing.T) {
	vh.Run(t, "R02", vh.Options{
		Timeout: 60 * time.Second,
		Crashy:  true,
		Rule:    "a case is a history of mocking and undoing method values of several receivers (pointers, comparable and uncomparable values, nil, embedded, behind interfaces), method expressions and instantiations of generic functions and types, also of the same compiled shape; after each step every subject of the touched method is called and compared with the model (last installed mock whose receiver or instantiation matches, else the original), all subjects at the end; non-trivial if several receivers or instantiations of one method were mocked at the same time or bound and unbound mocks mixed",
	}, func(rt *rapid.T) Case {
		gs := vh.Keys(groups)
		k := rapid.IntRange(1, 2).Draw(rt, "k")
		var names []string
		for i := 0; i < k; i++ {
			for _, s := range groups[rapid.SampledFrom(gs).Draw(rt, "group")] {
				names = append(names, s.Name)
			}
		}
		n := rapid.IntRange(2, 12).Draw(rt, "n")
		var ops []Op
		for i := 0; i < n; i++ {
			op := Op{Kind: rapid.SampledFrom([]string{"mock", "mock", "mock", "undo"}).Draw(rt, "kind")}
			if op.Kind == "mock" {
				op.S = rapid.SampledFrom(names).Draw(rt, "s")
				op.Mech = rapid.SampledFrom(byName[op.S].mechs()).Draw(rt, "mech")
			}
			op.A = rapid.IntRange(0, 9).Draw(rt, "a")
			op.Form = rapid.IntRange(0, 3).Draw(rt, "form")
			ops = append(ops, op)
		}
		return Case{ops}
	}, func(c Case) vh.Result {
		w := &world{classes: map[string]bool{}}
		err := w.run(c.Ops)
		if err == nil {
			err = w.run([]Op{{Kind: "all", A: 3}})
		}
		for err == nil && len(w.ms) > 0 {
			err = w.run([]Op{{Kind: "undo", A: len(c.Ops)}})
		}
		if err == nil {
			err = w.run([]Op{{Kind: "all", A: 4, Form: 1}})
		}
		return vh.Result{Err: err, Classes: vh.Keys(w.classes), NonTrivial: len(w.classes) > 0}
	})
	vh.Known(t, "R02-shape", "a mock of an instantiation whose type parameter is not part of the signature also replaces other instantiations of the same shape: SizeOf[MyInt] while SizeOf[int] is mocked", func() error {
		undo := mock.Patch(tgt.SizeOf[int], func() string { return "mock" })
		defer undo()
		if got := tgt.SizeOf[MyInt](); got != "r02.MyInt" {
			return fmt.Errorf("got %s", got)
		}
		return nil
	})
}
