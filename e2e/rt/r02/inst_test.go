// Code generated by gen.py; DO NOT EDIT.
package r02

import (
	"errors"
	"fmt"
	"rlab/tgt"
)

func addInstances(add func(*Subject)) {
	var _ = errors.New
	{
		type A = int
		mk := func(a int) A { return a }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = 5
			b := &tgt.Box[int]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "int", Key: fmt.Sprint("int", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[int]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[int]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "int", Key: fmt.Sprint("int", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[int].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[int]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "int", Key: fmt.Sprint("int", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[int]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "int", Expr: tgt.G[int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[int]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "int", Expr: tgt.H[int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "int", Expr: tgt.MapOf[string, int], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "int", Expr: tgt.Ret[int], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[int]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "int", Expr: tgt.Many3[int], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = MyInt
		mk := func(a int) A { return MyInt(a) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = MyInt(5)
			b := &tgt.Box[MyInt]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "MyInt", Key: fmt.Sprint("MyInt", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[MyInt]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[MyInt]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "MyInt", Key: fmt.Sprint("MyInt", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[MyInt].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[MyInt]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "MyInt", Key: fmt.Sprint("MyInt", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[MyInt]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "MyInt", Expr: tgt.G[MyInt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[MyInt]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "MyInt", Expr: tgt.H[MyInt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "MyInt", Expr: tgt.MapOf[string, MyInt], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "MyInt", Expr: tgt.Ret[MyInt], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[MyInt]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "MyInt", Expr: tgt.Many3[MyInt], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = string
		mk := func(a int) A { return fmt.Sprint(a) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = "s"
			b := &tgt.Box[string]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "string", Key: fmt.Sprint("string", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[string]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[string]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "string", Key: fmt.Sprint("string", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[string].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[string]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "string", Key: fmt.Sprint("string", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[string]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "string", Expr: tgt.G[string], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[string]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "string", Expr: tgt.H[string], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "string", Expr: tgt.MapOf[string, string], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "string", Expr: tgt.Ret[string], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[string]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "string", Expr: tgt.Many3[string], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = MyStr
		mk := func(a int) A { return MyStr(fmt.Sprint(a)) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = MyStr("s")
			b := &tgt.Box[MyStr]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "MyStr", Key: fmt.Sprint("MyStr", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[MyStr]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[MyStr]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "MyStr", Key: fmt.Sprint("MyStr", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[MyStr].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[MyStr]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "MyStr", Key: fmt.Sprint("MyStr", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[MyStr]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "MyStr", Expr: tgt.G[MyStr], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[MyStr]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "MyStr", Expr: tgt.H[MyStr], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "MyStr", Expr: tgt.MapOf[string, MyStr], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "MyStr", Expr: tgt.Ret[MyStr], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[MyStr]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "MyStr", Expr: tgt.Many3[MyStr], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = *Pt
		mk := func(a int) A { return &Pt{a, a} }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = &Pt{1, 2}
			b := &tgt.Box[*Pt]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "*Pt", Key: fmt.Sprint("*Pt", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[*Pt]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[*Pt]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "*Pt", Key: fmt.Sprint("*Pt", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[*Pt].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[*Pt]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "*Pt", Key: fmt.Sprint("*Pt", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[*Pt]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "*Pt", Expr: tgt.G[*Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[*Pt]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "*Pt", Expr: tgt.H[*Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "*Pt", Expr: tgt.MapOf[string, *Pt], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "*Pt", Expr: tgt.Ret[*Pt], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[*Pt]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "*Pt", Expr: tgt.Many3[*Pt], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = *tgt.T
		mk := func(a int) A { return &tgt.T{ID: a} }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = &tgt.T{ID: 3}
			b := &tgt.Box[*tgt.T]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "*tgt.T", Key: fmt.Sprint("*tgt.T", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[*tgt.T]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[*tgt.T]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "*tgt.T", Key: fmt.Sprint("*tgt.T", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[*tgt.T].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[*tgt.T]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "*tgt.T", Key: fmt.Sprint("*tgt.T", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[*tgt.T]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "*tgt.T", Expr: tgt.G[*tgt.T], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[*tgt.T]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "*tgt.T", Expr: tgt.H[*tgt.T], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "*tgt.T", Expr: tgt.MapOf[string, *tgt.T], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "*tgt.T", Expr: tgt.Ret[*tgt.T], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[*tgt.T]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "*tgt.T", Expr: tgt.Many3[*tgt.T], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = Pt
		mk := func(a int) A { return Pt{a, 1} }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = Pt{1, 2}
			b := &tgt.Box[Pt]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "Pt", Key: fmt.Sprint("Pt", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[Pt]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[Pt]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "Pt", Key: fmt.Sprint("Pt", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[Pt].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[Pt]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "Pt", Key: fmt.Sprint("Pt", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[Pt]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "Pt", Expr: tgt.G[Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[Pt]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "Pt", Expr: tgt.H[Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "Pt", Expr: tgt.MapOf[string, Pt], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "Pt", Expr: tgt.Ret[Pt], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[Pt]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "Pt", Expr: tgt.Many3[Pt], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = []int
		mk := func(a int) A { return []int{a} }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = []int{1}
			b := &tgt.Box[[]int]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "[]int", Key: fmt.Sprint("[]int", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[[]int]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[[]int]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "[]int", Key: fmt.Sprint("[]int", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[[]int].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[[]int]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "[]int", Key: fmt.Sprint("[]int", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[[]int]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "[]int", Expr: tgt.G[[]int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[[]int]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "[]int", Expr: tgt.H[[]int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "[]int", Expr: tgt.MapOf[string, []int], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "[]int", Expr: tgt.Ret[[]int], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[[]int]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "[]int", Expr: tgt.Many3[[]int], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = any
		mk := func(a int) A { return any(a) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = any(3)
			b := &tgt.Box[any]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "any", Key: fmt.Sprint("any", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[any]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[any]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "any", Key: fmt.Sprint("any", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[any].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[any]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "any", Key: fmt.Sprint("any", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[any]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "any", Expr: tgt.G[any], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[any]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "any", Expr: tgt.H[any], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "any", Expr: tgt.MapOf[string, any], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "any", Expr: tgt.Ret[any], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[any]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "any", Expr: tgt.Many3[any], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = error
		mk := func(a int) A { return fmt.Errorf("e%d", a) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = errors.New("x")
			b := &tgt.Box[error]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "error", Key: fmt.Sprint("error", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[error]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[error]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "error", Key: fmt.Sprint("error", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[error].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[error]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "error", Key: fmt.Sprint("error", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[error]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "error", Expr: tgt.G[error], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[error]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "error", Expr: tgt.H[error], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "error", Expr: tgt.MapOf[string, error], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "error", Expr: tgt.Ret[error], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[error]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "error", Expr: tgt.Many3[error], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = tgt.Shape
		mk := func(a int) A { return tgt.Shape(&tgt.Sq{S: a}) }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = tgt.Shape(&tgt.Sq{S: 1})
			b := &tgt.Box[tgt.Shape]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "tgt.Shape", Key: fmt.Sprint("tgt.Shape", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[tgt.Shape]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[tgt.Shape]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "tgt.Shape", Key: fmt.Sprint("tgt.Shape", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[tgt.Shape].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[tgt.Shape]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "tgt.Shape", Key: fmt.Sprint("tgt.Shape", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[tgt.Shape]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "tgt.Shape", Expr: tgt.G[tgt.Shape], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[tgt.Shape]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "tgt.Shape", Expr: tgt.H[tgt.Shape], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "tgt.Shape", Expr: tgt.MapOf[string, tgt.Shape], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "tgt.Shape", Expr: tgt.Ret[tgt.Shape], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[tgt.Shape]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "tgt.Shape", Expr: tgt.Many3[tgt.Shape], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = func(int) int
		mk := func(a int) A { return func(x int) int { return x + a } }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = func(x int) int { return x }
			b := &tgt.Box[func(int) int]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "func(int) int", Key: fmt.Sprint("func(int) int", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[func(int) int]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[func(int) int]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			tr := &tgt.Tree[func(int) int]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "func(int) int", Key: fmt.Sprint("func(int) int", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[func(int) int]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "func(int) int", Expr: tgt.G[func(int) int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[func(int) int]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "func(int) int", Expr: tgt.H[func(int) int], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "func(int) int", Expr: tgt.MapOf[string, func(int) int], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "func(int) int", Expr: tgt.Ret[func(int) int], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[func(int) int]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "func(int) int", Expr: tgt.Many3[func(int) int], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	{
		type A = map[string]Pt
		mk := func(a int) A { return map[string]Pt{"a": {a, a}} }
		args := func(a int) []interface{} { return []interface{}{mk(a)} }
		for i := 0; i < 2; i++ {
			i := i
			var v A = map[string]Pt{}
			b := &tgt.Box[map[string]Pt]{V: v, ID: i}
			w := *b
			_ = w
			add(&Subject{Group: "(*Box).Get", Inst: "map[string]Pt", Key: fmt.Sprint("map[string]Pt", i), Recv: b, Bound: []interface{}{b.Get}, Expr: (*tgt.Box[map[string]Pt]).Get,
				Calls: []func(a int) string{func(a int) string { return C(b.Get(a)) }, func(a int) string { return C((*tgt.Box[map[string]Pt]).Get(b, a)) }, func(a int) string { return callGet(b, a) }},
				Orig:  func(a int) string { return C(v, i+a) }})
			add(&Subject{Group: "Box.With", Inst: "map[string]Pt", Key: fmt.Sprint("map[string]Pt", i), Recv: w, Bound: []interface{}{w.With}, Expr: tgt.Box[map[string]Pt].With, Args: args,
				Calls: []func(a int) string{func(a int) string { return C(w.With(mk(a))) }, func(a int) string { return callWith(w, mk(a)) }},
				Orig:  func(a int) string { return C(tgt.Box[A]{V: mk(a), ID: i + 1}) }})
			tr := &tgt.Tree[map[string]Pt]{V: v}
			if i == 0 {
				tr = nil
			}
			add(&Subject{Group: "(*Tree).Size", Inst: "map[string]Pt", Key: fmt.Sprint("map[string]Pt", i), Recv: tr, Bound: []interface{}{tr.Size}, Expr: (*tgt.Tree[map[string]Pt]).Size, Args: none,
				Calls: []func(a int) string{func(a int) string { return C(tr.Size()) }}, Orig: func(a int) string { return C(i) }})
		}
		add(&Subject{Group: "G", Inst: "map[string]Pt", Expr: tgt.G[map[string]Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.G(mk(a))) }, func(a int) string { f := tgt.G[map[string]Pt]; return C(f(mk(a))) }, func(a int) string { return callG(mk(a)) }}, Orig: func(a int) string { return C(mk(a)) }})
		add(&Subject{Group: "H", Inst: "map[string]Pt", Expr: tgt.H[map[string]Pt], Args: args, Calls: []func(a int) string{func(a int) string { return C(tgt.H(mk(a))) }}, Orig: func(a int) string { return C("h") }})
		add(&Subject{Group: "MapOf", Inst: "map[string]Pt", Expr: tgt.MapOf[string, map[string]Pt], Args: func(a int) []interface{} { return []interface{}{"k", mk(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.MapOf("k", mk(a))) }}, Orig: func(a int) string { return C(map[string]A{"k": mk(a)}) }})
		add(&Subject{Group: "Ret", Inst: "map[string]Pt", Expr: tgt.Ret[map[string]Pt], Args: none, Calls: []func(a int) string{func(a int) string { return C(tgt.Ret[map[string]Pt]()) }}, Orig: func(a int) string { var z A; return C(z) }})
		add(&Subject{Group: "Many3", Inst: "map[string]Pt", Expr: tgt.Many3[map[string]Pt], Args: func(a int) []interface{} { return []interface{}{[]A{mk(a), mk(2)}} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Many3(mk(a), mk(2))) }, func(a int) string { return C(tgt.Many3([]A{mk(a), mk(2)}...)) }}, Orig: func(a int) string { return C(2, []A{mk(a), mk(2)}) }})
	}
	add(&Subject{Group: "Twice", Inst: "int", Expr: tgt.Twice[int], Args: func(a int) []interface{} { return []interface{}{int(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Twice(int(a))) }}, Orig: func(a int) string { return C(int(a) + int(a)) }})
	add(&Subject{Group: "Twice", Inst: "MyInt", Expr: tgt.Twice[MyInt], Args: func(a int) []interface{} { return []interface{}{MyInt(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Twice(MyInt(a))) }}, Orig: func(a int) string { return C(MyInt(a) + MyInt(a)) }})
	add(&Subject{Group: "Twice", Inst: "float64", Expr: tgt.Twice[float64], Args: func(a int) []interface{} { return []interface{}{float64(a)} }, Calls: []func(a int) string{func(a int) string { return C(tgt.Twice(float64(a))) }}, Orig: func(a int) string { return C(float64(a) + float64(a)) }})
}
func callG[A any](x A) string                    { return C(tgt.G(x)) }
func callGet[A any](b *tgt.Box[A], a int) string { return C(b.Get(a)) }
func callWith[A any](b tgt.Box[A], v A) string   { return C(b.With(v)) }
