package r01

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rlab/tgt"
	"rlab/tgt2"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
)

func C(vs ...interface{}) string { return vh.CanonAny(vs...) }

// Target is one mockable function and everything the model knows about it.
type Target struct {
	Name string
	Key  string // what vh.Hit is called with
	Fns  []interface{}
	// arguments that a replacement gets, in the form matching Fns[i]; the
	// receiver comes first for a method expression
	Recv interface{}
	Args func(a, b int) []interface{}
	// the forms in which calls are written
	Calls []func(a, b int) string
	// result and bodies run of the original; leaf runs the current Leaf
	Orig func(a, b int, leaf func(int) string) string

	Pkg, ByName string // "" = not mockable by name
	NameFn      interface{}
	Inst        interface{} // for method by name
	Method      string
	MethodFn    interface{} // a func value of the type without receiver
}

var (
	recvT  = &tgt.T{ID: 3}
	recvV  = tgt.V{ID: 5, Tag: "q"}
	recvI  = tgt.MyInt(8)
	recvF  = tgt.FnType(func(x int) int { return x * 2 })
	recvS  = tgt.SliceT{1, 2, 3}
	recvM  = tgt.MapT{"k1": 1, "k2": 2}
	sq     = &tgt.Sq{S: 4}
	rect   = tgt.Rect{W: 2, H: 3}
	der    = tgt.Derived{Base: &tgt.Base{N: 6}, Name: "d"}
	derv   = tgt.DerivedVal{Base: tgt.Base{N: 7}, Name: "e"}
	boxInt = &tgt.Box[int]{V: 5, ID: 1}
	boxStr = tgt.Box[string]{V: "w", ID: 2}
	recvBR = &tgt.V{ID: 9}
	t2     = &tgt2.T{ID: 1}
)

const PKG = "rlab/tgt"
const PKG2 = "rlab/tgt2"

func str(b int) string { return fmt.Sprintf("s%d", b) }
func ctxOf(a int) context.Context {
	return context.WithValue(context.Background(), tgt.CtxKey{}, a)
}

func ran(key string, res string) string { return res + " ran " + key + "*1" }

func makeTargets() []*Target {
	vh.CtxKey = tgt.CtxKey{}
	var ts []*Target
	add := func(t *Target) { ts = append(ts, t) }
	add(&Target{Name: "Add", Fns: []interface{}{tgt.Add}, Args: func(a, b int) []interface{} { return []interface{}{a, b} },
		Calls: []func(a, b int) string{
			func(a, b int) string { return C(tgt.Add(a, b)) },
			func(a, b int) string { f := tgt.Add; return C(f(a, b)) },
			func(a, b int) string {
				return vh.Canons(reflect.ValueOf(tgt.Add).Call([]reflect.Value{reflect.ValueOf(a), reflect.ValueOf(b)}))
			},
			func(a, b int) (s string) { defer func() { s = C(tgt.Add(a, b)) }(); return "" },
		},
		Orig: func(a, b int, _ func(int) string) string { return ran("Add", C(a+b)) }, Pkg: PKG, ByName: "Add", NameFn: tgt.Add})
	add(&Target{Name: "tgt2.Add", Fns: []interface{}{tgt2.Add}, Args: func(a, b int) []interface{} { return []interface{}{a, b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt2.Add(a, b)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("tgt2.Add", C(a+b+5000)) }, Pkg: PKG2, ByName: "Add", NameFn: tgt2.Add})
	add(&Target{Name: "Leaf", Fns: []interface{}{tgt.Leaf}, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Leaf(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Leaf", C(a*3+1)) }, Pkg: PKG, ByName: "Leaf", NameFn: tgt.Leaf})
	add(&Target{Name: "Div", Fns: []interface{}{tgt.Div}, Args: func(a, b int) []interface{} { return []interface{}{a, b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Div(a, b)) }, func(a, b int) string { x, err := tgt.Div(a, b); return C(x, err) }},
		Orig: func(a, b int, _ func(int) string) string {
			if b == 0 {
				return ran("Div", C(0, errors.New("division by zero")))
			}
			return ran("Div", C(a/b, nil))
		}, Pkg: PKG, ByName: "Div", NameFn: tgt.Div})
	add(&Target{Name: "Ctx", Fns: []interface{}{tgt.Ctx}, Args: func(a, b int) []interface{} { return []interface{}{ctxOf(a), str(b)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Ctx(ctxOf(a), str(b))) }},
		Orig: func(a, b int, _ func(int) string) string {
			if a%3 == 0 {
				return ran("Ctx", C("", fmt.Errorf("ctx %d %s", a, str(b))))
			}
			return ran("Ctx", C(fmt.Sprintf("%s%d", str(b), a), nil))
		}, Pkg: PKG, ByName: "Ctx", NameFn: tgt.Ctx})
	add(&Target{Name: "Variadic", Fns: []interface{}{tgt.Variadic}, Args: func(a, b int) []interface{} { return []interface{}{str(b), []int{a, b}} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Variadic(str(b), a, b)) }, func(a, b int) string { return C(tgt.Variadic(str(b), []int{a, b}...)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Variadic", C(a+b+len(str(b)))) }, Pkg: PKG, ByName: "Variadic", NameFn: tgt.Variadic})
	add(&Target{Name: "VariadicAny", Fns: []interface{}{tgt.VariadicAny}, Args: func(a, b int) []interface{} { return []interface{}{[]interface{}{a, str(b), nil}} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.VariadicAny(a, str(b), nil)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("VariadicAny", C(fmt.Sprint(a, str(b), nil))) }, Pkg: PKG, ByName: "VariadicAny", NameFn: tgt.VariadicAny})
	add(&Target{Name: "Named", Fns: []interface{}{tgt.Named}, Args: func(a, b int) []interface{} { return []interface{}{a, str(b)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Named(a, str(b))) }},
		Orig: func(a, b int, _ func(int) string) string {
			if a%4 == 0 {
				return ran("Named", C(a+1, str(b)+"!", errors.New("recovered four")))
			}
			return ran("Named", C(a*2+1, str(b)+"!", nil))
		}, Pkg: PKG, ByName: "Named", NameFn: tgt.Named})
	add(&Target{Name: "Blank", Fns: []interface{}{tgt.Blank}, Args: func(a, b int) []interface{} { return []interface{}{a, str(b)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Blank(a, str(b))) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Blank", C(7, nil)) }, Pkg: PKG, ByName: "Blank", NameFn: tgt.Blank})
	add(&Target{Name: "NoName", Fns: []interface{}{tgt.NoName}, Args: func(a, b int) []interface{} { return []interface{}{a, str(b)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.NoName(a, str(b))) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("NoName", C("noname")) }, Pkg: PKG, ByName: "NoName", NameFn: tgt.NoName})
	add(&Target{Name: "NoArgs", Fns: []interface{}{tgt.NoArgs}, Args: func(a, b int) []interface{} { return nil },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.NoArgs()) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("NoArgs", C(42)) }, Pkg: PKG, ByName: "NoArgs", NameFn: tgt.NoArgs})
	add(&Target{Name: "NoResult", Fns: []interface{}{tgt.NoResult}, Args: func(a, b int) []interface{} { return []interface{}{&a, b} },
		Calls: []func(a, b int) string{func(a, b int) string { tgt.NoResult(&a, b); return "" }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("NoResult", "") }, Pkg: PKG, ByName: "NoResult", NameFn: tgt.NoResult})
	add(&Target{Name: "Nothing", Fns: []interface{}{tgt.Nothing}, Args: func(a, b int) []interface{} { return nil },
		Calls: []func(a, b int) string{func(a, b int) string { tgt.Nothing(); return "" }, func(a, b int) string { func() { defer tgt.Nothing() }(); return "" }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Nothing", "") }, Pkg: PKG, ByName: "Nothing", NameFn: tgt.Nothing})
	add(&Target{Name: "HighOrder", Fns: []interface{}{tgt.HighOrder}, Args: func(a, b int) []interface{} { return []interface{}{func(x int) int { return x + a }, b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.HighOrder(func(x int) int { return x + a }, b)) }},
		Orig: func(a, b int, _ func(int) string) string {
			return ran("HighOrder", C(func(z int) int { return (a+b)*10 + z }))
		}, Pkg: PKG, ByName: "HighOrder", NameFn: tgt.HighOrder})
	add(&Target{Name: "Struct", Fns: []interface{}{tgt.Struct}, Args: func(a, b int) []interface{} { return []interface{}{tgt.Point{X: a, Y: b, Tag: "t"}} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Struct(tgt.Point{X: a, Y: b, Tag: "t"})) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Struct", C(tgt.Point{X: b, Y: a, Tag: "ts"})) }, Pkg: PKG, ByName: "Struct", NameFn: tgt.Struct})
	add(&Target{Name: "StructPtr", Fns: []interface{}{tgt.StructPtr}, Args: func(a, b int) []interface{} { return []interface{}{&tgt.Point{X: a, Y: b, Tag: "t"}} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.StructPtr(&tgt.Point{X: a, Y: b, Tag: "t"})) }},
		Orig: func(a, b int, _ func(int) string) string {
			return ran("StructPtr", C(&tgt.Point{X: a + 1, Y: b + 1, Tag: "tp"}))
		}, Pkg: PKG, ByName: "StructPtr", NameFn: tgt.StructPtr})
	many := func(a, b int) []interface{} {
		return []interface{}{int8(a), uint16(b), float64(a) + 0.25, complex(float64(b), 1), [3]int{a, b, 1}, []string{str(a), str(b)}, map[string]int{"x": a}, []int{b}, errors.New(str(a)), a > b, rune('a' + b%26), struct{ A, B int }{a, b}}
	}
	add(&Target{Name: "Many", Fns: []interface{}{tgt.Many}, Args: many,
		Calls: []func(a, b int) string{func(a, b int) string {
			return C(tgt.Many(int8(a), uint16(b), float64(a)+0.25, complex(float64(b), 1), [3]int{a, b, 1}, []string{str(a), str(b)}, map[string]int{"x": a}, []int{b}, errors.New(str(a)), a > b, rune('a'+b%26), struct{ A, B int }{a, b}))
		}},
		Orig: func(a, b int, _ func(int) string) string {
			return ran("Many", C([]string{fmt.Sprint(a, b), str(a), str(b)}, map[string]int{"a": a, "g": 1}, [2]float64{float64(a) + 0.25, float64(b)}, []int{b}, !(a > b)))
		}, Pkg: PKG, ByName: "Many", NameFn: tgt.Many})
	add(&Target{Name: "Rec", Fns: []interface{}{tgt.Rec}, Args: func(a, b int) []interface{} { return []interface{}{a % 5} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Rec(a % 5)) }},
		Orig: func(a, b int, _ func(int) string) string {
			n := a % 5
			return fmt.Sprintf("%s ran Rec*%d", C(n*(n+1)/2+1), n+1)
		}, Pkg: PKG, ByName: "Rec", NameFn: tgt.Rec})
	add(&Target{Name: "Boom", Fns: []interface{}{tgt.Boom}, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Boom(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Boom", fmt.Sprintf("panic(boom%d)", a)) }, Pkg: PKG, ByName: "Boom", NameFn: tgt.Boom})
	add(&Target{Name: "ViaLeaf", Fns: []interface{}{tgt.ViaLeaf}, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.ViaLeaf(a)) }},
		Orig:  func(a, b int, leaf func(int) string) string { return "via " + leaf(a) }, Pkg: PKG, ByName: "ViaLeaf", NameFn: tgt.ViaLeaf})
	// methods
	add(&Target{Name: "Ptr", Fns: []interface{}{recvT.Ptr, (*tgt.T).Ptr}, Recv: recvT, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvT.Ptr(a)) }, func(a, b int) string { f := recvT.Ptr; return C(f(a)) },
			func(a, b int) string { return C((*tgt.T).Ptr(recvT, a)) }, func(a, b int) string { var i interface{ Ptr(int) int } = recvT; return C(i.Ptr(a)) }},
		Orig: func(a, b int, _ func(int) string) string { return ran("Ptr", C(300+a)) }, Pkg: PKG, ByName: "(*T).Ptr", NameFn: (*tgt.T).Ptr, Inst: recvT, Method: "Ptr", MethodFn: recvT.Ptr})
	add(&Target{Name: "tgt2.Ptr", Fns: []interface{}{t2.Ptr, (*tgt2.T).Ptr}, Recv: t2, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(t2.Ptr(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("tgt2.Ptr", C(7001+a)) }, Pkg: PKG2, ByName: "T.Ptr", NameFn: (*tgt2.T).Ptr, Inst: t2, Method: "Ptr", MethodFn: t2.Ptr})
	add(&Target{Name: "Err", Fns: []interface{}{recvT.Err, (*tgt.T).Err}, Recv: recvT, Args: func(a, b int) []interface{} { return []interface{}{a, str(b)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvT.Err(a, str(b))) }},
		Orig: func(a, b int, _ func(int) string) string {
			if a%2 == 0 {
				return ran("Err", C("", fmt.Errorf("even %s", str(b))))
			}
			s := ""
			for i := 0; i < a%4; i++ {
				s += str(b)
			}
			return ran("Err", C(s, nil))
		}, Pkg: PKG, ByName: "T.Err", NameFn: (*tgt.T).Err, Inst: recvT, Method: "Err", MethodFn: recvT.Err})
	add(&Target{Name: "unexpMethod", Recv: recvT, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.CallUnexpMethod(recvT, a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("unexpMethod", C(3+a)) }, Pkg: PKG, ByName: "(*T).unexpMethod", NameFn: func(*tgt.T, int) int { return 0 },
		Inst: recvT, Method: "unexpMethod", MethodFn: func(int) int { return 0 }})
	add(&Target{Name: "Val", Fns: []interface{}{recvV.Val, tgt.V.Val}, Recv: recvV, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvV.Val(a)) }, func(a, b int) string { p := &recvV; return C(p.Val(a)) },
			func(a, b int) string { return C(tgt.V.Val(recvV, a)) }, func(a, b int) string { return C((*tgt.V).Val(&recvV, a)) }},
		Orig: func(a, b int, _ func(int) string) string { return ran("Val", C(tgt.V{ID: 5 + a, Tag: "qv"})) }, Pkg: PKG, ByName: "V.Val", NameFn: tgt.V.Val, Inst: recvV, Method: "Val", MethodFn: recvV.Val})
	add(&Target{Name: "NoRecvName", Fns: []interface{}{recvV.NoRecvName, tgt.V.NoRecvName}, Recv: recvV, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvV.NoRecvName(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("NoRecvName", C(a+9)) }, Pkg: PKG, ByName: "V.NoRecvName", NameFn: tgt.V.NoRecvName, Inst: recvV, Method: "NoRecvName", MethodFn: recvV.NoRecvName})
	add(&Target{Name: "BlankRecv", Fns: []interface{}{recvBR.BlankRecv, (*tgt.V).BlankRecv}, Recv: recvBR, Args: func(a, b int) []interface{} { return []interface{}{a, b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvBR.BlankRecv(a, b)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("BlankRecv", C(a+11, nil)) }, Pkg: PKG, ByName: "(*V).BlankRecv", NameFn: (*tgt.V).BlankRecv, Inst: recvBR, Method: "BlankRecv", MethodFn: recvBR.BlankRecv})
	add(&Target{Name: "Inc", Fns: []interface{}{recvI.Inc, tgt.MyInt.Inc}, Recv: recvI, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvI.Inc(a)) }, func(a, b int) string { return C(tgt.MyInt(8).Inc(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Inc", C(tgt.MyInt(8+a))) }, Pkg: PKG, ByName: "MyInt.Inc", NameFn: tgt.MyInt.Inc, Inst: recvI, Method: "Inc", MethodFn: recvI.Inc})
	add(&Target{Name: "Apply", Fns: []interface{}{tgt.FnType.Apply}, Recv: recvF, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvF.Apply(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Apply", C(a*2+1)) }, Pkg: PKG, ByName: "FnType.Apply", NameFn: tgt.FnType.Apply})
	add(&Target{Name: "Sum", Fns: []interface{}{recvS.Sum, tgt.SliceT.Sum}, Recv: recvS, Args: func(a, b int) []interface{} { return nil },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvS.Sum()) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Sum", C(6)) }, Pkg: PKG, ByName: "SliceT.Sum", NameFn: tgt.SliceT.Sum, Inst: recvS, Method: "Sum", MethodFn: recvS.Sum})
	add(&Target{Name: "MapT.Get", Fns: []interface{}{recvM.Get, tgt.MapT.Get}, Recv: recvM, Args: func(a, b int) []interface{} { return []interface{}{fmt.Sprintf("k%d", a%3)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(recvM.Get(fmt.Sprintf("k%d", a%3))) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("MapT.Get", C(a%3)) }, Pkg: PKG, ByName: "MapT.Get", NameFn: tgt.MapT.Get, Inst: recvM, Method: "Get", MethodFn: recvM.Get})
	add(&Target{Name: "Sq.Area", Fns: []interface{}{sq.Area, (*tgt.Sq).Area, tgt.Shape(sq).Area}, Recv: sq, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(sq.Area(a)) }, func(a, b int) string { var s tgt.Shape = sq; return C(s.Area(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Sq.Area", C(16*a)) }, Pkg: PKG, ByName: "(*Sq).Area", NameFn: (*tgt.Sq).Area, Inst: sq, Method: "Area", MethodFn: sq.Area})
	add(&Target{Name: "Rect.Area", Fns: []interface{}{rect.Area, tgt.Rect.Area, tgt.Shape(rect).Area}, Recv: rect, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(rect.Area(a)) }, func(a, b int) string { var s tgt.Shape = &rect; return C(s.Area(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Rect.Area", C(6*a)) }, Pkg: PKG, ByName: "Rect.Area", NameFn: tgt.Rect.Area, Inst: rect, Method: "Area", MethodFn: rect.Area})
	add(&Target{Name: "Hello", Fns: []interface{}{der.Hello, (*tgt.Base).Hello, der.Base.Hello}, Recv: der.Base, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(der.Hello(a)) }, func(a, b int) string { return C(der.Base.Hello(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Hello", C(fmt.Sprintf("hello6-%d", a))) }, Pkg: PKG, ByName: "(*Base).Hello", NameFn: (*tgt.Base).Hello, Inst: der.Base, Method: "Hello", MethodFn: der.Hello})
	add(&Target{Name: "Bye", Fns: []interface{}{derv.Bye, tgt.Base.Bye}, Recv: derv.Base, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(derv.Bye(a)) }, func(a, b int) string { return C(derv.Base.Bye(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Bye", C(fmt.Sprintf("bye7-%d", a))) }, Pkg: PKG, ByName: "Base.Bye", NameFn: tgt.Base.Bye, Inst: derv.Base, Method: "Bye", MethodFn: derv.Bye})
	// generics
	add(&Target{Name: "G[int]", Fns: []interface{}{tgt.G[int]}, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.G[int](a)) }, func(a, b int) string { return C(tgt.G(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("G", C(a)) }})
	add(&Target{Name: "G[string]", Fns: []interface{}{tgt.G[string]}, Args: func(a, b int) []interface{} { return []interface{}{str(a)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.G(str(a))) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("G", C(str(a))) }})
	add(&Target{Name: "G[*Point]", Fns: []interface{}{tgt.G[*tgt.Point]}, Args: func(a, b int) []interface{} { return []interface{}{&tgt.Point{X: a}} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.G(&tgt.Point{X: a})) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("G", C(&tgt.Point{X: a})) }})
	add(&Target{Name: "Pair[int,string]", Fns: []interface{}{tgt.Pair[int, string]}, Args: func(a, b int) []interface{} { return []interface{}{a, str(b), b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Pair(a, str(b), b)) }},
		Orig: func(a, b int, _ func(int) string) string {
			if b%3 == 0 {
				return ran("Pair", C(a, str(b), errors.New("pair")))
			}
			return ran("Pair", C(a, str(b), nil))
		}})
	add(&Target{Name: "SizeOf[int]", Fns: []interface{}{tgt.SizeOf[int]}, Args: func(a, b int) []interface{} { return nil },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.SizeOf[int]()) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("SizeOf", C("int")) }})
	add(&Target{Name: "SizeOf[Point]", Fns: []interface{}{tgt.SizeOf[tgt.Point]}, Args: func(a, b int) []interface{} { return nil },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.SizeOf[tgt.Point]()) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("SizeOf", C("tgt.Point")) }})
	add(&Target{Name: "Box[int].Get", Fns: []interface{}{boxInt.Get, (*tgt.Box[int]).Get}, Recv: boxInt, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(boxInt.Get(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("Box.Get", C(5, 1+a)) }})
	add(&Target{Name: "Box[string].With", Fns: []interface{}{boxStr.With, tgt.Box[string].With}, Recv: boxStr, Args: func(a, b int) []interface{} { return []interface{}{str(a)} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(boxStr.With(str(a))) }},
		Orig: func(a, b int, _ func(int) string) string {
			return ran("Box.With", C(tgt.Box[string]{V: str(a), ID: 3}))
		}})
	// by name only
	add(&Target{Name: "unexp", Args: func(a, b int) []interface{} { return []interface{}{a, b} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt2.Wrap(a, b)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("unexp", C(fmt.Sprintf("u%d/%d", a, b), a+b)) }, Pkg: PKG2, ByName: "unexp", NameFn: func(a, b int) (string, int) { return "", 0 }})
	add(&Target{Name: "secret", Args: func(a, b int) []interface{} { return []interface{}{a} }, Recv: tgt2.Hid(),
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt2.CallSecret(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return ran("secret", C(400+a)) }, Inst: tgt2.Hid(), Method: "secret", MethodFn: func(int) int { return 0 }})
	add(&Target{Name: "secretVal", Args: func(a, b int) []interface{} { return []interface{}{a, str(b)} }, Recv: tgt2.HidVal(),
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt2.CallSecretVal(a, str(b))) }},
		Orig: func(a, b int, _ func(int) string) string {
			if a%5 == 0 {
				return ran("secretVal", C("", fmt.Errorf("five %s", str(b))))
			}
			return ran("secretVal", C(fmt.Sprintf("4%s%d", str(b), a), nil))
		}, Inst: tgt2.HidVal(), Method: "secretVal", MethodFn: func(int, string) (string, error) { return "", nil }})
	// below every local mock there is a global one, see init
	add(&Target{Name: "Global", Fns: []interface{}{tgt.Global}, Args: func(a, b int) []interface{} { return []interface{}{a} },
		Calls: []func(a, b int) string{func(a, b int) string { return C(tgt.Global(a)) }},
		Orig:  func(a, b int, _ func(int) string) string { return C(a + 777) }, Pkg: PKG, ByName: "Global", NameFn: tgt.Global})
	return ts
}

func init() {
	mock.Patch(tgt.Global, func(a int) int { return a + 777 })
}

var targets = makeTargets()

// behaviours of a replacement
const (
	bPlain  = iota
	bLeaf   // calls Leaf first and mixes in its result
	bPanic  // panics
	bReturn // interceptor only: returns an error
	bSkip   // interceptor only: sets nothing
	nBehave
)

// Mock is an installed mock, as the model sees it.
type Mock struct {
	ID     int
	Behave int
	Recv   bool // receiver is part of the arguments
	Type   reflect.Type
	Inter  bool
	undo   func()
}

// installation mechanisms
func (t *Target) mechs() []string {
	var m []string
	for i := range t.Fns {
		m = append(m, fmt.Sprintf("patch%d", i), fmt.Sprintf("mock%d", i))
	}
	if t.ByName != "" {
		m = append(m, "patchName", "mockName")
	}
	if t.Method != "" {
		m = append(m, "patchMethod", "mockMethod")
	}
	return m
}

func hasRecv(t *Target, fn interface{}) bool {
	return t.Recv != nil && reflect.TypeOf(fn).NumIn() == len(t.Args(1, 1))+1
}

func lastErr(t reflect.Type) bool {
	return t.NumOut() > 0 && t.Out(t.NumOut()-1) == reflect.TypeOf((*error)(nil)).Elem()
}

func (w *world) install(t *Target, mech string, id, behave int) *Mock {
	m := &Mock{ID: id, Behave: behave}
	var fn interface{}
	switch mech {
	case "patchName", "mockName":
		fn = t.NameFn
	case "patchMethod", "mockMethod":
		fn = t.MethodFn
	default:
		fn = t.Fns[int(mech[len(mech)-1]-'0')]
	}
	m.Type = reflect.TypeOf(fn)
	m.Recv = hasRecv(t, fn)
	m.Inter = mech[0] == 'm'
	if !m.Inter && behave >= bReturn {
		m.Behave = bPlain
	}
	repl := reflect.MakeFunc(m.Type, func(in []reflect.Value) []reflect.Value {
		return vh.GenResults(id, w.behave(m, vh.Canons(in)), m.Type)
	}).Interface()
	icpt := func(ctx context.Context, fn *core.FuncInfo, args core.Object, results core.Object) error {
		var vs []interface{}
		for i := 0; i < args.NumField(); i++ {
			vs = append(vs, args.GetFieldIndex(i).Value())
		}
		s := w.behave(m, vh.CanonAny(vs...))
		if m.Behave == bSkip {
			return nil
		}
		out := vh.GenResults(id, s, m.Type)
		for i, r := range out {
			results.GetFieldIndex(i).Set(r.Interface())
		}
		if m.Behave == bReturn {
			return fmt.Errorf("icpt%d", id)
		}
		return nil
	}
	switch mech {
	case "patchName":
		m.undo = mock.PatchByName(t.Pkg, t.ByName, repl)
	case "mockName":
		m.undo = mock.MockByName(t.Pkg, t.ByName, icpt)
	case "patchMethod":
		m.undo = mock.PatchMethodByName(t.Inst, t.Method, repl)
	case "mockMethod":
		m.undo = mock.MockMethodByName(t.Inst, t.Method, icpt)
	default:
		if m.Inter {
			m.undo = mock.Mock(fn, icpt)
		} else {
			m.undo = mock.Patch(fn, repl)
		}
	}
	return m
}

// behave runs inside the replacement.
func (w *world) behave(m *Mock, args string) string {
	switch m.Behave {
	case bLeaf:
		w.inRepl++
		defer func() { w.inRepl-- }()
		if w.inRepl > 3 {
			return args + "deep"
		}
		return args + "+leaf " + vh.Catch(func() string { return C(tgt.Leaf(m.ID % 7)) })
	case bPanic:
		panic(fmt.Sprintf("repl%d %s", m.ID, args))
	}
	return args
}

// expected outcome of calling t
func (w *world) expect(t *Target, a, b int, deep int) string {
	ms := w.active[t.Name]
	if len(ms) == 0 {
		return t.Orig(a, b, func(x int) string {
			// ViaLeaf: canonical int result + 100, bodies run
			s := w.expect(leafTarget, x, 0, deep)
			return s
		})
	}
	m := ms[len(ms)-1]
	args := t.Args(a, b)
	if m.Recv {
		args = append([]interface{}{t.Recv}, args...)
	}
	s := C(args...)
	ranLeaf := ""
	switch m.Behave {
	case bLeaf:
		if deep+1 > 3 {
			s += "deep"
			break
		}
		leaf := w.expect(leafTarget, m.ID%7, 0, deep+1)
		if i := lastIndex(leaf, " ran "); i >= 0 {
			ranLeaf = leaf[i:]
			leaf = leaf[:i]
		}
		s += "+leaf " + leaf
	case bPanic:
		return fmt.Sprintf("panic(repl%d %s)", m.ID, s)
	case bSkip:
		var zs []reflect.Value
		for i := 0; i < m.Type.NumOut(); i++ {
			zs = append(zs, reflect.Zero(m.Type.Out(i)))
		}
		return vh.Canons(zs)
	}
	out := vh.GenResults(m.ID, s, m.Type)
	if m.Behave == bReturn {
		e := fmt.Errorf("icpt%d", m.ID)
		if !lastErr(m.Type) {
			return fmt.Sprintf("panic(%v)", e)
		}
		out[len(out)-1] = reflect.ValueOf(&e).Elem()
	}
	return vh.Canons(out) + ranLeaf
}

func lastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

var leafTarget *Target

func init() {
	for _, t := range targets {
		if t.Name == "Leaf" {
			leafTarget = t
		}
	}
}

type Op struct {
	Kind string // mock undo call callall trace icpt record fnicpt undonoise
	T    string `json:",omitempty"`
	Mech string `json:",omitempty"`
	Beh  int    `json:",omitempty"`
	Form int    `json:",omitempty"`
	A, B int    `json:",omitempty"`
	Body []Op   `json:",omitempty"`
}

type world struct {
	active  map[string][]*Mock
	order   []*mockRef
	noise   []func()
	nextID  int
	inRepl  int
	classes map[string]bool
	steps   int
}

type mockRef struct {
	t *Target
	m *Mock
}

func (w *world) callOne(t *Target, form, a, b int) error {
	want := w.expect(t, a, b, 0)
	if t.Name == "ViaLeaf" && len(want) > 4 && want[:4] == "via " {
		want = fixVia(want[4:])
	}
	before := vh.Hits()
	got := vh.Catch(func() string { return t.Calls[form%len(t.Calls)](a, b) })
	if h := vh.HitsSince(before); h != "" {
		got += " ran " + h
	}
	if got != want {
		return fmt.Errorf("%s(form %d, a=%d, b=%d) with %d mocks active: got %s, want %s", t.Name, form%len(t.Calls), a, b, len(w.active[t.Name]), got, want)
	}
	return nil
}

func fixVia(leaf string) string {
	bodies := "ViaLeaf*1"
	if i := lastIndex(leaf, " ran "); i >= 0 {
		bodies = leaf[i+5:] + "," + bodies
		leaf = leaf[:i]
	}
	var n int
	if _, err := fmt.Sscanf(leaf, "%d", &n); err == nil {
		leaf = fmt.Sprint(n + 100)
	}
	return leaf + " ran " + bodies
}

func (w *world) run(ops []Op) error {
	for _, op := range ops {
		w.steps++
		t := byName[op.T]
		switch op.Kind {
		case "mock":
			w.nextID++
			ms := t.mechs()
			mech := ms[0]
			for _, m := range ms {
				if m == op.Mech {
					mech = m
				}
			}
			m := w.install(t, mech, w.nextID, op.Beh)
			w.active[t.Name] = append(w.active[t.Name], m)
			w.order = append(w.order, &mockRef{t, m})
			if len(w.active[t.Name]) > 1 {
				w.classes["several mocks of one function"] = true
			}
			w.classes["mech "+mech[:5]] = true
		case "undo":
			if len(w.order) == 0 {
				continue
			}
			i := op.A % len(w.order)
			ref := w.order[i]
			if i != len(w.order)-1 {
				w.classes["undo out of order"] = true
			}
			w.order = append(w.order[:i:i], w.order[i+1:]...)
			ref.m.undo()
			l := w.active[ref.t.Name]
			for j := range l {
				if l[j] == ref.m {
					w.active[ref.t.Name] = append(l[:j:j], l[j+1:]...)
					break
				}
			}
			if err := w.callOne(ref.t, 0, op.A, op.B); err != nil {
				return fmt.Errorf("after undo: %v", err)
			}
		case "call":
			if err := w.callOne(t, op.Form, op.A, op.B); err != nil {
				return err
			}
		case "callall":
			for _, t := range targets {
				if err := w.callOne(t, op.Form, op.A, op.B); err != nil {
					return err
				}
			}
		case "trace":
			w.classes["history with a trace"] = true
			var err error
			cfg := trace.Config{OnFinish: func(stack_model.IStack) {}}
			if op.A%4 == 0 {
				cfg.OnFinish = nil
			}
			trace.Trace(cfg, nil, func() (interface{}, error) {
				err = w.run(op.Body)
				return nil, nil
			})
			if err != nil {
				return err
			}
		case "icpt":
			w.classes["history with an interceptor"] = true
			w.noise = append(w.noise, trap.AddInterceptor(&trap.Interceptor{
				Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
					return nil, nil
				},
				Post: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object, data interface{}) error {
					return nil
				}}))
		case "fnicpt":
			if len(t.Fns) == 0 {
				continue
			}
			w.noise = append(w.noise, trap.AddFuncInterceptor(t.Fns[op.A%len(t.Fns)], &trap.Interceptor{
				Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, result core.Object) (interface{}, error) {
					return nil, nil
				}}))
		case "record":
			if len(t.Fns) == 0 {
				continue
			}
			fn := t.Fns[op.A%len(t.Fns)]
			ft := reflect.TypeOf(fn)
			var in []reflect.Type
			for i := 0; i < ft.NumIn(); i++ {
				in = append(in, ft.In(i))
			}
			for i := 0; i < ft.NumOut(); i++ {
				in = append(in, ft.Out(i))
			}
			rec := reflect.MakeFunc(reflect.FuncOf(in, nil, false), func([]reflect.Value) []reflect.Value { return nil }).Interface()
			w.noise = append(w.noise, trace.Record(fn, rec, rec))
		case "undonoise":
			if len(w.noise) == 0 {
				continue
			}
			i := op.A % len(w.noise)
			f := w.noise[i]
			w.noise = append(w.noise[:i:i], w.noise[i+1:]...)
			f()
		}
	}
	return nil
}

var byName = map[string]*Target{}

func init() {
	for _, t := range targets {
		byName[t.Name] = t
	}
}

func genOps(rt *rapid.T, names []string, depth int) []Op {
	n := rapid.IntRange(1, 14).Draw(rt, "n")
	if depth > 0 {
		n = rapid.IntRange(0, 6).Draw(rt, "n")
	}
	var ops []Op
	for i := 0; i < n; i++ {
		op := Op{T: rapid.SampledFrom(names).Draw(rt, "t")}
		op.A = rapid.IntRange(0, 12).Draw(rt, "a")
		op.B = rapid.IntRange(0, 9).Draw(rt, "b")
		op.Form = rapid.IntRange(0, 3).Draw(rt, "form")
		op.Kind = rapid.SampledFrom([]string{"mock", "mock", "mock", "mock", "call", "call", "undo", "undo", "callall", "trace", "icpt", "record", "fnicpt", "undonoise"}).Draw(rt, "kind")
		switch op.Kind {
		case "mock":
			op.Mech = rapid.SampledFrom(byName[op.T].mechs()).Draw(rt, "mech")
			op.Beh = rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4}).Draw(rt, "beh")
		case "trace":
			if depth >= 2 {
				op.Kind = "call"
			} else {
				op.Body = genOps(rt, names, depth+1)
			}
		}
		ops = append(ops, op)
	}
	return ops
}

type Case struct {
	Ops []Op
}

func TestR01(t *testing.T) {
	vh.Run(t, "R01", vh.Options{
		Timeout: 60 * time.Second,
		Crashy:  true,
		Rule:    "a case is a history of installing mocks (Patch, Mock, by name, by method; plain, calling another mockable function, panicking, returning an error), undoing them in any order, calls in several syntactic forms, traces, interceptors and recorders over 2-5 of 45 functions; every call's results, panic and executed bodies are compared with a stack-of-mocks model, all 45 functions at the end and after undoing everything; non-trivial if several mocks of one function were active or one was undone out of order",
	}, func(rt *rapid.T) Case {
		all := vh.Keys(byName)
		k := rapid.IntRange(1, 4).Draw(rt, "k")
		var names []string
		for i := 0; i < k; i++ {
			names = append(names, rapid.SampledFrom(all).Draw(rt, "name"))
		}
		if rapid.Bool().Draw(rt, "leaf") {
			names = append(names, "Leaf")
		}
		return Case{genOps(rt, names, 0)}
	}, func(c Case) vh.Result {
		w := &world{active: map[string][]*Mock{}, classes: map[string]bool{}}
		err := w.run(c.Ops)
		if err == nil {
			err = w.run([]Op{{Kind: "callall", A: 3, B: 2}})
		}
		if err == nil {
			for len(w.order) > 0 && err == nil {
				err = w.run([]Op{{Kind: "undo", A: len(c.Ops)}})
			}
		}
		if err == nil {
			if e := w.run([]Op{{Kind: "callall", A: 4, B: 3, Form: 1}}); e != nil {
				err = fmt.Errorf("after undoing everything: %v", e)
			}
		}
		for len(w.noise) > 0 {
			w.run([]Op{{Kind: "undonoise"}})
		}
		return vh.Result{Err: err, Classes: vh.Keys(w.classes), NonTrivial: w.classes["several mocks of one function"] || w.classes["undo out of order"]}
	})
}
