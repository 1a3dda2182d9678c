// Package tgt has functions of many shapes, to be mocked, recorded and traced.
package tgt

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"verif/vh"
)

type Point struct {
	X, Y int
	Tag  string
}

type CtxKey struct{}

func Add(a, b int) int { vh.Hit("Add"); return a + b }

func Leaf(a int) int { vh.Hit("Leaf"); return a*3 + 1 }

func Div(a, b int) (int, error) {
	vh.Hit("Div")
	if b == 0 {
		return 0, errors.New("division by zero")
	}
	return a / b, nil
}

func Ctx(ctx context.Context, s string) (out string, err error) {
	vh.Hit("Ctx")
	v, _ := ctx.Value(CtxKey{}).(int)
	if v%3 == 0 {
		return "", fmt.Errorf("ctx %d %s", v, s)
	}
	return fmt.Sprintf("%s%d", s, v), nil
}

func Variadic(pre string, xs ...int) (n int) {
	vh.Hit("Variadic")
	for _, x := range xs {
		n += x
	}
	return n + len(pre)
}

func VariadicAny(xs ...interface{}) string { vh.Hit("VariadicAny"); return fmt.Sprint(xs...) }

func Named(a int, s string) (x int, y string, err error) {
	vh.Hit("Named")
	defer func() {
		x++
		y = y + "!"
		if e := recover(); e != nil {
			err = fmt.Errorf("recovered %v", e)
		}
	}()
	x, y = a, s
	if a%4 == 0 {
		panic("four")
	}
	return x * 2, y, nil
}

func Blank(_ int, _ string) (_ int, _ error) { vh.Hit("Blank"); return 7, nil }

func NoName(int, string) string { vh.Hit("NoName"); return "noname" }

func NoArgs() int { vh.Hit("NoArgs"); return 42 }

func NoResult(p *int, d int) { vh.Hit("NoResult"); *p += d }

func Nothing() { vh.Hit("Nothing") }

func HighOrder(f func(int) int, x int) func(int) int {
	vh.Hit("HighOrder")
	y := f(x)
	return func(z int) int { return y*10 + z }
}

func Struct(p Point) Point { vh.Hit("Struct"); p.X, p.Y = p.Y, p.X; p.Tag += "s"; return p }

func StructPtr(p *Point) *Point { vh.Hit("StructPtr"); return &Point{p.X + 1, p.Y + 1, p.Tag + "p"} }

func Many(a int8, b uint16, c float64, d complex128, e [3]int, f []string, g map[string]int, h interface{}, i error, j bool, k rune, l struct{ A, B int }) (r1 []string, r2 map[string]int, r3 [2]float64, r4 interface{}, r5 bool) {
	vh.Hit("Many")
	return append([]string{fmt.Sprint(a, b)}, f...), map[string]int{"a": int(a), "g": len(g)}, [2]float64{c, real(d)}, h, !j
}

func Rec(n int) int {
	vh.Hit("Rec")
	if n <= 0 {
		return 1
	}
	return n + Rec(n-1)
}

func Even(n int) bool {
	vh.Hit("Even")
	if n == 0 {
		return true
	}
	return Odd(n - 1)
}

func Odd(n int) bool {
	vh.Hit("Odd")
	if n == 0 {
		return false
	}
	return Even(n - 1)
}

func Boom(a int) int {
	vh.Hit("Boom")
	panic(fmt.Sprintf("boom%d", a))
}

func ViaLeaf(a int) int { vh.Hit("ViaLeaf"); return Leaf(a) + 100 }

// ---- methods

type T struct{ ID int }

func (t *T) Ptr(a int) int { vh.Hit("Ptr"); return t.ID*100 + a }

func (t *T) Err(a int, s string) (string, error) {
	vh.Hit("Err")
	if a%2 == 0 {
		return "", fmt.Errorf("even %s", s)
	}
	return strings.Repeat(s, a%4), nil
}

func (t *T) unexpMethod(a int) int { vh.Hit("unexpMethod"); return t.ID + a }

func CallUnexpMethod(t *T, a int) int { return t.unexpMethod(a) }

type V struct {
	ID  int
	Tag string
}

func (v V) Val(a int) V { vh.Hit("Val"); return V{v.ID + a, v.Tag + "v"} }

func (V) NoRecvName(a int) int { vh.Hit("NoRecvName"); return a + 9 }

func (_ *V) BlankRecv(a, _ int) (int, error) { vh.Hit("BlankRecv"); return a + 11, nil }

type MyInt int

func (m MyInt) Inc(a int) MyInt { vh.Hit("Inc"); return m + MyInt(a) }

type FnType func(int) int

func (f FnType) Apply(a int) int { vh.Hit("Apply"); return f(a) + 1 }

type SliceT []int

func (s SliceT) Sum() int {
	vh.Hit("Sum")
	n := 0
	for _, x := range s {
		n += x
	}
	return n
}

type MapT map[string]int

func (m MapT) Get(k string) int { vh.Hit("MapT.Get"); return m[k] }

type Shape interface {
	Area(k int) int
}

type Sq struct{ S int }

func (s *Sq) Area(k int) int { vh.Hit("Sq.Area"); return s.S * s.S * k }

type Rect struct{ W, H int }

func (r Rect) Area(k int) int { vh.Hit("Rect.Area"); return r.W * r.H * k }

type Base struct{ N int }

func (b *Base) Hello(a int) string { vh.Hit("Hello"); return fmt.Sprintf("hello%d-%d", b.N, a) }
func (b Base) Bye(a int) string    { vh.Hit("Bye"); return fmt.Sprintf("bye%d-%d", b.N, a) }

type Derived struct {
	*Base
	Name string
}

type DerivedVal struct {
	Base
	Name string
}

// ---- generics

func G[A any](x A) A { vh.Hit("G"); return x }

func Pair[A comparable, B any](a A, b B, n int) (A, B, error) {
	vh.Hit("Pair")
	if n%3 == 0 {
		return a, b, errors.New("pair")
	}
	return a, b, nil
}

func SizeOf[A any]() string { vh.Hit("SizeOf"); var a A; return fmt.Sprintf("%T", a) }

type Box[A any] struct {
	V  A
	ID int
}

func (b *Box[A]) Get(n int) (A, int) { vh.Hit("Box.Get"); return b.V, b.ID + n }
func (b Box[A]) With(v A) Box[A]     { vh.Hit("Box.With"); return Box[A]{v, b.ID + 1} }

// mocked by a global mock that is installed at init
func Global(a int) int { vh.Hit("Global"); return a + 1 }
