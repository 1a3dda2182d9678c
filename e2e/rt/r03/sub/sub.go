package sub

type St struct {
	A int
	B string
	L []int
	P *St
}

func (s St) Val() int      { return s.A*2 + len(s.B) }
func (s *St) Ptr() int     { return s.A*3 + len(s.B) }
func (s St) With(x int) St { s.A += x; return s }
func (s *St) SetA(x int)   { s.A = x }
func (s St) Kids() []int   { return s.L }

type Num int

func (n Num) Dbl() int { return int(n) * 2 }

type Box[A any] struct {
	V A
	N int
}

func (b Box[A]) Get() A   { return b.V }
func (b *Box[A]) Addr() A { return b.V }

// exported variables that are read from the other package
var Int int = 7
var Str = "sub"
var Struct St = St{A: 1, B: "s", L: []int{1}}
var Ptr *St = &St{A: 2, B: "sp", P: &St{A: 8}}
var Inferred = St{A: 4, B: "inf", L: []int{3}}
var Fn func(int) int = func(x int) int { return x + 1 }

func ReadInt() int { return Int }
