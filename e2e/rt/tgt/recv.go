package tgt

import (
	"fmt"

	"verif/vh"
)

// U is not comparable.
type U struct {
	ID   int
	List []int
	M    map[string]int
}

func (u U) Look(a int) string { vh.Hit("Look"); return fmt.Sprintf("%d/%v/%d", u.ID, u.List, a) }

func (u *U) LookPtr(a int) string {
	vh.Hit("LookPtr")
	if u == nil {
		return fmt.Sprintf("nil %d", a)
	}
	return fmt.Sprintf("%d/%d", u.ID, a)
}

type Empty struct{}

func (Empty) Do(a int) int { vh.Hit("Empty.Do"); return a + 2 }

type Arr [2]int

func (x Arr) At(i int) int { vh.Hit("Arr.At"); return x[i%2] }

type Holder struct{ V interface{} }

func (h Holder) Show(a int) string { vh.Hit("Show"); return fmt.Sprint(h.V, a) }

type Str string

func (s Str) Len(a int) int   { vh.Hit("Str.Len"); return len(s) + a }
func (s *Str) Grow(a int) int { vh.Hit("Str.Grow"); return len(*s) * a }

type Deep struct{ Derived }

// Num is for generic methods and functions with other type sets.
type Num interface{ ~int | ~float64 }

func H[A any](A) string                           { vh.Hit("H"); return "h" }
func Twice[N Num](n N) N                          { vh.Hit("Twice"); return n + n }
func Conv[A, B Num](a A) B                        { vh.Hit("Conv"); return B(a) + 1 }
func MapOf[K comparable, E any](k K, e E) map[K]E { vh.Hit("MapOf"); return map[K]E{k: e} }
func Ret[A any]() (a A)                           { vh.Hit("Ret"); return }
func Many3[A any](xs ...A) (int, []A)             { vh.Hit("Many3"); return len(xs), xs }

type Tree[A any] struct {
	L, R *Tree[A]
	V    A
}

func (t *Tree[A]) Size() int {
	vh.Hit("Tree.Size")
	if t == nil {
		return 0
	}
	return 1
}

func (t *Tree[A]) Put(v A) *Tree[A] { vh.Hit("Tree.Put"); return &Tree[A]{V: v} }
