// Package r06 has functions that execute a call tree while they are traced.
package r06

import (
	"context"
	"errors"
	"fmt"

	"verif/vh"
)

type P struct{ ID int }

type PV struct {
	ID  int
	Tag string
}

type Box[T any] struct {
	V  T
	ID int
}

var Counter = 5
var Title = "t\"itle"

func A(c *vh.C, x int, s []int) (r int, err error) {
	if c.N.Recover {
		defer func() {
			if e := recover(); e != nil {
				r, err = -1, fmt.Errorf("recovered %v", e)
			}
		}()
	}
	defer func() { r += 1000 }()
	x *= 2
	if len(s) > 0 {
		s[0] += 7
	}
	if c.N.ReadVar {
		c.Var("Counter")
		x += Counter
	}
	n := c.RunKids(x) + len(s)
	if n%5 == 0 {
		return n, fmt.Errorf("five %d \"q\"", n)
	}
	return n, nil
}

func (t *P) M(c *vh.C, x int) int {
	old := t.ID
	if c.N.Recover {
		defer func() { recover() }()
	}
	return c.RunKids(x) + old
}

func (v PV) V(c *vh.C, x string) (r string, m map[string]int) {
	v.ID += 100
	if c.N.Recover {
		defer func() {
			if recover() != nil {
				r = "rec"
			}
		}()
	}
	if c.N.ReadVar {
		c.Var("Title")
		x += Title
	}
	n := c.RunKids(len(x))
	return fmt.Sprint(x, n), map[string]int{"n": n, "id": v.ID}
}

func G[T any](c *vh.C, x T) (T, error) {
	n := c.RunKids(len(fmt.Sprint(x)))
	if n%4 == 0 {
		return x, errors.New("gerr")
	}
	return x, nil
}

func (b *Box[T]) Get(c *vh.C) T {
	c.RunKids(b.ID)
	return b.V
}

func X(ctx context.Context, c *vh.C, x int) (s string, err error) {
	if c.N.Recover {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint("rec ", e)
			}
		}()
	}
	n := c.RunKids(x)
	if n%3 == 0 {
		err = fmt.Errorf("three %d", n)
	}
	return fmt.Sprint(n), err
}

func W(c *vh.C, xs ...int) int {
	n := len(xs)
	for _, x := range xs {
		n += x
	}
	return c.RunKids(n)
}

func N(c *vh.C) {
	c.RunKids(3)
}

func Pure(a, b int) int { return a*10 + b }

func PanicErr(a int) (int, error) {
	var m []int
	switch a % 4 {
	case 0:
		return m[a], nil
	case 1:
		panic(errors.New("an error"))
	case 2:
		var p *P
		return p.ID, nil
	}
	panic(a)
}

// recursion by itself, one entry per level
func Fib(n int) int {
	if n < 2 {
		return n
	}
	return Fib(n-1) + Fib(n-2)
}

// Blk is still running when the trace ends
func Blk(c *vh.C, x int) int {
	close(c.Data["in"].(chan bool))
	<-c.Rel
	return x
}
