package tgt

import (
	"context"
	"fmt"

	"verif/vh"
)

// Functions that execute call trees.

func F(p *vh.Node, x int) (r int, err error) {
	vh.Log("body F %d", x)
	if p.Recover {
		defer func() {
			if e := recover(); e != nil {
				r, err = -1, fmt.Errorf("recovered %v", e)
			}
		}()
	}
	n := p.RunKids(x)
	if n%5 == 0 {
		return n, fmt.Errorf("five %d", n)
	}
	return n, nil
}

type P struct{ ID int }

func (t *P) M(p *vh.Node, x int) int {
	vh.Log("body M%d %d", t.ID, x)
	if p.Recover {
		defer func() { recover() }()
	}
	return p.RunKids(x) + t.ID
}

type PV struct{ ID int }

func (v PV) MV(p *vh.Node, x int) (r int) {
	vh.Log("body MV%d %d", v.ID, x)
	if p.Recover {
		defer func() {
			if recover() != nil {
				r = 77
			}
		}()
	}
	return p.RunKids(x) * 2
}

type PInt int

func GF[A Num](p *vh.Node, x A) A {
	vh.Log("body GF %T %d", x, int(x))
	return A(p.RunKids(int(x))) + 1
}

func CF(ctx context.Context, p *vh.Node, x int) (s string, err error) {
	vh.Log("body CF %v %d", ctx.Value(CtxKey{}), x)
	if p.Recover {
		defer func() {
			if e := recover(); e != nil {
				s = fmt.Sprint("rec ", e)
			}
		}()
	}
	n := p.RunKids(x)
	if n%3 == 0 {
		err = fmt.Errorf("three %d", n)
	}
	return fmt.Sprint(n), err
}

func VF(p *vh.Node, xs ...int) int {
	vh.Log("body VF %v", xs)
	n := len(xs)
	for _, x := range xs {
		n += x
	}
	return p.RunKids(n)
}

func NF(p *vh.Node) {
	vh.Log("body NF %d", p.X)
	p.RunKids(p.X)
}
