// Package r07 has functions that carry arbitrary values through a trace.
package r07

import (
	"context"
)

// Node is one call of the tree.
type Node struct {
	Kind  int // which function
	A, B  interface{}
	R     interface{}
	Err   error
	Panic interface{}
	Kids  []int
	// read the variable
	Var bool
}

// Nodes of the running tree, the functions are given an index.
var nodes []*Node

type Recv struct {
	V interface{}
}

type RecvV struct {
	X interface{}
	N int
}

var Global interface{}

var sink interface{}

func run(id int) *Node {
	n := nodes[id]
	for _, k := range n.Kids {
		call(k)
	}
	if n.Var {
		sink = Global
	}
	if n.Panic != nil {
		panic(n.Panic)
	}
	return n
}

// run and call are left out of the traces, call stops panics.
func call(id int) {
	defer func() { recover() }()
	n := nodes[id]
	switch n.Kind {
	case 0:
		One(n.A, id)
	case 1:
		Two(id, n.A, n.B)
	case 2:
		(&Recv{V: n.A}).M(n.B, id)
	case 3:
		RecvV{X: n.A, N: 3}.V(id)
	case 4:
		Gen[interface{}](n.A, id)
	case 5:
		Ctx(context.Background(), id, n.A, n.B)
	}
}

const Kinds = 6

func One(v interface{}, id int) interface{} {
	return run(id).R
}

func Two(id int, a, b interface{}) (x interface{}, err error) {
	n := run(id)
	return n.R, n.Err
}

func (r *Recv) M(a interface{}, id int) (res interface{}) {
	return run(id).R
}

func (r RecvV) V(id int) (interface{}, string, error) {
	n := run(id)
	return n.R, "s", n.Err
}

func Gen[T any](v T, id int) (w T) {
	n := run(id)
	if r, ok := n.R.(T); ok {
		return r
	}
	return w
}

func Ctx(ctx context.Context, id int, vs ...interface{}) (a interface{}, b error) {
	n := run(id)
	return n.R, n.Err
}

// Deep calls itself, some of the calls happen in a goroutine.
func Deep(n int, g int, v interface{}) int {
	if n <= 1 {
		return 1
	}
	if g > 0 && n%97 == 0 {
		ch := make(chan int)
		go func() {
			ch <- Deep(n-1, g-1, nil)
		}()
		return 1 + <-ch
	}
	return 1 + Deep(n-1, g, nil)
}
