package vh

import (
	"fmt"
	"sync"
)

var logMu sync.Mutex
var logs []string

func Log(format string, args ...interface{}) {
	logMu.Lock()
	defer logMu.Unlock()
	if len(logs) < 100000 {
		logs = append(logs, fmt.Sprintf(format, args...))
	}
}

func TakeLog() []string {
	logMu.Lock()
	defer logMu.Unlock()
	l := logs
	logs = nil
	return l
}

// Node is one call of a call tree.
type Node struct {
	Fn      int
	X       int
	Kids    []*Node
	Panic   bool
	Recover bool
	Go      bool // the kids run on goroutines of their own, one after the other
	Defer   bool // the kids are called by deferred calls
}

// Exec makes the call; set by the package that knows the functions.
var Exec func(n *Node, base int) int

func (n *Node) RunKids(base int) int {
	acc := base
	if n.Defer {
		for _, k := range n.Kids {
			k := k
			defer Exec(k, base)
		}
		return acc
	}
	for _, k := range n.Kids {
		if n.Go {
			done := make(chan int)
			go func(k *Node) {
				defer close(done)
				defer func() { recover() }()
				Exec(k, base)
			}(k)
			<-done
			continue
		}
		acc += Exec(k, base)
	}
	if n.Panic {
		panic(fmt.Sprintf("p%d", base))
	}
	return acc
}
