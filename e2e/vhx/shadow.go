package vh

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// ShNode says what a call does.
type ShNode struct {
	ID      int
	Fn      int
	X       int
	Kids    []*ShNode `json:",omitempty"`
	Panic   bool      `json:",omitempty"`
	Recover bool      `json:",omitempty"`
	ReadVar bool      `json:",omitempty"`
	Goexit  bool      `json:",omitempty"` // only as the root of a goroutine
	Then    []*ShNode `json:",omitempty"` // what the goroutine does after it
	How     string    `json:",omitempty"` // "", catch, defer, go, par, nest (goroutine in goroutine), block
}

// Sh is a call that happened, as its caller saw it.
type Sh struct {
	Name    string
	Args    string `json:",omitempty"` // JSON at entry
	Results string `json:",omitempty"` // JSON at exit
	Error   string `json:",omitempty"`
	Panic   bool   `json:",omitempty"`
	Running bool   `json:",omitempty"`
	NoRes   bool   `json:"-"` // results are not known (panic)
	Exited  bool   `json:",omitempty"`
	Kids    []*Sh  `json:",omitempty"`
}

// C is the context of a call: what it shall do, and where its calls are noted.
type C struct {
	ID   int
	N    *ShNode                             `json:"-"`
	Sh   *Sh                                 `json:"-"`
	Exec func(c *C, n *ShNode, base int) int `json:"-"`
	VarV func(name string) (val string)      `json:"-"`
	Rel  chan bool                           `json:"-"` // closed when blocked calls shall go on
	WG   *sync.WaitGroup                     `json:"-"`
	Wrap func(c *C, n *ShNode, base int) int `json:"-"`
	Data map[string]interface{}              `json:"-"`
}

func (c *C) Child(n *ShNode, sh *Sh) *C {
	d := *c
	d.ID, d.N, d.Sh = n.ID, n, sh
	return &d
}

// Var notes a read of a package variable.
func (c *C) Var(name string) {
	c.Sh.Kids = append(c.Sh.Kids, &Sh{Name: name, Results: c.VarV(name)})
}

func JSONOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?" + err.Error()
	}
	return string(b)
}

func (c *C) run(k *ShNode, base int, sh *Sh) int {
	d := *c
	d.Sh = sh
	return c.Exec(&d, k, base)
}

func (c *C) RunKids(base int) int {
	acc := base
	sh := c.Sh
	var pend []func()
	defer func() {
		for _, p := range pend {
			p()
		}
	}()
	for _, k := range c.N.Kids {
		k := k
		switch k.How {
		case "catch":
			func() {
				defer func() {
					if e := recover(); e != nil {
						acc += len(fmt.Sprint(e))
					}
				}()
				acc += c.run(k, base, sh)
			}()
		case "defer":
			defer c.run(k, base, sh)
		case "go", "par", "nest":
			g := &Sh{Name: "go"}
			sh.Kids = append(sh.Kids, g)
			done := make(chan int, 1)
			body := func(g *Sh) {
				defer func() {
					recover()
				}()
				func() {
					if len(k.Then) > 0 {
						defer func() { recover() }()
					}
					c.run(k, base, g)
				}()
				if len(k.Then) > 0 && !g.Exited {
					d := *c
					d.N, d.Sh = &ShNode{Kids: k.Then}, g
					d.RunKids(base)
				}
			}
			if k.How == "nest" {
				g2 := &Sh{Name: "go"}
				g.Kids = append(g.Kids, g2)
				go func() {
					d2 := make(chan int)
					go func() {
						defer close(d2)
						body(g2)
					}()
					<-d2
					close(done)
				}()
			} else {
				go func() {
					defer close(done)
					body(g)
				}()
			}
			if k.How == "par" {
				pend = append(pend, func() { <-done })
			} else {
				<-done
			}
		case "block":
			// a goroutine that is in the middle of a call when the trace ends
			g := &Sh{Name: "go", Running: true}
			sh.Kids = append(sh.Kids, g)
			in := make(chan bool)
			c.WG.Add(1)
			rel := c.Rel
			go func() {
				defer c.WG.Done()
				c.Exec(&C{ID: -1, N: &ShNode{}, Sh: g, Exec: c.Exec, VarV: c.VarV, WG: c.WG, Rel: rel,
					Data: map[string]interface{}{"in": in}}, k, base)
			}()
			<-in
		default:
			acc += c.run(k, base, sh)
		}
	}
	if c.N.Goexit {
		sh.Exited = true
		runtime.Goexit()
	}
	if c.N.Panic {
		panic(fmt.Sprintf("p%d \"<b>", base))
	}
	return acc
}

// Format prints calls, one per line.
func (s *Sh) Format() string {
	var b strings.Builder
	s.format(&b, 0)
	return b.String()
}

func (s *Sh) format(b *strings.Builder, ind int) {
	fmt.Fprintf(b, "%s%s", strings.Repeat("  ", ind), s.Name)
	if s.Running {
		b.WriteString(" RUNNING")
	}
	fmt.Fprintf(b, " args=%s res=%s", s.Args, s.Results)
	if s.Panic {
		b.WriteString(" PANIC")
	}
	if s.Error != "" {
		fmt.Fprintf(b, " err=%q", s.Error)
	}
	b.WriteString("\n")
	for _, k := range s.Kids {
		k.format(b, ind+1)
	}
}

// Flatten removes the nodes that keep says no to; their calls move up.
func (s *Sh) Flatten(keep func(*Sh) bool) {
	var out []*Sh
	for _, k := range s.Kids {
		k.Flatten(keep)
		if keep(k) {
			out = append(out, k)
		} else {
			out = append(out, k.Kids...)
		}
	}
	s.Kids = out
}

// GoKids are the goroutines that were started below s, not counting those
// started by goroutines.
func (s *Sh) GoKids() (out []*Sh) {
	for _, k := range s.Kids {
		if k.Name == "go" {
			out = append(out, k)
		} else {
			out = append(out, k.GoKids()...)
		}
	}
	return out
}
