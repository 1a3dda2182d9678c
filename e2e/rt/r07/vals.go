package r07

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"time"
	"unsafe"
)

// Val describes a value, so that a case survives JSON.
type Val struct {
	K  string
	S  []byte
	N  int
	Vs []Val
}

type pair struct {
	A, B interface{}
	c    interface{}
}

type ring struct {
	Next *ring
	V    interface{}
}

type tagged struct {
	A int         `json:"x"`
	B interface{} `json:"<&>'\\,omitempty"`
	C string      `json:",string"`
	D []byte      `json:"-"`
	E *ring
}

type Inner struct{ P, Q int }

type embedded struct {
	*Inner
	R string
}

// values whose own marshalling misbehaves
type marsh struct {
	how string
	s   string
	v   interface{}
}

func (m marsh) MarshalJSON() ([]byte, error) {
	switch m.how {
	case "ok":
		return json.Marshal(m.s)
	case "err":
		return nil, errors.New(m.s)
	case "badErr":
		return nil, badErr{m.s}
	case "panic":
		panic(m.s)
	case "panicErr":
		panic(badErr{m.s})
	case "panicNil":
		var p *marsh
		_ = p.how
	case "panicIdx":
		_ = m.s[len(m.s)]
	case "garbage":
		return []byte(m.s), nil
	case "nil":
		return nil, nil
	case "two":
		return []byte(`{"a":1} {"b":2}`), nil
	case "deep":
		return []byte(strings.Repeat("[", 3000) + strings.Repeat("]", 3000)), nil
	case "calls":
		// instrumented functions
		sink = Global
		return json.Marshal(inMarsh(m.s, false))
	case "callsPanic":
		return json.Marshal(inMarsh(m.s, true))
	case "nested":
		return json.Marshal(map[string]interface{}{"n": m.v})
	}
	return []byte("0"), nil
}

func inMarsh(s string, p bool) string {
	if p {
		panic("in marsh " + s)
	}
	return s + "!"
}

type pmarsh struct{ S string }

func (m *pmarsh) MarshalJSON() ([]byte, error) { return json.Marshal(m.S) }

type text struct {
	how string
	s   string
}

func (m text) MarshalText() ([]byte, error) {
	switch m.how {
	case "err":
		return nil, errors.New(m.s)
	case "panic":
		panic(m.s)
	}
	return []byte(m.s), nil
}

// an error whose Error method panics
type badErr struct{ s string }

func (e badErr) Error() string { panic("bad " + e.s) }

type ptrErr struct{ s string }

func (e *ptrErr) Error() string { return e.s }

type goodErr struct {
	S string
	m map[string]string
}

func (e goodErr) Error() string { return e.S }

type stringer struct{ s string }

func (s stringer) String() string { panic(s.s) }

var marshKinds = []string{"ok", "err", "badErr", "panic", "panicErr", "panicNil", "panicIdx", "garbage", "nil", "two", "deep", "calls", "callsPanic", "nested"}
var leafKinds = []string{"nil", "int", "float", "str", "str", "bytes", "bool", "chan", "nilchan", "func", "uptr", "uintptr", "complex", "time", "big", "bigf", "num", "raw", "mutex", "rtype", "rvalue", "err", "badErr", "nilPtrErr", "nilpm", "pm", "ring", "list", "nest", "cycMap", "cycSlice", "cycPtr", "embedNil", "tagged", "textMap", "textMapP", "intMap", "floatMap", "ifaceMap", "boolMap", "dupMap", "array", "large", "stringer", "nilmap", "nilslice", "chanmap"}
var nodeKinds = []string{"slice", "map", "struct", "ptr", "ptrptr", "iface", "marsh"}

var floats = []float64{0, math.Copysign(0, -1), 1.5, 1e300, 5e-324, 1e21, math.NaN(), math.Inf(1), math.Inf(-1)}

func (v Val) kid(i int) interface{} {
	if i < len(v.Vs) {
		return v.Vs[i].Build()
	}
	return nil
}

// Build makes the value.
func (v Val) Build() interface{} {
	s := string(v.S)
	n := v.N
	switch v.K {
	case "nil":
		return nil
	case "int":
		return int64(n) << 40
	case "float":
		return floats[n%len(floats)]
	case "str":
		return s
	case "bytes":
		return v.S
	case "bool":
		return n%2 == 0
	case "chan":
		return make(chan int, n)
	case "nilchan":
		return (<-chan string)(nil)
	case "func":
		return func() int { return n }
	case "uptr":
		return unsafe.Pointer(&sink)
	case "uintptr":
		return uintptr(n)
	case "complex":
		return complex(float64(n), 1)
	case "time":
		return time.Date(9990+n, 1, 2, 3, 4, 5, 6, time.UTC)
	case "big":
		b := new(big.Int).Lsh(big.NewInt(int64(n)+1), uint(n*7%900))
		return b
	case "bigf":
		return new(big.Float).SetInf(n%2 == 0)
	case "num":
		return json.Number(s)
	case "raw":
		return json.RawMessage(s)
	case "mutex":
		return &sync.Mutex{}
	case "rtype":
		return reflect.TypeOf(n)
	case "rvalue":
		return reflect.ValueOf(n)
	case "err":
		return goodErr{S: s}
	case "badErr":
		return badErr{s}
	case "nilPtrErr":
		return (*ptrErr)(nil)
	case "nilpm":
		return []interface{}{(*pmarsh)(nil), (*marsh)(nil), (*text)(nil), (*big.Int)(nil)}
	case "pm":
		return []interface{}{pmarsh{s}, &pmarsh{s}, map[string]pmarsh{"k": {s}}, [1]pmarsh{{s}}}
	case "ring":
		r := &ring{V: s}
		r.Next = &ring{Next: r}
		return r
	case "list":
		var r *ring
		for i := 0; i < n*50; i++ {
			r = &ring{Next: r}
		}
		return r
	case "nest":
		var x interface{} = s
		for i := 0; i < n*50; i++ {
			if i%2 == 0 {
				x = []interface{}{x}
			} else {
				x = map[string]interface{}{s: x}
			}
		}
		return x
	case "cycMap":
		m := map[string]interface{}{"s": s}
		m["m"] = m
		return m
	case "cycSlice":
		l := []interface{}{s, nil}
		l[1] = l
		return l
	case "cycPtr":
		// (a pointer that leads to itself through nothing but interfaces
		// makes encoding/json of Go 1.27 overflow the stack)
		p := &pair{A: s}
		p.B = &p
		return p
	case "embedNil":
		return []interface{}{embedded{R: s}, &embedded{Inner: &Inner{1, 2}}}
	case "tagged":
		return tagged{A: n, B: s, C: s}
	case "textMap":
		return map[text]int{{"", s}: 1, {"x", s + "y"}: 2}
	case "textMapP":
		return map[text]int{{[]string{"err", "panic"}[n%2], s}: 1}
	case "intMap":
		return map[int8]string{1: s, -128: ""}
	case "floatMap":
		return map[float64]int{math.NaN(): 1, 2: 2}
	case "ifaceMap":
		return map[interface{}]interface{}{s: 1, n: s}
	case "boolMap":
		return map[bool]string{true: s}
	case "dupMap":
		// both keys become the same text
		return map[string]int{"\xff": 1, "\xfe": 2, s: 3}
	case "array":
		return [3]interface{}{s, n, nil}
	case "large":
		// around the limit beyond which values are cut
		k := 1024*1024/(len(s)+1) + n%3 - 1
		return strings.Repeat(s+"a", k) + s
	case "stringer":
		return stringer{s}
	case "nilmap":
		return map[string]int(nil)
	case "nilslice":
		return []string(nil)
	case "chanmap":
		return map[string]chan int{s: make(chan int)}
	case "slice":
		l := []interface{}{}
		for i := range v.Vs {
			l = append(l, v.kid(i))
		}
		return l
	case "map":
		m := map[string]interface{}{}
		for i := range v.Vs {
			m[fmt.Sprint(s, i)] = v.kid(i)
		}
		return m
	case "struct":
		return pair{A: v.kid(0), B: v.kid(1), c: func() {}}
	case "ptr":
		return &pair{A: v.kid(0), B: v.kid(1)}
	case "ptrptr":
		x := v.kid(0)
		p := &x
		return &p
	case "iface":
		var e error = goodErr{S: s}
		return struct {
			E error
			V interface{}
			F func(int) string
		}{E: e, V: v.kid(0)}
	case "marsh":
		return marsh{how: marshKinds[n%len(marshKinds)], s: s, v: v.kid(0)}
	}
	panic("unknown kind " + v.K)
}

func (v Val) walk(f func(Val)) {
	f(v)
	for _, k := range v.Vs {
		k.walk(f)
	}
}
