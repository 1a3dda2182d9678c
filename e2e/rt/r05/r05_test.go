package r05

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"
	"rlab/tgt"
	"verif/vh"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/mock"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"github.com/xhd2015/xgo/runtime/trap"
)

var p0, p1 = &tgt.P{ID: 0}, &tgt.P{ID: 1}
var v0, v1 = tgt.PV{ID: 0}, tgt.PV{ID: 1}

// functions that are called
const (
	fF = iota
	fM0
	fM1
	fV0
	fV1
	fGI
	fGM
	fC
	fVar
	fN
	fLeaf
	nFn
)

type fnDesc struct {
	ident    string
	args     []string
	res      []string
	recv     string // receiver name
	recvVal  interface{}
	resTypes []reflect.Type
}

var intT, strT, errT = reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf((*error)(nil)).Elem()

var fns = [nFn]fnDesc{
	fF:    {ident: "F", args: []string{"p", "x"}, res: []string{"r", "err"}, resTypes: []reflect.Type{intT, errT}},
	fM0:   {ident: "(*P).M", args: []string{"p", "x"}, res: []string{""}, recv: "t", recvVal: p0, resTypes: []reflect.Type{intT}},
	fM1:   {ident: "(*P).M", args: []string{"p", "x"}, res: []string{""}, recv: "t", recvVal: p1, resTypes: []reflect.Type{intT}},
	fV0:   {ident: "PV.MV", args: []string{"p", "x"}, res: []string{"r"}, recv: "v", recvVal: v0, resTypes: []reflect.Type{intT}},
	fV1:   {ident: "PV.MV", args: []string{"p", "x"}, res: []string{"r"}, recv: "v", recvVal: v1, resTypes: []reflect.Type{intT}},
	fGI:   {ident: "GF", args: []string{"p", "x"}, res: []string{""}, resTypes: []reflect.Type{intT}},
	fGM:   {ident: "GF", args: []string{"p", "x"}, res: []string{""}, resTypes: []reflect.Type{reflect.TypeOf(tgt.PInt(0))}},
	fC:    {ident: "CF", args: []string{"ctx", "p", "x"}, res: []string{"s", "err"}, resTypes: []reflect.Type{strT, errT}},
	fVar:  {ident: "VF", args: []string{"p", "xs"}, res: []string{""}, resTypes: []reflect.Type{intT}},
	fN:    {ident: "NF", args: []string{"p"}},
	fLeaf: {ident: "Leaf", args: []string{"a"}, res: []string{""}, resTypes: []reflect.Type{intT}},
}

// what recorders, function interceptors and mocks can be attached to
type target struct {
	name string
	fn   interface{}
	on   []int // the functions it covers
	recv bool  // the receiver is the first argument
}

var targets = []target{
	{name: "F", fn: tgt.F, on: []int{fF}},
	{name: "p0.M", fn: p0.M, on: []int{fM0}},
	{name: "p1.M", fn: p1.M, on: []int{fM1}},
	{name: "(*P).M", fn: (*tgt.P).M, on: []int{fM0, fM1}, recv: true},
	{name: "v0.MV", fn: v0.MV, on: []int{fV0}},
	{name: "PV.MV", fn: tgt.PV.MV, on: []int{fV0, fV1}, recv: true},
	{name: "GF[int]", fn: tgt.GF[int], on: []int{fGI}},
	{name: "GF[PInt]", fn: tgt.GF[tgt.PInt], on: []int{fGM}},
	{name: "CF", fn: tgt.CF, on: []int{fC}},
	{name: "VF", fn: tgt.VF, on: []int{fVar}},
	{name: "NF", fn: tgt.NF, on: []int{fN}},
	{name: "Leaf", fn: tgt.Leaf, on: []int{fLeaf}},
}

func (t *target) covers(f int) bool {
	for _, x := range t.on {
		if x == f {
			return true
		}
	}
	return false
}

func init() {
	vh.CtxKey = tgt.CtxKey{}
	vh.Exec = func(n *vh.Node, base int) int {
		x := n.X + base%7
		switch n.Fn {
		case fF:
			r, err := tgt.F(n, x)
			return r + errLen(err)
		case fM0:
			return p0.M(n, x)
		case fM1:
			var i interface {
				M(*vh.Node, int) int
			} = p1
			return i.M(n, x)
		case fV0:
			return v0.MV(n, x)
		case fV1:
			f := v1.MV
			return f(n, x)
		case fGI:
			return tgt.GF(n, x)
		case fGM:
			return int(tgt.GF(n, tgt.PInt(x)))
		case fC:
			s, err := tgt.CF(context.WithValue(context.Background(), tgt.CtxKey{}, x), n, x)
			return len(s) + errLen(err)
		case fVar:
			return tgt.VF(n, x, 1, 2)
		case fN:
			tgt.NF(n)
			return 1
		}
		return tgt.Leaf(x)
	}
}

func errLen(err error) int {
	if err == nil {
		return 0
	}
	return len(err.Error()) * 100
}

// Handler is an interceptor, recorder or mock of a case.
type Handler struct {
	Kind      string // icpt fnicpt rec mock
	Target    int    `json:",omitempty"`
	Pre, Post bool   `json:",omitempty"`
	Ptr       bool   `json:",omitempty"` // rec: pointer parameters
	PreDo     string `json:",omitempty"` // "", arg, mock, leaf, undoself, undo, install
	PostDo    string `json:",omitempty"` // "", res, leaf, undoself
	K         int    `json:",omitempty"`
	Mod       int    `json:",omitempty"` // acts only on calls whose number is a multiple
	Spare     bool   `json:",omitempty"` // not installed at the start
}

type Case struct {
	Handlers []Handler
	Tree     *vh.Node
	Trace    bool
}

// ---- the real side

type inst struct {
	h      *Handler
	id     int
	undo   func()
	calls  int
	active bool
}

type real struct {
	c  *Case
	is []*inst
}

func names(o core.Object) string {
	var s []string
	for i := 0; i < o.NumField(); i++ {
		f := o.GetFieldIndex(i)
		v := canon(f.Value())
		n := f.Name()
		if n != "" && n != "_" && !isGen(n) {
			if g := canon(o.GetField(n).Value()); g != v {
				v += "!=" + g
			}
		} else {
			n = ""
		}
		s = append(s, n+"="+v)
	}
	return strings.Join(s, " ")
}

// names given to unnamed results are not part of what is checked here
func isGen(n string) bool { return strings.HasPrefix(n, "_r") || strings.HasPrefix(n, "__xgo") }

func canon(v interface{}) string {
	switch x := v.(type) {
	case *vh.Node:
		return "node" + fmt.Sprint(x.Fn, x.X)
	case context.Context:
		return fmt.Sprint("ctx", x.Value(tgt.CtxKey{}))
	case error:
		return "err(" + x.Error() + ")"
	case *tgt.P:
		return fmt.Sprint("P", x.ID)
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (r *real) act(i *inst, do string) bool {
	h := i.h
	i.calls++
	if h.Mod > 1 && i.calls%h.Mod != 0 {
		return false
	}
	switch do {
	case "leaf":
		vh.Log("leaf got %d", tgt.Leaf(h.K))
	case "undoself":
		r.undo(i)
	case "undo":
		r.undo(r.is[h.K%len(r.is)])
	case "install":
		for _, j := range r.is {
			if j.h.Spare && !j.active && j.undo == nil {
				r.install(j)
				break
			}
		}
	}
	return true
}

func (r *real) undo(i *inst) {
	if i.active {
		i.active = false
		i.undo()
	}
}

func (r *real) install(i *inst) {
	h := i.h
	i.active = true
	id := i.id
	pre := func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
		if f.Kind != core.Kind_Func || f.Pkg != "rlab/tgt" {
			return nil, nil
		}
		cv := ""
		if f.FirstArgCtx {
			cv = fmt.Sprint(" ctx", ctx.Value(tgt.CtxKey{}))
		}
		vh.Log("pre %d %s(%s)(%s)%s", id, f.IdentityName, names(args), names(results), cv)
		if r.act(i, h.PreDo) {
			switch h.PreDo {
			case "arg":
				for j := 0; j < args.NumField(); j++ {
					a := args.GetFieldIndex(j)
					switch p := a.Ptr().(type) {
					case *int:
						a.Set(*p + h.K)
					case *tgt.PInt:
						a.Set(*p + tgt.PInt(h.K))
					case *[]int:
						a.Set(append([]int{h.K}, *p...))
					}
				}
			case "mock":
				for j := 0; j < results.NumField(); j++ {
					res := results.GetFieldIndex(j)
					switch res.Ptr().(type) {
					case *int:
						res.Set(h.K + 1000)
					case *tgt.PInt:
						res.Set(tgt.PInt(h.K + 1000))
					case *string:
						res.Set(strings.Repeat("m", h.K))
					case *error:
						if h.K%2 == 0 {
							res.Set(errors.New("mocked"))
						}
					}
				}
				return nil, trap.ErrMocked
			}
		}
		return fmt.Sprint("data", id, " ", i.calls), nil
	}
	post := func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object, data interface{}) error {
		if f.Kind != core.Kind_Func || f.Pkg != "rlab/tgt" {
			return nil
		}
		vh.Log("post %d %s(%s)(%s) %v", id, f.IdentityName, names(args), names(results), data)
		if r.act(i, h.PostDo) && h.PostDo == "res" {
			for j := 0; j < results.NumField(); j++ {
				res := results.GetFieldIndex(j)
				switch p := res.Ptr().(type) {
				case *int:
					*p += h.K
				case *tgt.PInt:
					res.Set(*p + tgt.PInt(h.K))
				case *string:
					res.Set(*p + "r")
				case *error:
					res.Set(nil)
				}
			}
		}
		return nil
	}
	if !h.Pre {
		pre = nil
	}
	if !h.Post {
		post = nil
	}
	t := &targets[h.Target]
	switch h.Kind {
	case "icpt":
		i.undo = trap.AddInterceptor(&trap.Interceptor{Pre: pre, Post: post})
	case "fnicpt":
		i.undo = trap.AddFuncInterceptor(t.fn, &trap.Interceptor{Pre: pre, Post: post})
	case "mock":
		ft := reflect.TypeOf(t.fn)
		i.undo = mock.Patch(t.fn, reflect.MakeFunc(ft, func(in []reflect.Value) []reflect.Value {
			vh.Log("mock %d", id)
			if h.PreDo == "panic" {
				panic(fmt.Sprint("mockp", id))
			}
			var out []reflect.Value
			for j := 0; j < ft.NumOut(); j++ {
				out = append(out, reflect.ValueOf(mockRes(id, ft.Out(j))).Convert(ft.Out(j)))
			}
			return out
		}).Interface())
	case "rec":
		ft := reflect.TypeOf(t.fn)
		var in []reflect.Type
		for j := 0; j < ft.NumIn(); j++ {
			in = append(in, ft.In(j))
		}
		for j := 0; j < ft.NumOut(); j++ {
			in = append(in, ft.Out(j))
		}
		if h.Ptr {
			for j := range in {
				in[j] = reflect.PtrTo(in[j])
			}
		}
		mk := func(what string) interface{} {
			return reflect.MakeFunc(reflect.FuncOf(in, nil, false), func(vs []reflect.Value) []reflect.Value {
				var s []string
				for _, v := range vs {
					if h.Ptr {
						v = v.Elem()
					}
					s = append(s, canon(v.Interface()))
				}
				vh.Log("%s %d (%s)", what, id, strings.Join(s, " "))
				do := h.PreDo
				if what == "post" {
					do = h.PostDo
				}
				if r.act(i, do) && h.Ptr {
					for j, v := range vs {
						isArg := j < ft.NumIn()
						switch p := v.Interface().(type) {
						case *int:
							if isArg && do == "arg" || !isArg && do == "res" {
								*p += h.K
							}
						case *tgt.PInt:
							if isArg && do == "arg" || !isArg && do == "res" {
								*p += tgt.PInt(h.K)
							}
						case *[]int:
							if isArg && do == "arg" {
								*p = append([]int{h.K}, *p...)
							}
						case *string:
							if !isArg && do == "res" {
								*p += "r"
							}
						case *error:
							if !isArg && do == "res" {
								*p = nil
							}
						}
					}
				}
				return nil
			}).Interface()
		}
		switch {
		case h.Pre && h.Post:
			i.undo = trace.Record(t.fn, mk("pre"), mk("post"))
		case h.Pre:
			i.undo = trace.RecordCall(t.fn, mk("pre"))
		default:
			i.undo = trace.RecordResult(t.fn, mk("post"))
		}
	}
}

func mockRes(id int, t reflect.Type) interface{} {
	switch {
	case t.Kind() == reflect.Int:
		return 2000 + id
	case t.Kind() == reflect.String:
		return fmt.Sprint("M", id)
	}
	return error(fmt.Errorf("mock%d", id))
}

// ---- the model

type frame struct {
	f    int
	n    *vh.Node
	recv interface{}
	ctx  int
	x    int   // int argument
	xs   []int // variadic argument
	r    int   // int result
	s    string
	err  error
}

type model struct {
	c      *Case
	is     []*inst
	order  []*inst // installed, in order
	log    []string
	depth  int
	events int
	class  map[string]bool
}

func (m *model) logf(f string, a ...interface{}) {
	if len(m.log) < 100000 {
		m.log = append(m.log, fmt.Sprintf(f, a...))
	}
}

func (m *model) undo(i *inst) {
	if !i.active {
		return
	}
	i.active = false
	for j, x := range m.order {
		if x == i {
			m.order = append(m.order[:j:j], m.order[j+1:]...)
			break
		}
	}
}

func (m *model) act(i *inst, do string) bool {
	h := i.h
	i.calls++
	if h.Mod > 1 && i.calls%h.Mod != 0 {
		return false
	}
	switch do {
	case "leaf":
		m.logf("leaf got %d", m.leaf(h.K))
	case "undoself":
		m.class["undone during a call"] = true
		m.undo(i)
	case "undo":
		m.class["undone during a call"] = true
		m.undo(m.is[h.K%len(m.is)])
	case "install":
		for _, j := range m.is {
			if j.h.Spare && !j.active && j.undo == nil {
				m.class["installed during a call"] = true
				j.active = true
				j.undo = func() {}
				m.order = append(m.order, j)
				break
			}
		}
	}
	return true
}

func (m *model) leaf(a int) int {
	fr := &frame{f: fLeaf, x: a}
	m.call(fr)
	return fr.r
}

func (fr *frame) argVals() []string {
	switch fr.f {
	case fC:
		return []string{fmt.Sprint("ctx", fr.ctx), canon(fr.n), canon(fr.x)}
	case fVar:
		return []string{canon(fr.n), canon(fr.xs)}
	case fN:
		return []string{canon(fr.n)}
	case fLeaf:
		return []string{canon(fr.x)}
	case fGM:
		return []string{canon(fr.n), canon(tgt.PInt(fr.x))}
	}
	return []string{canon(fr.n), canon(fr.x)}
}

func (fr *frame) resVals() []string {
	var e interface{}
	if fr.err != nil {
		e = fr.err
	}
	switch fr.f {
	case fF:
		return []string{canon(fr.r), canon(e)}
	case fC:
		return []string{canon(fr.s), canon(e)}
	case fN:
		return nil
	case fGM:
		return []string{canon(tgt.PInt(fr.r))}
	}
	return []string{canon(fr.r)}
}

func named(names, vals []string) string {
	var s []string
	for i := range vals {
		s = append(s, names[i]+"="+vals[i])
	}
	return strings.Join(s, " ")
}

// text of the arguments as a handler sees them
func (m *model) view(i *inst, fr *frame, what string, data string) string {
	d := fns[fr.f]
	t := &targets[i.h.Target]
	withRecv := d.recv != "" && (i.h.Kind == "icpt" || t.recv)
	args := fr.argVals()
	if i.h.Kind == "rec" {
		if withRecv {
			args = append([]string{canon(d.recvVal)}, args...)
		}
		return fmt.Sprintf("%s %d (%s)", what, i.id, strings.Join(append(args, fr.resVals()...), " "))
	}
	as := named(d.args, args)
	if withRecv {
		as = d.recv + "=" + canon(d.recvVal) + " " + as
	}
	s := fmt.Sprintf("%s %d %s(%s)(%s)", what, i.id, d.ident, as, named(d.res, fr.resVals()))
	if what == "pre" && fr.f == fC {
		s += fmt.Sprint(" ctx", fr.ctx)
	}
	if what == "post" {
		s += " " + data
	}
	return s
}

// call simulates one instrumented call; panics like the real one
func (m *model) call(fr *frame) {
	m.events++
	m.depth++
	var hs []*inst
	for _, i := range m.order {
		if (i.h.Kind == "rec" || i.h.Kind == "fnicpt") && targets[i.h.Target].covers(fr.f) {
			hs = append(hs, i)
		}
	}
	if m.depth == 1 {
		for _, i := range m.order {
			if i.h.Kind == "icpt" {
				hs = append(hs, i)
			}
		}
	}
	var mk *inst
	for _, i := range m.order {
		if i.h.Kind == "mock" && targets[i.h.Target].covers(fr.f) {
			mk = i
		}
	}
	type postOf struct {
		i    *inst
		data string
	}
	if len(hs) > 1 {
		m.class["several handlers of one call"] = true
	}
	var posts []postOf
	mocked := false
	for _, i := range hs {
		h := i.h
		data := "<nil>"
		if h.Pre {
			m.logf("%s", m.view(i, fr, "pre", ""))
			if m.act(i, h.PreDo) {
				switch h.PreDo {
				case "arg":
					if h.Kind != "rec" || h.Ptr {
						switch fr.f {
						case fVar:
							fr.xs = append([]int{h.K}, fr.xs...)
						default:
							fr.x += h.K
						}
					}
				case "mock":
					if h.Kind != "rec" {
						fr.setMocked(h.K)
						mocked = true
						m.class["call mocked by a pre part"] = true
					}
				}
			}
			if mocked {
				break
			}
			if h.Kind != "rec" {
				data = fmt.Sprint("data", i.id, " ", i.calls)
			}
		}
		if h.Post {
			posts = append(posts, postOf{i, data})
		}
	}
	mockPanics := false
	if !mocked && mk != nil {
		m.logf("mock %d", mk.id)
		mockPanics = mk.h.PreDo == "panic"
		fr.r = 2000 + mk.id
		fr.s = fmt.Sprint("M", mk.id)
		fr.err = fmt.Errorf("mock%d", mk.id)
		mocked = true
	}
	m.depth--
	defer func() {
		m.depth++
		for j := len(posts) - 1; j >= 0; j-- {
			p := posts[j]
			m.logf("%s", m.view(p.i, fr, "post", p.data))
			h := p.i.h
			if m.act(p.i, h.PostDo) && h.PostDo == "res" && (h.Kind != "rec" || h.Ptr) {
				fr.r += h.K
				fr.s += "r"
				fr.err = nil
			}
		}
		m.depth--
	}()
	if mockPanics {
		m.class["mock panics"] = true
		fr.r, fr.s, fr.err = 0, "", nil
		panic(fmt.Sprint("mockp", mk.id))
	}
	if !mocked {
		m.body(fr)
	}
}

func (fr *frame) setMocked(k int) {
	fr.r = k + 1000
	fr.s = strings.Repeat("m", k)
	if k%2 == 0 {
		fr.err = errors.New("mocked")
	}
}

func (m *model) body(fr *frame) {
	n := fr.n
	switch fr.f {
	case fF:
		m.logf("body F %d", fr.x)
		if n.Recover {
			defer func() {
				if e := recover(); e != nil {
					fr.r, fr.err = -1, fmt.Errorf("recovered %v", e)
				}
			}()
		}
		r := m.kids(n, fr.x)
		fr.r = r
		if r%5 == 0 {
			fr.err = fmt.Errorf("five %d", r)
		}
	case fM0, fM1:
		id := fr.f - fM0
		m.logf("body M%d %d", id, fr.x)
		if n.Recover {
			defer func() { recover() }()
		}
		fr.r = m.kids(n, fr.x) + id
	case fV0, fV1:
		m.logf("body MV%d %d", fr.f-fV0, fr.x)
		if n.Recover {
			defer func() {
				if recover() != nil {
					fr.r = 77
				}
			}()
		}
		fr.r = m.kids(n, fr.x) * 2
	case fGI, fGM:
		t := "int"
		if fr.f == fGM {
			t = "tgt.PInt"
		}
		m.logf("body GF %s %d", t, fr.x)
		fr.r = m.kids(n, fr.x) + 1
	case fC:
		m.logf("body CF %d %d", fr.ctx, fr.x)
		if n.Recover {
			defer func() {
				if e := recover(); e != nil {
					fr.s = fmt.Sprint("rec ", e)
				}
			}()
		}
		k := m.kids(n, fr.x)
		if k%3 == 0 {
			fr.err = fmt.Errorf("three %d", k)
		}
		fr.s = fmt.Sprint(k)
	case fVar:
		m.logf("body VF %v", fr.xs)
		k := len(fr.xs)
		for _, x := range fr.xs {
			k += x
		}
		fr.r = m.kids(n, k)
	case fN:
		m.logf("body NF %d", n.X)
		m.kids(n, n.X)
	case fLeaf:
		fr.r = fr.x*3 + 1
	}
}

func (m *model) kids(n *vh.Node, base int) int {
	acc := base
	if n.Defer {
		for _, k := range n.Kids {
			k := k
			defer m.exec(k, base)
		}
		return acc
	}
	for _, k := range n.Kids {
		acc += m.exec(k, base)
	}
	if n.Panic {
		m.class["panic"] = true
		panic(fmt.Sprintf("p%d", base))
	}
	return acc
}

func (m *model) exec(n *vh.Node, base int) int {
	x := n.X + base%7
	fr := &frame{f: n.Fn, n: n, x: x, ctx: x}
	if n.Fn == fVar {
		fr.xs = []int{x, 1, 2}
	}
	m.call(fr)
	switch n.Fn {
	case fF:
		return fr.r + errLen(fr.err)
	case fC:
		return len(fr.s) + errLen(fr.err)
	case fN:
		return 1
	}
	return fr.r
}

// ---- generators

func genTree(rt *rapid.T, depth int) *vh.Node {
	n := &vh.Node{Fn: rapid.IntRange(0, nFn-1).Draw(rt, "fn"), X: rapid.IntRange(0, 6).Draw(rt, "x")}
	if n.Fn == fLeaf {
		return n
	}
	n.Recover = rapid.IntRange(0, 3).Draw(rt, "rec") == 0
	n.Panic = rapid.IntRange(0, 7).Draw(rt, "panic") == 0
	n.Defer = rapid.IntRange(0, 9).Draw(rt, "defer") == 0
	if depth < 3 {
		k := rapid.IntRange(0, 3-depth).Draw(rt, "kids")
		for i := 0; i < k; i++ {
			n.Kids = append(n.Kids, genTree(rt, depth+1))
		}
	}
	return n
}

func genHandler(rt *rapid.T) Handler {
	h := Handler{Kind: rapid.SampledFrom([]string{"icpt", "icpt", "fnicpt", "fnicpt", "rec", "rec", "mock"}).Draw(rt, "kind")}
	h.Target = rapid.IntRange(0, len(targets)-1).Draw(rt, "target")
	if h.Kind == "mock" {
		// (a panicking mock of Leaf would make handlers panic)
		if targets[h.Target].name != "Leaf" && rapid.IntRange(0, 3).Draw(rt, "mockpanic") == 0 {
			h.PreDo = "panic"
		}
		return h
	}
	switch rapid.IntRange(0, 3).Draw(rt, "parts") {
	case 0:
		h.Pre = true
	case 1:
		h.Post = true
	default:
		h.Pre, h.Post = true, true
	}
	pre := []string{"", "", "arg", "mock", "leaf", "undoself", "undo", "install"}
	post := []string{"", "", "res", "leaf", "undoself"}
	if h.Kind == "rec" {
		h.Ptr = rapid.Bool().Draw(rt, "ptr")
	}
	h.PreDo = rapid.SampledFrom(pre).Draw(rt, "predo")
	h.PostDo = rapid.SampledFrom(post).Draw(rt, "postdo")
	if h.Kind == "rec" && h.PreDo == "mock" {
		h.PreDo = ""
	}
	if h.Kind != "icpt" && targets[h.Target].name == "Leaf" {
		// would call itself without end
		if h.PreDo == "leaf" {
			h.PreDo = ""
		}
		if h.PostDo == "leaf" {
			h.PostDo = ""
		}
	}
	h.K = rapid.IntRange(0, 5).Draw(rt, "k")
	h.Mod = rapid.IntRange(1, 3).Draw(rt, "mod")
	return h
}

func TestR05(t *testing.T) {
	vh.Run(t, "R05", vh.Options{
		Timeout: 30 * time.Second,
		Crashy:  true,
		Rule:    "a case is a call tree (functions, bound and unbound methods, generic instantiations of one shape, context, variadic, panics, recovers, deferred calls) and up to 7 general interceptors, function interceptors, recorders (by value and by pointer) and mocks, which change arguments and results, mock calls, call other functions, undo and install each other; the log of all events with the names and values seen and the final result are compared with a simulation; non-trivial if at least one call had several handlers",
	}, func(rt *rapid.T) Case {
		var c Case
		n := rapid.IntRange(1, 7).Draw(rt, "n")
		for i := 0; i < n; i++ {
			h := genHandler(rt)
			h.Spare = i > 1 && rapid.IntRange(0, 4).Draw(rt, "spare") == 0
			c.Handlers = append(c.Handlers, h)
		}
		c.Tree = genTree(rt, 0)
		c.Trace = rapid.IntRange(0, 2).Draw(rt, "trace") == 0
		return c
	}, func(c Case) vh.Result {
		m := &model{c: &c, class: map[string]bool{}}
		for i := range c.Handlers {
			m.is = append(m.is, &inst{h: &c.Handlers[i], id: i})
		}
		for _, i := range m.is {
			if !i.h.Spare {
				i.active = true
				i.undo = func() {}
				m.order = append(m.order, i)
			}
		}
		want := vh.Catch(func() string { return fmt.Sprint(m.exec(c.Tree, 0)) })
		got, log := runReal(&c)
		var cs []string
		for k := range m.class {
			cs = append(cs, k)
		}
		if c.Trace {
			cs = append(cs, "under a trace")
		}
		res := vh.Result{Classes: cs, NonTrivial: m.class["several handlers of one call"]}
		for i := 0; i < len(log) || i < len(m.log); i++ {
			g, w := "(nothing)", "(nothing)"
			if i < len(log) {
				g = log[i]
			}
			if i < len(m.log) {
				w = m.log[i]
			}
			if g != w {
				lo := i - 6
				if lo < 0 {
					lo = 0
				}
				res.Err = fmt.Errorf("event %d is %q, want %q, after\n%s", i, g, w, strings.Join(m.log[lo:i], "\n"))
				return res
			}
		}
		if got != want {
			res.Err = fmt.Errorf("result %s, want %s", got, want)
		}
		return res
	})
}

func runReal(c *Case) (string, []string) {
	r := &real{c: c}
	for i := range c.Handlers {
		r.is = append(r.is, &inst{h: &c.Handlers[i], id: i})
	}
	vh.TakeLog()
	var res string
	run := func() {
		res = vh.Catch(func() string { return fmt.Sprint(vh.Exec(c.Tree, 0)) })
	}
	for _, i := range r.is {
		if !i.h.Spare {
			r.install(i)
		}
	}
	if c.Trace {
		trace.Trace(trace.Config{OnFinish: func(stack_model.IStack) {}}, nil, func() (interface{}, error) {
			run()
			return nil, nil
		})
	} else {
		run()
	}
	for _, i := range r.is {
		r.undo(i)
	}
	return res, vh.TakeLog()
}
