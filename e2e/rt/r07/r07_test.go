package r07

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/trace"
	"github.com/xhd2015/xgo/runtime/trace/stack_model"
	"pgregory.net/rapid"
	"verif/vh"
)

type Call struct {
	Kind  int
	A, B  Val
	R     Val
	Err   string
	ErrS  []byte
	Panic string
	PanS  []byte
	Var   bool
	Kids  []*Call
}

type Case struct {
	Calls  []*Call
	Global Val
	Finish bool
}

var texts = []string{"", "a", "\"q\"", "\\", "</script><b>", "<!--", "&amp;", "\u2028\u2029", "\x00\x01\x1f\x7f", "\xff\xfe", "\xed\xa0\x80", "é世😀", "\xf0\x9f\x98", "%d%!s", "`${x}`", "line\nnext\r\n\ttab", "'", "{", "}", "[1]", "nan", "-", "1e5", "null", "\ufeff", "\U0010ffff"}

func genText(t *rapid.T) []byte {
	var b []byte
	for i := rapid.IntRange(0, 3).Draw(t, "parts"); i > 0; i-- {
		if rapid.IntRange(0, 3).Draw(t, "raw") == 0 {
			b = append(b, rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(t, "bytes")...)
		} else {
			b = append(b, rapid.SampledFrom(texts).Draw(t, "text")...)
		}
	}
	return b
}

func genVal(t *rapid.T, depth int) Val {
	v := Val{S: genText(t), N: rapid.IntRange(0, 100).Draw(t, "n")}
	if depth > 0 && rapid.IntRange(0, 9).Draw(t, "node") < 4 {
		v.K = rapid.SampledFrom(nodeKinds).Draw(t, "kind")
		for i := rapid.IntRange(0, 3).Draw(t, "kids"); i > 0; i-- {
			v.Vs = append(v.Vs, genVal(t, depth-1))
		}
	} else {
		v.K = rapid.SampledFrom(leafKinds).Draw(t, "leaf")
		if v.K == "large" && rapid.IntRange(0, 5).Draw(t, "rare") > 0 {
			v.K = "str"
		}
	}
	return v
}

var errKinds = []string{"", "", "text", "good", "bad", "nilPtr", "wrap", "nilmap"}
var panicKinds = []string{"", "", "", "", "text", "int", "err", "badErr", "stringer", "runtime", "struct", "chan", "nilPtrErr"}

func genCall(t *rapid.T, depth int) *Call {
	c := &Call{
		Kind: rapid.IntRange(0, Kinds-1).Draw(t, "kind"),
		A:    genVal(t, 2), B: genVal(t, 1), R: genVal(t, 2),
		Err: rapid.SampledFrom(errKinds).Draw(t, "err"), ErrS: genText(t),
		Panic: rapid.SampledFrom(panicKinds).Draw(t, "panic"), PanS: genText(t),
		Var: rapid.Bool().Draw(t, "var"),
	}
	if depth > 0 {
		for i := rapid.IntRange(0, 2).Draw(t, "kids"); i > 0; i-- {
			c.Kids = append(c.Kids, genCall(t, depth-1))
		}
	}
	return c
}

func genCase(t *rapid.T) Case {
	c := Case{Global: genVal(t, 1), Finish: rapid.Bool().Draw(t, "finish")}
	for i := rapid.IntRange(1, 3).Draw(t, "calls"); i > 0; i-- {
		c.Calls = append(c.Calls, genCall(t, 2))
	}
	return c
}

func mkErr(k string, s string) error {
	switch k {
	case "text":
		return errors.New(s)
	case "good":
		return goodErr{S: s, m: map[string]string{"a": "b"}}
	case "bad":
		return badErr{s}
	case "nilPtr":
		return (*ptrErr)(nil)
	case "wrap":
		return fmt.Errorf("%w and %w", errors.New(s), goodErr{S: s})
	case "nilmap":
		return errors.Join(errors.New(s), errors.New(s))
	}
	return nil
}

func mkPanic(k string, s string) interface{} {
	switch k {
	case "text":
		return s
	case "int":
		return len(s)
	case "err":
		return errors.New(s)
	case "badErr":
		return badErr{s}
	case "stringer":
		return stringer{s}
	case "runtime":
		defer func() { recover() }()
		var e error
		func() {
			defer func() { e = recover().(error) }()
			_ = texts[len(texts)+len(s)]
		}()
		return e
	case "struct":
		return pair{A: s, B: []string{s}}
	case "chan":
		return make(chan int)
	case "nilPtrErr":
		return (*ptrErr)(nil)
	}
	return nil
}

// want is a call the trace has to have.
type want struct {
	name     string
	args     []string // JSON, "*" for anything
	res      []string
	isVar    bool
	panicked bool
	err      string
	kids     []*want
}

// expJSON is what a value looks like, if encoding/json can tell.
func expJSON(v interface{}) (s string) {
	defer func() {
		if recover() != nil {
			s = "*"
		}
	}()
	b, err := json.Marshal(v)
	if err != nil || len(b) > 1024*1024 {
		return "*"
	}
	if deep(b) > 4000 {
		return "*"
	}
	return string(b)
}

func deep(b []byte) int {
	d, max := 0, 0
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		t, err := dec.Token()
		if err != nil {
			return max
		}
		switch t {
		case json.Delim('['), json.Delim('{'):
			d++
			if d > max {
				max = d
			}
		case json.Delim(']'), json.Delim('}'):
			d--
		}
	}
}

func jsonText(s string) string {
	b, _ := json.Marshal(s)
	var r string
	json.Unmarshal(b, &r)
	return r
}

func errText(e error) (s string) {
	if e == nil {
		return ""
	}
	defer func() {
		if recover() != nil {
			s = fmt.Sprint(e)
		}
	}()
	return e.Error()
}

func plan(c *Call, global string) (int, *want) {
	id := len(nodes)
	n := &Node{Kind: c.Kind, A: c.A.Build(), B: c.B.Build(), R: c.R.Build(), Err: mkErr(c.Err, string(c.ErrS)), Panic: mkPanic(c.Panic, string(c.PanS)), Var: c.Var}
	nodes = append(nodes, n)
	a, b, r := expJSON(n.A), expJSON(n.B), expJSON(n.R)
	w := &want{}
	e := errText(n.Err)
	ids := fmt.Sprint(id)
	switch c.Kind {
	case 0:
		w.name, w.args, w.res, e = "One", []string{a, ids}, []string{r}, ""
	case 1:
		w.name, w.args, w.res = "Two", []string{ids, a, b}, []string{r}
	case 2:
		w.name, w.args, w.res, e = "(*Recv).M", []string{obj("V", a), b, ids}, []string{r}, ""
	case 3:
		w.name, w.args, w.res = "RecvV.V", []string{obj("X", a, "N", "3"), ids}, []string{r, `"s"`}
	case 4:
		w.name, w.args, w.res, e = "Gen", []string{a, ids}, []string{r}, ""
		if n.R == nil {
			w.res = []string{"null"}
		}
	case 5:
		vs := "*"
		if a != "*" && b != "*" {
			vs = "[" + a + "," + b + "]"
		}
		w.name, w.args, w.res = "Ctx", []string{ids, vs}, []string{r}
	}
	w.err = jsonText(e)
	for _, k := range c.Kids {
		ki, kw := plan(k, global)
		n.Kids = append(n.Kids, ki)
		w.kids = append(w.kids, kw)
	}
	if c.Var {
		w.kids = append(w.kids, &want{name: "Global", isVar: true, res: []string{global}})
	}
	if n.Panic != nil {
		w.panicked, w.err, w.res = true, jsonText(fmt.Sprint(n.Panic)), nil
	}
	return id, w
}

func obj(kv ...string) string {
	var s []string
	for i := 0; i < len(kv); i += 2 {
		if kv[i+1] == "*" {
			return "*"
		}
		s = append(s, fmt.Sprintf("%q:%s", kv[i], kv[i+1]))
	}
	return "{" + strings.Join(s, ",") + "}"
}

type entry struct {
	FuncInfo  struct{ Pkg, Name, Kind string }
	Args      json.RawMessage
	Results   json.RawMessage
	Panic     bool
	PanicLine int
	Error     string
	Children  []*entry
}

type doc struct {
	Format   string
	Begin    string
	Children []*entry
}

// values of an object, in order
func fields(b json.RawMessage) ([]string, error) {
	dec := json.NewDecoder(bytes.NewReader(b))
	t, err := dec.Token()
	if err != nil {
		return nil, err
	}
	if t == nil {
		return nil, nil
	}
	if t != json.Delim('{') {
		return nil, fmt.Errorf("not an object: %.60s", b)
	}
	var vs []string
	for dec.More() {
		if _, err := dec.Token(); err != nil {
			return nil, err
		}
		var r json.RawMessage
		if err := dec.Decode(&r); err != nil {
			return nil, err
		}
		vs = append(vs, string(r))
	}
	return vs, nil
}

func same(want, got string) bool {
	if want == "*" || want == got {
		return true
	}
	dec := func(s string) (v interface{}) {
		d := json.NewDecoder(strings.NewReader(s))
		d.UseNumber()
		d.Decode(&v)
		return
	}
	return reflect.DeepEqual(dec(want), dec(got))
}

func cmpFields(what string, want []string, b json.RawMessage) error {
	got, err := fields(b)
	if err != nil {
		return fmt.Errorf("%s: %v", what, err)
	}
	if len(got) != len(want) {
		return fmt.Errorf("%s: %d values, want %d: %.300s", what, len(got), len(want), b)
	}
	for i := range want {
		if !same(want[i], got[i]) {
			return fmt.Errorf("%s: value %d is %.300s, want %.300s", what, i, got[i], want[i])
		}
	}
	return nil
}

func cmp(path string, ws []*want, es []*entry) error {
	if len(ws) != len(es) {
		return fmt.Errorf("%s has %d calls, want %d", path, len(es), len(ws))
	}
	for i, w := range ws {
		e := es[i]
		p := fmt.Sprintf("%s/%s[%d]", path, w.name, i)
		if e.FuncInfo.Name != w.name || e.FuncInfo.Pkg != "rlab/r07" {
			return fmt.Errorf("%s: got %s.%s", p, e.FuncInfo.Pkg, e.FuncInfo.Name)
		}
		if w.isVar {
			if !same(w.res[0], string(e.Results)) {
				return fmt.Errorf("%s: value %.300s, want %.300s", p, e.Results, w.res[0])
			}
			continue
		}
		if err := cmpFields(p+" arguments", w.args, e.Args); err != nil {
			return err
		}
		if w.panicked != e.Panic {
			return fmt.Errorf("%s: panic %v, want %v", p, e.Panic, w.panicked)
		}
		if w.err != e.Error {
			return fmt.Errorf("%s: error %q, want %q", p, e.Error, w.err)
		}
		if !w.panicked {
			if err := cmpFields(p+" results", w.res, e.Results); err != nil {
				return err
			}
		}
		if err := cmp(p, w.kids, e.Children); err != nil {
			return err
		}
	}
	return nil
}

func filter(f *core.FuncInfo) bool {
	switch f.Name {
	case "Global":
		return true
	case "Trace":
		return f.Pkg == "github.com/xhd2015/xgo/runtime/trace"
	}
	return f.Pkg == "rlab/r07" && f.Kind == core.Kind_Func && f.Name != "" && f.Name[0] >= 'A' && f.Name[0] <= 'Z'
}

var files int

func runTrace(finish bool, f func()) ([]byte, error) {
	file := filepath.Join(vh.OutDir(), "trace.json")
	os.Remove(file)
	var onFin []byte
	cfg := trace.Config{OutputFile: file, FilterTrace: filter}
	if finish {
		cfg.OnFinish = func(s stack_model.IStack) {
			onFin, _ = s.JSON()
		}
	}
	_, err := trace.Trace(cfg, nil, func() (interface{}, error) {
		f()
		return nil, nil
	})
	if err != nil {
		return nil, fmt.Errorf("Trace: %v", err)
	}
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, fmt.Errorf("no trace file: %v", err)
	}
	if finish && !bytes.Equal(b, onFin) {
		return nil, fmt.Errorf("OnFinish's JSON differs from the file:\n%.300s\n%.300s", onFin, b)
	}
	return b, nil
}

func parse(b []byte) (*entry, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("the trace file is not valid JSON: %s", cut(b))
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	dec.UseNumber()
	var d doc
	if err := dec.Decode(&d); err != nil {
		return nil, fmt.Errorf("the trace file does not decode: %v: %s", err, cut(b))
	}
	if d.Format != "stack" || len(d.Children) != 1 || d.Children[0].FuncInfo.Name != "Trace" {
		return nil, fmt.Errorf("the trace file has no trace: %s", cut(b))
	}
	if _, err := time.Parse(time.RFC3339, d.Begin); err != nil {
		return nil, err
	}
	return d.Children[0], nil
}

func cut(b []byte) string {
	if len(b) > 600 {
		return string(b[:300]) + " ... " + string(b[len(b)-300:])
	}
	return string(b)
}

// keep files for the viewer
func keep(b []byte) {
	if files < 250 && len(b) < 400_000 && os.Getenv("VERIF_VIEW") != "" {
		files++
		os.WriteFile(filepath.Join(os.Getenv("VERIF_VIEW"), fmt.Sprintf("f%03d.json", files)), b, 0644)
	}
}

func oracle(c Case) vh.Result {
	var res vh.Result
	nodes = nil
	Global = c.Global.Build()
	global := expJSON(Global)
	var ids []int
	var ws []*want
	for _, k := range c.Calls {
		id, w := plan(k, global)
		ids, ws = append(ids, id), append(ws, w)
	}
	b, err := runTrace(c.Finish, func() {
		for _, id := range ids {
			call(id)
		}
	})
	if err != nil {
		res.Err = err
		return res
	}
	e, err := parse(b)
	if err == nil {
		err = cmp("trace", ws, e.Children)
	}
	if err != nil {
		res.Err = err
		return res
	}
	// later traces are not affected
	nodes = []*Node{{R: "r"}}
	after, err := runTrace(false, func() { One("after", 0) })
	if err == nil {
		e, err = parse(after)
	}
	if err == nil {
		err = cmp("next trace", []*want{{name: "One", args: []string{`"after"`, "0"}, res: []string{`"r"`}}}, e.Children)
	}
	if err != nil {
		res.Err = err
		return res
	}
	keep(b)
	class := map[string]bool{}
	odd := 0
	mark := func(v Val) {
		v.walk(func(v Val) {
			k := v.K
			if k == "marsh" {
				k += "-" + marshKinds[v.N%len(marshKinds)]
			}
			class[k] = true
			if k != "nil" && k != "int" && k != "bool" {
				odd++
			}
		})
	}
	var walk func(c *Call)
	walk = func(c *Call) {
		mark(c.A)
		mark(c.B)
		mark(c.R)
		if c.Panic != "" {
			class["panic-"+c.Panic] = true
		} else if c.Err != "" && (c.Kind == 1 || c.Kind == 3 || c.Kind == 5) {
			class["error-"+c.Err] = true
		}
		for _, k := range c.Kids {
			walk(k)
		}
	}
	for _, k := range c.Calls {
		walk(k)
	}
	res.Classes = vh.Keys(class)
	res.NonTrivial = odd >= 3
	return res
}

func TestValues(t *testing.T) {
	vh.Run(t, "values", vh.Options{
		Rule:   "trees of calls of functions, methods, generic and variadic functions whose arguments, results, errors and panic values are drawn from 60 kinds of values (arbitrary bytes, cycles, nesting up to 5000, 1 MB texts, channels, functions, marshallers that fail, panic, return garbage or call instrumented functions, ...), and a variable read; the trace file (and OnFinish's JSON) has to be valid JSON with exactly the calls made, values as encoding/json gives them where it can; a later trace is complete too; non-trivial: at least 3 values other than nil, int and bool",
		Crashy: true, Timeout: 60 * time.Second}, genCase, oracle)
}

type DeepCase struct {
	Calls, Chain, Nest, Go int
}

func genDeep(t *rapid.T) DeepCase {
	n := rapid.OneOf(rapid.IntRange(1, 100), rapid.SampledFrom([]int{1990, 1999, 2000, 2001, 2500, 4000, 4990, 5000, 6000, 9000, 9999, 10001, 20000}), rapid.IntRange(1500, 12000))
	return DeepCase{n.Draw(t, "calls"), n.Draw(t, "chain"), n.Draw(t, "nest"), rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "go")}
}

func deepOracle(c DeepCase) vh.Result {
	var r *ring
	for i := 0; i < c.Chain; i++ {
		r = &ring{Next: r}
	}
	var x interface{} = 1
	for i := 0; i < c.Nest; i++ {
		x = []interface{}{x}
	}
	nodes = []*Node{{R: x}}
	var res vh.Result
	b, err := runTrace(false, func() {
		Deep(c.Calls, c.Go, r)
		One(r, 0)
	})
	var e *entry
	if err == nil {
		e, err = parse(b)
	}
	if err != nil {
		res.Err = err
		return res
	}
	deep, one := 0, 0
	shallow := 0
	var walk func(e *entry, depth int)
	walk = func(e *entry, depth int) {
		switch e.FuncInfo.Name {
		case "Deep":
			deep++
			if depth < 1000 {
				shallow++
			}
		case "One":
			one++
			if depth != 1 {
				err = fmt.Errorf("One was called outside Deep, but is at depth %d", depth)
			}
			var fs []string
			fs, err = fields(e.Args)
			if err == nil && (len(fs) != 2 || fs[1] != "0") {
				err = fmt.Errorf("the argument next to a deep one is lost: %.200s", e.Args)
			}
			if err == nil && c.Nest < 4000 {
				err = cmpFields("results", []string{expJSON(x)}, e.Results)
			}
			if err == nil && c.Chain < 4000 && !same(expJSON(r), fs[0]) {
				err = fmt.Errorf("a chain of %d is shown as %.200s", c.Chain, fs[0])
			}
		}
		for i, k := range e.Children {
			if depth < 1000 && i > 0 && e.FuncInfo.Name == "Deep" && k.FuncInfo.Name == "Deep" {
				err = fmt.Errorf("Deep has two calls of Deep at depth %d", depth)
			}
			walk(k, depth+1)
		}
	}
	walk(e, 0)
	if err == nil && (deep != c.Calls || one != 1) {
		err = fmt.Errorf("the trace has %d calls of Deep and %d of One, want %d and 1", deep, one, c.Calls)
	}
	if err != nil {
		res.Err = err
		return res
	}
	if c.Calls > 1500 {
		res.Classes = append(res.Classes, "deep-calls")
	}
	if c.Chain > 1500 {
		res.Classes = append(res.Classes, "deep-chain")
	}
	if c.Nest > 1500 {
		res.Classes = append(res.Classes, "deep-nest")
	}
	if c.Go > 0 {
		res.Classes = append(res.Classes, "goroutines")
	}
	res.NonTrivial = len(res.Classes) > 0
	keep(b)
	return res
}

func TestDeep(t *testing.T) {
	vh.Run(t, "deep", vh.Options{
		Rule:   "recursion of 1 to 20000 calls, partly through goroutines, and linked lists and slices nested 1 to 20000 deep as argument and result: the file has to decode with encoding/json and hold every call; values below 4000 levels are shown as they are; non-trivial: something is deeper than 1500, or goroutines take part",
		Crashy: true, Timeout: 60 * time.Second, Div: 20}, genDeep, deepOracle)
}
