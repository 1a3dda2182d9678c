// Package r07v gives trace documents to the viewer and reads the page it serves.
package r07v

import (
	"bytes"
	"encoding/json"
	"fmt"
	"html"
	"io"
	"math"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xhd2015/xgo/cmd/xgo/trace"
	"github.com/xhd2015/xgo/cmd/xgo/trace/render"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// ---- documents

type FI struct {
	Kind, Pkg, Name, File string
	Line                  int
	ArgNames              []string
	Flag                  bool
}

type Node struct {
	Info       *FI
	Begin, End int64
	Args, Res  string // JSON
	Panic      bool
	PanicLine  int
	Error      string
	Kids       []*Node
}

type Doc struct {
	Kids []*Node
	Sep  string // what stands in front
}

type Case struct {
	Docs   []Doc
	Legacy bool
	Tail   string
	Cut    int // percent of the last document that is there, 0: all
	File   string
}

var texts = []string{"a", "Func", "(*T).M", "<b>", "</script>", "</span>", "<!--", "&amp;", "&", "'", "\"", "\\", "`${1}`", "\u2028", "é世😀", "\n", "\t", "\x00", " ", "]]>", "%d", "</title>", "javascript:", "T[go.shape.int]", "\ufffd"}

func genText(t *rapid.T) string {
	return strings.Join(rapid.SliceOfN(rapid.SampledFrom(texts), 0, 4).Draw(t, "text"), "")
}

func js(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	e.Encode(v)
	return strings.TrimSpace(b.String())
}

var numbers = []string{"0", "-0", "1.0", "1e400", "123456789012345678901234567890", "9007199254740993", "-1.50E+10", "0.1000", "18446744073709551615"}

func genJSON(t *rapid.T, depth int) string {
	k := rapid.IntRange(0, 6).Draw(t, "json")
	if depth == 0 && k > 3 {
		k -= 3
	}
	switch k {
	case 0:
		return "null"
	case 1:
		return rapid.SampledFrom(numbers).Draw(t, "num")
	case 2, 3:
		return js(genText(t))
	case 4:
		var l []string
		for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
			l = append(l, genJSON(t, depth-1))
		}
		return "[" + strings.Join(l, ",") + "]"
	}
	var l []string
	for i := rapid.IntRange(0, 3).Draw(t, "n"); i > 0; i-- {
		l = append(l, js(fmt.Sprint(genText(t), i))+":"+genJSON(t, depth-1))
	}
	return "{" + strings.Join(l, ", ") + "}"
}

func genNode(t *rapid.T, depth int, legacy bool) *Node {
	n := &Node{Args: genJSON(t, 2), Res: genJSON(t, 2), Panic: rapid.Bool().Draw(t, "panic"), Error: rapid.SampledFrom([]string{"", "", "err", "</script>", "\"<x>"}).Draw(t, "error")}
	n.Begin = rapid.OneOf(rapid.Just(int64(0)), rapid.Int64Range(0, 1<<40)).Draw(t, "begin")
	n.End = n.Begin + rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 999, 1000, 1001, 999999, 1000000, 59999999999, 60000000000, 3599999999999, 3600000000000, 86400000000000, -5, -5000}), rapid.Int64Range(0, 1<<50)).Draw(t, "cost")
	if n.Panic {
		n.PanicLine = rapid.IntRange(0, 500).Draw(t, "line")
	}
	if legacy || rapid.IntRange(0, 7).Draw(t, "info") > 0 {
		n.Info = &FI{Kind: rapid.SampledFrom([]string{"func", "var", "var_ptr", ""}).Draw(t, "kind"), Pkg: genText(t), Name: genText(t), File: genText(t), Line: rapid.IntRange(0, 9).Draw(t, "fline"), Flag: rapid.Bool().Draw(t, "flag")}
		n.Info.ArgNames = rapid.SliceOfN(rapid.SampledFrom(texts), 0, 2).Draw(t, "names")
	}
	if depth > 0 {
		for i := rapid.IntRange(0, 3).Draw(t, "kids"); i > 0; i-- {
			n.Kids = append(n.Kids, genNode(t, depth-1, legacy))
		}
	}
	return n
}

func gen(t *rapid.T) Case {
	c := Case{Legacy: rapid.IntRange(0, 4).Draw(t, "legacy") == 0, File: rapid.SampledFrom([]string{"t.json", "Test<b>.json", "a&amp;b\".json", "<title><script>x", "é 世.json", "%41.json"}).Draw(t, "file")}
	docs := 1
	if !c.Legacy {
		docs = rapid.SampledFrom([]int{1, 1, 2, 3}).Draw(t, "docs")
		c.Tail = rapid.SampledFrom([]string{"", "", "\n", " \t\r\n", "x", "]", "{", "\"", "null5", "{\"Format\":5}", "{\"a\" 1}", "\x00"}).Draw(t, "tail")
		if rapid.IntRange(0, 4).Draw(t, "cut") == 0 {
			c.Cut, c.Tail = rapid.IntRange(1, 99).Draw(t, "percent"), ""
		}
	}
	for ; docs > 0; docs-- {
		d := Doc{Sep: rapid.SampledFrom([]string{"", "\n", " "}).Draw(t, "sep")}
		for i := rapid.IntRange(0, 3).Draw(t, "roots"); i > 0; i-- {
			d.Kids = append(d.Kids, genNode(t, 3, c.Legacy))
		}
		c.Docs = append(c.Docs, d)
	}
	return c
}

func (n *Node) write(b *strings.Builder, legacy bool) {
	beg, end := "BeginNs", "EndNs"
	if legacy {
		beg, end = "Begin", "End"
	}
	b.WriteString(`{"FuncInfo":`)
	if n.Info == nil {
		b.WriteString("null")
	} else {
		m := map[string]interface{}{"Kind": n.Info.Kind, "Pkg": n.Info.Pkg, "Name": n.Info.Name, "File": n.Info.File, "Line": n.Info.Line, "ArgNames": n.Info.ArgNames, "Generic": n.Info.Flag, "Stdlib": n.Info.Flag, "LastResultErr": n.Info.Flag, "RecvPtr": !n.Info.Flag, "RecvName": n.Info.Pkg}
		if legacy {
			m["IdentityName"], m["Name"] = n.Info.Name, "other"
		}
		b.WriteString(js(m))
	}
	fmt.Fprintf(b, `,%q:%d,%q:%d,"Args":%s,"Results":%s,"Panic":%v,"PanicLine":%d,"Error":%s,"Children":`, beg, n.Begin, end, n.End, n.Args, n.Res, n.Panic, n.PanicLine, js(n.Error))
	writeAll(b, n.Kids, legacy)
	b.WriteString("}")
}

func writeAll(b *strings.Builder, ns []*Node, legacy bool) {
	if ns == nil {
		b.WriteString("null")
		return
	}
	b.WriteString("[")
	for i, k := range ns {
		if i > 0 {
			b.WriteString(", ")
		}
		k.write(b, legacy)
	}
	b.WriteString("]")
}

// text gives the document and the number of complete stacks in it.
func (c Case) text() (string, int) {
	var b strings.Builder
	complete := len(c.Docs)
	for i, d := range c.Docs {
		var one strings.Builder
		if c.Legacy {
			one.WriteString(`{"Begin":"2024-03-01T12:00:00Z","Children":`)
		} else {
			one.WriteString(`{"Format":"stack","Begin":"2024-03-01T12:00:00Z","Children":`)
		}
		writeAll(&one, d.Kids, c.Legacy)
		one.WriteString("}")
		s := one.String()
		if i == len(c.Docs)-1 && c.Cut > 0 {
			s = s[:1+(len(s)-1)*c.Cut/100]
			complete--
		}
		b.WriteString(d.Sep + s)
	}
	return b.String() + c.Tail, complete
}

// ---- what the page has to show

// item is one line of the page
type item struct {
	depth  int
	name   string
	cost   string
	panick bool
	err    bool
	data   map[string]interface{} // nil: not checked
}

func cost(begin, end int64) string {
	if begin == 0 && end == 0 {
		return ""
	}
	c, sign := end-begin, ""
	if c < 0 {
		c, sign = -c, "-"
	}
	if c > 1<<51 {
		return "*"
	}
	units := []string{"ns", "μs", "ms", "s", "m", "h", "d"}
	size := []int64{1, 1000, 1000, 1000, 60, 60, 24}
	per, u := int64(1), "ns"
	for i := 1; i < len(units) && c >= per*size[i]; i++ {
		per *= size[i]
		u = units[i]
	}
	return fmt.Sprint(sign, c/per, u)
}

func decode(s string) (v interface{}, err error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	err = d.Decode(&v)
	return
}

func str(v interface{}) string {
	s, _ := v.(string)
	return s
}

func num(v interface{}) int64 {
	n, _ := v.(json.Number)
	i, _ := n.Int64()
	return i
}

// items lists a decoded entry and its children.
func items(into []item, e map[string]interface{}, depth int, legacy bool) []item {
	it := item{depth: depth, data: map[string]interface{}{}}
	info, _ := e["FuncInfo"].(map[string]interface{})
	name := "Name"
	beg, end := "BeginNs", "EndNs"
	if legacy {
		name, beg, end = "IdentityName", "Begin", "End"
	}
	if info != nil {
		it.name = str(info[name])
	}
	if it.name == "" {
		it.name = "<unknown>"
	}
	it.cost = cost(num(e[beg]), num(e[end]))
	it.panick, _ = e["Panic"].(bool)
	it.err = str(e["Error"]) != ""
	for k, v := range e {
		switch k {
		case beg:
			it.data["BeginNs"] = v
		case end:
			it.data["EndNs"] = v
		case "Args", "Results", "Panic", "Error":
			it.data[k] = v
		case "PanicLine":
			if !legacy {
				it.data[k] = v
			}
		case "FuncInfo":
			fi := map[string]interface{}{}
			for k, v := range info {
				if legacy && (k == "IdentityName" || k == "Name") {
					continue
				}
				fi[k] = v
			}
			if info != nil {
				if legacy {
					fi["Name"] = info["IdentityName"]
				}
				it.data[k] = fi
			} else {
				it.data[k] = nil
			}
		}
	}
	into = append(into, it)
	kids, _ := e["Children"].([]interface{})
	for _, k := range kids {
		into = items(into, k.(map[string]interface{}), depth+1, legacy)
	}
	return into
}

// contains tells if the page's data has everything of w.
func contains(w, g interface{}, path string) error {
	if wm, ok := w.(map[string]interface{}); ok {
		gm, ok := g.(map[string]interface{})
		if !ok {
			return fmt.Errorf("%s is %v, want an object", path, g)
		}
		for k, v := range wm {
			if err := contains(v, gm[k], path+"."+k); err != nil {
				return err
			}
		}
		return nil
	}
	if !reflect.DeepEqual(w, g) {
		return fmt.Errorf("%s is %#v, want %#v", path, g, w)
	}
	return nil
}

// ---- the page

type page struct {
	title   string
	scripts []string
	items   []item
	ids     []string
}

var tagRe = regexp.MustCompile(`^<(/?)([a-zA-Z!][a-zA-Z0-9]*)((?:[^"'>]|"[^"]*"|'[^']*')*)>`)
var attrRe = regexp.MustCompile(`([a-zA-Z-]+)="([^"]*)"`)

func parsePage(s string) (*page, error) {
	p := &page{}
	type open struct{ tag, class string }
	var st []open
	lists := 0
	in := func(tag string) bool { return len(st) > 0 && st[len(st)-1].tag == tag }
	var cur *item
	for s != "" {
		if s[0] != '<' {
			i := strings.IndexByte(s, '<')
			if i < 0 {
				i = len(s)
			}
			text := html.UnescapeString(s[:i])
			s = s[i:]
			if len(st) == 0 {
				if strings.TrimSpace(text) != "" {
					return nil, fmt.Errorf("text outside: %q", text)
				}
				continue
			}
			top := st[len(st)-1]
			switch {
			case top.tag == "title":
				p.title += text
			case top.class == "head-name":
				cur.name += text
			case top.class == "head-cost":
				cur.cost += text
			default:
				if t := strings.TrimSpace(text); t != "" && !in("label") {
					return nil, fmt.Errorf("stray text %q in <%s class=%q>", t, top.tag, top.class)
				}
			}
			continue
		}
		m := tagRe.FindStringSubmatch(s)
		if m == nil {
			return nil, fmt.Errorf("not a tag: %.80q", s)
		}
		s = s[len(m[0]):]
		tag := strings.ToLower(m[2])
		if tag == "!doctype" || tag == "meta" || strings.HasSuffix(m[3], "/") {
			continue
		}
		attr := map[string]string{}
		for _, a := range attrRe.FindAllStringSubmatch(m[3], -1) {
			attr[a[1]] = html.UnescapeString(a[2])
		}
		if m[1] == "/" {
			if !in(tag) {
				return nil, fmt.Errorf("</%s> closes %v", tag, st)
			}
			if st[len(st)-1].class == "trace-sub-list" {
				lists--
			}
			st = st[:len(st)-1]
			continue
		}
		if tag == "script" || tag == "style" {
			i := strings.Index(strings.ToLower(s), "</"+tag)
			if i < 0 {
				return nil, fmt.Errorf("<%s> is not closed", tag)
			}
			if tag == "script" {
				if strings.Contains(s[:i], "<!--") {
					return nil, fmt.Errorf("<!-- inside a script")
				}
				p.scripts = append(p.scripts, s[:i])
			}
			s = s[i:]
		}
		class := attr["class"]
		if class == "head-info" {
			p.items = append(p.items, item{depth: lists})
			cur = &p.items[len(p.items)-1]
			id := strings.TrimPrefix(attr["id"], "head_")
			p.ids = append(p.ids, id)
			if attr["onclick"] != "onClickHead('"+id+"')" {
				return nil, fmt.Errorf("click of %s: %s", id, attr["onclick"])
			}
		}
		if f := strings.Fields(class); len(f) > 0 && f[0] == "head-block" {
			for _, x := range f[1:] {
				cur.panick = cur.panick || x == "panic"
				cur.err = cur.err || x == "error"
			}
		}
		if class == "trace-sub-list" {
			lists++
		}
		st = append(st, open{tag, class})
	}
	if len(st) > 0 {
		return nil, fmt.Errorf("not closed: %v", st)
	}
	return p, nil
}

var traceRe = regexp.MustCompile(`^ traces\["(\d+)"\] = (.*)$`)

func checkPage(body, file string, want []item, more bool) error {
	p, err := parsePage(body)
	if err != nil {
		return err
	}
	if p.title != "Trace of "+file {
		return fmt.Errorf("title %q, want the file %q", p.title, file)
	}
	if len(p.scripts) != 1 {
		return fmt.Errorf("%d scripts", len(p.scripts))
	}
	data := map[string]map[string]interface{}{}
	var order []string
	for _, l := range strings.Split(p.scripts[0], "\n") {
		m := traceRe.FindStringSubmatch(l)
		if m == nil {
			if strings.HasPrefix(l, " ids.push(") {
				order = append(order, strings.Trim(l, " ids.push()\""))
			}
			continue
		}
		v, err := decode(m[2])
		o, ok := v.(map[string]interface{})
		if err != nil || !ok {
			return fmt.Errorf("data of %s is not a JSON object (%v): %.200s", m[1], err, m[2])
		}
		if data[m[1]] != nil {
			return fmt.Errorf("two calls have the id %s", m[1])
		}
		data[m[1]] = o
	}
	if len(p.items) < len(want) || !more && len(p.items) > len(want) {
		return fmt.Errorf("the page shows %d calls, want %d", len(p.items), len(want))
	}
	if !reflect.DeepEqual(order, p.ids) {
		return fmt.Errorf("ids of the script %v, of the page %v", order, p.ids)
	}
	if more && len(p.items) > len(want) && p.items[len(want)].depth != 0 {
		return fmt.Errorf("call %d is shown inside the complete ones", len(want))
	}
	for i, w := range want {
		g := p.items[i]
		if w.cost == "*" {
			g.cost = "*"
		}
		if w.data == nil && more {
			// numbered when there are several
			g.name = w.name
		}
		if w.depth != g.depth || w.name != g.name || w.cost != g.cost || w.panick != g.panick || w.err != g.err {
			return fmt.Errorf("call %d is shown as depth %d %q cost %q panic %v error %v, want depth %d %q cost %q panic %v error %v", i, g.depth, g.name, g.cost, g.panick, g.err, w.depth, w.name, w.cost, w.panick, w.err)
		}
		d := data[p.ids[i]]
		if d == nil {
			return fmt.Errorf("call %d has no data", i)
		}
		if w.data != nil {
			if err := contains(w.data, d, fmt.Sprintf("call %d", i)); err != nil {
				return err
			}
		}
		if d["Children"] != nil {
			return fmt.Errorf("data of call %d has the calls inside", i)
		}
	}
	return nil
}

// expected lists what the first n documents of text need.
func expected(text string, n int, legacy bool) ([]item, error) {
	dec := json.NewDecoder(strings.NewReader(text))
	dec.UseNumber()
	var all []item
	for i := 0; i < n; i++ {
		var m map[string]interface{}
		if err := dec.Decode(&m); err != nil {
			return nil, err
		}
		root := item{name: "<root>"}
		if n > 1 {
			root.name = fmt.Sprintf("<root_%d>", i)
		}
		all = append(all, root)
		kids, _ := m["Children"].([]interface{})
		for _, k := range kids {
			all = items(all, k.(map[string]interface{}), 1, legacy)
		}
	}
	return all, nil
}

// ---- serving

var dir string
var serveMu sync.Mutex
var servers = map[string]string{}

func serve(file string) (string, error) {
	serveMu.Lock()
	defer serveMu.Unlock()
	if u := servers[file]; u != "" {
		return u, nil
	}
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", err
	}
	port := l.Addr().(*net.TCPAddr).Port
	l.Close()
	go trace.Main([]string{"--bind", "127.0.0.1", fmt.Sprintf("--port=%d", port), "--", file})
	u := fmt.Sprintf("http://127.0.0.1:%d/", port)
	for i := 0; ; i++ {
		c, err := net.Dial("tcp", u[7:len(u)-1])
		if err == nil {
			c.Close()
			break
		}
		if i > 500 {
			return "", fmt.Errorf("the viewer does not serve %s", u)
		}
		time.Sleep(10 * time.Millisecond)
	}
	servers[file] = u
	return u, nil
}

var client = &http.Client{Timeout: 20 * time.Second}

func get(file string) (int, string, error) {
	u, err := serve(file)
	if err != nil {
		return 0, "", err
	}
	r, err := client.Get(u)
	if err != nil {
		return 0, "", fmt.Errorf("the viewer does not answer: %v", err)
	}
	defer r.Body.Close()
	b, err := io.ReadAll(r.Body)
	return r.StatusCode, string(b), err
}

func show(text, name string, n int, legacy, broken bool) error {
	file := filepath.Join(dir, name)
	if err := os.WriteFile(file, []byte(text), 0644); err != nil {
		return err
	}
	code, body, err := get(file)
	if err != nil {
		return err
	}
	if n == 0 {
		if code == 200 || body == "" {
			return fmt.Errorf("broken document, but the answer is %d %.200q", code, body)
		}
		return nil
	}
	if code != 200 {
		return fmt.Errorf("status %d: %.300s", code, body)
	}
	want, err := expected(text, n, legacy)
	if err != nil {
		return fmt.Errorf("harness: %v", err)
	}
	if err := checkPage(body, file, want, broken); err != nil {
		return err
	}
	if legacy {
		return nil
	}
	// the library entry
	var b bytes.Buffer
	if err := render.RenderFile(file, &b); err != nil {
		return fmt.Errorf("RenderFile: %v", err)
	}
	if err := checkPage(b.String(), file, want, broken); err != nil {
		return fmt.Errorf("RenderFile: %v", err)
	}
	return nil
}

func oracle(c Case) vh.Result {
	text, n := c.text()
	broken := c.Cut > 0 || strings.TrimSpace(c.Tail) != ""
	var res vh.Result
	res.Err = show(text, c.File, n, c.Legacy, broken)
	class := map[string]bool{}
	if c.Legacy {
		class["legacy"] = true
	}
	if c.Cut > 0 {
		class["truncated"] = true
	} else if broken {
		class["garbage-tail"] = true
	}
	if len(c.Docs) > 1 {
		class["several-stacks"] = true
	}
	if strings.ContainsAny(c.File, "<&") {
		class["odd-file-name"] = true
	}
	calls := 0
	var walk func(ns []*Node)
	walk = func(ns []*Node) {
		for _, n := range ns {
			calls++
			if n.Info == nil {
				class["unknown-call"] = true
			}
			walk(n.Kids)
		}
	}
	for _, d := range c.Docs {
		walk(d.Kids)
	}
	res.Classes = vh.Keys(class)
	res.NonTrivial = calls >= 2 || broken
	return res
}

func TestMain(m *testing.M) {
	var err error
	dir, err = os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "view")
	if err != nil {
		panic(err)
	}
	// the viewer starts a browser
	os.Setenv("PATH", dir)
	if math.MaxInt == 0 {
		return
	}
	code := m.Run()
	os.RemoveAll(dir)
	os.Exit(code)
}

func TestDocuments(t *testing.T) {
	vh.Run(t, "documents", vh.Options{
		Rule:    "files with one to three stacks, or one of the older format, with generated calls (hostile names, paths and values, numbers of any size, missing function info), optionally cut off anywhere or followed by garbage; `xgo tool trace` serves them over HTTP and RenderFile renders them: the page has to be well formed and show every call once, in order, at its depth, with its name, cost and marks, and carry exactly its data; stacks before a broken one are shown; non-trivial: two calls, or broken",
		Timeout: 30 * time.Second}, gen, oracle)
}

type FileCase struct{ Text string }

func TestFiles(t *testing.T) {
	files, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_VIEW"), "*.json"))
	sort.Strings(files)
	if len(files) == 0 && os.Getenv("VERIF_REPLAY") == "" {
		t.Skip("no files")
	}
	vh.Run(t, "files", vh.Options{
		Rule:    "trace files written by the traced programs of the other properties: the viewer has to show all of them completely; non-trivial: the file has at least 3 calls",
		Timeout: 60 * time.Second}, func(t *rapid.T) FileCase {
		b, err := os.ReadFile(files[rapid.IntRange(0, len(files)-1).Draw(t, "file")])
		if err != nil {
			panic(err)
		}
		return FileCase{string(b)}
	}, func(c FileCase) vh.Result {
		return vh.Result{Err: show(c.Text, "program.json", 1, false, false), NonTrivial: strings.Count(c.Text, `"FuncInfo"`) >= 3}
	})
}
