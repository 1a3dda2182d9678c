package t01

import (
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/instrument/patch"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func pick[T any](t *rapid.T, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, "p") }

// ---- the source

type Decl struct {
	Kind  int    // 0 func, 1 method, 2 struct, 3 interface, 4 var, 5 group of types, 6 generic func
	Name  string // of a function or type
	Recv  string // "t *T"
	Dir   string // directive line above
	Items []int  // statements, fields or methods
	One   bool   // on one line
	Group [][]int
}

type Cmd struct {
	Op   string
	Arg  string
	Arg2 string
}

type Block struct {
	Name string
	Cmds []Cmd
	Junk int
}

type Case struct {
	Head  string
	Decls []Decl
	Tail  string
	V1    []Block
	V2    []Block
}

var stmts = []string{"call1(1)", "call1(1, 2)", "x := f(é)", "if a { b() }", `s("call1(1)")`, "y = `q`", "call2() // call1(1)", "/* call1(1) */ z()", "go func() { call2() }()", "defer call3()"}
var fields = []string{"F0 int", "F1 string", "F1x string", "F2 map[string]int", "f3 *int // F0 int", "F4 struct { F5 int }"}
var methods = []string{"M0()", "M1(a int) string", "M1x() M0", "M2() // M0()"}
var directives = []string{"//go:noinline", "//go:linkname l1 x.y", "//go:linkname l1 x.yz", "//go:linkname l2 x.y"}

type span struct{ lo, hi int }

type declInfo struct {
	kind   int
	name   string
	recv   string
	decl   span // whole top-level declaration
	spec   span // type specification
	typ    span // struct or interface type
	lbrace int
	rbrace int
	fields map[string]int
}

type src struct {
	text  string
	decls []declInfo // functions, type specifications and var declarations
}

func (c Case) build() src {
	var b strings.Builder
	var s src
	b.WriteString(c.Head)
	if i := strings.Index(c.Head, "var q"); i >= 0 {
		hi := len(strings.TrimSpace(c.Head))
		s.decls = append(s.decls, declInfo{kind: 4, name: "q", decl: span{i, hi}, spec: span{i + 4, hi}})
	}
	w := func(x string) span {
		lo := b.Len()
		b.WriteString(x)
		return span{lo, b.Len()}
	}
	typ := func(kind int, name string, items []int, one bool, d *declInfo) {
		d.kind, d.name, d.fields = kind, name, map[string]int{}
		lo := b.Len()
		w(name + " ")
		tlo := b.Len()
		w(map[int]string{2: "struct ", 3: "interface "}[kind])
		d.lbrace = b.Len()
		w("{")
		sep := "\n"
		if one {
			sep = ";"
		}
		if !one {
			w("\n")
		}
		for i, it := range items {
			list := fields
			if kind == 3 {
				list = methods
			}
			x := list[it]
			if one {
				x = strings.TrimSpace(strings.SplitN(x, "//", 2)[0])
			}
			n := strings.SplitN(x, " ", 2)[0]
			if kind == 2 {
				name := fmt.Sprintf("%s_%d", n, i)
				x = name + x[len(n):]
				if !one {
					w("\t")
				}
				d.fields[name] = b.Len()
			} else if !one {
				w("\t")
			}
			w(x + sep)
		}
		d.rbrace = b.Len()
		w("}")
		d.spec = span{lo, b.Len()}
		d.typ = span{tlo, b.Len()}
	}
	for _, d := range c.Decls {
		if d.Dir != "" {
			w(d.Dir + "\n")
		}
		lo := b.Len()
		switch d.Kind {
		case 0, 1, 6:
			di := declInfo{kind: 0, name: d.Name, recv: d.Recv}
			w("func ")
			if d.Kind == 1 {
				w("(" + d.Recv + ") ")
			}
			w(d.Name)
			if d.Kind == 6 {
				w("[A any]")
			}
			w("(a int) ")
			di.lbrace = b.Len()
			w("{")
			if d.One {
				for _, i := range d.Items {
					w(" " + strings.TrimSpace(strings.SplitN(stmts[i], "//", 2)[0]) + ";")
				}
				w(" ")
			} else {
				w("\n")
				for _, i := range d.Items {
					w("\t" + stmts[i] + "\n")
				}
			}
			di.rbrace = b.Len()
			w("}")
			di.decl = span{lo, b.Len()}
			di.spec = di.decl
			s.decls = append(s.decls, di)
		case 2, 3:
			var di declInfo
			w("type ")
			typ(d.Kind, d.Name, d.Items, d.One, &di)
			di.decl = span{lo, b.Len()}
			s.decls = append(s.decls, di)
		case 4:
			w("var " + d.Name)
			w(" = `call1(1)`")
			s.decls = append(s.decls, declInfo{kind: 4, name: d.Name, decl: span{lo, b.Len()}, spec: span{lo + 4, b.Len()}})
		case 5:
			w("type (\n")
			k := len(s.decls)
			for i, items := range d.Group {
				var di declInfo
				w("\t")
				typ(2+i%2, fmt.Sprintf("%s%d", d.Name, i), items, d.One, &di)
				if d.One && i%2 == 0 && i+1 < len(d.Group) {
					w(";")
				} else {
					w("\n")
				}
				s.decls = append(s.decls, di)
			}
			w(")")
			for ; k < len(s.decls); k++ {
				s.decls[k].decl = span{lo, b.Len()}
			}
		}
		w(c.sep(d))
	}
	if t := w(c.Tail); strings.HasPrefix(c.Tail, "var") {
		s.decls = append(s.decls, declInfo{kind: 4, name: "tail", decl: t, spec: span{t.lo + 4, t.hi}})
	}
	s.text = b.String()
	return s
}

func (c Case) sep(d Decl) string {
	if d.One {
		return ";\n"
	}
	return "\n\n"
}

// ---- the model

type ch struct {
	b    byte
	hid  bool
	orig int
}

type doc []ch

func chars(s string, hid bool) doc {
	d := make(doc, len(s))
	for i := range d {
		d[i] = ch{s[i], hid, -1}
	}
	return d
}

func (d doc) String() string {
	b := make([]byte, len(d))
	for i, c := range d {
		b[i] = c.b
	}
	return string(b)
}

var errDiscard = errors.New("outside the model")

type model struct {
	s     src
	d     doc
	pos   map[int]int // of an original offset in d
	text  string
	named map[int]bool
	rich  bool // several edits that interact
}

func (m *model) index() {
	m.pos = map[int]int{}
	for i, c := range m.d {
		if c.orig >= 0 {
			m.pos[c.orig] = i
		}
	}
	m.text = m.d.String()
}

// rng gives the range in d of a range of the original
func (m *model) rng(s span) span {
	lo, ok := m.pos[s.lo]
	hi, ok2 := m.pos[s.hi-1]
	if !ok || !ok2 {
		return span{-1, -1}
	}
	return span{lo, hi + 1}
}

// scope of a cursor
func (m *model) scope(at int) (span, *declInfo, string, error) {
	if at == 0 {
		return span{0, len(m.d)}, nil, "file", nil
	}
	in := func(r span) bool { return r.lo >= 0 && r.lo <= at && at <= r.hi }
	for i := range m.s.decls {
		di := &m.s.decls[i]
		r := m.rng(di.decl)
		if r.lo < 0 {
			return span{}, nil, "", errDiscard
		}
		if !in(r) {
			continue
		}
		if di.kind == 0 {
			return r, di, "func", nil
		}
		if sr := m.rng(di.spec); in(sr) {
			if di.kind == 4 {
				return sr, di, "var", nil
			}
			if tr := m.rng(di.typ); in(tr) {
				return tr, di, "type", nil
			}
			return sr, di, "spec", nil
		}
		// another specification of a group?
		if i+1 < len(m.s.decls) && m.s.decls[i+1].decl == di.decl {
			continue
		}
		return r, nil, "decl", nil
	}
	// inserted text outside declarations can hold declarations of its own
	if m.d[at].orig < 0 {
		return span{}, nil, "", errDiscard
	}
	return span{0, len(m.d)}, nil, "file", nil
}

func (m *model) find(lo, hi int, text string) int {
	for i := lo; i+len(text) <= hi; i++ {
		if m.text[i:i+len(text)] != text {
			continue
		}
		ok := true
		for _, c := range m.d[i : i+len(text)] {
			if c.hid {
				ok = false
			}
		}
		if ok {
			return i
		}
	}
	return -1
}

type mark struct {
	lo, hi int
	text   string
	old    bool
	raw    doc
}

func (m *model) apply(b Block) error {
	m.index()
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "", m.text, parser.ParseComments)
	if err != nil {
		return fmt.Errorf("earlier blocks leave no Go file")
	}
	// a newline inserted within a declaration can make it another one
	m.named = map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			m.named[fset.Position(n.Pos()).Offset] = true
		case *ast.TypeSpec:
			m.named[fset.Position(n.Pos()).Offset] = true
		case *ast.Field:
			for _, name := range n.Names {
				m.named[fset.Position(name.Pos()).Offset] = true
			}
		}
		return true
	})
	// the group of edits at one position
	type piece struct {
		at   int
		text string
	}
	var (
		befores, afters, repls []*piece
		last                   *piece
		marks                  []mark
		appends                []doc
	)
	lo, hi, next := 0, 0, -1
	isFind, moved := false, false
	closeGroup := func() {
		k := mark{lo: lo, hi: lo}
		for _, p := range befores {
			k.text = p.text + k.text
		}
		if len(befores) > 0 {
			marks = append(marks, k)
		}
		k = mark{lo: lo, hi: hi, old: true}
		for _, p := range repls {
			k.text += p.text
		}
		if len(repls) > 0 {
			marks = append(marks, k)
		}
		for i, p := range afters {
			if i > 0 && afters[i-1].at == p.at {
				marks[len(marks)-1].text += p.text
			} else {
				marks = append(marks, mark{lo: p.at, hi: p.at, text: p.text})
			}
		}
		befores, afters, repls, last, next, isFind = nil, nil, nil, nil, -1, false
	}
	goTo := func(l, h int) {
		closeGroup()
		lo, hi, moved = l, h, true
	}
	add := func(list *[]*piece, at int, text string) {
		last = &piece{at, text}
		*list = append(*list, last)
	}
	for _, c := range b.Cmds {
		switch c.Op {
		case "goto":
			l, h, err := m.goTo(c.Arg, lo)
			if err != nil {
				return err
			}
			goTo(l, h)
		case "match", "find_for_replace":
			sc, _, _, err := m.scope(lo)
			if err != nil {
				return err
			}
			at := -1
			if c.Op == "find_for_replace" && lo > sc.lo && lo <= sc.hi {
				for i := sc.lo; i < lo; i++ {
					if k := m.find(i, lo, c.Arg); k >= 0 {
						at, i = k, k
						continue
					}
					break
				}
			}
			if at < 0 {
				at = m.find(sc.lo, sc.hi, c.Arg)
			}
			if at < 0 {
				return fmt.Errorf("text not found")
			}
			goTo(at, at+len(c.Arg))
			isFind = c.Op == "find_for_replace"
		case "insert_before":
			if !moved {
				return fmt.Errorf("no position")
			}
			add(&befores, lo, c.Arg)
		case "insert_after", "insert_after_line":
			if !moved {
				return fmt.Errorf("no position")
			}
			at := hi
			if next >= 0 {
				at = next
			}
			if c.Op == "insert_after_line" {
				if at < len(m.text) && m.text[at] == '\n' {
					at++
				}
				next = at
			}
			add(&afters, at, c.Arg)
		case "replace":
			if !isFind {
				return fmt.Errorf("replace without find")
			}
			if strings.Contains(m.text[lo:hi], "*/") {
				return fmt.Errorf("comment in old")
			}
			add(&repls, lo, c.Arg)
		case "newline":
			if last != nil {
				last.text += "\n"
			}
		case "copy_func":
			var di *declInfo
			for i := range m.s.decls {
				if x := &m.s.decls[i]; x.kind == 0 && x.recv == "" && x.name == c.Arg {
					di = x
					break
				}
			}
			if di == nil {
				return fmt.Errorf("no func")
			}
			r := m.rng(di.decl)
			f := append(doc{}, m.d[r.lo:r.hi]...)
			for i := range f {
				f[i].orig = -1
			}
			k := m.pos[di.decl.lo+len("func ")] - r.lo
			f = append(append(append(doc{}, f[:k]...), chars(c.Arg2, false)...), f[k+len(c.Arg):]...)
			appends = append(appends, f)
		case "replace_directive":
			at := -1
			off := 0
			for _, line := range strings.SplitAfter(m.text, "\n") {
				if strings.TrimSuffix(line, "\n") == c.Arg {
					at = off
					break
				}
				off += len(line)
			}
			if at < 0 {
				return fmt.Errorf("no directive")
			}
			raw := chars("/*<next-line-original "+b.Name+">"+c.Arg+"</next-line-original>*/", true)
			raw = append(raw, chars("\n"+c.Arg2, false)...)
			marks = append(marks, mark{lo: at, hi: at + len(c.Arg), raw: raw})
		}
	}
	closeGroup()
	sort.SliceStable(marks, func(i, j int) bool {
		if marks[i].lo != marks[j].lo {
			return marks[i].lo < marks[j].lo
		}
		return marks[i].hi == marks[i].lo && marks[j].hi > marks[j].lo
	})
	begin, end := "/*<begin "+b.Name+">*/", "/*<end "+b.Name+">*/"
	var out doc
	at := 0
	for _, k := range marks {
		if k.lo < at {
			return fmt.Errorf("overlap")
		}
		out = append(out, m.d[at:k.lo]...)
		if k.raw != nil {
			out = append(out, k.raw...)
		} else {
			out = append(out, chars(begin, true)...)
			if k.old {
				out = append(out, chars("/*old:"+m.text[k.lo:k.hi]+"*/", true)...)
			}
			out = append(out, chars(k.text, false)...)
			out = append(out, chars(end, true)...)
		}
		at = k.hi
	}
	out = append(out, m.d[at:]...)
	for _, f := range appends {
		nl := len(out) > 0 && out[len(out)-1].b == '\n'
		out = append(out, chars(begin, true)...)
		if !nl {
			out = append(out, chars("\n", false)...)
		}
		out = append(out, f...)
		out = append(out, chars(end, true)...)
	}
	m.d = out
	if len(marks)+len(appends) > 1 {
		m.rich = true
	}
	return nil
}

func (m *model) goTo(target string, cur int) (int, int, error) {
	p := func(o int) (int, error) {
		i, ok := m.pos[o]
		if !ok {
			return 0, errDiscard
		}
		return i, nil
	}
	switch {
	case strings.HasPrefix(target, "struct "), strings.HasPrefix(target, "interface "), strings.HasPrefix(target, "func "):
		w := strings.SplitN(target, " ", 2)
		for _, di := range m.s.decls {
			ok := false
			switch w[0] {
			case "struct":
				ok = di.kind == 2 && di.name == w[1]
			case "interface":
				ok = di.kind == 3 && di.name == w[1]
			case "func":
				recv, name := "", w[1]
				if strings.HasPrefix(name, "(") {
					k := strings.Index(name, ") ")
					recv, name = name[1:k], name[k+2:]
				}
				typ := di.recv
				if k := strings.Index(typ, " "); k >= 0 {
					typ = typ[k+1:]
				}
				ok = di.kind == 0 && di.name == name && (recv == di.recv || recv != "" && recv == typ)
			}
			if ok {
				i, err := p(di.spec.lo)
				if err == nil && !m.named[i] {
					err = errDiscard
				}
				return i, i, err
			}
		}
		return 0, 0, fmt.Errorf("no declaration")
	}
	_, di, kind, err := m.scope(cur)
	if err != nil {
		return 0, 0, err
	}
	if di == nil || kind == "var" {
		return 0, 0, fmt.Errorf("no current declaration")
	}
	if target == "opening {" || target == "closing }" {
		o := di.lbrace
		if target == "closing }" {
			o = di.rbrace
		}
		i, err := p(o)
		return i, i + 1, err
	}
	name := strings.TrimPrefix(target, "field ")
	o, ok := di.fields[name]
	if di.kind != 2 || !ok {
		return 0, 0, fmt.Errorf("no field")
	}
	i, err := p(o)
	if err == nil && !m.named[i] {
		err = errDiscard
	}
	return i, i, err
}

func expect(s src, blocks []Block) (string, bool, error) {
	m := &model{s: s}
	m.d = chars(s.text, false)
	for i := range m.d {
		m.d[i].orig = i
	}
	for _, b := range blocks {
		if err := m.apply(b); err != nil {
			return "", false, err
		}
	}
	return m.d.String(), m.rich || len(blocks) > 1, nil
}

func script(blocks []Block) string {
	var b strings.Builder
	for _, bl := range blocks {
		if bl.Junk == 1 {
			b.WriteString("notes between blocks\n\n")
		}
		b.WriteString(strings.TrimRight("<patch "+bl.Name, " ") + ">\n")
		if bl.Junk == 2 {
			b.WriteString("# goto func nowhere\n\n")
		}
		for i, c := range bl.Cmds {
			line := c.Op
			switch c.Op {
			case "copy_func":
				line += " " + c.Arg + " as " + c.Arg2 + " append to file end"
			case "replace_directive":
				line += " " + c.Arg + " with " + c.Arg2
			case "newline":
			default:
				line += " " + c.Arg
			}
			switch (bl.Junk + i) % 5 {
			case 1:
				line = "\t" + line
			case 2:
				line += " \t"
			case 3:
				line += "\r"
			case 4:
				line += "\n\n#x"
			}
			b.WriteString(line + "\n")
		}
		b.WriteString("</patch>\n")
	}
	return b.String()
}

// ---- generator

func genItems(t *rapid.T, n int) []int {
	return rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 5).Draw(t, "items")
}

func genCase(t *rapid.T) Case {
	var c Case
	c.Head = pick(t, "package p\n\n", "package p\n", "// call1(1)\npackage p // F0 int\n\nimport \"os\"\n\n", "/* call1(1) */ package p; ", "package p\n\nvar q = `\n//go:linkname l1 x.y\n`\n\n")
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "decls"); i < n; i++ {
		d := Decl{Kind: rapid.IntRange(0, 6).Draw(t, "kind"), One: rapid.IntRange(0, 3).Draw(t, "one") == 0}
		d.Name = pick(t, "Now", "f", "g", "T", "Tree") + pick(t, "", fmt.Sprint(i))
		switch d.Kind {
		case 0, 6:
			d.Items = genItems(t, len(stmts))
		case 1:
			d.Items = genItems(t, len(stmts))
			d.Recv = pick(t, "t *T", "t T", "*T", "t *Tree", "tt *T", "T")
		case 2:
			d.Items = genItems(t, len(fields))
		case 3:
			d.Items = genItems(t, len(methods))
		case 5:
			for j := rapid.IntRange(1, 3).Draw(t, "group"); j > 0; j-- {
				k := len(methods)
				d.Group = append(d.Group, genItems(t, k))
			}
		}
		if d.Kind == 0 || d.Kind == 1 || d.Kind == 6 {
			d.Dir = pick(t, "", "", pick(t, directives...))
		}
		c.Decls = append(c.Decls, d)
	}
	c.Tail = pick(t, "", "", "// end\n", "// end", "var tail = 1")
	c.V1 = genBlocks(t, c, nil)
	c.V2 = genBlocks(t, c, c.V1)
	return c
}

func genBlocks(t *rapid.T, c Case, like []Block) []Block {
	names := []string{"a", "ab", "a b", "xgo_x", ""}
	var bs []Block
	n := rapid.IntRange(1, 3).Draw(t, "blocks")
	perm := rapid.Permutation(names).Draw(t, "names")
	if like != nil {
		n = len(like)
	}
	for i := 0; i < n; i++ {
		b := Block{Name: perm[i], Junk: rapid.IntRange(0, 4).Draw(t, "junk")}
		if like != nil {
			b.Name = like[i].Name
			if rapid.IntRange(0, 2).Draw(t, "same") == 0 {
				b = like[i]
				bs = append(bs, b)
				continue
			}
			if rapid.IntRange(0, 4).Draw(t, "empty") == 0 {
				bs = append(bs, b)
				continue
			}
		}
		for k := rapid.IntRange(1, 3).Draw(t, "groups"); k > 0; k-- {
			b.Cmds = append(b.Cmds, genGroup(t, c)...)
		}
		bs = append(bs, b)
	}
	return bs
}

var bad = func(t *rapid.T, x string, y string) string {
	if rapid.IntRange(0, 39).Draw(t, "bad") == 39 {
		return y
	}
	return x
}

func genGroup(t *rapid.T, c Case) []Cmd {
	d := pick(t, c.Decls...)
	var cmds []Cmd
	add := func(op, arg string) { cmds = append(cmds, Cmd{Op: op, Arg: arg}) }
	id := func() string { return fmt.Sprint(rapid.IntRange(0, 99).Draw(t, "id")) }
	nl := func() {
		if rapid.Bool().Draw(t, "nl") {
			add("newline", "")
		}
	}
	inserts := func(op string, texts ...string) {
		for k := rapid.IntRange(1, 3).Draw(t, "ins"); k > 0; k-- {
			x := pick(t, texts...)
			must := strings.HasSuffix(x, "\n")
			add(op, strings.TrimSpace(strings.ReplaceAll(x, "$", id())))
			if must {
				add("newline", "")
			} else {
				nl()
			}
		}
	}
	anywhere := []string{"/* c$ */", "/* call1(1) */", "/*é$*/"}
	body := []string{"i$();", "{ i$() };", "/* c */call1(1);", "i$() // call1(1)\n", "if x { i$() };", `s("*$");`, "call2()\n", "call1(1);"}
	follow := []string{";i$()", ";i$();", ";{ i$() }", "/* c$ */", ";call1(1)", ";call2()"}
	var dirs, funcs []string
	for _, x := range c.Decls {
		if x.Dir != "" {
			dirs = append(dirs, x.Dir)
		}
		if x.Kind == 0 || x.Kind == 6 {
			funcs = append(funcs, x.Name)
		}
	}
	if len(dirs) == 0 || rapid.IntRange(0, 19).Draw(t, "anydir") == 0 {
		dirs = directives
	}
	if len(funcs) == 0 {
		funcs = []string{d.Name}
	}
	switch rapid.IntRange(0, 39).Draw(t, "special") {
	case 0, 1:
		cmds = append(cmds, Cmd{"copy_func", bad(t, pick(t, funcs...), "nowhere"), "Copy" + id()})
		return cmds
	case 20:
		cmds = append(cmds, Cmd{"copy_func", d.Name, "Copy" + id()})
		return cmds
	case 5, 6:
		cmds = append(cmds, Cmd{"replace_directive", pick(t, dirs...), "//go:linkname l1 z." + pick(t, "a", "b")})
		return cmds
	case 2:
		add(pick(t, "match", "find_for_replace"), pick(t, "package p", "call1(1)", "F0_0 int", "M0()", "func f", "func Now", "var", "type"))
		if rapid.IntRange(0, 9).Draw(t, "norepl") != 0 {
			inserts("insert_before", anywhere...)
		} else {
			add("replace", "x")
		}
		return cmds
	case 3:
		op := pick(t, "insert_before", "insert_after", "insert_after_line", "newline")
		add(op, map[bool]string{true: "", false: "/* c */"}[op == "newline"])
		return cmds
	case 4:
		add("match", "package p")
		inserts("insert_after", `;import x$ "os";`, anywhere[0])
		return cmds
	}
	switch d.Kind {
	case 0, 1, 6:
		name := d.Name
		if d.Kind == 1 {
			r := d.Recv
			if k := strings.Index(r, " "); k >= 0 && rapid.Bool().Draw(t, "noname") {
				r = r[k+1:]
			}
			name = "(" + bad(t, r, "Tr") + ") " + name
		}
		add("goto", "func "+bad(t, name, "nowhere"))
		if rapid.IntRange(0, 3).Draw(t, "atfunc") == 0 {
			inserts(pick(t, "insert_before", "insert_after"), "var V$ int;", "func h$() { call1(1) };", anywhere[0])
		}
		for k := rapid.IntRange(0, 3).Draw(t, "in"); k > 0; k-- {
			switch rapid.IntRange(0, 6).Draw(t, "where") {
			case 0:
				add("goto", "opening {")
				if rapid.IntRange(0, 3).Draw(t, "b") == 0 {
					inserts("insert_before", anywhere...)
				}
				inserts("insert_after", body...)
			case 1:
				add("goto", "closing }")
				inserts("insert_before", body...)
				if rapid.IntRange(0, 3).Draw(t, "b") == 0 {
					inserts("insert_after", anywhere...)
				}
			case 2, 3:
				add("match", stmtText(t, d))
				if rapid.IntRange(0, 2).Draw(t, "b") == 0 {
					inserts("insert_before", "/* b$ */", "/* call2() */")
				}
				inserts("insert_after", anywhere...)
				if rapid.IntRange(0, 2).Draw(t, "l") == 0 {
					add("insert_after_line", "/* l */")
					nl()
				}
			case 4:
				// a whole statement: what is inserted may be statements
				if len(d.Items) > 0 {
					x := strings.TrimSpace(strings.SplitN(stmts[pick(t, d.Items...)], "//", 2)[0])
					if x[0] != '/' {
						add("match", x)
						switch rapid.IntRange(0, 3).Draw(t, "m") {
						case 0:
							inserts("insert_after", follow...)
						case 1:
							inserts("insert_before", anywhere...)
							inserts("insert_after", anywhere...)
						default:
							inserts("insert_before", anywhere...)
						}
					}
				}
			case 5, 6:
				x := stmtText(t, d)
				add("find_for_replace", x)
				if rapid.IntRange(0, 4).Draw(t, "b") == 0 {
					inserts(pick(t, "insert_before", "insert_after"), anywhere...)
				}
				if x == "{" || x == "func" || x == d.Name {
					x = "a int"
					cmds[len(cmds)-1].Arg = x
				}
				add("replace", pick(t, x+"/* new */", "/* new */"+x, strings.ReplaceAll(x, "1", "3"), x+"/* call2() */"))
				if rapid.IntRange(0, 4).Draw(t, "a") == 0 {
					nl2 := pick(t, "insert_before", "insert_after", "insert_after_line")
					inserts(nl2, anywhere...)
				}
			}
		}
	case 2, 3, 5:
		kind, name, items := d.Kind, d.Name, d.Items
		if d.Kind == 5 {
			i := rapid.IntRange(0, len(d.Group)-1).Draw(t, "gi")
			kind, name, items = 2+i%2, fmt.Sprintf("%s%d", d.Name, i), d.Group[i]
		}
		add("goto", map[int]string{2: "struct ", 3: "interface "}[kind]+bad(t, name, "nowhere"))
		if rapid.IntRange(0, 4).Draw(t, "at") == 0 {
			inserts(pick(t, "insert_before", "insert_after"), anywhere...)
		}
		in := map[int][]string{2: {"X$ int;", "X$ struct{ F0_0 int };", "/* c */", "X$ int // F0 int\n"}, 3: {"N$();", "N$() // c\n", "/* M0() */"}}[kind]
		for k := rapid.IntRange(0, 3).Draw(t, "in"); k > 0; k-- {
			switch rapid.IntRange(0, 4).Draw(t, "where") {
			case 0:
				add("goto", "opening {")
				inserts("insert_after", in...)
			case 1:
				add("goto", "closing }")
				inserts("insert_before", in...)
			case 2:
				if len(items) > 0 && kind == 2 {
					i := rapid.IntRange(0, len(items)-1).Draw(t, "fi")
					n := strings.SplitN(fields[items[i]], " ", 2)[0]
					add("goto", bad(t, fmt.Sprintf("field %s_%d", n, i), "field F9"))
					inserts("insert_before", in...)
					break
				}
				fallthrough
			default:
				op := pick(t, "match", "find_for_replace")
				x := "{"
				if len(items) > 0 {
					i := rapid.IntRange(0, len(items)-1).Draw(t, "xi")
					y := map[int][]string{2: fields, 3: methods}[kind][items[i]]
					if kind == 2 {
						y = strings.Replace(y, " ", fmt.Sprintf("_%d ", i), 1)
					}
					y = strings.TrimSpace(strings.SplitN(y, "//", 2)[0])
					x = pick(t, y, y, strings.SplitN(y, " ", 2)[0], "{", bad(t, y, "F0"))
				} else if op == "find_for_replace" {
					op = "match"
				}
				if x == "{" {
					op = "match"
				}
				add(op, x)
				inserts(pick(t, "insert_before", "insert_after"), anywhere...)
				if op == "find_for_replace" && len(x) > 1 {
					add("replace", x+"/* r */")
				}
			}
		}
	case 4:
		add("match", "var "+d.Name)
		inserts("insert_before", "var V$ = 1;", anywhere[0])
		if rapid.Bool().Draw(t, "more") {
			add("match", pick(t, "=", "call1(1)", d.Name))
			inserts("insert_after", anywhere...)
		}
	}
	return cmds
}

func stmtText(t *rapid.T, d Decl) string {
	if rapid.IntRange(0, 29).Draw(t, "other") == 0 {
		return pick(t, "call1(1)", "call2()", "call9()", "i1()")
	}
	if len(d.Items) == 0 {
		return pick(t, "a int", "func", "{", d.Name)
	}
	x := stmts[pick(t, d.Items...)]
	if d.One {
		x = strings.TrimSpace(strings.SplitN(x, "//", 2)[0])
	}
	return pick(t, x, x, x, x, strings.SplitN(x, "(", 2)[0], strings.SplitN(x, "(", 2)[0], strings.SplitN(x, " ", 2)[0], pick(t, x, "call1(1)", "call2()", "/* call1(1) */", "i1"))
}

// ---- the check

func judge(c Case) vh.Result {
	s := c.build()
	w1, rich, e1 := expect(s, c.V1)
	w2, _, e2 := expect(s, c.V2)
	if e1 == errDiscard || e2 == errDiscard {
		return vh.Result{Classes: []string{"outside-the-model"}}
	}
	res := vh.Result{NonTrivial: rich && e1 == nil}
	if e1 != nil {
		res.Classes = append(res.Classes, "error: "+e1.Error())
	}
	s1, s2 := script(c.V1), script(c.V2)
	bad := func(format string, args ...interface{}) vh.Result { return vh.Errf(format, args...) }
	check := func(what, in, sc, want string, wantErr error) (string, bool) {
		got, err := patch.ApplyXgoPatchContent(in, sc)
		switch {
		case wantErr != nil:
			if err == nil {
				res = bad("%s: no error although: %v\nscript:\n%s\ntext:\n%s\ngot:\n%s", what, wantErr, sc, in, got)
				return "", false
			}
		case err != nil:
			res = bad("%s: %v\nscript:\n%s\ntext:\n%s\nexpected:\n%s", what, err, sc, in, want)
			return "", false
		case got != want:
			res = bad("%s\nscript:\n%s\ntext:\n%s\ngot:\n%s\nexpected:\n%s", what, sc, in, got, want)
			return "", false
		}
		return got, true
	}
	r1, ok := check("first application", s.text, s1, w1, e1)
	if !ok {
		return res
	}
	if e1 != nil {
		check("first application", s.text, s2, w2, e2)
		return res
	}
	if _, ok = check("second application", r1, s1, w1, nil); !ok {
		return res
	}
	r2, ok := check("newer script on a patched text", r1, s2, w2, e2)
	if !ok {
		return res
	}
	texts := []string{r1}
	if e2 == nil {
		texts = append(texts, r2)
	}
	for _, r := range texts {
		if got := patch.CleanPatch(r); got != s.text {
			return bad("removal gives another text\npatched:\n%s\ngot:\n%q\nexpected:\n%q", r, got, s.text)
		}
		var empty []Block
		for _, b := range c.V1 {
			empty = append(empty, Block{Name: b.Name})
		}
		if _, ok := check("applying empty blocks", r, script(empty), s.text, nil); !ok {
			return res
		}
	}
	return res
}

const rule = "a Go source (functions, methods, generics, structs, interfaces, type groups, directives, decoys in comments and strings) and two versions of a patch script of 1-3 blocks; non-trivial when the script applies and makes several edits"

func TestScripts(t *testing.T) {
	vh.Run(t, "scripts", vh.Options{Rule: rule}, genCase, judge)
}

// ---- whole directories

type File struct {
	Path   string
	Case   Case // a patch for a source
	Plain  string
	IsCopy bool
	Mode   int
}

type DirCase struct {
	Files []File
	Copy  []string // files of a copied directory
	Drop  []string // ignored after the copy
}

func genDir(t *rapid.T) DirCase {
	var c DirCase
	used := map[string]bool{}
	for i := rapid.IntRange(1, 4).Draw(t, "files"); i > 0; i-- {
		f := File{Path: pick(t, "", "src/", "src/cmd/go/", "src/a.b/") + pick(t, "a", "b", "x.y", "__config__") + pick(t, ".go", ".go", ".txt"), Mode: pick(t, 0644, 0755, 0600)}
		if used[f.Path] {
			continue
		}
		used[f.Path] = true
		f.IsCopy = rapid.Bool().Draw(t, "copy")
		if f.IsCopy {
			f.Plain = pick(t, "", "x", "package a\n")
		} else {
			f.Case = genCase(t)
			if _, _, err := expect(f.Case.build(), f.Case.V1); err != nil && rapid.IntRange(0, 9).Draw(t, "keep") != 0 {
				f.IsCopy, f.Plain, f.Case = true, "y", Case{}
			}
		}
		c.Files = append(c.Files, f)
	}
	for i := rapid.IntRange(0, 4).Draw(t, "ncopy"); i > 0; i-- {
		n := pick(t, "go.mod", "a.go", "d/b.go", "d/e/c.txt", "z")
		c.Copy = append(c.Copy, n)
		if rapid.IntRange(0, 2).Draw(t, "drop") == 0 {
			c.Drop = append(c.Drop, n)
		}
	}
	return c
}

func TestDirs(t *testing.T) {
	vh.Run(t, "dirs", vh.Options{Rule: "a directory of patch scripts and files to copy, applied twice to a tree; non-trivial when at least two files change"}, genDir,
		func(c DirCase) vh.Result {
			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "t01")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			put := func(p, text string, mode int) {
				p = filepath.Join(dir, p)
				if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
					panic(err)
				}
				if err := os.WriteFile(p, []byte(text), os.FileMode(mode)); err != nil {
					panic(err)
				}
			}
			want := map[string]string{}
			fails, first := false, ""
			for _, f := range c.Files {
				if f.IsCopy {
					put("patch/"+f.Path, f.Plain, f.Mode)
					if filepath.Base(f.Path) != "__config__.json" {
						want[f.Path] = f.Plain
					}
					continue
				}
				s := f.Case.build()
				w, _, err := expect(s, f.Case.V1)
				if err == errDiscard {
					return vh.Result{Classes: []string{"outside-the-model"}}
				}
				put("root/"+f.Path, s.text, f.Mode)
				put("patch/"+f.Path+".xgo.patch", script(f.Case.V1), 0644)
				want[f.Path] = w
				if err != nil {
					fails = true
					first = f.Path
					want[f.Path] = s.text
				}
			}
			put("root/other.go", "package other", 0644)
			want["other.go"] = "package other"
			cfg := `{"version": "x"`
			if len(c.Copy) > 0 {
				var ign []string
				for _, n := range c.Copy {
					put("xgo/sub/"+n, "copied "+n, 0644)
					want["dst/"+n] = "copied " + n
				}
				for _, n := range c.Drop {
					ign = append(ign, fmt.Sprintf("%q", "dst/"+n))
					delete(want, "dst/"+n)
				}
				cfg += fmt.Sprintf(`, "copy": [{"from": "sub/", "to": "dst/", "ignore_files": [%s]}]`, strings.Join(ign, ","))
			}
			put("patch/__config__.json", cfg+"}", 0644)
			j := func(p string) string { return filepath.Join(dir, p) }
			for round := 0; round < 2; round++ {
				err := patch.ApplyPatches(j("patch"), j("root"), j("xgo"), nil, nil, nil)
				if (err != nil) != fails {
					return vh.Errf("round %d: error %v, expected %v", round, err, fails)
				}
				if fails && len(c.Files) > 1 {
					// the files before the failing one may be patched
					data, _ := os.ReadFile(filepath.Join(dir, "root", first))
					if string(data) != want[first] {
						return vh.Errf("a script that fails changed its file:\n%s", data)
					}
					return vh.Result{Classes: []string{"error"}}
				}
				got := map[string]string{}
				filepath.Walk(j("root"), func(p string, fi os.FileInfo, err error) error {
					if err == nil && !fi.IsDir() {
						data, _ := os.ReadFile(p)
						rel, _ := filepath.Rel(j("root"), p)
						got[rel] = string(data)
					}
					return nil
				})
				for k, v := range want {
					if g, ok := got[k]; !ok || g != v {
						return vh.Errf("round %d, %s: %q, want %q", round, k, g, v)
					}
				}
				for k := range got {
					if _, ok := want[k]; !ok {
						return vh.Errf("round %d: extra file %s", round, k)
					}
				}
			}
			return vh.Result{NonTrivial: len(want) > 2}
		})
}
