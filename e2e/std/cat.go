//go:build ignore

// Lists functions and methods of the standard library that can be called with
// simple arguments: go run cat.go > catalogue.json
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var pkgs = strings.Fields(`strings bytes strconv unicode unicode/utf8 unicode/utf16 path path/filepath html net/url net/netip
mime mime/quotedprintable encoding/base64 encoding/base32 encoding/hex encoding/binary encoding/csv encoding/json encoding/pem encoding/ascii85 encoding/xml
hash/crc32 hash/crc64 hash/adler32 hash/fnv hash/maphash crypto/md5 crypto/sha1 crypto/sha256 crypto/sha512 crypto/hmac crypto/subtle
sort math math/big math/cmplx math/bits text/tabwriter text/scanner text/template html/template bufio errors fmt time regexp regexp/syntax container/list container/ring container/heap
go/token go/scanner go/format go/ast go/constant net net/mail net/textproto io io/fs log context text/template/parse archive/tar compress/lzw
database/sql/driver image image/color index/suffixarray`)

type Entry struct {
	Pkg    string   `json:"pkg"`
	Name   string   `json:"name"`
	Target string   `json:"target"`
	Call   string   `json:"call"`
	N      int      `json:"n"`
	Uses   []string `json:"uses,omitempty"`
}

var uses map[string]bool

func q(p *types.Package) string { return strings.ReplaceAll(strings.ReplaceAll(p.Path(), "/", "_"), ".", "_") + "_" }

func arg(t types.Type, i int) (string, bool) {
	switch s := t.String(); s {
	case "error":
		uses["errors"] = true
		return `errors_.New("e")`, true
	case "io.Reader":
		uses["strings"] = true
		return `strings_.NewReader("x y\n1,2\n")`, true
	case "io.Writer":
		uses["bytes"] = true
		return `new(bytes_.Buffer)`, true
	case "time.Time":
		uses["time"] = true
		return `time_.Unix(86400*200, 5).UTC()`, true
	case "context.Context":
		uses["context"] = true
		return `context_.Background()`, true
	case "*math/big.Int":
		uses["math/big"] = true
		return fmt.Sprintf(`math_big_.NewInt(%d)`, 5+i), true
	case "interface{}", "any":
		return `5`, true
	}
	switch u := t.(type) {
	case *types.Named, *types.Alias:
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !n.Obj().Exported() || n.TypeArgs().Len() > 0 || n.TypeParams().Len() > 0 {
			return "", false
		}
		uses[n.Obj().Pkg().Path()] = true
		name := q(n.Obj().Pkg()) + "." + n.Obj().Name()
		switch b := n.Underlying().(type) {
		case *types.Basic:
			a, ok := arg(b, i)
			return name + "(" + a + ")", ok
		case *types.Struct:
			return name + "{}", true
		case *types.Slice, *types.Map:
			return name + "{}", true
		case *types.Array:
			return name + "{1}", true
		}
		_ = u
		return "", false
	case *types.Pointer:
		n, ok := u.Elem().(*types.Named)
		if !ok || n.Obj().Pkg() == nil || !n.Obj().Exported() || n.TypeParams().Len() > 0 {
			return "", false
		}
		uses[n.Obj().Pkg().Path()] = true
		return "new(" + q(n.Obj().Pkg()) + "." + n.Obj().Name() + ")", true
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return []string{`"a b/c.d"`, `" "`, `"12"`}[i%3], true
		case u.Info()&types.IsBoolean != 0:
			return "true", true
		case u.Info()&types.IsFloat != 0:
			return "2.5", true
		case u.Kind() == types.Uint8:
			return "'b'", true
		case u.Kind() == types.Int32:
			return "'b'", true
		case u.Info()&types.IsInteger != 0:
			return []string{"2", "10", "3"}[i%3], true
		case u.Info()&types.IsComplex != 0:
			return "(1+2i)", true
		}
	case *types.Slice:
		if b, ok := u.Elem().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return []string{`[]byte("a b c")`, `[]byte(" ")`, `[]byte("b")`}[i%3], true
			case types.String:
				return `[]string{"b", "a/b", "c"}`, true
			case types.Int, types.Float64, types.Int32:
				return "[]" + b.Name() + "{3, 1, 2}", true
			}
		}
	case *types.Signature:
		if u.String() == "func(rune) bool" || u.String() == "func(r rune) bool" {
			return `func(r rune) bool { return r == ' ' }`, true
		}
	case *types.Array:
		return "", false
	}
	return "", false
}

// bodies: functions that have one, and are not marked nosplit
func bodies(path string) map[string]bool {
	bp, err := build.Import(path, "", 0)
	if err != nil {
		panic(err)
	}
	m := map[string]bool{}
	fset := token.NewFileSet()
	for _, f := range bp.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(bp.Dir, f), nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Doc != nil && strings.Contains(docs(fd.Doc), "//go:nosplit") {
				continue
			}
			n := fd.Name.Name
			if fd.Recv != nil {
				t := fd.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				id, ok := t.(*ast.Ident)
				if !ok {
					continue
				}
				n = id.Name + "." + n
			}
			m[n] = true
		}
	}
	return m
}

func docs(g *ast.CommentGroup) string {
	s := ""
	for _, c := range g.List {
		s += c.Text + "\n"
	}
	return s
}

func main() {
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "source", nil)
	var out []Entry
	for _, path := range pkgs {
		p, err := imp.Import(path)
		if err != nil {
			fmt.Fprintln(os.Stderr, path, err)
			continue
		}
		has := bodies(path)
		names := p.Scope().Names()
		sort.Strings(names)
		for _, n := range names {
			o := p.Scope().Lookup(n)
			if !o.Exported() {
				continue
			}
			switch o := o.(type) {
			case *types.Func:
				sig := o.Type().(*types.Signature)
				if sig.TypeParams().Len() > 0 || !has[n] {
					continue
				}
				uses = map[string]bool{path: true}
				if args, ok := call(sig); ok {
					add(&out, path, n, q(p)+"."+n, q(p)+"."+n+args, sig.Results().Len())
				}
			case *types.TypeName:
				nm, ok := o.Type().(*types.Named)
				if !ok || nm.TypeParams().Len() > 0 || types.IsInterface(nm) {
					continue
				}
				for i := 0; i < nm.NumMethods(); i++ {
					m := nm.Method(i)
					if !m.Exported() || !has[n+"."+m.Name()] {
						continue
					}
					uses = map[string]bool{path: true}
					sig := m.Type().(*types.Signature)
					recv, ok := arg(sig.Recv().Type(), 0)
					if !ok {
						continue
					}
					tn := q(p) + "." + n
					target := tn + "." + m.Name()
					if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
						target = "(*" + tn + ")." + m.Name()
					}
					if args, ok := call(sig); ok {
						if strings.HasPrefix(recv, "new(") || !strings.Contains(recv, "{") {
							recv = "(" + recv + ")"
						} else {
							recv = "(" + recv + ")"
						}
						add(&out, path, n+"."+m.Name(), target, recv+"."+m.Name()+args, sig.Results().Len())
					}
				}
			}
		}
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, e := range out {
		if skip(e) {
			continue
		}
		enc.Encode(e)
	}
}

// skip leaves out what touches the outside, ends the program or depends on time
func skip(e Entry) bool {
	for _, p := range []string{"Dial", "Listen", "Lookup", "File", "Resolve", "Interface", "Pipe", "Fatal", "Since", "Until", "Now", "Tick", "After", "NewTimer", "NewTicker", "Sleep", "Rel", "Abs", "Walk", "Glob", "EvalSymlinks", "ParseGlob", "ParseFiles", "Set"} {
		if strings.HasPrefix(e.Name, p) {
			return true
		}
	}
	for _, p := range []string{"Conn.", "Listener.", "Dialer.", "Resolver.", "ListenConfig.", "Timer.", "Ticker.", ".Fatal", "Interface.", "Buffers."} {
		if strings.Contains(e.Name, p) {
			return true
		}
	}
	return e.Pkg == "hash/maphash" || strings.HasSuffix(e.Name, ".Grow") && e.Pkg != "bytes"
}

func add(out *[]Entry, path, name, target, call string, n int) {
	var us []string
	for u := range uses {
		if u != path {
			us = append(us, u)
		}
	}
	sort.Strings(us)
	*out = append(*out, Entry{path, name, target, call, n, us})
}

func call(sig *types.Signature) (string, bool) {
	var as []string
	for i := 0; i < sig.Params().Len(); i++ {
		t := sig.Params().At(i).Type()
		if sig.Variadic() && i == sig.Params().Len()-1 {
			t = t.(*types.Slice).Elem()
		}
		a, ok := arg(t, i)
		if !ok {
			return "", false
		}
		as = append(as, a)
	}
	return "(" + strings.Join(as, ", ") + ")", true
}
