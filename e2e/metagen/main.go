// Command metagen reads directories of packages (lines "dir importpath maybe"
// on stdin) and writes to each a file zz_refs.go: a table of what is declared
// there, as go/parser sees it, with a reference to each declaration. It shares
// no code with xgo.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		f := strings.Fields(in.Text())
		if len(f) != 3 {
			continue
		}
		if err := one(f[0], f[1], f[2] == "maybe"); err != nil {
			// the package does not compile
			fmt.Fprintln(os.Stderr, f[0], err)
		}
	}
}

// arguments for type parameters without a constraint, of comparable ones first
var anyArgs = []string{"int", "string", "zzm.P", "[2]zzm.Q[int]", "*zzm.P", "[]int", "map[string][]zzm.P", "func(zzm.P) []int"}

type gen struct {
	fset  *token.FileSet
	types map[string]*ast.TypeSpec
	n     int
}

func (g *gen) text(e ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, g.fset, e)
	return b.String()
}

// instances returns lists of type arguments, nil if there is none
func (g *gen) instances(fl *ast.FieldList) []string {
	var rows [2][]string
	for _, f := range fl.List {
		for range f.Names {
			for i := range rows {
				g.n++
				switch t := g.text(f.Type); {
				case t == "any" || t == "interface{}":
					rows[i] = append(rows[i], anyArgs[g.n%len(anyArgs)])
				case t == "comparable":
					rows[i] = append(rows[i], anyArgs[g.n%5])
				case strings.Contains(t, "int") && !strings.Contains(t, "interface") && !strings.Contains(t, "["):
					rows[i] = append(rows[i], "int")
				default:
					return nil
				}
			}
		}
	}
	a, b := strings.Join(rows[0], ", "), strings.Join(rows[1], ", ")
	if a == b {
		return []string{a}
	}
	return []string{a, b}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func names(fl *ast.FieldList) []string {
	var r []string
	if fl == nil {
		return nil
	}
	for _, f := range fl.List {
		if len(f.Names) == 0 {
			r = append(r, "_")
		}
		for _, n := range f.Names {
			r = append(r, n.Name)
		}
	}
	return r
}

func one(dir, path string, maybe bool) error {
	g := &gen{fset: token.NewFileSet(), types: map[string]*ast.TypeSpec{}}
	fs, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	var files []*ast.File
	var fnames []string
	for _, f := range fs {
		if b := filepath.Base(f); b == "zz_refs.go" || strings.HasSuffix(b, "_test.go") {
			continue
		}
		file, err := parser.ParseFile(g.fset, f, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, file)
		fnames = append(fnames, f)
	}
	if len(files) == 0 {
		return fmt.Errorf("no files")
	}
	for _, f := range files {
		for _, d := range f.Decls {
			if gd, ok := d.(*ast.GenDecl); ok && gd.Tok == token.TYPE {
				for _, s := range gd.Specs {
					s := s.(*ast.TypeSpec)
					g.types[s.Name.Name] = s
				}
			}
		}
	}
	var out bytes.Buffer
	fmt.Fprintf(&out, "package %s\n\nimport zzm \"pv/metachk\"\n\nfunc MetaCheck() {\n\tzzm.Check(%q, %v, []zzm.Decl{\n", files[0].Name.Name, path, maybe)
	line := func(p token.Pos) int { return g.fset.PositionFor(p, false).Line }
	for i, f := range files {
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body == nil || d.Name.Name == "_" || d.Recv == nil && d.Name.Name == "init" {
					continue
				}
				nosplit := false
				if d.Doc != nil {
					for _, c := range d.Doc.List {
						nosplit = nosplit || strings.HasPrefix(c.Text, "//go:nosplit")
					}
				}
				fmt.Fprintf(&out, "\t\t{Kind: 0, Name: %q, File: %q, Line: %d, Nosplit: %v, Args: %#v, Res: %#v", d.Name.Name, fnames[i], line(d.Pos()), nosplit, names(d.Type.Params), names(d.Type.Results))
				generic := d.Type.TypeParams != nil
				base := d.Name.Name
				identity := base
				bases := []string{base}
				if d.Recv != nil {
					r := d.Recv.List[0]
					t := unparen(r.Type)
					ptr := false
					if s, ok := t.(*ast.StarExpr); ok {
						ptr, t = true, unparen(s.X)
					}
					targs := false
					switch x := t.(type) {
					case *ast.IndexExpr:
						t, targs = x.X, true
					case *ast.IndexListExpr:
						t, targs = x.X, true
					}
					tn := t.(*ast.Ident).Name
					rn := "_"
					if len(r.Names) > 0 {
						rn = r.Names[0].Name
					}
					bases = nil
					format := "%s.%s"
					if ptr {
						format = "(*%s).%s"
					}
					identity = fmt.Sprintf(format, tn, base)
					if targs {
						generic = true
						if ts := g.types[tn]; ts != nil && ts.TypeParams != nil {
							for _, in := range g.instances(ts.TypeParams) {
								bases = append(bases, fmt.Sprintf(format, tn+"["+in+"]", base))
							}
						}
					} else {
						bases = []string{identity}
					}
					fmt.Fprintf(&out, ", RecvType: %q, RecvPtr: %v, RecvName: %q", tn, ptr, rn)
				}
				var refs []string
				if d.Type.TypeParams == nil {
					refs = bases
				} else {
					for _, b := range bases {
						for _, in := range g.instances(d.Type.TypeParams) {
							refs = append(refs, b+"["+in+"]")
						}
					}
				}
				// values of generic methods are closures
				fmt.Fprintf(&out, ", Identity: %q, Generic: %v, Closure: %v", identity, generic, d.Recv != nil && d.Type.TypeParams != nil)
				if len(refs) > 0 {
					fmt.Fprintf(&out, ", Refs: []interface{}{%s}", strings.Join(refs, ", "))
				}
				fmt.Fprintf(&out, "},\n")
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						if d.Tok != token.VAR {
							continue
						}
						for _, n := range s.Names {
							if n.Name == "_" {
								continue
							}
							fmt.Fprintf(&out, "\t\t{Kind: 1, Name: %q, Identity: %q, File: %q, Line: %d, Res: %#v, Maybe: %v, Refs: []interface{}{&%s}},\n", n.Name, n.Name, fnames[i], line(n.Pos()), []string{n.Name}, s.Type == nil, n.Name)
						}
					case *ast.TypeSpec:
						if _, ok := s.Type.(*ast.InterfaceType); ok && s.Name.Name != "_" {
							fmt.Fprintf(&out, "\t\t{Kind: 0, Name: %q, Identity: %q, RecvType: %q, File: %q, Line: %d, Interface: true},\n", s.Name.Name, s.Name.Name, s.Name.Name, fnames[i], line(s.Name.Pos()))
						}
					}
				}
			}
		}
	}
	fmt.Fprintf(&out, "\t})\n}\n")
	return os.WriteFile(filepath.Join(dir, "zz_refs.go"), out.Bytes(), 0644)
}
