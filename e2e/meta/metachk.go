// Package metachk compares what xgo has registered about a package with what
// is declared in it. Without xgo nothing is registered and nothing compared.
package metachk

import (
	"context"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/xhd2015/xgo/runtime/core"
	"github.com/xhd2015/xgo/runtime/functab"
	"github.com/xhd2015/xgo/runtime/trap"
)

type P struct{ A int }
type Q[T any] struct{ A T }

type Decl struct {
	Kind               int
	Name, Identity     string
	RecvType, RecvName string
	RecvPtr            bool
	Generic, Interface bool
	Nosplit, Maybe     bool
	Closure            bool // references are closures
	Args, Res          []string
	File               string
	Line               int
	Refs               []interface{}
}

var bad int

func fail(format string, args ...interface{}) {
	bad++
	if bad <= 40 {
		fmt.Printf("MISMATCH "+format+"\n", args...)
	}
}

func sameNames(what string, got, want []string) {
	if len(got) != len(want) {
		fail("%s: %q, declared %q", what, got, want)
		return
	}
	for i := range got {
		// unnamed ones get a name of xgo's choice
		if want[i] != "_" && got[i] != want[i] {
			fail("%s: %q, declared %q", what, got, want)
			return
		}
	}
}

var ctxT = reflect.TypeOf((*context.Context)(nil)).Elem()
var errT = reflect.TypeOf((*error)(nil)).Elem()

func intercept(f interface{}, it *trap.Interceptor) (cancel func(), err interface{}) {
	defer func() {
		if e := recover(); e != nil {
			err = e
			cancel = func() {}
		}
	}()
	return trap.AddFuncInterceptor(f, it), nil
}

func Check(pkg string, maybe bool, decls []Decl) {
	defer fmt.Printf("%s: %d declarations\n", pkg, len(decls))
	if os.Getenv("VERIF_META") == "" {
		return
	}
	own := map[string]*core.FuncInfo{}
	dir := ""
	if len(decls) > 0 {
		dir = filepath.Dir(decls[0].File)
	}
	for _, f := range functab.GetFuncs() {
		if f.Pkg != pkg && f.File != "" && filepath.Dir(f.File) == dir {
			fail("entry of package %q: %s in %s", f.Pkg, f.IdentityName, f.File)
		}
		if f.Pkg != pkg || filepath.Base(f.File) == "zz_refs.go" {
			continue
		}
		if own[f.IdentityName] != nil {
			fail("two entries of %s", f.IdentityName)
		}
		own[f.IdentityName] = f
	}
	methods := map[reflect.Type]map[string]bool{}
	for _, d := range decls {
		what := pkg + " " + d.Identity
		f := own[d.Identity]
		delete(own, d.Identity)
		if f == nil {
			// of dependencies exported functions only
			if !(maybe && (d.Kind == 1 || !ast.IsExported(d.Name))) && !d.Maybe && !d.Nosplit && !d.Interface {
				fail("%s: no entry", what)
			}
			if functab.Info(pkg, d.Identity) != nil {
				fail("%s: found, but not in the list", what)
			}
			continue
		}
		if d.Nosplit {
			fail("%s: registered though //go:nosplit", what)
		}
		if functab.Info(pkg, d.Identity) != f {
			fail("%s: Info finds %v", what, functab.Info(pkg, d.Identity))
		}
		if functab.GetFuncByPkg(pkg, d.Identity) != f {
			fail("%s: GetFuncByPkg finds %v", what, functab.GetFuncByPkg(pkg, d.Identity))
		}
		if d.RecvPtr {
			if g := functab.GetFuncByPkg(pkg, d.RecvType+"."+d.Name); g != f {
				fail("%s: GetFuncByPkg without a star finds %v", what, g)
			}
		}
		if int(f.Kind) != d.Kind || f.Name != d.Name || f.RecvType != d.RecvType || f.RecvPtr != d.RecvPtr || f.Interface != d.Interface || f.Generic != d.Generic || f.Stdlib || f.Closure {
			fail("%s: entry %+v", what, *f)
		}
		if f.File != d.File || f.Line != d.Line {
			fail("%s: at %s:%d, declared at %s:%d", what, f.File, f.Line, d.File, d.Line)
		}
		if d.RecvName != "_" && f.RecvName != d.RecvName {
			fail("%s: receiver %q, declared %q", what, f.RecvName, d.RecvName)
		}
		if d.Interface {
			continue
		}
		sameNames(what+": arguments", f.ArgNames, d.Args)
		sameNames(what+": results", f.ResNames, d.Res)
		if d.Kind == 1 {
			v := reflect.ValueOf(d.Refs[0])
			if v.Type().Elem().Size() > 0 {
				if functab.InfoVar(d.Refs[0]) != f || functab.InfoVarAddr(v.Pointer()) != f {
					fail("%s: by its address: %v", what, functab.InfoVar(d.Refs[0]))
				}
				if v.Type() != reflect.TypeOf(f.Var) || v.Pointer() != reflect.ValueOf(f.Var).Pointer() {
					fail("%s: Var is %T", what, f.Var)
				}
			}
			if f.FullName != pkg+"."+d.Name || functab.GetFuncByFullName(f.FullName) != f {
				fail("%s: FullName %s", what, f.FullName)
			}
			continue
		}
		for _, ref := range d.Refs {
			v := reflect.ValueOf(ref)
			t := v.Type()
			if !d.Generic {
				if functab.InfoFunc(ref) != f || functab.InfoPC(v.Pointer()) != f || f.PC != v.Pointer() {
					fail("%s: by PC: %v", what, functab.InfoFunc(ref))
				}
				if f.Func == nil || reflect.ValueOf(f.Func).Pointer() != v.Pointer() || reflect.TypeOf(f.Func) != t {
					fail("%s: Func is %T", what, f.Func)
				}
				name := runtime.FuncForPC(v.Pointer()).Name()
				if f.FullName != name {
					fail("%s: FullName %s, of the PC %s", what, f.FullName, name)
				}
				if functab.GetFuncByFullName(name) != f {
					fail("%s: GetFuncByFullName(%s) finds %v", what, name, functab.GetFuncByFullName(name))
				}
				off := 0
				if d.RecvType != "" {
					off = 1
					if methods[t.In(0)] == nil {
						methods[t.In(0)] = map[string]bool{}
					}
					methods[t.In(0)][d.Name] = true
					if functab.GetTypeMethods(t.In(0))[d.Name] != f {
						fail("%s: GetTypeMethods(%v) has %v", what, t.In(0), functab.GetTypeMethods(t.In(0))[d.Name])
					}
				}
				if ctx := t.NumIn() > off && t.In(off) == ctxT; f.FirstArgCtx != ctx {
					fail("%s: FirstArgCtx %v, type %v", what, f.FirstArgCtx, t)
				}
				if e := t.NumOut() > 0 && t.Out(t.NumOut()-1) == errT; f.LastResultErr != e {
					fail("%s: LastResultErr %v, type %v", what, f.LastResultErr, t)
				}
			}
			// and the same one comes with the call
			var got []*core.FuncInfo
			var argErr string
			ins := make([]reflect.Value, t.NumIn())
			for i := range ins {
				ins[i] = reflect.Zero(t.In(i))
			}
			on := false
			first := true
			var want = []*core.FuncInfo{f, f}
			cancel0, err := func() {}, interface{}(nil)
			if d.Closure {
				want = want[1:]
			} else {
				cancel0, err = intercept(ref, &trap.Interceptor{
					Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
						if first {
							first = false
							got = append(got, f)
						}
						return nil, nil
					},
				})
			}
			if err != nil {
				fail("%s (%v): cannot be intercepted: %v", what, t, err)
			}
			cancel := trap.AddInterceptor(&trap.Interceptor{
				Pre: func(ctx context.Context, f *core.FuncInfo, args core.Object, results core.Object) (interface{}, error) {
					if !on {
						return nil, nil
					}
					on = false
					got = append(got, f)
					n := len(f.ArgNames)
					if f.RecvType != "" && args.NumField() == n+1 {
						n++
					} else if f.FirstArgCtx && args.NumField() == n-1 {
						n--
					}
					if args.NumField() != n {
						argErr = fmt.Sprintf("%d arguments", args.NumField())
					}
					return nil, trap.ErrMocked
				},
			})
			func() {
				defer func() {
					if e := recover(); e != nil {
						fail("%s: the call panics: %v", what, e)
					}
				}()
				on = true
				if t.IsVariadic() {
					v.CallSlice(ins)
				} else {
					v.Call(ins)
				}
			}()
			on = false
			cancel()
			cancel0()
			if len(got) != len(want) || got[0] != f || got[len(got)-1] != f {
				fail("%s (%v): the call delivers %v", what, t, got)
			}
			if argErr != "" {
				fail("%s: the call delivers %s, declared %q", what, argErr, d.Args)
			}
		}
	}
	for id, f := range own {
		if strings.HasPrefix(f.Name, "__xgo") {
			continue
		}
		fail("entry of %s at %s:%d, which is not declared", id, f.File, f.Line)
	}
	if !maybe {
		for t, ms := range methods {
			for n, f := range functab.GetTypeMethods(t) {
				if !ms[n] {
					fail("GetTypeMethods(%v) has %s: %v", t, n, f)
				}
			}
		}
	}
}
