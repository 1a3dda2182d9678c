package u02

import (
	"fmt"
	"go/version"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/support/goinfo"
	"golang.org/x/mod/modfile"
	"golang.org/x/mod/semver"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func pick[T any](t *rapid.T, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, "p") }
func chance(t *rapid.T, n int) bool     { return rapid.IntRange(0, n-1).Draw(t, "c") == 0 }

func num(t *rapid.T) string {
	return pick(t, "0", "1", "2", "9", "10", "17", "18", "19", "20", "21", "22", "23", "27", "99", "100", "01", "00", "", "18446744073709551616", fmt.Sprint(rapid.IntRange(0, 130).Draw(t, "n")))
}

// ---- versions of Go

func goVer(t *rapid.T) string {
	s := pick(t, "1", "1", "1", "1", "1", "2", "0", "01", num(t))
	if chance(t, 12) {
		return s
	}
	s += pick(t, ".", ".", ".", ".", ".", ".", ".", "", "-") + num(t)
	switch rapid.IntRange(0, 5).Draw(t, "k") {
	case 0:
	case 1, 2:
		s += "." + num(t)
	case 3, 4:
		s += pick(t, "rc", "beta", "alpha", "rc", "rcx", "RC", "-rc", "b", "") + num(t)
	default:
		s += "." + num(t) + pick(t, "rc1", "-x", ".1", " ", "beta2")
	}
	if chance(t, 20) {
		s += pick(t, " ", "-", ".", "a", "go", "\n", "é")
	}
	return s
}

type VerCase struct{ V []string }

func TestGoVersions(t *testing.T) {
	vh.Run(t, "go-versions", vh.Options{Rule: "three Go version strings; non-trivial when at least two are valid and differ"},
		func(t *rapid.T) VerCase { return VerCase{[]string{goVer(t), goVer(t), goVer(t)}} },
		func(c VerCase) vh.Result {
			valid := 0
			for _, v := range c.V {
				w := version.IsValid("go" + v)
				// go/version ignores a suffix of the toolchain's name; a version has none
				if strings.Contains(v, "-") {
					w = false
				}
				if g := goinfo.IsValidVersion(v); g != w {
					return vh.Errf("IsValidVersion(%q) = %v, Go says %v", v, g, w)
				}
				if w {
					valid++
				}
			}
			for _, x := range c.V {
				for _, y := range c.V {
					if strings.Contains(x+y, "-") {
						continue
					}
					g, w := goinfo.CompareVersion(x, y), version.Compare("go"+x, "go"+y)
					if g != w {
						return vh.Errf("CompareVersion(%q, %q) = %d, Go says %d", x, y, g, w)
					}
					if m := goinfo.ModCompare("go", x, y); m != w {
						return vh.Errf("ModCompare(go, %q, %q) = %d, Go says %d", x, y, m, w)
					}
					if goinfo.IsValidVersion(x) && goinfo.IsValidVersion(y) {
						for _, p := range [][2]string{{"go" + x, "go" + y}, {"go" + x + "-custom", y}, {x, "go" + y + " z"}} {
							if m := goinfo.ModCompare("toolchain", p[0], p[1]); m != w {
								return vh.Errf("ModCompare(toolchain, %q, %q) = %d, Go says %d", p[0], p[1], m, w)
							}
						}
					}
				}
			}
			return vh.Result{NonTrivial: valid > 1 && (c.V[0] != c.V[1] || c.V[1] != c.V[2])}
		})
}

// ---- versions of modules

func semVer(t *rapid.T) string {
	n := func() string {
		return pick(t, "0", "1", "2", "10", "9", "01", "20211216021012", fmt.Sprint(rapid.IntRange(0, 30).Draw(t, "n")))
	}
	s := pick(t, "v", "v", "v", "v", "v", "v", "v", "v", "", "V") + n()
	if chance(t, 10) {
		return s
	}
	s += "." + n()
	if chance(t, 10) {
		return s
	}
	s += "." + n()
	ids := func() string {
		var l []string
		for i := rapid.IntRange(1, 3).Draw(t, "ids"); i > 0; i-- {
			l = append(l, pick(t, "0", "1", "alpha", "beta", "rc", "pre", "0alpha", "10", "9", "01", "-", "20211216021012-1d35b9e2eb4e", "A", "", "x y", "é", rapid.StringMatching(`[0-9A-Za-z-]{1,4}`).Draw(t, "id")))
		}
		return strings.Join(l, ".")
	}
	if chance(t, 2) {
		s += "-" + ids()
	}
	if chance(t, 4) {
		s += pick(t, "+incompatible", "+incompatible", "+"+ids())
	}
	if chance(t, 30) {
		s += pick(t, " ", ".", "-", "+")
	}
	return s
}

func TestSemVer(t *testing.T) {
	vh.Run(t, "module-versions", vh.Options{Rule: "three module version strings; non-trivial when at least two are valid and differ"},
		func(t *rapid.T) VerCase {
			c := VerCase{[]string{semVer(t), semVer(t), semVer(t)}}
			if chance(t, 2) { // same numbers, different pre-releases
				b := fmt.Sprintf("v1.%d.0", rapid.IntRange(0, 1).Draw(t, "b"))
				for i := range c.V {
					if j := strings.IndexAny(c.V[i], "-+"); j >= 0 {
						c.V[i] = b + c.V[i][j:]
					}
				}
			}
			return c
		},
		func(c VerCase) vh.Result {
			valid := 0
			for _, x := range c.V {
				if g, w := goinfo.IsValidSemVer(x), semver.IsValid(x); g != w {
					return vh.Errf("IsValidSemVer(%q) = %v, x/mod says %v", x, g, w)
				} else if w {
					valid++
				}
				for _, y := range c.V {
					g, w := goinfo.CompareSemVer(x, y), semver.Compare(x, y)
					if m := goinfo.ModCompare("example.com/m", x, y); g != w || m != w {
						return vh.Errf("CompareSemVer(%q, %q) = %d, ModCompare = %d, x/mod says %d", x, y, g, m, w)
					}
				}
			}
			return vh.Result{NonTrivial: valid > 1 && (c.V[0] != c.V[1] || c.V[1] != c.V[2])}
		})
}

// ---- output of go version

type GoOut struct {
	Major, Minor, Patch int
	Pre, OS, Arch       string
	Full                bool
}

func TestGoVersionOutput(t *testing.T) {
	vh.Run(t, "go-version-output", vh.Options{Rule: "what go version prints for releases, release candidates and betas; non-trivial when there is a patch number or a pre-release"},
		func(t *rapid.T) GoOut {
			c := GoOut{1, rapid.IntRange(0, 130).Draw(t, "minor"), -1, "", pick(t, "linux", "darwin", "windows"), pick(t, "amd64", "arm64"), true}
			switch rapid.IntRange(0, 3).Draw(t, "k") {
			case 0:
				c.Pre = pick(t, "rc", "beta") + fmt.Sprint(rapid.IntRange(1, 12).Draw(t, "pre"))
			case 1:
			default:
				c.Patch = rapid.IntRange(0, 120).Draw(t, "patch")
			}
			return c
		},
		func(c GoOut) vh.Result {
			s := fmt.Sprintf("%d.%d", c.Major, c.Minor)
			if c.Patch >= 0 {
				s += fmt.Sprintf(".%d", c.Patch)
			}
			s += c.Pre
			w := &goinfo.GoVersion{Major: c.Major, Minor: c.Minor, Patch: c.Patch}
			if c.Patch < 0 {
				w.Patch = 0
			}
			g, err := goinfo.ParseGoVersionNumber(s)
			if err != nil || !reflect.DeepEqual(g, w) {
				return vh.Errf("ParseGoVersionNumber(%q) = %v, %v, want %v", s, g, err, w)
			}
			w.OS, w.Arch = c.OS, c.Arch
			line := "go version go" + s + " " + c.OS + "/" + c.Arch
			g, err = goinfo.ParseGoVersion(line)
			if err != nil || !reflect.DeepEqual(g, w) {
				return vh.Errf("ParseGoVersion(%q) = %v, %v, want %v", line, g, err, w)
			}
			if c.Pre == "" {
				g, err = goinfo.ParseGoVersion(w.String())
				if err != nil || !reflect.DeepEqual(g, w) {
					return vh.Errf("ParseGoVersion(%q) = %v, %v, want %v", w.String(), g, err, w)
				}
			}
			for _, bad := range []string{s, "go" + s, "go version " + s, "go version go" + s, "go version go" + s + " x", "go version gox." + s + " a/b"} {
				if g, err := goinfo.ParseGoVersion(bad); err == nil {
					return vh.Errf("ParseGoVersion(%q) = %v, want an error", bad, g)
				}
			}
			return vh.Result{NonTrivial: c.Patch > 0 || c.Pre != ""}
		})
}

// ---- module files and directories

type ModFile struct {
	Dir  string // relative to the root of the tree
	Text string
	Kind int // 0 file, 1 a directory named go.mod
}
type ModCase struct {
	Mods []ModFile
	Ask  []string
}

var dirs = []string{"", "a", "a/b", "a/b/c", "a/b/c/d", "x", "x/y", "a/x", "a/b/x", "a b", "a b/é"}

func modText(t *rapid.T) string {
	var b strings.Builder
	ws := func() string { return pick(t, "", "", "", " ", "\t", "  ", "\t ") }
	sep := func() string { return pick(t, " ", " ", " ", " ", "\t", "  ", " \t ") }
	cmt := func() string {
		return pick(t, "", "", "", "", " // c", "//c", " // module other", "\t// \"q\"", " //")
	}
	nl := pick(t, "\n", "\n", "\n", "\r\n")
	line := func(s string) { b.WriteString(ws() + s + cmt() + nl) }
	for i := rapid.IntRange(0, 3).Draw(t, "before"); i > 0; i-- {
		switch rapid.IntRange(0, 6).Draw(t, "b") {
		case 0:
			b.WriteString(nl)
		case 1:
			line("//" + sep() + "module commented.com/m")
		case 2:
			line("go" + sep() + "1.20")
		case 3:
			b.WriteString("require (" + nl + "\tmodule.com/r v1.0.0" + nl + ")" + nl)
		case 4:
			line("// Deprecated: use module y")
		case 5:
			line("require" + sep() + "module v1.0.0")
			return b.String() + "module late" + nl
		case 6:
			b.WriteString("//module x" + nl + "//" + nl)
		}
	}
	p := pick(t, "a.com/m", "m", "example.com/a-b/c_d.e/v2", "gopkg.in/yaml.v2", "module", "a.com/module/x", "a.com/mod~x", rapid.StringMatching(`[a-z]{1,3}\.[a-z]{2}(/[a-zA-Z0-9._~-]{1,4}[a-z0-9]){0,3}`).Draw(t, "path"))
	switch rapid.IntRange(0, 9).Draw(t, "q") {
	case 0:
		p = `"` + p + `"`
	case 1:
		p = "`" + p + "`"
	case 2:
		line("module" + ws() + "(")
		line(p)
		line(")")
		p = ""
	case 3:
		return b.String() // no module
	}
	if p != "" {
		if chance(t, 5) && p[0] != 'm' && p[0] != '"' && p[0] != '`' {
			line("module" + sep() + p)
			return strings.TrimRight(b.String(), "\r\n")
		}
		line("module" + sep() + p)
	}
	for i := rapid.IntRange(0, 2).Draw(t, "after"); i > 0; i-- {
		switch rapid.IntRange(0, 2).Draw(t, "a") {
		case 0:
			line("require" + sep() + "r.com/x v1.2.3")
		case 1:
			line("replace r.com/x => ../module")
		case 2:
			line("// module z")
		}
	}
	return b.String()
}

func TestModuleFiles(t *testing.T) {
	root, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "u02")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	root, _ = filepath.EvalSymlinks(root)
	seq := 0
	vh.Run(t, "module-files", vh.Options{Rule: "a tree of directories with go.mod files in generated layout, asked for the module and package of directories; non-trivial when a directory below a go.mod that Go accepts is asked for"},
		func(t *rapid.T) ModCase {
			var c ModCase
			seen := map[string]bool{}
			for i := rapid.IntRange(1, 4).Draw(t, "mods"); i > 0; i-- {
				d := rapid.SampledFrom(dirs).Draw(t, "dir")
				if seen[d] {
					continue
				}
				seen[d] = true
				m := ModFile{Dir: d}
				if chance(t, 6) {
					m.Kind = 1
				} else {
					m.Text = modText(t)
				}
				c.Mods = append(c.Mods, m)
			}
			for i := rapid.IntRange(1, 3).Draw(t, "asks"); i > 0; i-- {
				c.Ask = append(c.Ask, rapid.SampledFrom(dirs).Draw(t, "ask"))
			}
			return c
		},
		func(c ModCase) (res vh.Result) {
			seq++
			base := filepath.Join(root, fmt.Sprint(seq))
			defer os.RemoveAll(base)
			for _, d := range append(append([]string{}, dirs...)) {
				os.MkdirAll(filepath.Join(base, d), 0755)
			}
			mods := map[string]string{}
			for _, m := range c.Mods {
				f := filepath.Join(base, m.Dir, "go.mod")
				if m.Kind == 1 {
					os.Mkdir(f, 0755)
					continue
				}
				mods[m.Dir] = m.Text
				os.WriteFile(f, []byte(m.Text), 0644)
			}
			for _, ask := range c.Ask {
				dir := filepath.Join(base, ask)
				// reference: the nearest go.mod upwards
				var sub []string
				d, found := ask, false
				for {
					if _, ok := mods[d]; ok {
						found = true
						break
					}
					if d == "" {
						break
					}
					sub = append([]string{filepath.Base(d)}, sub...)
					d = filepath.Dir(d)
					if d == "." {
						d = ""
					}
				}
				gsub, gmod, gerr := goinfo.ResolveMainModule(dir)
				ssub, sdir, serr := goinfo.FindGoModDirSubPath(dir)
				fdir, ferr := goinfo.FindGoModDir(dir)
				pm, pp, perr := goinfo.ResolveModulePkgPath(dir)
				if !found {
					if gerr == nil || serr == nil || perr == nil || ferr == nil {
						return vh.Errf("%q is in no module, but ResolveMainModule gives %q, FindGoModDirSubPath %q (%v %v %v %v)", ask, gmod, sdir, gerr, serr, perr, ferr)
					}
					continue
				}
				if serr != nil || sdir != filepath.Join(base, d) || strings.Join(ssub, "/") != strings.Join(sub, "/") {
					return vh.Errf("FindGoModDirSubPath(%q) = %q, %q, %v, want %q in %q", ask, ssub, sdir, serr, sub, d)
				}
				if ferr != nil || fdir != sdir {
					return vh.Errf("FindGoModDir(%q) = %q, %v", ask, fdir, ferr)
				}
				f, err := modfile.ParseLax("go.mod", []byte(mods[d]), nil)
				if err != nil {
					continue // not a module file
				}
				if f.Module == nil {
					if gerr == nil || perr == nil {
						return vh.Errf("no module in %q, but ResolveMainModule gives %q", mods[d], gmod)
					}
					continue
				}
				want := f.Module.Mod.Path
				if gerr != nil || gmod != want || strings.Join(gsub, "/") != strings.Join(sub, "/") {
					return vh.Errf("ResolveMainModule(%q) = %q, %q, %v, want %q, %q; go.mod:\n%s", ask, gsub, gmod, gerr, sub, want, mods[d])
				}
				wpkg := strings.Join(append([]string{want}, sub...), "/")
				if perr != nil || pm != want || pp != wpkg {
					return vh.Errf("ResolveModulePkgPath(%q) = %q, %q, %v, want %q, %q", ask, pm, pp, perr, want, wpkg)
				}
				suffix, ok := goinfo.PkgWithinModule(wpkg, want)
				if !ok || suffix != strings.Join(sub, "/") {
					return vh.Errf("PkgWithinModule(%q, %q) = %q, %v", wpkg, want, suffix, ok)
				}
				if _, ok := goinfo.PkgWithinModule(want+"x/"+suffix, want); ok {
					return vh.Errf("PkgWithinModule(%q, %q) = true", want+"x/"+suffix, want)
				}
				if _, ok := goinfo.PkgWithinModule(want[:len(want)-1], want); ok {
					return vh.Errf("PkgWithinModule(%q, %q) = true", want[:len(want)-1], want)
				}
				if len(sub) > 0 {
					res.NonTrivial = true
				}
			}
			return
		})
}

// ---- vendored modules

type VMod struct {
	Path, Version string // Version "" : a wildcard replacement
	RepPath       string
	RepVersion    string
	Explicit      bool
	Go            string
	Pkgs          []string
	Odd           int // a line that is not understood in front
	Split         bool
}
type VCase struct {
	Mods []VMod
	CRLF bool
}

func TestVendor(t *testing.T) {
	root := t.TempDir()
	vh.Run(t, "vendor", vh.Options{Rule: "vendor/modules.txt rendered from a list of modules; non-trivial when there is a replacement and a module that provides packages"},
		func(t *rapid.T) VCase {
			var c VCase
			c.CRLF = chance(t, 8)
			ver := func() string {
				return pick(t, "v1.0.0", "v0.0.0-20211216021012-1d35b9e2eb4e", "v2.3.4+incompatible", "v1.2.3", "v1.10.0", "v1.9.0", "v1.2.3-rc.1")
			}
			for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
				m := VMod{Path: pick(t, "a.com/x", "a.com/x/y", "b.org/m/v2", "gopkg.in/yaml.v2", "c.io/z", "d.io/z"), Version: ver()}
				switch rapid.IntRange(0, 4).Draw(t, "r") {
				case 0:
					m.RepPath = pick(t, "./local", "../up/dir", "/abs/dir")
				case 1:
					m.RepPath, m.RepVersion = pick(t, "f.com/x", m.Path), ver()
				}
				if m.RepPath != "" && chance(t, 3) {
					m.Version = ""
				}
				if m.Version != "" {
					m.Explicit = chance(t, 2)
					m.Go = pick(t, "", "1.13", "1.21", "1.21.3")
					for j := rapid.IntRange(0, 3).Draw(t, "pk"); j > 0; j-- {
						m.Pkgs = append(m.Pkgs, m.Path+pick(t, "", "/p", "/p/q", "/internal/z"))
					}
					m.Split = chance(t, 6)
				}
				if chance(t, 8) {
					m.Odd = rapid.IntRange(1, 3).Draw(t, "odd")
				}
				c.Mods = append(c.Mods, m)
			}
			return c
		},
		func(c VCase) vh.Result {
			var b strings.Builder
			nl := "\n"
			if c.CRLF {
				nl = "\r\n"
			}
			type meta struct {
				Explicit bool
				Rep      goinfo.ModVersion
				Go       string
			}
			var wlist, wrep []goinfo.ModVersion
			wver := map[string]string{}
			wpkg := map[string]goinfo.ModVersion{}
			wmeta := map[goinfo.ModVersion]meta{}
			rep, prov := false, false
			for _, m := range c.Mods {
				switch m.Odd {
				case 1:
					b.WriteString("# not a module line" + nl + "pkg/of/unknown" + nl + "## explicit" + nl)
				case 2:
					b.WriteString("# one" + nl)
				case 3:
					b.WriteString(nl)
				}
				mv := goinfo.ModVersion{Path: m.Path, Version: m.Version}
				b.WriteString("# " + m.Path)
				if m.Version != "" {
					b.WriteString(" " + m.Version)
				}
				mt, has := wmeta[mv]
				if m.RepPath != "" {
					b.WriteString(" => " + m.RepPath)
					if m.RepVersion != "" {
						b.WriteString(" " + m.RepVersion)
					}
					mt.Rep = goinfo.ModVersion{Path: m.RepPath, Version: m.RepVersion}
					wrep = append(wrep, mv)
					has, rep = true, true
				}
				b.WriteString(nl)
				if m.Explicit || m.Go != "" {
					has = true
					mt.Explicit = mt.Explicit || m.Explicit
					if m.Go != "" {
						mt.Go = m.Go
					}
					var l []string
					if m.Explicit {
						l = append(l, "explicit")
					}
					if m.Go != "" {
						l = append(l, "go "+m.Go)
					}
					sep := "; "
					if m.Split {
						sep = nl + "## "
					}
					b.WriteString("## " + strings.Join(l, sep) + nl)
				}
				if has {
					wmeta[mv] = mt
				}
				for _, p := range m.Pkgs {
					b.WriteString(p + nl)
					wpkg[p] = mv
					prov = true
					if v, ok := wver[m.Path]; !ok || semver.Compare(v, m.Version) < 0 {
						wver[m.Path] = m.Version
						wlist = append(wlist, mv)
					}
				}
			}
			text := b.String()
			dir := filepath.Join(root, "vendor")
			os.MkdirAll(dir, 0755)
			os.WriteFile(filepath.Join(dir, "modules.txt"), []byte(text), 0644)
			for i, arg := range []string{dir, filepath.Join(dir, "modules.txt"), ""} {
				g := goinfo.ParseVendorContent(text)
				if i < 2 {
					var err error
					if g, err = goinfo.ParseVendor(arg); err != nil {
						return vh.Errf("ParseVendor: %v", err)
					}
				}
				gm := map[goinfo.ModVersion]meta{}
				for k, v := range g.VendorMeta {
					gm[k] = meta{v.Explicit, v.Replacement, v.GoVersion}
				}
				eq := func(what string, g, w interface{}) error {
					if fmt.Sprint(g) != fmt.Sprint(w) {
						return fmt.Errorf("%s = %v, want %v; modules.txt:\n%s", what, g, w, text)
					}
					return nil
				}
				for _, err := range []error{eq("VendorList", g.VendorList, wlist), eq("VendorReplaced", g.VendorReplaced, wrep), eq("VendorVersion", g.VendorVersion, wver),
					eq("VendorPkgModule", g.VendorPkgModule, wpkg), eq("VendorMeta", gm, wmeta)} {
					if err != nil {
						return vh.Result{Err: err}
					}
				}
			}
			return vh.Result{NonTrivial: rep && prov}
		})
}
