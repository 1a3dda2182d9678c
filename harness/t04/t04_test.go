package t04

import (
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/xhd2015/xgo/support/filecopy"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// Entry of the source tree. Kind 0 file, 1 dir, 2 link, 3 fifo
type Entry struct {
	Path string
	Kind int
	Size int
	Exec bool
	To   string // link
}

type Case struct {
	Entries []Entry
	Src     int // how the source is named: 0 absolute, 1 relative, 2 ".", 3 absolute link, 4 relative link, 5 link to link, 6 link with a trailing slash, 7 with a trailing slash
	DstDeep bool
	DstRel  bool
	Api     int // 0 CopyReplaceDir func, 1 Options.CopyReplaceDir, 2 Options.Copy, 3 Copy func, 4 links
	Conc    int
	Ignore  []string
	IgnSuf  []string
	IncSuf  []string
	Pre     []Entry // what is in the target before
	Twice   bool
}

var names = []string{"a", "b", "c.go", "d_test.go", "e", ".git", "f.txt", "go.mod", "é x", "a.go"}

func genPath(t *rapid.T) string {
	n := rapid.IntRange(1, 3).Draw(t, "depth")
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, rapid.SampledFrom(names).Draw(t, "name"))
	}
	return strings.Join(p, "/")
}

func genEntries(t *rapid.T, max int, kinds []int) []Entry {
	var es []Entry
	n := rapid.IntRange(0, max).Draw(t, "n")
	for i := 0; i < n; i++ {
		e := Entry{Path: genPath(t), Kind: rapid.SampledFrom(kinds).Draw(t, "kind")}
		switch e.Kind {
		case 0:
			e.Size = rapid.SampledFrom([]int{0, 1, 7, 4096, 70000}).Draw(t, "size")
			e.Exec = rapid.Bool().Draw(t, "exec")
		case 2:
			e.To = rapid.SampledFrom([]string{"a", "../b", "nowhere", "/nonexistent/x", "."}).Draw(t, "to")
		}
		es = append(es, e)
	}
	return es
}

func gen(t *rapid.T) Case {
	c := Case{
		Entries: genEntries(t, 14, []int{0, 0, 0, 0, 1, 2, 3}),
		Src:     rapid.IntRange(0, 7).Draw(t, "src"),
		DstDeep: rapid.Bool().Draw(t, "dstdeep"),
		DstRel:  rapid.Bool().Draw(t, "dstrel"),
		Api:     rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 2, 3, 4}).Draw(t, "api"),
		Conc:    rapid.SampledFrom([]int{0, 1, 2, 4, 10}).Draw(t, "conc"),
		Twice:   rapid.Bool().Draw(t, "twice"),
	}
	if c.Api == 1 || c.Api == 2 {
		for i, n := 0, rapid.IntRange(0, 2).Draw(t, "nign"); i < n; i++ {
			if len(c.Entries) > 0 && rapid.Bool().Draw(t, "hit") {
				e := rapid.SampledFrom(c.Entries).Draw(t, "ent")
				parts := strings.Split(e.Path, "/")
				c.Ignore = append(c.Ignore, strings.Join(parts[:rapid.IntRange(1, len(parts)).Draw(t, "parts")], "/"))
			} else {
				c.Ignore = append(c.Ignore, genPath(t))
			}
		}
		suf := []string{".go", "_test.go", ".txt", "a", "mod"}
		if rapid.IntRange(0, 2).Draw(t, "igs") == 0 {
			c.IgnSuf = []string{rapid.SampledFrom(suf).Draw(t, "ignsuf")}
		}
		if rapid.IntRange(0, 3).Draw(t, "ics") == 0 {
			c.IncSuf = []string{rapid.SampledFrom(suf).Draw(t, "incsuf"), rapid.SampledFrom(suf).Draw(t, "incsuf2")}
		}
	}
	if rapid.Bool().Draw(t, "pre") {
		c.Pre = genEntries(t, 4, []int{0, 1})
		for i := range c.Pre {
			if len(c.Entries) > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
				c.Pre[i].Path = rapid.SampledFrom(c.Entries).Draw(t, "of").Path
			}
		}
	}
	return c
}

type node struct {
	kind byte // f d l p
	data string
	exec bool
}

func content(seed string, n int) string {
	b := make([]byte, n)
	h := uint32(2166136261)
	for i := range b {
		h = (h ^ uint32(seed[i%len(seed)])) * 16777619
		b[i] = byte(h >> 13)
	}
	return string(b)
}

// make creates the entries that do not clash with earlier ones
func makeTree(root string, es []Entry, tag string) error {
	for _, e := range es {
		p := filepath.Join(root, e.Path)
		if !realDirs(root, filepath.Dir(e.Path)) {
			continue
		}
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			continue
		}
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		switch e.Kind {
		case 0:
			mode := fs.FileMode(0644)
			if e.Exec {
				mode = 0755
			}
			if err := os.WriteFile(p, []byte(content(tag+e.Path, e.Size)), mode); err != nil {
				return err
			}
		case 1:
			if err := os.Mkdir(p, 0755); err != nil {
				return err
			}
		case 2:
			if err := os.Symlink(e.To, p); err != nil {
				return err
			}
		case 3:
			if err := syscall.Mkfifo(p, 0644); err != nil {
				return err
			}
		}
	}
	return nil
}

// realDirs tells if no element of rel is a link or a file
func realDirs(root, rel string) bool {
	if rel == "." {
		return true
	}
	p := root
	for _, x := range strings.Split(rel, "/") {
		p = filepath.Join(p, x)
		st, err := os.Lstat(p)
		if os.IsNotExist(err) {
			return true
		}
		if err != nil || !st.IsDir() {
			return false
		}
	}
	return true
}

func readTree(root string) (map[string]node, error) {
	m := map[string]node{}
	st, err := os.Lstat(root)
	if os.IsNotExist(err) {
		return m, nil
	}
	if err != nil || !st.IsDir() {
		return m, fmt.Errorf("%s is no directory: %v", root, err)
	}
	err = filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		switch {
		case d.IsDir():
			m[rel] = node{kind: 'd'}
		case d.Type()&fs.ModeSymlink != 0:
			to, err := os.Readlink(p)
			if err != nil {
				return err
			}
			m[rel] = node{kind: 'l', data: to}
		case d.Type().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			st, err := d.Info()
			if err != nil {
				return err
			}
			m[rel] = node{kind: 'f', data: string(b), exec: st.Mode()&0111 != 0}
		default:
			m[rel] = node{kind: 'p'}
		}
		return nil
	})
	return m, err
}

func keys(m map[string]node) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func hasSuffix(s string, suf []string) bool {
	for _, x := range suf {
		if strings.HasSuffix(s, x) {
			return true
		}
	}
	return false
}

// model gives the tree after the copy, or that it has to fail
func model(c Case, src, dst map[string]node, srcAbs string) (map[string]node, string) {
	out := map[string]node{}
	replace := c.Api == 0 || c.Api == 1 || c.Api == 4
	if !replace {
		for k, v := range dst {
			out[k] = v
		}
	}
	bad := ""
	fail := func(k string) {
		if bad == "" {
			bad = k
		}
	}
	out["."] = node{kind: 'd'}
next:
	for _, k := range keys(src) {
		if k == "." {
			continue
		}
		n := src[k]
		for _, ig := range c.Ignore {
			if ig == k || strings.HasPrefix(k, ig+"/") {
				continue next
			}
		}
		if n.kind != 'd' {
			if len(c.IncSuf) > 0 && !hasSuffix(k, c.IncSuf) || hasSuffix(k, c.IgnSuf) {
				continue
			}
		}
		old, has := out[k]
		switch n.kind {
		case 'd':
			if has && old.kind != 'd' {
				fail(k)
			}
			out[k] = n
		case 'f', 'l', 'p':
			if c.Api == 4 {
				out[k] = node{kind: 'l', data: filepath.Join(srcAbs, k)}
				continue
			}
			if n.kind == 'p' {
				continue
			}
			if has && (n.kind == 'l' || old.kind == 'd') {
				fail(k)
			}
			if has && n.kind == 'f' {
				n.exec = old.exec
			}
			out[k] = n
		}
	}
	return out, bad
}

func diff(want, got map[string]node) string {
	for _, k := range keys(want) {
		w := want[k]
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if g.kind != w.kind {
			return fmt.Sprintf("%q: kind %c, want %c", k, g.kind, w.kind)
		}
		if g.data != w.data {
			if w.kind == 'l' {
				return fmt.Sprintf("%q: link to %q, want %q", k, g.data, w.data)
			}
			return fmt.Sprintf("%q: different content (%d bytes, want %d)", k, len(g.data), len(w.data))
		}
		if w.exec && !g.exec {
			return fmt.Sprintf("%q: not executable any more", k)
		}
	}
	for _, k := range keys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%q should not be there", k)
		}
	}
	return ""
}

func (c Case) do(src, dst string) error {
	o := filecopy.NewOptions().Concurrent(c.Conc)
	if len(c.Ignore) > 0 {
		o = o.Ignore(c.Ignore...)
	}
	if len(c.IgnSuf) > 0 {
		o = o.IgnoreSuffix(c.IgnSuf...)
	}
	if len(c.IncSuf) > 0 {
		o = o.IncludeSuffix(c.IncSuf...)
	}
	switch c.Api {
	case 0:
		return filecopy.CopyReplaceDir(src, dst, false)
	case 1:
		return o.CopyReplaceDir(src, dst)
	case 2:
		return o.Copy(src, dst)
	case 3:
		return filecopy.Copy(src, dst)
	default:
		return filecopy.CopyReplaceDir(src, dst, true)
	}
}

func oracle(c Case) vh.Result {
	var r vh.Result
	bad := func(format string, a ...interface{}) vh.Result {
		r.Err = fmt.Errorf(format, a...)
		return r
	}
	tmp, err := os.MkdirTemp("", "t04-")
	if err != nil {
		return bad("%v", err)
	}
	defer os.RemoveAll(tmp)
	wd, err := os.Getwd()
	if err != nil {
		return bad("%v", err)
	}
	defer os.Chdir(wd)

	real := filepath.Join(tmp, "x", "real")
	if err := os.MkdirAll(real, 0755); err != nil {
		return bad("%v", err)
	}
	cwd := filepath.Join(tmp, "y", "cwd")
	if err := os.MkdirAll(cwd, 0755); err != nil {
		return bad("%v", err)
	}
	if err := makeTree(real, c.Entries, "s"); err != nil {
		return bad("harness: %v", err)
	}
	// the same relative name from another directory leads to something else
	decoy := filepath.Join(tmp, "y", "cwd", "real")
	os.MkdirAll(decoy, 0755)
	os.WriteFile(filepath.Join(decoy, "decoy"), []byte("x"), 0644)

	src := real
	x := filepath.Join(tmp, "x")
	os.Symlink(real, filepath.Join(x, "abs"))
	os.Symlink("real", filepath.Join(x, "rel"))
	os.Symlink("rel", filepath.Join(x, "rel2"))
	os.Chdir(cwd)
	switch c.Src {
	case 1:
		src = "../../x/real"
	case 2:
		os.Chdir(real)
		src = "."
	case 3:
		src = filepath.Join(x, "abs")
	case 4:
		src = "../../x/rel"
	case 5:
		src = filepath.Join(x, "rel2")
	case 6:
		src = filepath.Join(x, "rel") + "/"
	case 7:
		src = real + "/"
	}
	if c.Api == 4 && c.Src >= 3 && c.Src <= 6 {
		src = real
	}
	dst := filepath.Join(tmp, "z", "dst")
	if c.DstDeep {
		dst = filepath.Join(tmp, "z", "k", "l", "dst")
	}
	dstAbs := dst
	if len(c.Pre) > 0 {
		if err := os.MkdirAll(dst, 0755); err != nil {
			return bad("%v", err)
		}
		if err := makeTree(dst, c.Pre, "d"); err != nil {
			return bad("harness: %v", err)
		}
	}
	if c.DstRel {
		w, _ := os.Getwd()
		dst, _ = filepath.Rel(w, dst)
	}
	before, err := readTree(real)
	if err != nil {
		return bad("harness: %v", err)
	}
	n := 1
	if c.Twice {
		n = 2
	}
	for i := 0; i < n; i++ {
		was, err := readTree(dstAbs)
		if err != nil {
			return bad("harness: %v", err)
		}
		want, mustFail := model(c, before, was, real)
		err = c.do(src, dst)
		if mustFail != "" {
			r.Classes = append(r.Classes, "fails")
			r.NonTrivial = true
			if err == nil {
				return bad("copy of %q cannot work, but no error is reported", mustFail)
			}
			break
		}
		if err != nil {
			return bad("copy fails: %v", err)
		}
		got, err := readTree(dstAbs)
		if err != nil {
			return bad("target: %v", err)
		}
		if d := diff(want, got); d != "" {
			return bad("copy %d: %s", i+1, d)
		}
		if len(want) > 3 {
			r.NonTrivial = true
		}
	}
	after, err := readTree(real)
	if err != nil {
		return bad("source: %v", err)
	}
	if d := diff(before, after); d != "" {
		return bad("the source was changed: %s", d)
	}
	r.Classes = append(r.Classes, fmt.Sprintf("api%d", c.Api), fmt.Sprintf("src%d", c.Src), fmt.Sprintf("conc%d", c.Conc))
	return r
}

func TestCopy(t *testing.T) {
	vh.Run(t, "copy", vh.Options{Rule: "trees of files, directories, links and pipes, named in several ways, copied into targets with other content; non-trivial: at least 3 entries arrive, or a failure is due"}, gen, oracle)
}
