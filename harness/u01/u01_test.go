package u01

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	covcmd "github.com/xhd2015/xgo/cmd/xgo/coverage"
	"github.com/xhd2015/xgo/support/coverage"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

type Line struct {
	File string
	Pos  string // 34.44,37.40
	N    int
	Cnt  int64
}

func (l Line) Key() string    { return l.File + ":" + l.Pos + " " + strconv.Itoa(l.N) }
func (l Line) String() string { return l.Key() + " " + strconv.FormatInt(l.Cnt, 10) }

type Profile struct {
	Mode  string
	Lines []Line
	NL    bool // final newline
}

func (p Profile) Text() string {
	s := "mode: " + p.Mode
	for _, l := range p.Lines {
		s += "\n" + l.String()
	}
	if p.NL {
		s += "\n"
	}
	return s
}

var files = []string{"a.com/x/f.go", "a.com/x/f1.go", "a.com/x/y/f.go", "a.com/xy/f.go", "a.com/x/dir with space/g.go", "b.org/m/f.go",
	"a.com/x/f.go.go", "a.com/x", "command-line-arguments/é.go", "_/tmp/p/f.go", "a.com/x/1 2.go"}
var poss = []string{"1.1,2.2", "1.1,2.22", "11.1,2.2", "34.44,37.40", "34.44,37.4", "1.12,2.2"}
var counts = []int64{0, 1, 2, 3, 9, 10, 255, 65535, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 40, 1<<53 + 1}

func genProfile(t *rapid.T, label string) Profile {
	var p Profile
	p.Mode = rapid.SampledFrom([]string{"set", "count", "atomic"}).Draw(t, label+"mode")
	p.NL = rapid.Bool().Draw(t, label+"nl")
	n := rapid.IntRange(0, 14).Draw(t, label+"n")
	for i := 0; i < n; i++ {
		l := Line{
			File: rapid.SampledFrom(files).Draw(t, "f"),
			Pos:  rapid.SampledFrom(poss).Draw(t, "p"),
			N:    rapid.SampledFrom([]int{1, 1, 1, 2, 12}).Draw(t, "s"),
			Cnt:  rapid.SampledFrom(counts).Draw(t, "c"),
		}
		if rapid.IntRange(0, 9).Draw(t, "anypos") == 0 {
			l.Pos = fmt.Sprintf("%d.%d,%d.%d", rapid.IntRange(1, 99999).Draw(t, "a"), rapid.IntRange(1, 200).Draw(t, "b"), rapid.IntRange(1, 99999).Draw(t, "c"), rapid.IntRange(1, 200).Draw(t, "d"))
			l.Cnt = rapid.Int64Range(0, 1<<50).Draw(t, "cc")
		}
		p.Lines = append(p.Lines, l)
	}
	return p
}

type Case struct {
	Profiles []Profile
	Split    int // grouping
	Perm     []int
	Exclude  []string
	Out      int // CLI: 0 flag first, 1 flag last, 2 after --
	Compact  bool
}

func gen(t *rapid.T) Case {
	var c Case
	n := rapid.IntRange(1, 5).Draw(t, "profiles")
	for i := 0; i < n; i++ {
		c.Profiles = append(c.Profiles, genProfile(t, "p"))
		c.Perm = append(c.Perm, i)
	}
	c.Perm = rapid.Permutation(c.Perm).Draw(t, "perm")
	c.Split = rapid.IntRange(0, n).Draw(t, "split")
	for i := rapid.IntRange(0, 2).Draw(t, "nex"); i > 0; i-- {
		c.Exclude = append(c.Exclude, rapid.SampledFrom([]string{"a.com/x/y", "a.com/xy", "b.org", "a.com/x/f1.go", "a.com/x/dir with space", "zzz", "_/tmp"}).Draw(t, "ex"))
	}
	c.Out = rapid.IntRange(0, 2).Draw(t, "out")
	c.Compact = n == 1 && rapid.Bool().Draw(t, "compact")
	return c
}

func model(ps []Profile) map[string]int64 {
	m := map[string]int64{}
	for _, p := range ps {
		for _, l := range p.Lines {
			m[l.Key()] += l.Cnt
		}
	}
	return m
}

func asMap(lines []*coverage.CovLine) (map[string]int64, error) {
	m := map[string]int64{}
	for _, l := range lines {
		if _, dup := m[l.Prefix]; dup {
			return nil, fmt.Errorf("block %q appears twice", l.Prefix)
		}
		m[l.Prefix] = l.Count
	}
	return m, nil
}

func diff(got, want map[string]int64) error {
	var keys []string
	for k := range want {
		keys = append(keys, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, okg := got[k]
		w, okw := want[k]
		if okg != okw || g != w {
			return fmt.Errorf("block %q: got %d (present=%v), want %d (present=%v)", k, g, okg, w, okw)
		}
	}
	return nil
}

func parse(p Profile) []*coverage.CovLine {
	_, l := coverage.Parse(p.Text())
	return l
}

func classes(c Case) (nontrivial bool, cl []string) {
	in := map[string]int{}
	overlap, dup, three := false, false, false
	for i, p := range c.Profiles {
		own := map[string]bool{}
		for _, l := range p.Lines {
			k := l.Key()
			if own[k] {
				dup = true
			} else if in[k]&(1<<i) == 0 && in[k] != 0 {
				overlap = true
				if in[k]&(in[k]-1) != 0 {
					three = true
				}
			}
			own[k] = true
			in[k] |= 1 << i
		}
		if len(p.Lines) == 0 {
			cl = append(cl, "empty-profile")
		}
	}
	if overlap {
		cl = append(cl, "block-in-two-profiles")
	}
	if three {
		cl = append(cl, "block-in-three-profiles")
	}
	if dup {
		cl = append(cl, "block-twice-in-one-profile")
	}
	if len(c.Exclude) > 0 {
		cl = append(cl, "filtered")
	}
	return overlap || dup, cl
}

const rule = "1-5 profiles of 0-14 blocks drawn from few files and positions so that blocks repeat within and across profiles; counts up to 2^53; non-trivial when some block occurs at least twice"

func TestRoundTrip(t *testing.T) {
	vh.Run(t, "roundtrip", vh.Options{Rule: rule}, func(t *rapid.T) Profile { return genProfile(t, "p") }, func(p Profile) vh.Result {
		r := vh.Result{NonTrivial: len(p.Lines) > 1}
		mode, lines := coverage.Parse(p.Text())
		if mode != p.Mode {
			return vh.Errf("mode: got %q want %q", mode, p.Mode)
		}
		if len(lines) != len(p.Lines) {
			return vh.Errf("%d blocks parsed of %d", len(lines), len(p.Lines))
		}
		for i, l := range lines {
			if l.Prefix != p.Lines[i].Key() || l.Count != p.Lines[i].Cnt {
				return vh.Errf("block %d: got %+v want %v", i, *l, p.Lines[i])
			}
			one := coverage.ParseCovLine(p.Lines[i].String())
			if one == nil || *one != *l {
				return vh.Errf("ParseCovLine differs from Parse: %v", one)
			}
		}
		text := strings.TrimSuffix(p.Text(), "\n")
		if got := strings.TrimSuffix(coverage.Format(mode, lines), "\n"); got != text {
			return vh.Errf("Format(Parse(x)) != x:\n%s\n--- want\n%s", got, text)
		}
		return r
	})
}

func TestMerge(t *testing.T) {
	vh.Run(t, "merge", vh.Options{Rule: rule}, gen, func(c Case) (r vh.Result) {
		r.NonTrivial, r.Classes = classes(c)
		want := model(c.Profiles)
		check := func(what string, lines []*coverage.CovLine) {
			if r.Err != nil {
				return
			}
			m, err := asMap(lines)
			if err == nil {
				err = diff(m, want)
			}
			if err != nil {
				r.Err = fmt.Errorf("%s: %v", what, err)
			}
		}
		var all, perm, a, b [][]*coverage.CovLine
		var flat []*coverage.CovLine
		for i, p := range c.Profiles {
			all = append(all, parse(p))
			perm = append(perm, parse(c.Profiles[c.Perm[i]]))
			flat = append(flat, parse(p)...)
			if i < c.Split {
				a = append(a, parse(p))
			} else {
				b = append(b, parse(p))
			}
		}
		merged := coverage.Merge(all...)
		check("Merge", merged)
		check("Merge of a permutation", coverage.Merge(perm...))
		check("Merge(Merge(a..),Merge(b..))", coverage.Merge(coverage.Merge(a...), coverage.Merge(b...)))
		check("Compact of the concatenation", coverage.Compact(flat))
		if r.Err != nil {
			return
		}
		// the merged profile, written and read again, is the same profile
		_, again := coverage.Parse(coverage.Format("count", merged))
		check("Parse(Format(Merge))", again)
		check("Compact(Merge)", coverage.Compact(again))
		if r.Err != nil {
			return
		}
		// filter
		keep := func(l *coverage.CovLine) bool {
			for _, e := range c.Exclude {
				if strings.HasPrefix(l.Prefix, e) {
					return false
				}
			}
			return true
		}
		for k := range want {
			if !keep(&coverage.CovLine{Prefix: k}) {
				delete(want, k)
			}
		}
		var order []string
		for _, l := range merged {
			if keep(l) {
				order = append(order, l.Prefix)
			}
		}
		fl := coverage.Filter(merged, keep)
		check("Filter", fl)
		for i, l := range fl {
			if r.Err == nil && l.Prefix != order[i] {
				r.Err = fmt.Errorf("Filter reorders blocks")
			}
		}
		return
	})
}

// TestCommand drives the command that merges, compacts and filters files.
func TestCommand(t *testing.T) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "u01")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	vh.Run(t, "command", vh.Options{Rule: rule + "; through 'coverage merge/compact -o F --exclude-prefix P'"}, gen, func(c Case) (r vh.Result) {
		r.NonTrivial, r.Classes = classes(c)
		var names []string
		for i, p := range c.Profiles {
			f := filepath.Join(dir, fmt.Sprintf("cover-%d.out", i))
			if err := os.WriteFile(f, []byte(p.Text()), 0644); err != nil {
				panic(err)
			}
			names = append(names, f)
		}
		out := filepath.Join(dir, "merged.out")
		// an old, longer output must be replaced entirely
		os.WriteFile(out, []byte("mode: count\n"+strings.Repeat("stale/x.go:1.1,2.2 1 7\n", 200)), 0644)
		var flags []string
		flags = append(flags, "-o", out)
		for _, e := range c.Exclude {
			flags = append(flags, "--exclude-prefix", e)
		}
		cmd := "merge"
		if c.Compact {
			cmd = "compact"
		}
		args := []string{cmd}
		switch c.Out {
		case 0:
			args = append(append(args, flags...), names...)
		case 1:
			args = append(append(args, names...), flags...)
		case 2:
			args = append(append(append(args, flags...), "--"), names...)
		}
		covcmd.Main(args)
		data, err := os.ReadFile(out)
		if err != nil {
			return vh.Errf("%v", err)
		}
		text := string(data)
		if !strings.HasPrefix(text, "mode: ") {
			return vh.Errf("output does not begin with a mode line: %q", text)
		}
		want := model(c.Profiles)
		for k := range want {
			for _, e := range c.Exclude {
				if strings.HasPrefix(k, e) {
					delete(want, k)
				}
			}
		}
		got := map[string]int64{}
		for _, l := range strings.Split(text, "\n")[1:] {
			if l == "" {
				continue
			}
			i := strings.LastIndex(l, " ")
			n, err := strconv.ParseInt(l[i+1:], 10, 64)
			if err != nil {
				return vh.Errf("bad line %q", l)
			}
			if _, dup := got[l[:i]]; dup {
				return vh.Errf("block %q twice in the output", l[:i])
			}
			got[l[:i]] = n
		}
		if err := diff(got, want); err != nil {
			r.Err = err
			return
		}
		for i, p := range c.Profiles {
			data, _ := os.ReadFile(names[i])
			if string(data) != p.Text() {
				return vh.Errf("input file %d was changed", i)
			}
		}
		return
	})
}
