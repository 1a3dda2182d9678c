package t03

import (
	"fmt"
	"go/token"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/support/edit"
	"github.com/xhd2015/xgo/support/edit/goedit"
	"github.com/xhd2015/xgo/support/transform/edit/line"
	"github.com/xhd2015/xgo/support/transform/patch/format"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// Op on [S,E) of the text
type Op struct {
	Kind int // 0 insert, 1 delete, 2 replace
	S, E int
	New  string
	Tail bool // give the end as -1
}

type Case struct {
	Old    string
	Ops    []Op
	Prefix int // bytes of another file in front, in the file set
	Read   int // read the result after this many edits too
	Dirs   bool
}

func genText(t *rapid.T, max int) string {
	return rapid.StringOfN(rapid.SampledFrom([]rune("abcxyz \t\n\n{}\"é世\x00")), 0, max, -1).Draw(t, "text")
}

func gen(t *rapid.T) Case {
	c := Case{Old: genText(t, 30), Prefix: rapid.IntRange(0, 3).Draw(t, "prefix"), Dirs: rapid.Bool().Draw(t, "dirs")}
	n := len(c.Old)
	k := rapid.IntRange(0, 24).Draw(t, "k")
	overlap := rapid.IntRange(0, 5).Draw(t, "overlap") == 0
	used := make([]bool, n)
	for i := 0; i < k; i++ {
		op := Op{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), S: rapid.IntRange(0, n).Draw(t, "s")}
		op.E = op.S
		if op.Kind != 0 && rapid.IntRange(0, 5).Draw(t, "empty") != 0 {
			op.E = op.S + rapid.IntRange(0, min(5, n-op.S)).Draw(t, "len")
		}
		if op.Kind != 1 {
			op.New = rapid.SampledFrom([]string{"", "A", "BC", "\n", "dd\nee", "é"}).Draw(t, "new")
			op.New += fmt.Sprint(i)
		}
		if !overlap {
			bad := false
			for j := op.S; j < op.E; j++ {
				bad = bad || used[j]
			}
			if bad {
				op.E = op.S
			}
			for j := op.S; j < op.E; j++ {
				used[j] = true
			}
		}
		op.Tail = op.Kind != 0 && op.E == n && rapid.Bool().Draw(t, "tail")
		c.Ops = append(c.Ops, op)
	}
	if !overlap {
		// no insertion strictly inside of what is replaced
		for i := range c.Ops {
			o := &c.Ops[i]
			if o.S == o.E {
				for _, p := range c.Ops {
					if p.S < o.S && o.S < p.E {
						o.S = p.S
						o.E = p.S
						o.Tail = false
						break
					}
				}
			}
		}
	}
	c.Read = rapid.IntRange(0, len(c.Ops)+1).Draw(t, "read")
	return c
}

// model gives the text and whether the edits overlap
func model(old string, ops []Op) (string, bool) {
	var b strings.Builder
	over := make([]int, len(old))
	for _, o := range ops {
		for j := o.S; j < o.E; j++ {
			over[j]++
			if over[j] > 1 {
				return "", false
			}
		}
	}
	for _, o := range ops {
		if o.S != o.E {
			continue
		}
		for _, p := range ops {
			if p.S < o.S && o.S < p.E {
				return "", false
			}
		}
	}
	for i := 0; i <= len(old); i++ {
		for _, o := range ops {
			if o.S == i && o.E == i {
				b.WriteString(o.New)
			}
		}
		for _, o := range ops {
			if o.S == i && o.E > i {
				b.WriteString(o.New)
			}
		}
		if i < len(old) && over[i] == 0 {
			b.WriteByte(old[i])
		}
	}
	return b.String(), true
}

type result struct {
	s        string
	panicked bool
}

func get(f func() string) (r result) {
	defer func() {
		if e := recover(); e != nil {
			r.panicked = true
		}
	}()
	r.s = f()
	return
}

func TestBuffer(t *testing.T) {
	vh.Run(t, "buffer", vh.Options{Rule: "a text and up to 24 insertions, deletions and replacements in any order, by offset and by token position; non-trivial when two edits share a position and none overlap"},
		gen, func(c Case) vh.Result {
			want, ok := model(c.Old, c.Ops)
			share := false
			at := map[int]bool{}
			for _, o := range c.Ops {
				share = share || at[o.S]
				at[o.S] = true
			}
			buf := edit.NewBuffer([]byte(c.Old))
			fset := token.NewFileSet()
			if c.Prefix > 0 {
				fset.AddFile("other.go", -1, c.Prefix*100)
			}
			tf := fset.AddFile("f.go", -1, len(c.Old))
			tf.SetLinesForContent([]byte(c.Old))
			if c.Dirs && len(c.Old) > 2 {
				tf.AddLineColumnInfo(1, "gen.y", 700, 3)
				tf.AddLineInfo(2, "other.go", 3)
			}
			ge := goedit.New(fset, c.Old)
			geb := goedit.NewWithBytes(fset, []byte(c.Old))
			if buf.HasEdits() || ge.HasEdit() {
				return vh.Errf("edits in a new buffer")
			}
			for i, o := range c.Ops {
				if i == c.Read {
					if w, ok := model(c.Old, c.Ops[:i]); ok {
						if g := get(buf.String); g.panicked || g.s != w {
							return vh.Errf("after %d edits: %q (panicked=%v), want %q", i, g.s, g.panicked, w)
						}
					}
				}
				e := o.E
				pos, end := tf.Pos(o.S), token.NoPos
				if o.Tail {
					e = -1
				} else {
					end = tf.Pos(o.E)
				}
				switch o.Kind {
				case 0:
					buf.Insert(o.S, o.New)
					ge.Insert(pos, o.New)
					geb.Insert(pos, o.New)
				case 1:
					buf.Delete(o.S, e)
					ge.Delete(pos, end)
					geb.Delete(pos, end)
				case 2:
					buf.Replace(o.S, e, o.New)
					ge.Replace(pos, end, o.New)
					geb.Replace(pos, end, o.New)
				}
			}
			if buf.HasEdits() != (len(c.Ops) > 0) || ge.HasEdit() != (len(c.Ops) > 0) {
				return vh.Errf("HasEdits = %v with %d edits", buf.HasEdits(), len(c.Ops))
			}
			for _, g := range []result{get(buf.String), get(func() string { return string(buf.Bytes()) }), get(ge.String), get(geb.String), get(ge.Buffer().String)} {
				if !ok {
					if !g.panicked {
						return vh.Errf("overlapping edits were accepted: %q", g.s)
					}
					continue
				}
				if g.panicked || g.s != want {
					return vh.Errf("got %q (panicked=%v), want %q", g.s, g.panicked, want)
				}
			}
			if string(buf.Old()) != c.Old {
				return vh.Errf("the original text is now %q", buf.Old())
			}
			// the listed edits, applied to the original, give the same
			if ok {
				var ops []Op
				buf.RangeEdits(func(s, e int, n string) { ops = append(ops, Op{S: s, E: e, New: n}) })
				if len(ops) != len(c.Ops) {
					return vh.Errf("%d of %d edits listed", len(ops), len(c.Ops))
				}
				if g, _ := model(c.Old, ops); g != want {
					return vh.Errf("the listed edits give %q, want %q", g, want)
				}
			}
			cl := "apart"
			if !ok {
				cl = "overlapping"
			} else if share {
				cl = "shared-position"
			}
			return vh.Result{NonTrivial: ok && share, Classes: []string{cl}}
		})
}

type Bad struct {
	N, S, E int
	Kind    int
}

func TestInvalid(t *testing.T) {
	vh.Run(t, "invalid-positions", vh.Options{Rule: "single edits in and out of range; non-trivial when out of range"},
		func(t *rapid.T) Bad {
			return Bad{rapid.IntRange(0, 5).Draw(t, "n"), rapid.IntRange(-2, 7).Draw(t, "s"), rapid.IntRange(-2, 7).Draw(t, "e"), rapid.IntRange(0, 2).Draw(t, "k")}
		},
		func(c Bad) vh.Result {
			old := "abcdef"[:c.N]
			buf := edit.NewBuffer([]byte(old))
			r := get(func() string {
				switch c.Kind {
				case 0:
					buf.Insert(c.S, "X")
				case 1:
					buf.Delete(c.S, c.E)
				default:
					buf.Replace(c.S, c.E, "X")
				}
				return buf.String()
			})
			e := c.E
			if c.Kind == 0 {
				e = c.S
			} else if e == -1 {
				e = c.N
			}
			bad := c.S < 0 || c.S > e || e > c.N
			if bad != r.panicked {
				return vh.Errf("%q: [%d,%d) refused=%v", old, c.S, c.E, r.panicked)
			}
			if !bad {
				x := "X"
				if c.Kind == 1 {
					x = ""
				}
				if w := old[:c.S] + x + old[e:]; r.s != w {
					return vh.Errf("%q, want %q", r.s, w)
				}
			}
			return vh.Result{NonTrivial: bad}
		})
}

type LOp struct {
	Kind, Line int
	ID         string
	Lines      []string
}
type LCase struct {
	Lines []string
	Ops   []LOp
}

func TestLines(t *testing.T) {
	vh.Run(t, "lines", vh.Options{Rule: "lines with up to 30 prepends, appends and replacements (one per line); non-trivial when more than 12 edits or three on one line"},
		func(t *rapid.T) LCase {
			var c LCase
			for i := rapid.IntRange(0, 9).Draw(t, "n"); i > 0; i-- {
				c.Lines = append(c.Lines, rapid.SampledFrom([]string{"", "a", "b", "a", "}"}).Draw(t, "l"))
			}
			rep := map[int]bool{}
			for i := rapid.IntRange(0, 30).Draw(t, "k"); i > 0; i-- {
				o := LOp{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Line: rapid.IntRange(1, max(1, len(c.Lines))).Draw(t, "line"), ID: rapid.SampledFrom([]string{"", "", "id", "other id"}).Draw(t, "id")}
				if rapid.IntRange(0, 60).Draw(t, "bad") == 0 {
					o.Line = rapid.SampledFrom([]int{0, -1, len(c.Lines) + 1}).Draw(t, "badline")
				}
				if o.Kind == 2 && rep[o.Line] {
					o.Kind = 0
				}
				for j := rapid.IntRange(0, 3).Draw(t, "m"); j > 0; j-- {
					o.Lines = append(o.Lines, fmt.Sprintf("%d.%d", i, j))
				}
				if o.Kind == 2 && len(o.Lines) > 0 {
					rep[o.Line] = true
				}
				c.Ops = append(c.Ops, o)
			}
			return c
		},
		func(c LCase) vh.Result {
			var e line.Edit
			bad := false
			per := map[int]int{}
			for _, o := range c.Ops {
				if o.Line < 1 || o.Line > len(c.Lines) {
					bad = true
				}
				per[o.Line]++
				switch o.Kind {
				case 0:
					e.Prepend(o.Line, o.ID, o.Lines)
				case 1:
					e.Append(o.Line, o.ID, o.Lines)
				case 2:
					e.Replace(o.Line, o.ID, o.Lines)
				}
			}
			got, err := e.Apply(append([]string{}, c.Lines...))
			if bad {
				if err == nil {
					return vh.Errf("an edit of a line that does not exist was accepted: %q", got)
				}
				return vh.Result{Classes: []string{"bad-line"}}
			}
			if err != nil {
				return vh.Result{Err: err}
			}
			wrap := func(w []string, id string, l []string) []string {
				if len(l) == 0 {
					return w
				}
				if id == "" {
					return append(w, l...)
				}
				w = append(w, format.Begin(id))
				w = append(w, l...)
				return append(w, format.End(id))
			}
			var want []string
			for i, l := range c.Lines {
				for _, o := range c.Ops {
					if o.Line == i+1 && o.Kind == 0 {
						want = wrap(want, o.ID, o.Lines)
					}
				}
				replaced := false
				for _, o := range c.Ops {
					if o.Line == i+1 && o.Kind == 2 && len(o.Lines) > 0 {
						replaced = true
						want = wrap(want, o.ID, o.Lines)
						if o.ID != "" {
							want = wrap(want, o.ID, []string{format.REPLACED_BEGIN, l, format.REPLACED_END})
						}
					}
				}
				if !replaced {
					want = append(want, l)
				}
				for _, o := range c.Ops {
					if o.Line == i+1 && o.Kind == 1 {
						want = wrap(want, o.ID, o.Lines)
					}
				}
			}
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				return vh.Errf("got:\n%s\nwant:\n%s", strings.Join(got, "\n"), strings.Join(want, "\n"))
			}
			m := 0
			for _, n := range per {
				m = max(m, n)
			}
			return vh.Result{NonTrivial: len(c.Ops) > 12 || m > 2}
		})
}

