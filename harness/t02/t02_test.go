package t02

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/instrument/patch"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

func pick[T any](t *rapid.T, xs ...T) T { return rapid.SampledFrom(xs).Draw(t, "p") }

// A text is made of anchors with fillers between; each anchor is unique unless
// Dup repeats the whole text after it.
type Update struct {
	Kind   int // 0 UpdateContent, 1 UpdateContentLines, 2 ReplaceContentAfter, 3 AddContentAfter, 4 AddContentBefore, 5 AddImportAfterName, 6 AddContentAfterName
	ID     int
	Seq    []int // indexes of anchors, ascending; -1 stands for an anchor that is missing
	I      int
	Pos    int
	Text   string
	Target int // for ReplaceContentAfter: an anchor
	Name   string
}

type Case struct {
	Head    string // in front of the package clause
	Pkg     string
	Fill    []string
	Dup     bool
	Updates []Update
	Again   bool // apply the updates a second time to the result
}

var ids = []string{"a", "ab", "a b", "fix_cover", "fix_cover_overlay"}

func begin(id int) string { return "/*<begin " + ids[id] + ">*/" }
func end(id int) string   { return "/*<end " + ids[id] + ">*/" }

func anchor(i int) string {
	return []string{"func (b *B) build(", "do {", "if x := f(é); x {", "return nil, err", "\nvar z =", "(a, b)", "} // end"}[i]
}

const anchors = 7

func gen(t *rapid.T) Case {
	var c Case
	c.Head = pick(t, "", "", "// Copyright\n\n", "// this package is old\n", "/* package x\n*/ ", "//go:build linux\n// +build linux\n\n", "// Package p does.\r\n", "\n", "\t")
	c.Pkg = pick(t, "package main", "package  p_1", "package\tmain", "package é世", "package /* x */ main", "package main // package y", "package main; import \"os\"")
	for i := 0; i <= anchors; i++ {
		c.Fill = append(c.Fill, pick(t, "", "\n", " ", "\n// note\n", "x := 1;", "\r\n", "/* c */", "世"))
	}
	c.Dup = rapid.IntRange(0, 7).Draw(t, "dup") == 0
	usedID := map[int]int{}
	usedAnchor := map[int]bool{}
	for k := rapid.IntRange(1, 5).Draw(t, "k"); k > 0; k-- {
		id := rapid.IntRange(0, len(ids)-1).Draw(t, "id")
		text := pick(t, "X", "new();", "", "multi\nline\n", "世界", "/*note*/", "\"{\"", "a//b\n") + fmt.Sprint(k)
		if old, ok := usedID[id]; ok {
			// the same update again, with another text
			u := c.Updates[old]
			u.Text = text
			c.Updates = append(c.Updates, u)
			continue
		}
		u := Update{ID: id, Text: text, Kind: pick(t, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6)}
		if c.Dup && u.Kind == 2 {
			u.Kind = 0 // the target would be found in the copy
		}
		u.Pos = rapid.IntRange(0, 2).Draw(t, "pos")
		u.Name = pick(t, "", "p", "_", "__xgo_x")
		first := rapid.IntRange(0, anchors-1).Draw(t, "first")
		for a := first; a < anchors; a++ {
			if a == first || rapid.Bool().Draw(t, "in") {
				u.Seq = append(u.Seq, a)
			}
		}
		u.I = rapid.IntRange(0, len(u.Seq)-1).Draw(t, "i")
		u.Target = rapid.IntRange(0, anchors-1).Draw(t, "target")
		if rapid.IntRange(0, 11).Draw(t, "miss") == 0 {
			if rapid.Bool().Draw(t, "order") && len(u.Seq) > 1 && !c.Dup {
				u.Seq[0], u.Seq[len(u.Seq)-1] = u.Seq[len(u.Seq)-1], u.Seq[0]
			} else {
				u.Seq[rapid.IntRange(0, len(u.Seq)-1).Draw(t, "w")] = -1
			}
		}
		if rapid.IntRange(0, 15).Draw(t, "empty") == 0 && u.Kind < 5 {
			u.Text = ""
		}
		at := anchorOf(u)
		if u.Kind < 5 {
			if usedAnchor[at] {
				continue // two updates of one anchor: its text is not the anchor any more when it was replaced
			}
			usedAnchor[at] = true
		}
		if u.Text != "" {
			usedID[id] = len(c.Updates)
		}
		c.Updates = append(c.Updates, u)
	}
	c.Again = rapid.Bool().Draw(t, "again")
	return c
}

// the anchor that an update is attached to
func anchorOf(u Update) int {
	switch u.Kind {
	case 2:
		return u.Target
	case 3:
		return u.Seq[len(u.Seq)-1]
	case 4:
		return u.Seq[0]
	}
	return u.Seq[u.I]
}

type state struct {
	before, after map[int][]string // ids and texts, outermost first
	order         map[int]int
	texts         map[int]string
	repl          map[int]int // anchor -> id
	name          []int       // ids right after the package name
	at            map[int]int // id -> anchor
	pos           map[int]int
}

func seqOf(u Update) []string {
	var s []string
	for _, a := range u.Seq {
		if a < 0 {
			s = append(s, "no such text")
		} else {
			s = append(s, anchor(a))
		}
	}
	return s
}

func apply(s string, u Update) (r string, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
			if strings.Contains(err.Error(), "runtime error") {
				err = fmt.Errorf("CRASH %v", e)
			}
		}
	}()
	b, e, seq := begin(u.ID), end(u.ID), seqOf(u)
	switch u.Kind {
	case 0:
		return patch.UpdateContent(s, b, e, seq, u.I, patch.UpdatePosition(u.Pos), u.Text), nil
	case 1:
		return patch.UpdateContentLines(s, b, e, seq, u.I, patch.UpdatePosition(u.Pos), u.Text), nil
	case 2:
		return patch.ReplaceContentAfter(s, b, e, seq, anchor(u.Target), u.Text), nil
	case 3:
		return patch.AddContentAfter(s, b, e, seq, u.Text), nil
	case 4:
		return patch.AddContentBefore(s, b, e, seq, u.Text), nil
	case 5:
		return patch.AddImportAfterName(s, b, e, u.Name, "a/"+u.Text), nil
	}
	return patch.AddContentAfterName(s, b, e, u.Text), nil
}

// model keeps a list of pieces: original text and updates
type piece struct {
	text   string
	id     int // -1: original
	anchor int // -1: filler
	old    string
	repl   bool
}

func (p piece) String() string {
	if p.id < 0 {
		return p.text
	}
	if p.repl {
		return begin(p.id) + "/*old:" + p.old + "*/" + p.text + end(p.id)
	}
	return begin(p.id) + p.text + end(p.id)
}

func join(ps []piece) string {
	var b strings.Builder
	for _, p := range ps {
		b.WriteString(p.String())
	}
	return b.String()
}

// upd gives the new pieces and whether the update must fail
func upd(ps []piece, u Update, dup bool) ([]piece, bool) {
	text := u.Text
	if u.Kind == 5 {
		text = fmt.Sprintf(";import %q", "a/"+u.Text)
		if u.Name != "" {
			text = fmt.Sprintf(";import %s %q", u.Name, "a/"+u.Text)
		}
	}
	missing := false
	last := -1
	for _, a := range u.Seq {
		if a < 0 || a <= last {
			missing = true
		}
		last = a
	}
	if u.Kind == 2 {
		if u.Text == "" {
			return ps, false
		}
		if last >= u.Target && !missing {
			missing = true
		}
	}
	if u.Kind >= 5 {
		missing = false
	}
	for i, p := range ps {
		if p.id == u.ID {
			if missing && !(u.Kind < 2 && u.Pos == 2) {
				return ps, true
			}
			if u.Kind < 5 && u.Kind != 2 && u.Text == "" && !(u.Kind < 2 && u.Pos == 2) {
				return ps, dup && (u.Kind < 2 || u.Kind == 4)
			}
			if dup && (u.Kind < 2 || u.Kind == 4) && u.Pos != 2 {
				return ps, true
			}
			q := append([]piece{}, ps...)
			q[i].text = text
			return q, false
		}
	}
	if missing {
		return ps, true
	}
	if dup && (u.Kind < 2 || u.Kind == 4) {
		return ps, true
	}
	if u.Kind < 5 && u.Text == "" {
		return ps, false
	}
	if u.Kind >= 5 {
		// right after the name; the first piece ends with it
		q := append([]piece{ps[0], {text: text, id: u.ID, anchor: -1}}, ps[1:]...)
		return q, false
	}
	at := anchorOf(u)
	for i, p := range ps {
		if p.anchor != at || p.id >= 0 {
			continue
		}
		var q []piece
		q = append(q, ps[:i]...)
		switch {
		case u.Kind == 2 || u.Kind < 2 && u.Pos == 2:
			q = append(q, piece{text: text, id: u.ID, anchor: at, old: p.text, repl: true})
		case u.Kind == 4 || u.Kind < 2 && u.Pos == 1:
			q = append(q, piece{text: text, id: u.ID, anchor: -1}, p)
		default:
			q = append(q, p, piece{text: text, id: u.ID, anchor: -1})
		}
		return append(q, ps[i+1:]...), false
	}
	return ps, true
}

func TestUpdates(t *testing.T) {
	root := t.TempDir()
	vh.Run(t, "updates", vh.Options{Rule: "a text with 7 unique anchors and up to 5 updates (after, before, replace, import, repeated with another text, missing and duplicate anchors), then applied again and removed; non-trivial when at least two updates apply or one is repeated"},
		gen, func(c Case) vh.Result {
			name := c.Pkg
			rest := ""
			if i := strings.Index(name, " // "); i >= 0 {
				name, rest = name[:i], name[i:]
			}
			if i := strings.Index(name, ";"); i >= 0 {
				name, rest = name[:i], name[i:]
			}
			ps := []piece{{text: c.Head + name, id: -1, anchor: -1}, {text: rest + "\n" + c.Fill[0], id: -1, anchor: -1}}
			for i := 0; i < anchors; i++ {
				ps = append(ps, piece{text: anchor(i), id: -1, anchor: i}, piece{text: c.Fill[i+1], id: -1, anchor: -1})
			}
			if c.Dup {
				s := "\n"
				for i := 0; i < anchors; i++ {
					s += anchor(i) + "\n"
				}
				ps = append(ps, piece{text: s, id: -1, anchor: -1})
			}
			orig := join(ps)
			cur := orig
			applied, repeated := 0, false
			rounds := 1
			if c.Again {
				rounds = 2
			}
			var good []Update
			for r := 0; r < rounds; r++ {
				us := c.Updates
				if r == 1 {
					us = good
				}
				before := cur
				for _, u := range us {
					q, bad := upd(ps, u, c.Dup)
					got, err := apply(cur, u)
					if err != nil && strings.HasPrefix(err.Error(), "CRASH") {
						return vh.Errf("%+v: %v\n%s", u, err, cur)
					}
					if bad {
						if err == nil {
							return vh.Errf("%+v must be refused, it gives\n%s\nfrom\n%s", u, got, cur)
						}
						continue
					}
					if err != nil {
						return vh.Errf("%+v: %v\n%s", u, err, cur)
					}
					if w := join(q); got != w {
						return vh.Errf("%+v gives\n%s\nwant\n%s\nfrom\n%s", u, got, w, cur)
					}
					if got != cur {
						applied++
					}
					if r == 0 {
						good = append(good, u)
						for _, v := range c.Updates {
							repeated = repeated || v.ID == u.ID && v.Text != u.Text
						}
					}
					if !strings.Contains(u.Text, "\n") && len(q) > len(ps) && strings.Count(got, "\n") != strings.Count(cur, "\n") {
						return vh.Errf("%+v changes the number of lines", u)
					}
					ps, cur = q, got
				}
				// applying everything again changes nothing: the last
				// version of each update is there already
				if r == 1 && cur != before {
					return vh.Errf("applied again:\n%s\nwas\n%s", cur, before)
				}
			}
			if got := patch.CleanPatch(cur); got != orig {
				return vh.Errf("removing the updates gives\n%q\nwant\n%q\nfrom\n%q", got, orig, cur)
			}
			// the same through files: a patched file gives what the pristine one gives
			f := filepath.Join(root, "f.go")
			edit := func(us []Update) error {
				return patch.EditFile(f, func(s string) (string, error) {
					if s != orig {
						return "", fmt.Errorf("the callback sees %q, want the original %q", s, orig)
					}
					for _, u := range us {
						s, _ = apply2(s, u)
					}
					return s, nil
				})
			}
			read := func() string { b, _ := os.ReadFile(f); return string(b) }
			os.WriteFile(f, []byte(orig), 0644)
			if err := edit(good); err != nil {
				return vh.Result{Err: err}
			}
			if read() != cur {
				return vh.Errf("EditFile gives\n%s\nwant\n%s", read(), cur)
			}
			bad := fmt.Errorf("bad")
			if err := patch.EditFile(f, func(string) (string, error) { return "x", bad }); err == nil || read() != cur {
				return vh.Errf("a failed EditFile gives %v and\n%s", err, read())
			}
			if err := patch.EditFile(f, func(string) (string, error) { panic("x") }); err == nil || read() != cur {
				return vh.Errf("a panicking EditFile gives %v and\n%s", err, read())
			}
			if err := edit(good[:len(good)/2]); err != nil {
				return vh.Result{Err: err}
			}
			half := read()
			if patch.CleanPatch(half) != orig {
				return vh.Errf("half of the updates: %q", half)
			}
			if err := edit(good); err != nil || read() != cur {
				return vh.Errf("EditFile of a patched file gives %v\n%s\nwant\n%s", err, read(), cur)
			}
			if err := edit(nil); err != nil || read() != orig {
				return vh.Errf("EditFile without updates gives %v\n%s\nwant\n%s", err, read(), orig)
			}
			var cl []string
			if c.Dup {
				cl = append(cl, "duplicate-anchors")
			}
			if repeated {
				cl = append(cl, "repeated")
			}
			return vh.Result{NonTrivial: applied > 1 || repeated, Classes: cl}
		})
}

func apply2(s string, u Update) (string, error) { return apply(s, u) }

type MCase struct {
	Parts  []string
	Marker string
}

func TestRemoveMarker(t *testing.T) {
	vh.Run(t, "remove-marker", vh.Options{Rule: "texts with and without the marker line; non-trivial when it is there"},
		func(t *rapid.T) MCase {
			c := MCase{Marker: pick(t, "//go:build ignore", "//go:build ignore", "// MARK", "x")}
			for i := rapid.IntRange(0, 6).Draw(t, "n"); i > 0; i-- {
				c.Parts = append(c.Parts, pick(t, "\n", "\r\n", "\r", "package p\n", c.Marker, c.Marker+"\n", c.Marker+"\r\n", "// x\n", "//go:build linux\n", "é"))
			}
			return c
		},
		func(c MCase) vh.Result {
			s := strings.Join(c.Parts, "")
			got, err := patch.RemoveMarker(s, c.Marker)
			if c.Marker == "//go:build ignore" {
				g2, e2 := patch.RemoveBuildIgnore(s)
				if g2 != got || (e2 == nil) != (err == nil) {
					return vh.Errf("RemoveBuildIgnore differs")
				}
			}
			i := strings.Index(s, c.Marker)
			if i < 0 {
				if err == nil {
					return vh.Errf("no marker, but no error: %q", got)
				}
				return vh.Result{}
			}
			tail := s[i+len(c.Marker):]
			if strings.HasPrefix(tail, "\r\n") {
				tail = tail[2:]
			} else if strings.HasPrefix(tail, "\n") || strings.HasPrefix(tail, "\r") {
				tail = tail[1:]
			}
			if w := s[:i] + tail; err != nil || got != w {
				return vh.Errf("%q, %v, want %q", got, err, w)
			}
			return vh.Result{NonTrivial: true}
		})
}

func TestFixed(t *testing.T) {
	vh.Fixed(t, "line-directive", "FmtLineDirective", func() error {
		if g := patch.FmtLineDirective("/a b/é.go", 12); g != "//line /a b/é.go:12" {
			return fmt.Errorf("%q", g)
		}
		return nil
	})
}
