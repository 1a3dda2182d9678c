package u06

import (
	"fmt"
	"regexp"
	"strings"
	"testing"

	"github.com/xhd2015/xgo/support/pattern"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// reference of the patterns: path segments, * any text of a segment, ** any
// number of segments
func ref(p string) string {
	var segs []string
	for _, s := range strings.Split(p, "/") {
		if s != "" {
			segs = append(segs, s)
		}
	}
	re := "^"
	for _, s := range segs {
		if s == "**" {
			re += "(?:[^/]+/)*"
			continue
		}
		parts := strings.Split(s, "*")
		for i := range parts {
			parts[i] = regexp.QuoteMeta(parts[i])
		}
		re += strings.Join(parts, "[^/]*") + "/"
	}
	return re
}

func norm(path string) string {
	out := ""
	for _, s := range strings.Split(path, "/") {
		if s != "" {
			out += s + "/"
		}
	}
	return out
}

func refMatch(p, path string) bool {
	return regexp.MustCompile(ref(p) + "$").MatchString(norm(path))
}

func refPrefix(p, path string) bool {
	return regexp.MustCompile(ref(p)).MatchString(norm(path))
}

type PCase struct {
	Patterns []string
	Paths    []string
}

func genSeg(t *rapid.T) string {
	return rapid.StringMatching(`[ab]{1,3}`).Draw(t, "seg")
}

func genPattern(t *rapid.T) string {
	n := rapid.IntRange(1, 4).Draw(t, "n")
	var segs []string
	for i := 0; i < n; i++ {
		switch k := rapid.IntRange(0, 5).Draw(t, "k"); {
		case k == 0:
			segs = append(segs, "**")
		case k <= 2:
			// not only stars: whether such a segment can be absent is not said
			segs = append(segs, rapid.SampledFrom([]string{"a*", "*a", "*b*", "a*b", "b*a*", "*ab", "a**b", "ab*"}).Draw(t, "glob"))
		default:
			segs = append(segs, genSeg(t))
		}
	}
	return strings.Join(segs, rapid.SampledFrom([]string{"/", "/", "//"}).Draw(t, "sep"))
}

func genP(t *rapid.T) PCase {
	var c PCase
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "np"); i < n; i++ {
		c.Patterns = append(c.Patterns, genPattern(t))
	}
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nq"); i < n; i++ {
		var segs []string
		if rapid.Bool().Draw(t, "from") {
			// a path that a pattern is near to
			for _, s := range strings.Split(rapid.SampledFrom(c.Patterns).Draw(t, "p"), "/") {
				if s == "**" {
					for j, m := 0, rapid.IntRange(0, 2).Draw(t, "m"); j < m; j++ {
						segs = append(segs, genSeg(t))
					}
					continue
				}
				s = strings.ReplaceAll(s, "*", rapid.SampledFrom([]string{"", "a", "b", "ab"}).Draw(t, "star"))
				if rapid.IntRange(0, 4).Draw(t, "more") == 0 {
					s += "b"
				}
				segs = append(segs, s)
			}
		} else {
			for j, m := 0, rapid.IntRange(1, 4).Draw(t, "m"); j < m; j++ {
				segs = append(segs, genSeg(t))
			}
		}
		for j, m := 0, rapid.IntRange(0, 1).Draw(t, "tail"); j < m; j++ {
			segs = append(segs, genSeg(t))
		}
		c.Paths = append(c.Paths, strings.Join(segs, "/"))
	}
	return c
}

func oracleP(c PCase) vh.Result {
	var r vh.Result
	ps := pattern.CompilePatterns(c.Patterns)
	hit, miss := false, false
	for _, path := range c.Paths {
		any, anyPrefix := false, false
		for i, p := range c.Patterns {
			m, pre := refMatch(p, path), refPrefix(p, path)
			any, anyPrefix = any || m, anyPrefix || pre
			if got := ps[i].Match(path); got != m {
				r.Err = fmt.Errorf("pattern %q, path %q: match %v, want %v", p, path, got, m)
				return r
			}
			if got := ps[i].MatchPrefix(path); got != pre {
				r.Err = fmt.Errorf("pattern %q, path %q: match of a prefix %v, want %v", p, path, got, pre)
				return r
			}
		}
		if got := ps.MatchAny(path); got != any {
			r.Err = fmt.Errorf("patterns %q, path %q: match %v, want %v", c.Patterns, path, got, any)
			return r
		}
		if got := ps.MatchAnyPrefix(path); got != anyPrefix {
			r.Err = fmt.Errorf("patterns %q, path %q: match of a prefix %v, want %v", c.Patterns, path, got, anyPrefix)
			return r
		}
		hit, miss = hit || any, miss || !anyPrefix
	}
	r.NonTrivial = hit && miss
	return r
}

func TestPattern(t *testing.T) {
	vh.Run(t, "pattern", vh.Options{Rule: "patterns with * and ** and paths near to them; non-trivial: one path matches and one does not"}, genP, oracleP)
}
