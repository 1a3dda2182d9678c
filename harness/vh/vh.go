// Package vh runs one property over generated cases, keeps the counts that go
// into the evidence file and writes the (shrunk) failing case to a replay file.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Result is what an oracle says about one case.
type Result struct {
	NonTrivial bool
	Classes    []string
	Err        error
}

type Options struct {
	Rule    string        // how cases are made and what makes one non-trivial
	Crashy  bool          // record the case before running it (the process may die)
	Timeout time.Duration // per case; 0 = none
	Div     int           // run only one Div-th of the cases (expensive ones)
}

func OutDir() string { return os.Getenv("VERIF_OUT") }
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return n
}

type stats struct {
	Name        string            `json:"name"`
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Rule        string            `json:"rule"`
	Samples     []json.RawMessage `json:"samples"`
}

type replay struct {
	Name    string          `json:"name"`
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
	Known   string          `json:"known,omitempty"`
}

func write(file string, v interface{}) {
	dir := OutDir()
	if dir == "" {
		return
	}
	data, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, file), data, 0644); err != nil {
		panic(err)
	}
}

func call[C any](c C, oracle func(C) Result, timeout time.Duration) (res Result) {
	one := func() (res Result) {
		defer func() {
			if e := recover(); e != nil {
				res.Err = fmt.Errorf("panic: %v\n%s", e, debug.Stack())
			}
		}()
		return oracle(c)
	}
	if timeout == 0 {
		return one()
	}
	ch := make(chan Result, 1)
	go func() { ch <- one() }()
	select {
	case r := <-ch:
		return r
	case <-time.After(timeout):
		return Result{Err: fmt.Errorf("no answer within %v", timeout)}
	}
}

// Run checks the oracle on generated cases. The case type must survive JSON.
func Run[C any](t *testing.T, name string, opt Options, gen func(*rapid.T) C, oracle func(C) Result) {
	t.Helper()
	if f := os.Getenv("VERIF_REPLAY"); f != "" {
		data, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		var r replay
		if err := json.Unmarshal(data, &r); err != nil {
			t.Fatal(err)
		}
		if r.Name != name {
			return
		}
		var c C
		if err := json.Unmarshal(r.Case, &c); err != nil {
			t.Fatal(err)
		}
		res := call(c, oracle, opt.Timeout)
		write("stats-"+name+".json", &stats{Name: name, Evaluations: 1, Rule: "replay"})
		if res.Err != nil {
			write("fail-"+name+".json", &replay{Name: name, Message: res.Err.Error(), Case: r.Case})
			t.Fatalf("replay fails: %v", res.Err)
		}
		return
	}
	st := &stats{Name: name, Classes: map[string]int{}, Rule: opt.Rule}
	seen := map[uint64]bool{}
	var small json.RawMessage
	failed := false
	prop := func(rt *rapid.T) {
		c := gen(rt)
		enc, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("case does not marshal: %v", err))
		}
		if opt.Crashy {
			write("current-"+name+".json", &replay{Name: name, Case: enc})
		}
		res := call(c, oracle, opt.Timeout)
		if !failed {
			st.Evaluations++
			for _, k := range res.Classes {
				st.Classes[name+"/"+k]++
			}
			if res.NonTrivial {
				h := fnv.New64a()
				h.Write(enc)
				if !seen[h.Sum64()] {
					seen[h.Sum64()] = true
					st.NonTrivial++
					n := st.NonTrivial
					if len(enc) < 1500 && (n == 3 || n == 40) {
						st.Samples = append(st.Samples, enc)
					} else if len(small) == 0 || len(enc) < len(small) {
						small = enc
					}
				}
			}
		}
		if res.Err != nil {
			failed = true
			write("fail-"+name+".json", &replay{Name: name, Message: res.Err.Error(), Case: enc})
			rt.Fatalf("%v\ncase: %s", res.Err, enc)
		}
	}
	defer func() {
		if opt.Crashy && OutDir() != "" {
			os.Remove(filepath.Join(OutDir(), "current-"+name+".json"))
		}
		if len(st.Samples) == 0 && len(small) > 0 && len(small) < 20000 {
			st.Samples = append(st.Samples, small)
		}
		write("stats-"+name+".json", st)
	}()
	if f := flag.Lookup("rapid.checks"); opt.Div > 1 && f != nil {
		old := f.Value.String()
		n, _ := strconv.Atoi(old)
		flag.Set("rapid.checks", strconv.Itoa(n/opt.Div+1))
		defer flag.Set("rapid.checks", old)
	}
	rapid.Check(t, prop)
}

// Known runs the fixed reproduction of a recorded finding. An error means that
// the finding is still there; the driver prints it or, if unlisted, alarms.
func Known(t *testing.T, id string, what string, f func() error) {
	t.Helper()
	if os.Getenv("VERIF_REPLAY") != "" {
		return
	}
	res := call(0, func(int) Result { return Result{Err: f()} }, 20*time.Second)
	if res.Err != nil {
		msg := what + ": " + res.Err.Error()
		enc, _ := json.Marshal(what)
		write("fail-known-"+id+".json", &replay{Name: "known-" + id, Message: msg, Case: enc, Known: id})
	}
}

// Fixed runs a fixed regression case (of a repaired defect) as a plain check.
func Fixed(t *testing.T, id string, what string, f func() error) {
	t.Helper()
	if os.Getenv("VERIF_REPLAY") != "" {
		return
	}
	res := call(0, func(int) Result { return Result{Err: f()} }, 20*time.Second)
	if res.Err != nil {
		enc, _ := json.Marshal(what)
		write("fail-fixed-"+id+".json", &replay{Name: "fixed-" + id, Message: what + ": " + res.Err.Error(), Case: enc})
		t.Errorf("%s: %v", what, res.Err)
	}
}

func Keys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func Errf(format string, args ...interface{}) Result {
	return Result{Err: fmt.Errorf(format, args...)}
}
