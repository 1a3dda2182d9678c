package u04

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	test_explorer "github.com/xhd2015/xgo/cmd/xgo/test-explorer"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// The test explorer runs against a stand-in of the go command, which writes a
// generated transcript. All sessions of a case run at the same time.

// Four findings are recorded and kept out of the generator (the directory is
// taken for one of tests, so that they cannot be repaired): see TestKnown.

type Ev struct {
	Action string
	Test   string // "" = the package
	Output string
	Raw    bool // Output is a line outside of the JSON protocol
	Err    bool // Output goes to stderr
	Wait   int  // ms
	Long   int
	NoNL   bool // the line does not end with a newline
}

type Sess struct {
	Kind string // dir, file, case; or old (the earlier endpoint)
	Evs  []Ev
	RC   int

	Strict bool
}
type ECase struct {
	Sessions []Sess
}

var baseTests = []string{"TestA", "TestB", "TestC"}

func genE(t *rapid.T) ECase {
	return ECase{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) Sess {
		s := Sess{Kind: rapid.SampledFrom([]string{"dir", "dir", "file", "case", "old"}).Draw(t, "kind"),
			RC: rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "rc")}
		js := s.Kind == "dir" || s.Kind == "file"
		n := rapid.IntRange(0, 25).Draw(t, "n")
		started := map[string]bool{}
		ended := map[string]bool{}
		for i := 0; i < n; i++ {
			e := Ev{Wait: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 0, 0, 2, 30}).Draw(t, "wait")}
			text := fmt.Sprintf("#%d ", i) + rapid.StringMatching(`[a-z<>&"\\{}é%/]{0,8}`).Draw(t, "text")
			if rapid.IntRange(0, 14).Draw(t, "long") == 0 {
				e.Long = rapid.SampledFrom([]int{4000, 30000, 65000}).Draw(t, "len")
			}
			e.Output = text
			kind := rapid.IntRange(0, 9).Draw(t, "k")
			if !js {
				e.Raw = true
				e.Err = kind == 0 && e.Long == 0
				s.Evs = append(s.Evs, e)
				continue
			}
			test := rapid.SampledFrom([]string{"TestA", "TestB", "TestC", "TestA/x", "TestA/x/y", "TestB/x", "TestC/dé \"q\"#01", "TestA/z"}).Draw(t, "test")
			switch {
			case kind == 0:
				e.Raw, e.Err = true, true
			case kind == 1:
				e.Raw = true
				e.Output = "FAIL\tPKG [build failed " + text + "]"
				e.Long = 0
			case kind <= 3:
				if started[test] && !ended[test] {
					e.Test, e.Action, e.Output = test, rapid.SampledFrom([]string{"pass", "fail", "skip"}).Draw(t, "end"), ""
					ended[test] = true
				} else {
					e.Action, e.Output = "start", ""
				}
				e.Long = 0
			default:
				if ended[test] {
					// late output, or of a package
					test = ""
				}
				if test != "" && !started[test] {
					// parents first
					parts := strings.Split(test, "/")
					for k := 1; k <= len(parts); k++ {
						p := strings.Join(parts[:k], "/")
						if ended[p] {
							// a test below one that ended
							test = ""
							break
						}
						if !started[p] {
							started[p] = true
							s.Evs = append(s.Evs, Ev{Action: "run", Test: p})
						}
					}
				}
				e.Test, e.Action = test, "output"
			}
			s.Evs = append(s.Evs, e)
		}
		return s
	}), 1, 8).Draw(t, "sessions")}
}

var (
	once    sync.Once
	base    string // the project
	addr    string
	startEr error
	serial  int64
	doneIDs []string
)

func setup() {
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		startEr = fmt.Errorf("VERIF_SCRATCH not set")
		return
	}
	base = filepath.Join(root, "explorer", "proj")
	bin := filepath.Join(root, "explorer", "bin")
	os.MkdirAll(base, 0755)
	os.MkdirAll(bin, 0755)
	os.WriteFile(filepath.Join(base, "go.mod"), []byte("module example.com/m\n\ngo 1.18\n"), 0644)
	os.WriteFile(filepath.Join(bin, "open"), []byte("#!/bin/sh\nexit 0\n"), 0755)
	os.WriteFile(filepath.Join(bin, "fakego"), []byte("#!/bin/sh\nfor a in \"$@\"; do d=$a; done\nexec sh \"$d/transcript.sh\"\n"), 0755)
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		startEr = err
		return
	}
	os.Stdout, os.Stderr = null, null
	for try := 0; try < 5; try++ {
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			startEr = err
			return
		}
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		go test_explorer.Main([]string{"--bind", "127.0.0.1", "--port", fmt.Sprint(port), "--go-command", filepath.Join(bin, "fakego"), "--coverage=false", "--config", "none", "--project-dir", base}, nil)
		addr = fmt.Sprintf("http://127.0.0.1:%d", port)
		for k := 0; k < 100; k++ {
			time.Sleep(50 * time.Millisecond)
			r, err := http.Get(addr + "/")
			if err == nil {
				r.Body.Close()
				return
			}
		}
	}
	startEr = fmt.Errorf("the explorer does not serve")
}

func post(path string, req, resp interface{}) error {
	data, _ := json.Marshal(req)
	r, err := http.Post(addr+path, "application/json", bytes.NewReader(data))
	if err != nil {
		return err
	}
	defer r.Body.Close()
	body, err := io.ReadAll(r.Body)
	if err != nil {
		return err
	}
	if r.StatusCode != 200 {
		return fmt.Errorf("%s: %d %s", path, r.StatusCode, body)
	}
	return json.Unmarshal(body, resp)
}

type event struct {
	Event  string
	Path   []string
	Status string
	Msg    string
}

func pad(e Ev) string {
	if len(e.Output) < e.Long {
		return e.Output + strings.Repeat("z", e.Long-len(e.Output))
	}
	return e.Output
}

func runSess(s Sess) (err error) {
	id := atomic.AddInt64(&serial, 1)
	name := fmt.Sprintf("pk%d", id)
	dir := filepath.Join(base, name)
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	pkg := "example.com/m/" + name
	for _, bt := range baseTests {
		os.WriteFile(filepath.Join(dir, strings.ToLower(bt)+"_test.go"), []byte("package p\nimport \"testing\"\n\nfunc "+bt+"(t *testing.T) {}\n"), 0644)
	}
	js := s.Kind == "dir" || s.Kind == "file"
	rootName := filepath.Base(base)
	testPath := func(test string) []string {
		if test == "" {
			return []string{rootName, name}
		}
		parts := strings.Split(test, "/")
		return append([]string{rootName, name, strings.ToLower(parts[0]) + "_test.go"}, parts...)
	}
	key := func(p []string) string { return strings.Join(p, "\x00") }

	// ---- what is written, and what has to come of it
	var sh strings.Builder
	outs := map[string]string{} // path -> text of its events
	status := map[string]string{}
	var rawOut, rawErr []string
	fn := 0
	var prefix []string
	for _, e := range s.Evs {
		var line string
		if e.Raw {
			line = strings.ReplaceAll(pad(e), "PKG", pkg)
			if e.Err {
				rawErr = append(rawErr, line)
			} else if !js {
				rawOut = append(rawOut, line)
			} else if strings.HasPrefix(line, "FAIL") {
				k := key(testPath(""))
				// without anything before it there is an empty line
				outs[k] += strings.Join(prefix, "\n") + "\n" + line
				prefix = nil
				status[k] = "fail"
			} else {
				prefix = append(prefix, line)
			}
			if !e.NoNL {
				line += "\n"
			}
		} else {
			m := map[string]interface{}{"Action": e.Action, "Package": pkg, "Time": time.Unix(1700000000, 0)}
			if e.Test != "" {
				m["Test"] = e.Test
			}
			out := ""
			if e.Action == "output" {
				out = pad(e) + "\n"
				m["Output"] = out
			}
			k := key(testPath(e.Test))
			outs[k] += out
			if i := strings.Index(e.Test, "/"); i >= 0 {
				outs[key(testPath(e.Test[:i]))] += out
			}
			if st := map[string]string{"run": "success", "pass": "success", "fail": "fail", "skip": "skip"}[e.Action]; st != "" {
				status[k] = st
			}
			data, _ := json.Marshal(m)
			line = string(data) + "\n"
		}
		fn++
		f := filepath.Join(dir, fmt.Sprintf("part%d", fn))
		if err := os.WriteFile(f, []byte(line), 0644); err != nil {
			return err
		}
		if e.Wait > 0 {
			fmt.Fprintf(&sh, "sleep 0.%03d\n", e.Wait)
		}
		if e.Err {
			fmt.Fprintf(&sh, "cat %s >&2\n", f)
		} else {
			fmt.Fprintf(&sh, "cat %s\n", f)
		}
	}
	fmt.Fprintf(&sh, "exit %d\n", s.RC)
	if err := os.WriteFile(filepath.Join(dir, "transcript.sh"), []byte(sh.String()), 0644); err != nil {
		return err
	}
	defer os.RemoveAll(dir)

	// ---- run it
	fileItem := func(bt string) *test_explorer.TestingItem {
		fn := strings.ToLower(bt) + "_test.go"
		rel := name + "/" + fn
		return &test_explorer.TestingItem{Key: fn, Name: fn, RelPath: rel, File: filepath.Join(base, rel), Kind: "file", HasTestCases: true,
			Children: []*test_explorer.TestingItem{{Key: bt, Name: bt, BaseCaseName: bt, NameUnderPkg: bt, RelPath: rel, File: filepath.Join(base, rel), Kind: "case"}}}
	}
	var item *test_explorer.TestingItem
	root := []string{rootName, name}
	itemPaths := [][]string{}
	switch s.Kind {
	case "dir":
		item = &test_explorer.TestingItem{Key: name, Name: name, RelPath: name, File: dir, Kind: "dir", HasTestCases: true}
		itemPaths = append(itemPaths, root)
		for _, bt := range baseTests {
			item.Children = append(item.Children, fileItem(bt))
			itemPaths = append(itemPaths, testPath(bt)[:3], testPath(bt))
		}
	case "file":
		item = fileItem("TestA")
		root = testPath("TestA")[:3]
		itemPaths = append(itemPaths, root, testPath("TestA"))
	default:
		item = fileItem("TestA").Children[0]
		root = testPath("TestA")
		itemPaths = append(itemPaths, root)
	}
	var started struct{ ID string }
	api := "/session"
	startPath := "/session/start"
	if s.Kind == "old" {
		api, startPath = "/run", "/run"
	}
	if err := post(startPath, map[string]interface{}{"item": item, "path": root}, &started); err != nil {
		return err
	}
	if started.ID == "" {
		return fmt.Errorf("no session id")
	}
	var evs []event
	begin := time.Now()
	ended := 0
	for ended == 0 {
		var r struct{ Events []event }
		if err := post(api+"/pollStatus", map[string]interface{}{"id": started.ID}, &r); err != nil {
			return err
		}
		for _, e := range r.Events {
			if e.Event == "test_end" {
				ended++
			}
		}
		evs = append(evs, r.Events...)
		if time.Since(begin) > limit {
			return fmt.Errorf("the test has not ended in the explorer after %v; %d events", time.Since(begin), len(evs))
		}
	}
	// with -json stderr has a pipe of its own, that xgo writes the command to as well
	lenient := s.Kind == "old" || js
	if s.Strict {
		lenient = false
	}
	if !lenient {
		mu.Lock()
		doneIDs = append(doneIDs, started.ID)
		mu.Unlock()
	}

	// ---- compare
	if lenient {
		// output still to come, see TestKnown
		var rest []event
		for i, e := range evs {
			if e.Event == "test_end" {
				for _, e := range evs[i+1:] {
					if e.Event == "test_end" || e.Status != "" || s.Kind != "old" && key(e.Path) != key(root) {
						return fmt.Errorf("events after the end: %v", short(evs))
					}
				}
				rest, evs = evs[i+1:], append(append([]event{}, evs[:i]...), evs[i])
				evs = append(evs[:len(evs)-1:len(evs)-1], append(rest, evs[len(evs)-1])...)
				break
			}
		}
	}
	if evs[len(evs)-1].Event != "test_end" || ended != 1 {
		return fmt.Errorf("events after the end: %v", short(evs))
	}
	evs = evs[:len(evs)-1]
	if s.Kind != "old" {
		if len(evs) == 0 || evs[0].Event != "test_start" {
			return fmt.Errorf("does not begin with test_start: %v", short(evs))
		}
		evs = evs[1:]
	}
	gotStatus := map[string]string{}
	gotOut := map[string]string{}
	var plain []string // messages of single lines, at the root
	failed := false
	for _, e := range evs {
		if e.Event == "error_msg" {
			return fmt.Errorf("error event %q", e.Msg)
		}
		if e.Status == "fail" && key(e.Path) == key(root) && strings.Contains(e.Msg, "exit status") {
			failed = true
			gotStatus[key(root)] = "fail"
			continue
		}
		if s.Kind == "old" && strings.HasPrefix(e.Msg, "err: ") && strings.Contains(e.Msg, "exit status") {
			failed = true
			continue
		}
		if e.Event != "item_status" && e.Event != "output" {
			continue
		}
		if e.Status != "" {
			gotStatus[key(e.Path)] = e.Status
		}
		if e.Msg == "" {
			continue
		}
		if s.Kind == "old" || key(e.Path) == key(root) && !strings.HasSuffix(e.Msg, "\n") && e.Status == "" {
			// the command itself is written to stderr first
			if strings.HasPrefix(e.Msg, "# cd ") || strings.Contains(e.Msg, "fakego test ") {
				continue
			}
			plain = append(plain, e.Msg)
			continue
		}
		gotOut[key(e.Path)] += e.Msg
	}
	if failed != (s.RC != 0) {
		return fmt.Errorf("exit status %d, reported as a failure: %v", s.RC, failed)
	}
	if !js {
		// stdout and stderr: two sequences, merged
		if d := merged(plain, rawOut, rawErr, lenient); d != "" {
			return fmt.Errorf("%s: %s", s.Kind, d)
		}
	} else {
		if d := merged(plain, nil, rawErr, lenient); d != "" {
			return fmt.Errorf("stderr of a %s: %s", s.Kind, d)
		}
		ks := map[string]bool{}
		for k := range outs {
			ks[k] = true
		}
		for k := range gotOut {
			ks[k] = true
		}
		for k := range ks {
			if outs[k] != gotOut[k] {
				return fmt.Errorf("output of %q: got %s\nwant %s", strings.Split(k, "\x00"), cut(gotOut[k]), cut(outs[k]))
			}
		}
	}
	if s.Kind != "old" {
		for _, p := range itemPaths {
			if status[key(p)] == "" {
				status[key(p)] = "success"
			}
		}
		if s.RC != 0 {
			status[key(root)] = "fail"
		}
		for k, st := range status {
			if gotStatus[k] != st {
				return fmt.Errorf("final status of %q: got %q, want %q", strings.Split(k, "\x00"), gotStatus[k], st)
			}
		}
	}
	return nil
}

var mu sync.Mutex
var limit = 40 * time.Second

func cut(s string) string {
	if len(s) > 300 {
		return fmt.Sprintf("%q... (%d bytes)", s[:300], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func short(evs []event) string {
	var b []string
	for _, e := range evs {
		b = append(b, fmt.Sprintf("%s %v %s %s", e.Event, e.Path, e.Status, cut(e.Msg)))
	}
	return strings.Join(b, "\n")
}

// merged tells if got is an interleaving of a and b (all lines differ)
func merged(got, a, b []string, partly bool) string {
	i, j := 0, 0
	for _, g := range got {
		switch {
		case i < len(a) && g == a[i]:
			i++
		case j < len(b) && g == b[j]:
			j++
		default:
			return fmt.Sprintf("line %s is out of place (after %d lines of stdout, %d of stderr)", cut(g), i, j)
		}
	}
	if !partly && (i < len(a) || j < len(b)) {
		return fmt.Sprintf("%d of %d lines of stdout and %d of %d lines of stderr were delivered", i, len(a), j, len(b))
	}
	return ""
}

func oracleE(c ECase) (res vh.Result) {
	once.Do(setup)
	if startEr != nil {
		return vh.Result{Err: startEr}
	}
	errs := make([]error, len(c.Sessions))
	var wg sync.WaitGroup
	cl := map[string]bool{}
	n := 0
	for i, s := range c.Sessions {
		cl["kind-"+s.Kind] = true
		n += len(s.Evs)
		for _, e := range s.Evs {
			if e.Long > 65536 {
				cl["long-line"] = true
			}
			if e.Raw && !e.Err && s.Kind != "case" && s.Kind != "old" {
				cl["raw-line-in-json"] = true
			}
			if e.Err {
				cl["stderr"] = true
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			errs[i] = runSess(s)
		}()
	}
	wg.Wait()
	for i, err := range errs {
		if err != nil && res.Err == nil {
			res.Err = fmt.Errorf("session %d (%s): %v", i, c.Sessions[i].Kind, err)
		}
	}
	for k := range cl {
		res.Classes = append(res.Classes, k)
	}
	sort.Strings(res.Classes)
	res.NonTrivial = n > 2
	return
}

func TestExplorer(t *testing.T) {
	so, se := os.Stdout, os.Stderr
	defer func() { os.Stdout, os.Stderr = so, se }()
	vh.Run(t, "explorer", vh.Options{Crashy: true,
		Rule: "explorer: up to 8 sessions at a time of the test explorer's HTTP interface over generated go test transcripts; non-trivial: more than two events",
	}, genE, oracleE)
	if t.Failed() || len(doneIDs) == 0 {
		return
	}
	// nothing comes after the end
	ids := doneIDs
	if len(ids) > 100 {
		ids = ids[len(ids)-100:]
	}
	var wg sync.WaitGroup
	for _, id := range ids {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var r struct{ Events []event }
			if err := post("/session/pollStatus", map[string]interface{}{"id": id}, &r); err != nil {
				t.Errorf("%v", err)
			}
			if len(r.Events) > 0 {
				t.Errorf("events after the end: %s", short(r.Events))
			}
		}()
	}
	wg.Wait()
}

// known findings, each in a process of its own: one of them ends the server,
// another leaves it hanging
var findings = map[string]Sess{
	"U04-raw-line":  {Kind: "dir", Strict: true, Evs: []Ev{{Raw: true, Output: "vet: warning"}}},
	"U04-long-line": {Kind: "dir", Strict: true, Evs: []Ev{{Action: "run", Test: "TestA"}, {Action: "output", Test: "TestA", Output: "#1 ", Long: 70000}, {Action: "pass", Test: "TestA"}}},
	"U04-stderr":    {Kind: "dir", Strict: true, Evs: []Ev{{Raw: true, Err: true, Output: "#1 stderr", NoNL: true}}},
	"U04-old-tail":  {Kind: "old", Strict: true, Evs: []Ev{{Raw: true, Output: "#1 stdout", NoNL: true}}},
}

func TestKnown(t *testing.T) {
	if k := os.Getenv("U04_KNOWN"); k != "" {
		limit = 4 * time.Second
		once.Do(setup)
		if startEr != nil {
			t.Fatal(startEr)
		}
		// a line of its own, the explorer writes to stdout as well
		if err := runSess(findings[k]); err != nil {
			os.WriteFile(os.Getenv("U04_RESULT"), []byte(err.Error()), 0644)
			os.Exit(3)
		}
		os.Exit(0)
	}
	root := os.Getenv("VERIF_SCRATCH")
	for id, what := range map[string]string{
		"U04-raw-line":  "a line of the test command outside of the JSON protocol ends (or hangs) the test explorer",
		"U04-long-line": "a line over 64 KB hangs the run in the test explorer",
		"U04-stderr":    "the last lines a test command writes to stderr come after the end event or not at all",
		"U04-old-tail":  "the last lines of the output of /run and /debug come after the end event or not at all",
	} {
		vh.Known(t, id, what, func() error {
			result := filepath.Join(root, id+".result")
			c := exec.Command(os.Args[0], "-test.run=^TestKnown$")
			c.Env = append(os.Environ(), "U04_KNOWN="+id, "U04_RESULT="+result, "VERIF_SCRATCH="+filepath.Join(root, id))
			c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
			out, err := c.CombinedOutput()
			if c.Process != nil {
				syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
			}
			if err == nil {
				return nil
			}
			if data, er := os.ReadFile(result); er == nil {
				return fmt.Errorf("%s", data)
			}
			if i := bytes.Index(out, []byte("panic: ")); i >= 0 {
				out = out[i:]
			}
			return fmt.Errorf("%v: %s", err, cut(string(out)))
		})
	}
}
