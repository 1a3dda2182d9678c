package u06

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing"

	test_explorer "github.com/xhd2015/xgo/cmd/xgo/test-explorer"
	"github.com/xhd2015/xgo/support/testconfig"
	"pgregory.net/rapid"
	"verif/harness/vh"
)

// Field of a document: its text, and whether its type is a documented one
type Field struct {
	Key  string
	Text string
	Bad  bool
}

// Doc is a configuration document with what it means
type Doc struct {
	Fields []Field
	Layout int

	Min, Max string
	GoCmd    string
	Exclude  []string
	Flags    []string
	Args     []string
	Env      map[string]string
	Bypass   bool
	Rules    []string
	Update   bool
	HasXgo   bool
	CovOff   bool
	HasCov   bool
	Diff     string
	Profile  string
	Include  []string
}

func (d Doc) text() string {
	nl := []string{"", "\n  ", " "}[d.Layout%3]
	s := "{"
	for i, f := range d.Fields {
		if i > 0 {
			s += ","
		}
		s += nl + quote(f.Key, false) + ":" + nl + f.Text
	}
	s += nl + "}"
	if d.Layout >= 3 {
		s = "\n" + s + "\n"
	}
	return s
}

func (d Doc) bad() string {
	for _, f := range d.Fields {
		if f.Bad {
			return f.Key
		}
	}
	return ""
}

func quote(s string, esc bool) string {
	if esc {
		out := `"`
		for _, r := range s {
			if r > 0xffff {
				b, _ := json.Marshal(string(r))
				out += string(b[1 : len(b)-1])
				continue
			}
			out += fmt.Sprintf(`\u%04x`, r)
		}
		return out + `"`
	}
	b, _ := json.Marshal(s)
	return string(b)
}

var words = []string{"", "a", "-p=4", "-failfast", "--x", "with space", "é\"q\"", "<&>", "-count", "2", "$HOME", "--", "-args"}

func genList(t *rapid.T, label string) []string {
	return rapid.SliceOfN(rapid.SampledFrom(words), 0, 3).Draw(t, label)
}

func listText(t *rapid.T, l []string) string {
	var s []string
	for _, x := range l {
		s = append(s, quote(x, rapid.IntRange(0, 5).Draw(t, "esc") == 0))
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func genVersion(t *rapid.T) string {
	v := fmt.Sprintf("1.%d", rapid.IntRange(17, 27).Draw(t, "minor"))
	if rapid.Bool().Draw(t, "patch") {
		v += fmt.Sprintf(".%d", rapid.IntRange(0, 30).Draw(t, "p"))
	}
	if rapid.IntRange(0, 4).Draw(t, "prefix") == 0 {
		v = "go" + v
	}
	return v
}

// genDoc: with run, only what a run of the tool can be observed to do
func genDoc(t *rapid.T, run bool) Doc {
	d := Doc{Layout: rapid.IntRange(0, 5).Draw(t, "layout")}
	add := func(key, text string, bad bool) {
		d.Fields = append(d.Fields, Field{key, text, bad})
	}
	badOdds := 60
	has := func(key string) bool {
		switch k := rapid.IntRange(0, 9).Draw(t, key); {
		case k < 4:
			return false
		case k == 4:
			add(key, "null", false)
			return false
		}
		return true
	}
	// wrong adds a value of a type that is not documented
	wrong := func(key string, texts ...string) bool {
		if rapid.IntRange(0, badOdds).Draw(t, "bad") != 0 {
			return false
		}
		add(key, rapid.SampledFrom(texts).Draw(t, "wrong"), true)
		return true
	}
	if has("go") && !wrong("go", "12", "true", `["1.18"]`, `{"min": 1.18}`, `{"max": []}`, "1.18") {
		if rapid.IntRange(0, 2).Draw(t, "short") == 0 {
			d.Min = genVersion(t)
			add("go", quote(d.Min, false), false)
		} else {
			var s []string
			if rapid.Bool().Draw(t, "min") {
				d.Min = genVersion(t)
				s = append(s, `"min": `+quote(d.Min, false))
			}
			if rapid.Bool().Draw(t, "max") {
				d.Max = genVersion(t)
				s = append(s, `"max": `+quote(d.Max, false))
			}
			add("go", "{"+strings.Join(s, ",")+"}", false)
		}
	}
	if has("go_cmd") && !wrong("go_cmd", "1", "[]", `["go"]`, "true", `{}`) {
		d.GoCmd = rapid.SampledFrom([]string{"", "rec-conf", "rec-conf", "xgo", "xgo"}).Draw(t, "cmd")
		add("go_cmd", quote(d.GoCmd, false), false)
	}
	if has("exclude") && !wrong("exclude", "1", "true", `{"a":1}`, `["a",1]`, `[null]`) {
		pats := rapid.SampledFrom([]string{"a", "ab", "a/b", "integration_test", "integ", "x", "x/y", "x/y/z", "**/y", "*b", "a*", "**/integration_test", "nothing", "./a"})
		if rapid.Bool().Draw(t, "single") {
			p := pats.Draw(t, "p")
			d.Exclude = []string{p}
			add("exclude", quote(p, false), false)
		} else {
			d.Exclude = rapid.SliceOfN(pats, 0, 3).Draw(t, "ps")
			add("exclude", listText(t, d.Exclude), false)
		}
	}
	for _, k := range []string{"flags", "args"} {
		if has(k) && !wrong(k, "1", "true", `{"a":"b"}`, `["a",1]`, `[["a"]]`, `[true]`) {
			l := genList(t, k)
			if k == "flags" {
				d.Flags = l
			} else {
				d.Args = l
			}
			add(k, listText(t, l), false)
		}
	}
	if has("env") && !wrong("env", "1", `"A=b"`, `["A=b"]`, "true") {
		d.Env = map[string]string{}
		var s []string
		for _, k := range rapid.SliceOfNDistinct(rapid.SampledFrom([]string{"VERIF_A", "VERIF_B", "VERIF_C", "VERIF_D"}), 0, 4, rapid.ID[string]).Draw(t, "keys") {
			var v, text string
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				v = fmt.Sprint(rapid.Bool().Draw(t, "b"))
				text = v
			case 1:
				v = fmt.Sprint(rapid.SampledFrom([]int64{0, 1, -7, 8080, 999999, 1000000, 12345678, 86400000000000, 1234567890123456789}).Draw(t, "n"))
				text = v
			case 2:
				v = rapid.SampledFrom([]string{"0.5", "1.25", "-3.75", "0.000001"}).Draw(t, "f")
				text = v
			default:
				v = rapid.SampledFrom([]string{"", "true", "a b", "é=\"x\"", "1e6", "a,b"}).Draw(t, "s")
				text = quote(v, rapid.Bool().Draw(t, "esc"))
			}
			d.Env[k] = v
			s = append(s, quote(k, false)+": "+text)
		}
		add("env", "{"+strings.Join(s, ", ")+"}", false)
	}
	if has("bypass_go_flags") && !wrong("bypass_go_flags", `"yes"`, "1", "[]", `""`) {
		d.Bypass = rapid.Bool().Draw(t, "bypass")
		text := fmt.Sprint(d.Bypass)
		if d.Bypass && rapid.Bool().Draw(t, "str") {
			text = `"true"`
		}
		add("bypass_go_flags", text, false)
	}
	if has("mock_rules") && !wrong("mock_rules", `"{}"`, "1", `{"any":true}`, `["{\"any\":true}"]`) {
		rules := []string{`{"stdlib": true, "action": "exclude"}`, `{"any":true,"action":"include"}`, `{"comment":"a <b> & é","pkg":"x/y/**, z","main_module":false}`, `{"kind":"func,var","name":"F*","n":12345678901}`}
		d.Rules = rapid.SliceOfN(rapid.SampledFrom(rules), 0, 3).Draw(t, "rules")
		add("mock_rules", "["+strings.Join(d.Rules, ",")+"]", false)
	}
	if has("xgo") && !wrong("xgo", "1", `"x"`, "[]", `{"auto_update": "yes"}`, "true") {
		d.HasXgo = true
		if rapid.Bool().Draw(t, "au") {
			d.Update = rapid.Bool().Draw(t, "update")
			add("xgo", fmt.Sprintf(`{"auto_update": %v}`, d.Update), false)
		} else {
			add("xgo", "{}", false)
		}
	}
	if has("coverage") && !wrong("coverage", "1", `"off"`, "[]", `{"disabled": "yes"}`, `{"include": "a"}`) {
		switch rapid.IntRange(0, 3).Draw(t, "cov") {
		case 0:
			d.CovOff, d.HasCov = true, true
			add("coverage", "false", false)
		case 1:
			add("coverage", "true", false)
		default:
			d.HasCov = true
			d.CovOff = rapid.Bool().Draw(t, "off")
			s := []string{fmt.Sprintf(`"disabled": %v`, d.CovOff)}
			if rapid.Bool().Draw(t, "diff") {
				d.Diff = "none"
				s = append(s, `"diff_with": "none"`)
			}
			if rapid.Bool().Draw(t, "prof") {
				d.Profile = "conf.cov"
				s = append(s, `"profile": "conf.cov"`)
			}
			if rapid.Bool().Draw(t, "incl") {
				d.Include = genList(t, "include")
				s = append(s, `"include": `+listText(t, d.Include))
			}
			add("coverage", "{"+strings.Join(s, ",")+"}", false)
		}
	}
	for i, n := 0, rapid.IntRange(0, 2).Draw(t, "unknown"); i < n; i++ {
		add(fmt.Sprintf("pre_test_%d", i), rapid.SampledFrom([]string{`"x"`, "[1,{}]", "null", `{"flags":["-z"]}`}).Draw(t, "u"), false)
	}
	d.Fields = rapid.Permutation(d.Fields).Draw(t, "order")
	return d
}

func same(a, b []string) bool {
	return len(a) == 0 && len(b) == 0 || reflect.DeepEqual(a, b)
}

func sameJSON(a, b string) bool {
	var x, y interface{}
	da, db := json.NewDecoder(strings.NewReader(a)), json.NewDecoder(strings.NewReader(b))
	da.UseNumber()
	db.UseNumber()
	if da.Decode(&x) != nil || db.Decode(&y) != nil {
		return false
	}
	return reflect.DeepEqual(x, y)
}

func (d Doc) envList() []string {
	var l []string
	for k, v := range d.Env {
		l = append(l, k+"="+v)
	}
	sort.Strings(l)
	return l
}

// compare what was parsed with what the document means
func (d Doc) compare(c *testconfig.Config) error {
	if c == nil {
		return fmt.Errorf("no configuration")
	}
	var min, max string
	if c.Go != nil {
		min, max = c.Go.Min, c.Go.Max
	}
	if min != d.Min || max != d.Max {
		return fmt.Errorf("go: min %q max %q, want %q %q", min, max, d.Min, d.Max)
	}
	if c.GoCmd != d.GoCmd {
		return fmt.Errorf("go_cmd: %q, want %q", c.GoCmd, d.GoCmd)
	}
	want := d.GoCmd
	if want == "" {
		want = "go"
	}
	if c.GetGoCmd() != want {
		return fmt.Errorf("GetGoCmd: %q, want %q", c.GetGoCmd(), want)
	}
	for _, x := range []struct {
		name      string
		got, want []string
	}{{"exclude", c.Exclude, d.Exclude}, {"flags", c.Flags, d.Flags}, {"args", c.Args, d.Args}} {
		if !same(x.got, x.want) {
			return fmt.Errorf("%s: %q, want %q", x.name, x.got, x.want)
		}
	}
	for _, f := range []func() []string{c.EnvPairs, c.CmdEnv} {
		env := append([]string(nil), f()...)
		sort.Strings(env)
		if !same(env, d.envList()) {
			return fmt.Errorf("env: %q, want %q", env, d.envList())
		}
	}
	if c.BypassGoFlags != d.Bypass {
		return fmt.Errorf("bypass_go_flags: %v, want %v", c.BypassGoFlags, d.Bypass)
	}
	if len(c.MockRules) != len(d.Rules) {
		return fmt.Errorf("mock_rules: %q, want %q", c.MockRules, d.Rules)
	}
	for i := range d.Rules {
		if !sameJSON(c.MockRules[i], d.Rules[i]) {
			return fmt.Errorf("mock_rules[%d]: %s, want %s", i, c.MockRules[i], d.Rules[i])
		}
	}
	if got := c.Xgo != nil && c.Xgo.AutoUpdate; got != d.Update {
		return fmt.Errorf("xgo.auto_update: %v, want %v", got, d.Update)
	}
	var cov testconfig.CoverageConfig
	if c.Coverage != nil {
		cov = *c.Coverage
	}
	if cov.Disabled != d.CovOff || cov.DiffWith != d.Diff || cov.Profile != d.Profile || !same(cov.Include, d.Include) || len(cov.Exclude) > 0 {
		return fmt.Errorf("coverage: %+v, want disabled=%v diff_with=%q profile=%q include=%q", cov, d.CovOff, d.Diff, d.Profile, d.Include)
	}
	return nil
}

func minor(v string) int {
	n, _ := strconv.Atoi(strings.Split(strings.TrimPrefix(v, "go"), ".")[1])
	return n
}

// satisfied tells if go version 1.N fulfils the constraint
func (d Doc) satisfied(n int) bool {
	return (d.Min == "" || n >= minor(d.Min)) && (d.Max == "" || n <= minor(d.Max))
}

type CCase struct {
	Doc  Doc
	File int // 0 as bytes, 1 as a file, 2 empty file, 3 missing, 4 cut short, 5 something after the document
	Go   int // 1.N
}

var bins string
var realGo string

func TestMain(m *testing.M) {
	var err error
	realGo, err = exec.LookPath("go")
	if err != nil {
		panic(err)
	}
	bins, err = os.MkdirTemp("", "u06-")
	if err != nil {
		panic(err)
	}
	script := func(name, text string) {
		if err := os.WriteFile(filepath.Join(bins, name), []byte("#!/bin/sh\n"+text), 0755); err != nil {
			panic(err)
		}
	}
	script("go", "if [ \"$1\" = version ]; then cat \""+bins+"/version\"; exit 0; fi\nexec "+realGo+" \"$@\"\n")
	rec := "if [ \"$1\" = version ] && [ $# = 1 ]; then cat \"" + bins + "/xgoversion\"; exit 0; fi\n" +
		"printf '%s\\0' \"$0\" \"$@\" > \"$VERIF_REC.args\"\nenv -0 > \"$VERIF_REC.env\"\npwd > \"$VERIF_REC.pwd\"\nexit $VERIF_RC\n"
	for _, x := range []string{"xgo", "rec-conf", "rec-cli", "rec-default"} {
		script(x, rec)
	}
	os.Setenv("PATH", bins+":"+os.Getenv("PATH"))
	os.Setenv("XGO_AUTO_UPDATE", "never")
	rc := m.Run()
	os.RemoveAll(bins)
	os.Exit(rc)
}

func goVersion(n int) {
	os.WriteFile(bins+"/version", []byte(fmt.Sprintf("go version go1.%d.%d linux/amd64\n", n, n%4)), 0644)
}

func genC(t *rapid.T) CCase {
	return CCase{Doc: genDoc(t, false), File: rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 1, 2, 3, 4, 5}).Draw(t, "file"), Go: rapid.IntRange(17, 27).Draw(t, "go")}
}

func oracleC(c CCase) vh.Result {
	var r vh.Result
	text := c.Doc.text()
	bad := c.Doc.bad()
	var conf *testconfig.Config
	var err error
	file := filepath.Join(bins, "conf.json")
	switch c.File {
	case 0:
		conf, err = testconfig.Parse([]byte(text))
	case 1:
		os.WriteFile(file, []byte(text), 0644)
		conf, err = testconfig.Load(file)
	case 2:
		os.WriteFile(file, []byte(strings.Repeat(" \n", c.Go%3)), 0644)
		conf, err = testconfig.Load(file)
		c.Doc, bad = Doc{}, ""
	case 3:
		os.Remove(file)
		conf, err = testconfig.Load(file)
		if err != nil || conf != nil {
			r.Err = fmt.Errorf("missing file: %v %v", conf, err)
			return r
		}
		c.Doc, bad = Doc{}, ""
		conf = &testconfig.Config{}
	case 4:
		text = strings.TrimRight(text, " \n")
		text = text[:len(text)-1]
		bad = "(cut short)"
		conf, err = testconfig.Parse([]byte(text))
	case 5:
		text += []string{"x", "{}", ",", "]"}[c.Go%4]
		bad = "(something after it)"
		conf, err = testconfig.Parse([]byte(text))
	}
	r.Classes = append(r.Classes, fmt.Sprintf("file%d", c.File))
	if bad != "" {
		r.Classes = append(r.Classes, "ill-typed")
		if err == nil {
			r.Err = fmt.Errorf("no error, although %s is wrong: %s", bad, text)
		}
		r.NonTrivial = true
		return r
	}
	if err != nil {
		r.Err = fmt.Errorf("%v: %s", err, text)
		return r
	}
	if err := c.Doc.compare(conf); err != nil {
		r.Err = fmt.Errorf("%v\ndocument: %s", err, text)
		return r
	}
	if c.Doc.Min != "" || c.Doc.Max != "" {
		goVersion(c.Go)
		err := testconfig.ValidateGoVersion(conf, bins+"/go")
		if (err == nil) != c.Doc.satisfied(c.Go) {
			r.Err = fmt.Errorf("go 1.%d with min %q max %q: %v", c.Go, c.Doc.Min, c.Doc.Max, err)
			return r
		}
		r.Classes = append(r.Classes, fmt.Sprintf("version allowed %v", err == nil))
	}
	r.NonTrivial = len(c.Doc.Fields) >= 3
	return r
}

func TestConfig(t *testing.T) {
	vh.Run(t, "config", vh.Options{Rule: "documents of documented fields in their spellings, also ill-typed ones and unknown keys; non-trivial: at least three fields, or an error is due"}, genC, oracleC)
}

// ------------------------------------------------------------- a whole run

type RCase struct {
	Doc      Doc
	Where    int // 0 in the project, 1 --config with a name, 2 --config with an absolute name, 3 --config none, 4 no file, 5 --config with a missing file
	Go       int
	GoCli    bool
	Default  bool
	Flags    []string
	Args     []string
	Exclude  []string
	Coverage string // "", --coverage, --coverage=true, --coverage=false
	Tests    []string
	RC       int
	Rel      bool
	XgoV     string
}

func genR(t *rapid.T) RCase {
	c := RCase{
		Doc:      genDoc(t, true),
		Where:    rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4, 5}).Draw(t, "where"),
		Go:       rapid.SampledFrom([]int{17, 20, 22, 22, 22, 24, 27}).Draw(t, "gov"),
		GoCli:    rapid.IntRange(0, 3).Draw(t, "gocli") == 0,
		Default:  rapid.Bool().Draw(t, "default"),
		Flags:    rapid.SliceOfN(rapid.SampledFrom([]string{"-p=2", "-v", "-tags=x"}), 0, 2).Draw(t, "cliflags"),
		Args:     rapid.SliceOfN(rapid.SampledFrom([]string{"x", "--y", "-z=1"}), 0, 2).Draw(t, "cliargs"),
		Coverage: rapid.SampledFrom([]string{"", "--coverage=false", "--coverage=false", "--coverage=false"}).Draw(t, "clicov"),
		RC:       rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(t, "rc"),
		Rel:      rapid.Bool().Draw(t, "rel"),
		XgoV:     rapid.SampledFrom([]string{"1.0.44", "1.0.45", "1.0.9", "1.0.100", "1.1.0", "1.2.7"}).Draw(t, "xgov"),
	}
	if rapid.Bool().Draw(t, "given") {
		c.Tests = rapid.SampledFrom([][]string{{"./a"}, {"-run", "TestX", "./..."}, {"./x/...", "./ab"}}).Draw(t, "tests")
		// what follows "--" only, as flags in front would be the tool's
	}
	if rapid.Bool().Draw(t, "ex") {
		c.Exclude = rapid.SliceOfN(rapid.SampledFrom([]string{"a/b", "x", "integration_test"}), 1, 2).Draw(t, "excl")
	}
	return c
}

var testDirs = []string{"a", "a/b", "ab", "integration_test", "integration_test2", "x/y", "x/y/z", "x/integration_test"}

func oracleR(c RCase) vh.Result {
	var r vh.Result
	bad := func(format string, a ...interface{}) vh.Result {
		r.Err = fmt.Errorf(format, a...)
		return r
	}
	dir, err := os.MkdirTemp("", "u06p-")
	if err != nil {
		return bad("%v", err)
	}
	defer os.RemoveAll(dir)
	proj := filepath.Join(dir, "proj")
	os.MkdirAll(proj, 0755)
	os.WriteFile(proj+"/go.mod", []byte("module example.com/p\n\ngo 1.18\n"), 0644)
	for _, d := range testDirs {
		os.MkdirAll(filepath.Join(proj, d), 0755)
		os.WriteFile(filepath.Join(proj, d, "x_test.go"), []byte("package p\n\nimport \"testing\"\n\nfunc TestX(t *testing.T) {}\n"), 0644)
	}
	os.MkdirAll(proj+"/notests", 0755)
	os.WriteFile(proj+"/notests/x.go", []byte("package p\n"), 0644)

	d := c.Doc
	text := d.text()
	args := []string{"--project-dir", proj}
	fails := false
	switch c.Where {
	case 0:
		os.WriteFile(proj+"/test.config.json", []byte(text), 0644)
	case 1:
		os.WriteFile(proj+"/test.config.json", []byte(`{"flags": 12}`), 0644)
		os.WriteFile(proj+"/other.json", []byte(text), 0644)
		args = append(args, "--config", "other.json")
	case 2:
		os.WriteFile(dir+"/other.json", []byte(text), 0644)
		args = append(args, "--config="+dir+"/other.json")
	case 3:
		os.WriteFile(proj+"/test.config.json", []byte(text), 0644)
		args = append(args, "--config", "none")
		d = Doc{}
	case 4:
		d = Doc{}
	case 5:
		args = append(args, "--config", "missing.json")
		fails = true
		d = Doc{}
	}
	opts := &test_explorer.Options{}
	goCmd := d.GoCmd
	if c.Default {
		opts.DefaultGoCommand = "rec-default"
	} else {
		opts.DefaultGoCommand = "xgo"
	}
	if goCmd == "" {
		goCmd = opts.DefaultGoCommand
	}
	if c.GoCli {
		goCmd = "rec-cli"
		args = append(args, "--go-command", goCmd)
	}
	for _, x := range c.Exclude {
		args = append(args, "--exclude", x)
	}
	for i, x := range c.Flags {
		args = append(args, []string{"--flag", "--flags"}[i%2], x)
	}
	for i, x := range c.Args {
		args = append(args, []string{"--arg", "--args"}[i%2], x)
	}
	cov := c.Coverage
	if cov == "" && !d.CovOff {
		cov = "--coverage=false" // with coverage a repository would be needed
	}
	if cov != "" {
		args = append(args, cov)
	}
	if len(c.Tests) > 0 {
		args = append(args, "--")
	}
	args = append(args, "test")
	args = append(args, c.Tests...)

	goVersion(c.Go)
	os.WriteFile(bins+"/xgoversion", []byte(c.XgoV+"\n"), 0644)
	rec := filepath.Join(dir, "rec")
	os.Setenv("VERIF_REC", rec)
	os.Setenv("VERIF_RC", fmt.Sprint(c.RC))
	if d.bad() != "" || !d.satisfied(c.Go) {
		fails = true
	}
	err = quiet(func() error { return test_explorer.Main(args, opts) })
	got, readErr := os.ReadFile(rec + ".args")
	if fails {
		r.NonTrivial = true
		r.Classes = append(r.Classes, "refused")
		if err == nil || readErr == nil {
			return bad("the tests run (error %v) although the configuration does not allow it: %s", err, text)
		}
		return r
	}
	if readErr != nil {
		return bad("go was not run: %v", err)
	}
	if (err == nil) != (c.RC == 0) {
		return bad("go ends with status %d, the result is %v", c.RC, err)
	}
	list := strings.Split(strings.TrimSuffix(string(got), "\x00"), "\x00")
	want := []string{filepath.Join(bins, goCmd), "test", "-v"}
	want = append(want, d.Flags...)
	want = append(want, c.Flags...)
	if goCmd == "xgo" && c.XgoV != "1.0.44" && c.XgoV != "1.0.9" {
		for _, rule := range d.Rules {
			want = append(want, "--mock-rule", rule)
		}
	}
	if len(c.Tests) > 0 {
		want = append(want, c.Tests...)
	} else {
		for _, td := range testDirs {
			skip := false
			for _, p := range append(append([]string(nil), d.Exclude...), c.Exclude...) {
				skip = skip || refPrefix(p, td)
			}
			if !skip {
				want = append(want, "./"+td)
			}
		}
	}
	if n := len(d.Args) + len(c.Args); n > 0 {
		want = append(want, "-args")
		if d.Bypass {
			want = append(want, "--")
		}
		want = append(append(want, d.Args...), c.Args...)
	}
	if len(c.Tests) == 0 {
		// the order of packages is not said
		sortPaths(list)
		sortPaths(want)
	}
	ok := len(list) == len(want)
	for i := 0; ok && i < len(want); i++ {
		ok = list[i] == want[i] || i > 0 && want[i-1] == "--mock-rule" && sameJSON(list[i], want[i])
	}
	if !ok {
		return bad("run as   %q\nexpected %q\narguments %q\nconfiguration %s", list, want, args, text)
	}
	env, _ := os.ReadFile(rec + ".env")
	vals := map[string]string{}
	for _, kv := range strings.Split(string(env), "\x00") {
		if i := strings.Index(kv, "="); i > 0 {
			vals[kv[:i]] = kv[i+1:]
		}
	}
	for _, k := range []string{"VERIF_A", "VERIF_B", "VERIF_C", "VERIF_D"} {
		w, has := d.Env[k]
		g, hasG := vals[k]
		if g != w || has != hasG {
			return bad("environment: %s=%q (%v), want %q (%v)", k, g, hasG, w, has)
		}
	}
	pwd, _ := os.ReadFile(rec + ".pwd")
	if strings.TrimSpace(string(pwd)) != proj {
		return bad("run in %q", pwd)
	}
	r.NonTrivial = len(d.Fields) >= 2
	r.Classes = append(r.Classes, "run "+goCmd, fmt.Sprintf("where%d", c.Where))
	return r
}

func sortPaths(l []string) {
	i := 0
	for i < len(l) && !strings.HasPrefix(l[i], "./") {
		i++
	}
	j := i
	for j < len(l) && strings.HasPrefix(l[j], "./") {
		j++
	}
	sort.Strings(l[i:j])
}

// quiet keeps the output of f away
func quiet(f func() error) error {
	null, err := os.OpenFile(os.DevNull, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer null.Close()
	o, _ := syscall.Dup(1)
	e, _ := syscall.Dup(2)
	syscall.Dup3(int(null.Fd()), 1, 0)
	syscall.Dup3(int(null.Fd()), 2, 0)
	defer func() {
		syscall.Dup3(o, 1, 0)
		syscall.Dup3(e, 2, 0)
		syscall.Close(o)
		syscall.Close(e)
	}()
	return f()
}

func TestRun(t *testing.T) {
	vh.Run(t, "run", vh.Options{Div: 20, Rule: "the test explorer run without its page, with a configuration and a command line, against a stand-in of the go command; non-trivial: two fields, or it has to refuse"}, genR, oracleR)
}
