p("R01", "A patched function acts as its replacement until that patch is undone",
  "On the goroutine that installs it, a function mock replaces every call of exactly the chosen function, method or generic instantiation: the replacement gets the call's receiver and arguments, its results reach the caller, and every function that was not chosen keeps its own behaviour. When several mocks of one function are active the most recently installed one decides, and undoing any of them, in any order and interleaved with other runtime features such as tracing or interceptors, leaves the behaviour that the remaining mocks give. With none left, the original runs again.",
  ["histories","programs"], "Every history of installing (by function value, by name, by method name, by interceptor), undoing and calling, over every shape of target function.",
  "Tests check one mock of one function at a time, mostly undone in LIFO order; the interplay of many mocks, orders of undo and other features is unbounded.",
  ["runtime/mock/mock.go","runtime/mock/patch.go","runtime/internal/trap/mock.go","runtime/internal/trap/trap.go","runtime/internal/trap/build.go","runtime/internal/trap/stack_data.go","instrument/instrument_func/trap.go"],
  [("per-goroutine stack of mocks keyed by entry address","runtime/internal/trap/mock.go"),("call trampoline inserted in each function","instrument/instrument_func/trap.go")],
  ["results and side effects of calls in a program built with xgo"])
p("R02", "A mock bound to one receiver or instantiation leaves all others alone",
  "A mock of a method value is applied to calls on that receiver only: other receivers keep their own mocks or their original behaviour, however many receivers of the same method are mocked at the same time and in whatever order they were mocked and undone. A mock of a method expression applies to every receiver that has no later mock of its own, and a mock of one instantiation of a generic function or type applies to that instantiation only.",
  ["histories"], "Every history of installing and undoing mocks on several receivers, method expressions and instantiations of the same methods.",
  "Existing tests patch one instance and look at one other instance; several mocked receivers of one method at the same time are not reached.",
  ["runtime/internal/trap/mock.go","runtime/internal/trap/inspect.go","runtime/internal/trap/trap.go","runtime/internal/trap/stack_data.go"],
  [("receiver recorded with the mock and compared at each call","runtime/internal/trap/mock.go"),("receiver discovery for method values","runtime/internal/trap/inspect.go")],
  ["results of method calls in a program built with xgo"])
p("R03", "Mocking a package variable changes what is read, not the variable",
  "While a package-level variable is mocked, every read of it in a function of the main module on that goroutine gives the mocked value, through whichever syntactic form the read is written, and reads on other goroutines and of other variables give the stored value. Reads by address (&v, calls of pointer methods) follow mocks of the address only. The stored variable itself is never modified by a mock, assignments (the assigned variable is not read) go to the stored variable, and after the mock is undone reads give what was last stored. (Exempt, as documented: a bare name used as a key in a composite literal of a named type, which might be a field; taking the address of a field of a struct variable or slicing an array variable, which always refer to the stored variable.)",
  ["histories","programs"], "Every history of mocking (by value, by pointer, by name), reading, writing and undoing, over variable types and read forms.",
  "Tests read a handful of variables in a few expression forms, with one mock each.",
  ["instrument/instrument_var/trap_var.go","instrument/resolve","runtime/internal/trap/var.go","runtime/internal/trap/mock.go"],
  [("variable reads rewritten to getters","instrument/instrument_var/trap_var.go"),("getter consults per-goroutine mocks by variable address","runtime/internal/trap/var.go")],
  ["values read in a program built with xgo"])
p("R04", "Mocks stay on their goroutine and on the goroutines it starts",
  "A mock, recorder or interceptor installed on a goroutine affects that goroutine and the goroutines it starts afterwards (which see the set active at the moment they were started, each bound to the same targets and receivers), and no other goroutine, under every scheduling. Installing or undoing one later, on either side, changes nothing for a goroutine already started, and a goroutine that ends takes its own with it.",
  ["schedules","histories"], "Every interleaving of goroutines that install, undo, call and start goroutines.",
  "Goroutine isolation depends on the schedule and on the history of spawns; tests run one or two goroutines with fixed order.",
  ["runtime/internal/trap/init.go","runtime/internal/stack/g.go","runtime/internal/runtime/xgo_trap_template.go","patches/go1.27/src/runtime"],
  [("state stored on the goroutine and copied at creation","runtime/internal/trap/init.go"),("goroutine creation callback patched into the Go runtime","runtime/internal/runtime/xgo_trap_template.go")],
  ["results of calls on each goroutine of a program built with xgo"])
p("R05", "Interceptors and recorders see each call exactly once, in order",
  "For each call of an instrumented function, every active interceptor and every recorder of that function runs its pre part exactly once before the body and its post part exactly once after it (normal return or panic), each post paired with the data of its own pre, posts of function calls in the reverse order of pres, and both see the actual receiver, arguments and results under their declared names and can change arguments before and results after. A pre part that reports the call as mocked skips the body and the remaining pres, and the caller gets the results that were set.",
  ["histories","programs"], "Every set and order of interceptors, function interceptors and recorders, over call trees with panics and aborts.",
  "Tests install one interceptor or recorder; pairing and order only matter with several.",
  ["runtime/trap/interceptor.go","runtime/trace/record.go","runtime/internal/trap/trap.go","runtime/internal/trap/record.go","runtime/internal/trap/interceptor.go","runtime/internal/trap/var.go","runtime/internal/trap/object.go"],
  [("pre and post lists run by the trampoline","runtime/internal/trap/trap.go"),("typed view of arguments and results","runtime/internal/trap/object.go")],
  ["log of interceptor and recorder events, results seen by callers"])
p("R06", "A collected trace is exactly the tree of calls that happened",
  "The trace of a run lists every instrumented call made during it exactly once, nested as the calls were nested and ordered as they were made, with the function's name, its arguments as they were at entry, its results as they were at exit, and whether it panicked or returned an error; calls made on goroutines started inside appear under the call that started them. (Calls that a mock, filter or interceptor makes itself are not traced.) Collecting a trace does not change what the traced program computes, nor which mocks and interceptors are active afterwards.",
  ["programs","schedules","histories"], "Every call tree (recursion, panics and recovers, deferred calls, closures, methods, generics, goroutines) and every sequence of traces.",
  "Tests compare a few fixed call trees.",
  ["runtime/internal/trap/trap.go","runtime/internal/stack/stack.go","runtime/internal/stack/export.go","runtime/trace/trace.go"],
  [("per-goroutine tree pushed and popped by the trampoline","runtime/internal/stack/stack.go"),("snapshot and export","runtime/internal/stack/export.go")],
  ["exported trace data and JSON file of a program built with xgo"])
p("R07", "Every trace file is well-formed and can be viewed completely",
  "Whatever values the traced functions take and return (any strings and bytes, cyclic or very deep or very large data, channels, functions, values whose own marshalling fails or panics), the written trace is valid JSON that the trace viewer loads and shows with every call of the trace, escaping all text taken from the program; values that encoding/json can encode appear as it encodes them, and only those that cannot be encoded, exceed 1 MB or are nested too deep for JSON decoders are shown by a substitute. The viewer also shows files with several stacks, of the older format, or cut off after complete stacks. Marshalling never fails, panics or hangs the traced program.",
  ["inputs"], "Every tree of calls with arbitrary argument and result values, and every trace document given to the viewer.",
  "The set of values is unbounded; tests use a few plain structs and strings.",
  ["runtime/internal/trap/object.go","runtime/internal/runtime/marshal.go","runtime/internal/stack/export.go","cmd/xgo/trace","cmd/xgo/trace/render"],
  [("argument and result objects marshalled loosely","runtime/internal/runtime/marshal.go"),("HTML rendering of stacks","cmd/xgo/trace/render")],
  ["trace file bytes; rendered page"])
p("R08", "Function metadata describes the function it is attached to",
  "For every instrumented function, method, generic function and package variable, the registered metadata gives its real package, name, receiver type and pointer-ness, argument and result names in declaration order, source file and line, and (of functions that are not generic) whether the first argument is a context and the last result an error; looking it up by value, by name, by address or by method of a type, or intercepting a call of it, leads to the same single entry, and never to that of another function. (Which names unnamed and blank parameters get is not specified.)",
  ["programs"], "Every declaration shape: unnamed and blank parameters, variadics, generics, methods, closures, several files and packages.",
  "Declarations come in unboundedly many shapes; tests cover a few.",
  ["runtime/functab/functab.go","instrument/instrument_func/trap.go","instrument/instrument_reg/instrument_reg.go","instrument/compiler_extra","runtime/core/func.go"],
  [("registration generated at instrumentation","instrument/instrument_reg/instrument_reg.go"),("lookup tables","runtime/functab/functab.go")],
  ["function-table lookups in a program built with xgo, compared with the source that was generated"])
p("R09", "Goroutine-local storage is private and inherited only when declared so",
  "A goroutine-local value is visible only to the goroutine that set it; a key declared as inheriting gives a new goroutine the value its parent had at the moment of the go statement, a plain key gives it nothing. Later writes on either side are not seen by the other, keys never interfere, and all of it holds under every scheduling and for any number of goroutines and keys.",
  ["schedules","histories"], "Every history of declaring, setting, reading and starting goroutines.",
  "Tests use one or two goroutines and keys.",
  ["runtime/tls/tls.go","runtime/tls/hook.go","runtime/internal/runtime/g.go","runtime/internal/runtime/xgo_trap_template.go"],
  [("values stored on the goroutine","runtime/internal/runtime/g.go"),("copy at goroutine creation","runtime/tls/hook.go")],
  ["values read on each goroutine of a program built with xgo"])
p("I01", "Instrumenting functions does not change what a program does",
  "A program that compiles and runs with plain go also compiles with xgo and, with no mocks installed, has the same observable behaviour: same output, results, panics and recovered values, order of deferred calls and initialisation, and exit status, for every form of function declaration the language allows. Asking xgo to trap everything changes nothing about this.",
  ["programs"], "Every valid Go program: all shapes of signatures, receivers, bodies, generics, closures, defers, named results, labels and layout.",
  "Tests compile a fixed set of small programs.",
  ["instrument/instrument_func/trap.go","instrument/instrument_func/func_template.go","instrument/instrument_intf/instrument_intf.go","instrument/instrument_reg/instrument_reg.go","instrument/compiler_extra","instrument/edit/edit.go","cmd/xgo/instrument.go"],
  [("trampoline call spliced into each body on the same line","instrument/instrument_func/trap.go"),("compiler-assisted rewriting","cmd/xgo/asset/compiler_patch_gen")],
  ["output and exit status of the program built with go and with xgo"])
p("I02", "Rewriting variable access does not change what a program does",
  "A program whose package-level variables and constants are read, written, addressed, indexed, sliced, shadowed, captured, ranged over, initialised from each other or used through other packages compiles with xgo and behaves as it does with plain go when no mock is installed. A local name that hides a package variable always denotes the local one. (A package that declares a name such as int or string anew at package level is outside this.)",
  ["programs"], "Every valid Go program over package variables: all types, initialisers, scopes and expression positions.",
  "Scoping and typing of every expression position cannot be sampled by a handful of fixtures.",
  ["instrument/resolve","instrument/resolve/types","instrument/instrument_var/trap_var.go","instrument/instrument_var/var_template.go"],
  [("scope-aware resolution of names","instrument/resolve/resolve.go"),("getter generation from inferred types","instrument/instrument_var/trap_var.go")],
  ["output and exit status of the program built with go and with xgo"])
p("I03", "Source positions, names and coverage stay those of the original source",
  "In a program built with xgo, the file, line and function names in panic traces, runtime callers and compile errors, and the blocks and counts of a coverage profile, are those of the user's own source, exactly as plain go reports them. (Columns of compile errors are not reported by xgo; the line of a function that is already returning while its deferred calls run, and errors that xgo adds in packages that do not compile anyway, are outside this.)",
  ["programs"], "Every layout of source: comments, directives, multi-line signatures, several functions on a line, build tags, non-ASCII text.",
  "Positions must hold for every layout; tests look at a few files.",
  ["instrument/instrument_func/trap.go","instrument/overlay/overlay.go","instrument/instrument_go/xgo_cover_template.go","instrument/patch/line.go"],
  [("same-line edits and line directives","instrument/overlay/overlay.go"),("coverage edits of the original text","instrument/instrument_go/xgo_cover_template.go")],
  ["caller information, panic output, coverage profile of go and of xgo"])
p("I04", "Flags, rules and targets select exactly what can be intercepted",
  "A function can be intercepted exactly if it belongs to the main module; or to a package listed by --trap (pkg or pkg/...) or by an include rule (pkg or pkg/**, several with commas), or to a module named by --mock-rule-include-as-main-module (or its environment variable, which the flag overrides); or is named as a target (mock.Patch, mock.Mock, trace.Record*, trap.AddFuncInterceptor, trap.MarkIntercept) in the main module, its tests included when testing; or, with --trap-all (the default when trap.AddInterceptor is referenced), is an exported function of a dependency, of which the first 16 of a file and 96 of a package are taken; or, with --trap-stdlib (the default for tests), belongs to time, os, os/exec, net, net/http or io. A few functions of the standard library (time.Now, os.Getenv and the like) always can, functions of runtime, unsafe, syscall, reflect, sync and testing never. Variables can in the main module and modules included as such. Rules given on the command line come before those of the file, and the main module is left out when the first rule on it (main_module without further conditions) for functions and the first for variables both exclude it. An attempt to mock what cannot be intercepted is reported, and it keeps its behaviour; malformed patterns are errors. (Conditions of rules on names, generic, exported or closure have no effect; what packages reach that are excluded themselves is not specified.)",
  ["configurations","inputs"], "Every list of rules and flags, every layout of modules and packages, every set of targets.",
  "Patterns, flags and rule lists combine without bound; tests use a few single rules.",
  ["cmd/xgo/rule.go","cmd/xgo/instrument.go","instrument/config/config.go","instrument/instrument_func/trap.go","instrument/resolve/record.go"],
  [("rule evaluation","cmd/xgo/instrument.go"),("selection of functions","instrument/instrument_func/trap.go")],
  ["which functions of a program built with xgo a mock by name replaces, of all its functions"])
p("I05", "Rebuilding after a change gives what a clean build gives",
  "After any sequence of edits to the project's sources, changes of rules or flags, and switches between commands, some of them killed half-way, the outcome of the next xgo run is the one a run in a fresh working copy with empty caches would have; nothing left behind by an earlier run shows through.",
  ["histories"], "Every sequence of edits, additions, deletions of files, mocked targets and flag changes between runs in one project directory.",
  "Staleness needs a history of runs; tests run one command once.",
  ["cmd/xgo/main.go","cmd/xgo/instrument.go","instrument/overlay/overlay.go","instrument/compiler_extra/compiler_extra.go"],
  [("overlay and generated files refreshed at each run","cmd/xgo/main.go"),("content sums that enter the build cache key","cmd/xgo/main.go")],
  ["output of successive xgo runs compared with a clean run"])
p("I06", "xgo leaves the user's files and Go installation alone",
  "Whatever command runs and however it ends, the user's source files, module files, the module cache and the Go installation that xgo was started with keep their content; xgo writes only to its own directories (.xgo in the project) and the outputs asked for; the one exception is a line '**/.xgo/gen' added to the .gitignore of the project's git repository. A caller's own overlay stays in force: the build sees the replaced text (then instrumented), in preference to the file on disk, a deleted file is not there, whether the overlay is given by a flag or by the GOFLAGS environment variable. Module mode, workspaces, -modfile and vendoring select the same dependencies, with the same language version, as for go. (Overlays of files in the module cache, which Go since 1.25 rejects, are not covered.)",
  ["programs","configurations","inputs"], "Every project layout (modules, vendor, several packages, caller overlays with additions, replacements and deletions) and command.",
  "Tests never compare the tree before and after, nor generate overlays.",
  ["instrument/overlay/overlay.go","instrument/overlay/io.go","cmd/xgo/main.go","cmd/xgo/trace.go","cmd/xgo/patch.go"],
  [("all edits go to an overlay","instrument/overlay/overlay.go"),("composition of caller and generated overlays","instrument/overlay/io.go")],
  ["hash of project and GOROOT trees before and after; output with an overlay"])
p("I07", "xgo takes its own flags and hands everything else to go unchanged",
  "Each flag documented as xgo's own is recognised in all its spellings wherever it stands before the program arguments, and every other flag, its value, package and program argument reaches go (or the program) with the meaning it has for go without xgo: no value, package or argument is dropped, reordered or taken for something else, and each of xgo's flags has its effect. Missing or bad values of xgo's flags are reported as errors before go is called. Standard input, output, error and the exit status of the go command are xgo's own. (xgo also accepts build flags after packages; a relative -o is relative to xgo's directory under --project-dir; the legacy --dump-ir, --dump-ast and --vscode are not covered.)",
  ["inputs"], "Every command line made of xgo flags, go flags, packages and program arguments.",
  "The set of command lines is unbounded; the tests have a few.",
  ["cmd/xgo/option.go","cmd/xgo/main.go","support/flag/flag.go"],
  [("hand-written option parser","cmd/xgo/option.go"),("flag helper","support/flag/flag.go")],
  ["parsed options; arguments the program receives; exit status"])
p("I08", "Standard library and third-party functions can be mocked when targeted",
  "A function or method of the standard library or of a dependency that the project names as a target of a mock, recorder or interceptor (through its package name, an alias, a dot import, a type, a value, an embedded field or an instantiation) is intercepted like one of the project's own, under its own package and name; nothing else in that package or in the rest of the program changes what it gives, with mocks or without, and undoing gives back the original. What xgo itself calls to record and write a trace is never seen by those mocks, recorders and interceptors and is not disturbed by them: with the clock, formatting, JSON or files replaced the trace is the one of the real program. (Exempt: the packages xgo never instruments, such as runtime, reflect, sync and unsafe, functions without a body, and functions whose calls the compiler replaces by instructions, such as those of math.)",
  ["programs","histories"], "Every selection of targets from the standard library and dependencies, every way to name them, and every program that calls them.",
  "Tests mock a few functions; each package has its own shapes, and each function xgo itself uses is a way to disturb it.",
  ["cmd/xgo/instrument.go","instrument/config/config.go","instrument/instrument_func/trap.go","instrument/resolve/record.go","instrument/resolve/resolve.go","runtime/internal/trap/trap.go"],
  [("targets found in the sources decide what is instrumented outside the main module","instrument/resolve/record.go")],
  ["results of calls in a program built with xgo","number of calls seen by mocks, recorders and interceptors","trace files"])
p("T01", "Applying a patch script is repeatable and can be undone exactly",
  "Applying a patch script to a source text puts each edit exactly where its match rules say, whatever the order of rules, and reports an error instead of a partial or misplaced result when a rule does not match. Applying it again gives the same text, applying a newer version of the script (with the same named blocks) to a patched text gives what it gives on the pristine text, and removing the patch restores the original text byte for byte. (Exempt: a block dropped from a newer script stays until it is removed by name.)",
  ["inputs","histories"], "Every patch script over every source text it can be parsed against, and every sequence of applications and removals.",
  "Tests apply hand-written scripts to one text each.",
  ["instrument/patch/apply.go","instrument/patch/apply_engine.go","instrument/patch/apply_parse.go","instrument/patch/clean_patch.go"],
  [("rule interpreter with markers around insertions","instrument/patch/apply_engine.go"),("marker-based removal","instrument/patch/clean_patch.go")],
  ["text before and after apply, re-apply and removal"])
p("T02", "Anchored content updates are idempotent and reversible",
  "Updating a text at an anchor sequence inserts, appends or replaces exactly at the chosen anchor, leaves every other byte alone, keeps the number of lines where the line-preserving form is used, replaces an earlier version of the same update instead of stacking it, and can be removed to give back the original; a missing anchor is an error, not a silent no-op or a corrupted text.",
  ["inputs","histories"], "Every text, anchor sequence, position and repeated update.",
  "Tests use a few short texts.",
  ["instrument/patch/patch.go","instrument/patch/remove_marker.go","instrument/patch/init.go","instrument/patch/import.go"],
  [("marker pairs around every update","instrument/patch/patch.go")],
  ["text before and after"])
p("T03", "Queued source edits land at their original positions",
  "Any set of non-overlapping insertions, deletions and replacements queued against positions of an original text yields the text in which each original position carries its edits in the order queued and every untouched byte is kept, and line-based edits do the same for lines.",
  ["inputs"], "Every text and every set of edits.",
  "Combinatorial in the edits; tests use one or two.",
  ["support/edit/edit.go","support/edit/goedit/goedit.go","support/transform/edit/line/line.go","instrument/edit/edit.go"],
  [("edit buffer sorted by offset","support/edit/edit.go")],
  ["resulting text against a reference model"])
p("T04", "Setting up a toolchain is repeatable, complete and independent of history",
  "Preparing an instrumented Go toolchain gives the same tree from the same Go installation whether it is the first run, a repeated run, a run with another revision of xgo in between, a run after an earlier one was interrupted or failed at any point, a run after the prepared tree was deleted, or a run with --reset-instrument after the tree was damaged; copying the installation reproduces every file, directory and link that is not excluded, with content, and executables stay executable, and every failure to copy is reported.",
  ["fault_sequences","crash_points","histories","inputs"], "Every directory tree, every interruption point and every sequence of setups.",
  "Tests do not interrupt or repeat setups; the copy tests use small trees.",
  ["cmd/xgo/main.go","cmd/xgo/patch.go","support/filecopy/copy.go","instrument/patch/apply.go","support/fileutil"],
  [("revision marks decide what is redone","cmd/xgo/patch.go"),("parallel incremental copy","support/filecopy/copy.go")],
  ["tree of the prepared toolchain; copied tree"])
p("U01", "Coverage profiles are parsed, merged and filtered without losing counts",
  "Parsing and formatting a coverage profile are inverse; merging profiles adds the counts of equal blocks, keeps each block once, does not depend on order or grouping for the counts; filtering keeps exactly the blocks of the selected files.",
  ["inputs"], "Every set of coverage profiles and filters.",
  "Algebraic laws over all inputs; tests use two small profiles.",
  ["support/coverage","cmd/go-tool-coverage","cmd/xgo/coverage"],
  [("line-based parser and merge by block key","support/coverage/merge.go")],
  ["parsed and merged profiles against a reference model"])
p("U02", "Go versions and module files are read as the go command reads them",
  "Version strings are parsed and ordered as Go orders them (a total order in which pre-releases come before the release), and the module path, go version, replacements and vendored modules read from module files, and the package paths computed for directories, are those the go command uses.",
  ["inputs"], "Every version string, module file, vendor file and directory layout.",
  "Parsers have unbounded inputs; tests have tables of a few.",
  ["support/goinfo/version.go","support/goinfo/semver.go","support/goinfo/mod.go","support/goinfo/vendor_parse.go","support/goinfo/pkg.go"],
  [("hand-written parsers","support/goinfo/mod.go")],
  ["parse results against golang.org/x/mod and a reference order"])
p("U03", "Running packages as one unified test gives the separate results",
  "Running tests of several packages with the unified mode executes exactly the tests that separate runs execute, once each, in the directory and with the outcome they have separately, and reports each under its own package.",
  ["programs","configurations"], "Every set of packages with arbitrary test names and outcomes, and every selection of tests.",
  "Name clashes and mixtures of outcomes across packages are not covered by tests.",
  ["instrument/instrument_go/instrument_unifiedtest/unified.go","instrument/instrument_go/instrument_unifiedtest/xgo_testunified.go","patches/go1.27/src/cmd/go/internal/test"],
  [("one generated test main over all packages","instrument/instrument_go/instrument_unifiedtest/xgo_testunified.go")],
  ["test events of unified and separate runs"])
p("U04", "Test explorer events and sessions are delivered once and in order",
  "Every event sent to a session is delivered to its poller exactly once and in the order sent, under every interleaving of senders and pollers, and polls return no later than their limit; every request handled by the tool's JSON endpoints gets either the handler's result or its error, also when the handler panics.",
  ["schedules","histories","inputs"], "Every interleaving of senders and pollers; every handler outcome.",
  "Schedules and panics are not explored by tests.",
  ["support/session/session.go","support/netutil/http.go","support/netutil/netutil.go","cmd/xgo/test-explorer"],
  [("buffered channel per session","support/session/session.go"),("recover in the handler wrapper","support/netutil/http.go")],
  ["events polled; HTTP responses"])
p("U06", "Test configuration is read as documented and overridden as documented",
  "A test configuration file (test.config.json) with any combination of its documented fields, in any of their documented forms (a text or a list of texts for flags, env values as text, number or bool, mock_rules as text or object), gives exactly those settings: numbers and texts arrive as written; a field of the wrong type is an error rather than a silently different setting, and fields that are not documented change nothing. The explorer's test command runs what the configuration says, with values from the command line taking precedence, and leaves out exactly the packages that an exclude pattern matches, where * stands for any text within one path segment and ** for any number of segments.",
  ["inputs","configurations"], "Every configuration document.",
  "Unbounded inputs.",
  ["support/testconfig/config.go","cmd/xgo/test-explorer/config.go","support/pattern/pattern.go"],
  [("loose JSON conversion","support/testconfig/config.go")],
  ["parsed configuration"])
