HOOKS = None
NOTES = "Every check is 'python3 run.py ID [--replay FILE]'; VERIF_SEED and VERIF_TIER select the cases; a replay file re-runs its one shrunk case."
CHECKS = {
 "U01": ("property-based testing (rapid): generated profiles against a map model, round trip, permutation/grouping metamorphic relations; the CLI on generated files",
         "thousands of generated profile sets per run; counts are kept below int64 overflow"),
}
CHECKS.update({
 "R01": ("property-based testing (rapid), stateful: generated histories of installing, undoing and calling over 45 targets of every shape, inside a program built with xgo, against a model of the mock stack",
         "targets are a fixed set of declaration shapes with generated histories and values"),
 "R02": ("property-based testing (rapid), stateful: generated histories of mocks over several receivers, method expressions and instantiations, against a model that decides by receiver and instantiation",
         "receivers, types and instantiations come from a generated but fixed program"),
 "R05": ("property-based testing (rapid): generated sets of interceptors and recorders over generated call trees with panics, aborts and undos, against a model of the event log",
         "handlers act on the targets of a fixed program; undo during a call is generated"),
})
CHECKS.update({
 "R06": ("property-based testing (rapid): generated call trees (methods, generics, recursion, closures, defers, panics and recovers, goroutines, mocks, nested and repeated traces, filters) run under a trace, compared with the tree the program itself logged",
         "calls that mocks, filters and interceptors make themselves are not part of a trace (documented in trap.go)"),
})
CHECKS.update({
 "R04": ("property-based testing (rapid), stateful: generated trees of goroutines that install, undo, call and spawn, under generated schedules and free running beside bystanders, against a per-goroutine model",
         "without -race (inheriting is switched off there by design); free-running schedules are those the Go scheduler makes"),
 "R09": ("property-based testing (rapid), stateful: generated trees of goroutines that declare, set and read keys, under generated schedules and free running, against a per-goroutine model",
         "free-running schedules are those the Go scheduler makes"),
})
CHECKS.update({
 "R03": ("property-based testing (rapid), stateful: generated histories of mocking (value, address, name, interceptor), undoing, writing and reading about 60 variables of every kind of type and declaration in about 150 syntactic forms, against a model",
         "the forms and variables are a fixed catalogue, the histories over it are generated; I02 generates the programs"),
})
CHECKS.update({
 "I02": ("property-based testing (seeded random generation with shrinking): generated programs over package variables and constants, compiled and run by go and by xgo, compared (differential)",
         "generated expressions have no side effects, so that evaluation order left open by the language does not show"),
})
CHECKS.update({
 "I01": ("property-based testing (seeded random generation with shrinking): generated programs of functions of every declaration shape, in the main module and in a dependency, compiled and run by go and by xgo, compared (differential)",
         "generated programs avoid what the language leaves open (order of map iteration, scheduling)"),
 "I03": ("property-based testing (seeded random generation with shrinking): generated programs printing positions and ending in panics, programs with planted compile errors, and coverage profiles, go against xgo (differential)",
         "columns and the lines of functions that are returning are not compared"),
})
CHECKS.update({
 "U02": ("property-based testing (rapid): generated versions, go.mod and vendor files and directory trees, against go/version, x/mod's semver and modfile (differential)",
         "go.mod files have one module directive and no line of the form 'module ...' inside another block"),
 "T02": ("property-based testing (rapid), stateful: generated texts, anchors and histories of updates and removals, against a model of the text with its active updates; round trip of removal",
         "anchors do not contain comments and are not part of the inserted text"),
 "T03": ("property-based testing (rapid): generated texts and sets of edits, against a model that splits the text at the original positions",
         "edits do not overlap, as the API requires"),
})
CHECKS.update({
 "T01": ("property-based testing (rapid), stateful: generated Go sources, patch scripts and newer versions of them, against a model of the text with its declarations, markers and edits; second application and removal; whole patch directories",
         "scripts that make text end up in another declaration than the one they name (a newline within a field) are outside the model"),
})
CHECKS.update({
 "U04": ("property-based testing (rapid), stateful: schedules of senders and pollers in virtual time (testing/synctest) against a per-sender order and exactly-once model; handler results, errors and panics; concurrent sessions of the test explorer's HTTP interface over generated go test transcripts, against a model of the events",
         "several pollers of one session each see a subsequence of each sender's events; stdout and stderr are interleaved arbitrarily; panics inside the marshalling of a result are outside"),
})
CHECKS.update({
 "R07": ("property-based testing (rapid): generated call trees carrying 60 kinds of hostile values in a program built with xgo, the trace file compared with encoding/json's view and the planned tree; generated and recorded documents served by the viewer, the page parsed and compared with the document",
         "values whose marshalling does not return or overflows the stack inside encoding/json are left out"),
})
CHECKS.update({
 "R08": ("property-based testing: generated packages of declarations, the registry of the program built with xgo compared with go/parser's and reflect's view of the source, through every lookup and through intercepted calls; failing programs are shrunk",
         "one Go version; of dependencies only exported functions are expected"),
})
CHECKS.update({
 "T04": ("property-based testing with fault injection: histories of setups that are killed or failed at generated system calls and steps, interleaved with another revision, deletions and damage, the last tree compared with a first setup's; generated directory trees copied (rapid) against a model of the copy",
         "one setup at a time; the Go command used inside the setup is a stand-in whose steps can fail"),
 "U06": ("property-based testing (rapid): generated configuration documents, command lines, patterns and paths against models of the settings, the command run and the matcher",
         "null and nested env values, and patterns that are only stars against empty paths, are left out as undocumented"),
})
CHECKS.update({
 "I07": ("property-based testing: generated command lines of build, run, test and exec run through xgo with a recording stand-in for the go command; what it receives is compared with a model of go's own flag parsing applied to the line without xgo's flags",
         "the go command behind xgo is a stand-in for build, run and test; real go list is used"),
})
CHECKS.update({
 "I05": ("property-based testing (stateful): generated histories of edits, flags, commands and killed commands in one working copy; each outcome is compared with the same command in a fresh copy at the same path with the caches of a fresh installation (differential)",
         "one command at a time in a project; the fresh caches hold only what a project without targets needs"),
})
CHECKS.update({
 "I04": ("property-based testing (seeded random generation with shrinking): generated projects of five modules, rules, flags and targets; every function and variable of the built program is probed and compared with a model of the selection",
         "patterns are of the documented forms; effects of rules on packages that only excluded packages import are left open"),
})
CHECKS.update({
 "I08": ("property-based testing (seeded random generation with shrinking): generated programs call up to 100 functions of the standard library and of dependencies and replace, intercept or record up to 60 of them; compared with the same program run by go (differential) and with what the mocks must give, count and leave alone",
         "the catalogue holds one call per function, without side effects that depend on the time or the machine"),
})
CHECKS.update({
 "I06": ("property-based testing and fault injection (seeded random generation with shrinking): generated projects (layouts, dependencies, overlays, symlinks), commands and ways to end them; the tree and the Go installation are compared before and after, the output with that of the go command, and mocks must apply to the overlaid text",
         "interruptions are timed, not placed at every system call; vendored workspaces are not generated"),
})
NA = {}
ALL = [l for l in ("R01 R02 R03 R04 R05 R06 R07 R08 R09 I01 I02 I03 I04 I05 I06 I07 I08 T01 T02 T03 T04 U01 U02 U03 U04 U06").split()]
for p in ALL:
    if p not in CHECKS:
        NA.setdefault(p, "check under construction")
