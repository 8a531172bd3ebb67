HEAD = r"""# Design

Every property is decided by one technique: symbolic execution of the real Go code (its go/ssa form, rebuilt from
/repo's working tree on every run) with z3 deciding branches and assertions. No property is listed as
not applicable; what is outside the bounds is stated per harness.

(This file is written by tools/mkdesign.py from gosym/checks.go, properties.jsonl and tools/design_text.py.)

## The machinery

`gosym/` is a symbolic executor for Go. `check.sh C05 quick` builds it if need be and then

1. **loads** /repo's current source with go/packages, with the harness packages of `harness/` laid over it as
   `/repo/zzverif/...` (an overlay; nothing is written to /repo), and builds go/ssa for the repository, the harnesses and
   every dependency down to the standard library. There is no hand-written model of hotswap: `hotswap.go`, `manager.go`,
   `plugin.go`, `static.go`, `cli/hotswap/...`, go/parser, text/template, reflect-using helpers etc. are executed
   as compiled, so an edit of /repo is an edit of what is encoded.
2. **executes** each harness of the property symbolically. Booleans, integers, bytes (hence characters of names,
   contents, paths, flags), times and choices are solver variables. A branch on a symbolic value is decided by the path
   condition if one direction is infeasible (small-domain propagation first, otherwise a z3 query) and splits the path
   if both are feasible. Environment decisions - which operation fails and how, whether a plugin function returns an
   error or panics, map iteration order, the order of goroutines, the moment a signal arrives, how much time passes -
   are variables of the same kind. The exploration visits every feasible path; a path stands for all values that meet
   its path condition.
3. **asks z3** (one incremental process per worker, QF_BV) for each assertion: path condition and not assertion. `unsat` on
   every path means the property holds for every value within the bounds; a model is a counterexample.
4. **replays** a counterexample on the real code before reporting it: the harness is compiled natively (`go test -c` with
   an overlay in which only `plugin.Open` is a stand-in) and run as user nobody in a scratch directory with the model's values;
   CLI harnesses run the real `hotswap` binary, as nobody, on real files, with a recording stand-in for `go`. Only what reproduces is a VIOLATION.
   Harnesses whose counterexample is a schedule or an operation number (`replay: "engine"`: concurrency, the
   n-th file system operation) are replayed by executing the SSA form concretely under the recorded decisions.
5. **checks the translation**: sampled clean paths are run natively, too, and must agree with what the engine found (`GOSYM_SAMPLES=n` in the
   environment does so for every n-th path; during development thousands of paths per property were compared that way). The
   evidence file lists functions encoded, bounds, paths, assertion instances, queries by outcome, solver time and validations.

A path that meets something the engine cannot represent, exceeds a step limit or gets `unknown` is counted, noted on
stdout and in the evidence (`exhaustive: false`) and never counts as a violation. On the unchanged tree there are no such paths.

A crash (uncaught panic), a deadlock or an endless run on any path of a harness is a violation of the property whose check runs it.

### What is a model rather than the real code

- `plugin.Open`/`Lookup`: a table from path and file content to symbols (`harness/plug`). Real .so files cannot be
  symbolic; what is opened, in which order, and with which bytes is observed.
- The operating system: an in-memory file system, environment, streams, process exit, signals and `go` command
  (`harness/vfs`), below `os`, `os/exec` and `os/signal`. `path/filepath`, `io`, `bufio`, `go/*`, `text/template`, cobra and pflag are executed as they are.
- `sync`, `sync/atomic`, channels, select, timers, goroutines: the engine's scheduler. Switches happen at synchronisation
  operations, at plugin functions and callbacks and (CLI) at file operations; memory is sequentially consistent. Vector clocks
  (`race.go`: mutexes, channels, wait groups, atomics, goroutine start, timers) report two unordered accesses of the repository's code to
  one location, one of them a write, on every explored path of a concurrent harness - a data race is an assertion (`sym.Races`), too.
  `time` is virtual: a symbolic number of nanoseconds passes where a harness says so; wall and monotonic clock are both represented, as in the real `time.Time`.
- `reflect`, `fmt`, `regexp`, `sort.Slice`, strconv fast paths: engine implementations on symbolic values (`intrin_*.go`),
  compared with the real ones through the native validations.
- SHA-1 and xxhash of symbolic data: injective uninterpreted values (no collisions).

### Harness conventions

Harnesses build a small world (plugins, files, sources), make everything that may vary a variable, call the public API
(`PluginManagerSwapper`, or `main()` of the command), and assert over what they recorded. They use the
public interface only (exported API, exported plugin functions, command line, files), never internals, so a refactoring
does not disturb them. Label `Cxx:...` says which property an assertion belongs to; each check evaluates only its own.
Output texts are compared only where the property speaks of them. Source analysis oracles (`cli/live.go`, `cli/roles.go`)
read generated code through go/parser and treat shapes they do not know as undecided; what such code does is then
decided by `gen.*`, which executes it.

`gen.*` harnesses run generated code: `prepareGen` builds the command from the tree, runs it (as nobody, in a scratch
copy) on the plugins of `harness/genplug`, and the engine and the native replay both compile the files it wrote.

### Why this reaches what tests cannot

The repository's tests load a handful of fixed plugins in fixed situations. The harnesses quantify over all import graphs, all
reload situations, each failing step, each character of names within the alphabets, each schedule within the preemption
bound, every operation at which a build can be interrupted, and every amount of time; z3 rules out the whole class.
"""

PER = {
'C01': r"""
Symbolic: the import relation (one boolean per ordered pair), reloadability, per-file fate in a reload, map iteration
order. Oracle: order of `Plugins()` and of the calls observed by InvokeEach/InvokeEachBackward against the relation.
Iteration orders of Go maps are a variable, so an order that is right by luck is found wrong.""",
'C02': r"""
Every plugin function records an event; the assertion is over the recorded sequence (multiplicities, phase boundaries, what
OnLoad and OnInit are given, what is already wired at that time), on every successful path of loads, reloads, faults elsewhere
and vault contents.""",
'C03': r"""
Symbolic: which step fails (any plugin function returning an error or panicking with error, string, nil-ish or runtime-error values,
plugin.Open, directory or file operations, callbacks, validation) and which OnFree panics. Oracle: non-nil error, same Current and same plugin
list, ReloadCounter, no OnFree on running instances, and a later good reload succeeds.""",
'C04': r"""
Per instance OnFree counts over histories of reloads with symbolic fates and symbolic times of the delayed frees
(the timer's firing is scheduled by virtual time). Includes two overlapping delayed frees and panicking OnFree.""",
'C05': r"""
As C03, asserting on the new instances: OnFree exactly once iff Export completed, before the call returns, dependents
before dependencies when the failure came after ordering, whatever subset of OnFree functions panics.""",
'C06': r"""
All graphs of 3 plugins including self-imports, all of 4 without, and (thorough) forward graphs of 5 with one back edge;
the oracle is a transitive closure computed as a formula over the import booleans. Termination: an endless run exceeds the step limit of that path and is a violation of the crash/endless label.""",
'C07': r"""
Field name (letters of either case), type, tag, embedding and exported-ness of the importing struct's field and type and value of the
export are variables over lists of each kind; after the load the field's content is compared with the export, the Deps with the imports.""",
'C08': r"""
As C07, for acceptance: the load fails iff one of the listed faults is present. Import's result ranges over nil, typed nil, structs, non-struct
pointers and every field kind.""",
'C09': r"""
Per file: same content, other content, gone or new; per plugin reloadable or not (in old and new version). Instances are identified by their
export values and functions. ReloadHistory runs four reloads in a row. FileRace changes a file while the load runs (contents
are then judged by what was fingerprinted).""",
'C10': r"""
Imports times fates times reloadability on 3 plugins (and two reloads of 2). Oracle: rejected iff a retained plugin imports one that is
rebuilt or gone; on success identity of every retained plugin's dependency.""",
'C11': r"""
Names are strings of symbolic letters out of both cases; kinds of directory entry are variables. Rejection iff two equal up to case, before
any open; FindPlugin compared with case-insensitive equality as a formula over the letters.""",
'C12': r"""
Names of live functions and types are symbolic over small alphabets, tables may be nil; the vault is compared with the union; a
duplicate must fail before any OnInit. Chains with retained providers (VaultRetained); Extension/DataBag identity per manager.""",
'C13': r"""
Each plugin succeeds, returns an error or panics (6 panic values, two of them runtime errors); function name characters symbolic;
both directions. Counts calls and logged errors.""",
'C14': r"""
Details compared with what happened to each instance on every success; nil on failures; ReloadCounter as a count of
successful reloads across histories, concurrent loads included. Details.String on symbolic names under every map order.""",
'C15': r"""
Directory entries of any kind with symbolic names and near-miss extensions, symbolic whitelist. The set of loaded plugins is compared as formulas.""",
'C16': r"""
Delay, uptime and elapsed time are 64-bit nanosecond variables (up to 48 h / 72 h): z3 decides freed <=> elapsed >= max(delay, 15 s) for all values.
Two overlapping reloads in FreeOverlap.""",
'C17': r"""
Loads, reloads and readers in goroutines; every schedule with at most 1 (quick) or 2 (thorough) preemptions at synchronisation points, plugin functions and callbacks,
and every choice of vetoing. Oracle over the recorded history: sections of loads do not overlap, oldM is the last published,
Current is nil or a finished manager, and is not older than the last returned load. The delayed free of an earlier manager is
one more goroutine (ConcurrentFree). Unordered conflicting accesses (data races) on these paths are violations.""",
'C18': r"""
Callback presence, error or panic, and all other faults are variables; the event order and Current at the time of the callback are asserted. CallbackHistory repeats over 3 reloads so that a callback that outlives its call is seen.""",
'C19': r"""
All pairs of 17 symbol kinds and 18 target kinds; for each, stored value or error class and untouched target. The panics of reflect are
modelled, so a panic escapes as a crash.""",
'C20': r"""
Static plugin lists with symbolic names and whitelists, every subset of missing functions; per-function identity (each records its own role).""",
'C21': r"""
All 2^9 subsets of missing symbols and each symbol with each of 7 wrong types; no function may have been called; the error text contains every missing name.""",
'C23': r"""
Every plugin a successful load lists is recorded with its observable fields (name, path, file, note, fingerprint, reloadability, dependencies,
importance) and compared with the plugin file it was read from, at publication, after the next reload (accepted or rejected) and after the delayed frees.""",
'C22': r"""
Files are rewritten or removed at any plugin call or before any file operation; what `plugin.Open` saw is compared with the recorded fingerprint, paths
must be below tmp and new, and originals are never opened or changed.""",
'C30': r"""
Import path = optional prefix + the plugin's path with its last letter symbolic + symbolic tail; quoting, import name and
file vary. The produced file is compared byte by byte. Clause: comments, build tags, directives around the package clause.""",
'C31': r"""
File name out of a list of 64 with near misses, in any of three directories; include/exclude expressions; existence and content of
each file in the temporary package and unchanged plugin directory.""",
'C32': r"""
Kinds, names (letters of any case), places and live prefixes of declarations vary; the generated registrations are
read by parsing them (any shape that is not understood is undecided) and, in `gen.*`, executed: the vault of a load is compared with the
declarations of the corpus.""",
'C33': r"""
Neighbouring file names symbolic or near misses of the generated names; earlier builds, clean, faults at any operation, signals. The whole file tree is compared before and after.""",
'C34': r"""
Definition styles of the required functions vary; with `gen.Static` the generated registration is executed and each role observed.""",
'C35': r"""
Names, output spellings, flags, and symbolic characters of build arguments; the recorded `go` command line is compared.""",
'C36': r"""
Each failing step, flags, and any one failing file system operation; exit code, temporary directory and everything outside compared. CopyRace explores schedules of the copying goroutines.""",
'C37': r"""
go.mod places and forms, directory depth up to 7, symbolic directory names; compared with the definition. Result is observed through a build.""",
'C38': r"""
The same build twice under two independent map iteration orders and different leftovers; outputs equal up to the temporary directory's name.""",
'C39': r"""
20 argument lists times 12 flag settings times earlier state; the oracle is an independent table of which are sensible; rejected ones leave the tree unchanged and run nothing.""",
'C40': r"""
The signal arrives before any file operation or go build and is handled any number (0..13) of operations later; exit code, temporary directory, what go build was given.""",
'C41': r"""
The command built from the tree generates code for four plugins; compile failure is a violation by itself, otherwise the static program and the plugin are loaded symbolically with whitelists, failing functions and names as variables.""",
}

TAIL = r"""## Assumptions

- go/ssa form as executed by gosym means what the compiler makes of it (checked by native validation samples and replays).
- z3 is right. No memory model weaker than sequential consistency. SHA-1 has no collisions in the explored files.
- Go version dependent behaviour is that of the installed toolchain (GOROOT of /opt/vp/env.sh).

## Outside the bounds

More plugins than stated per harness, longer names, other characters, more than the stated preemptions, more than one fault per load,
real `dlopen` behaviour, file systems other than a POSIX-like one, Windows, memory behaviour
of racy code (a race is reported, its consequences are not explored). Deliberately not demanded: what a second LoadPlugins does in static mode, and a file that goes A -> B -> A within one
second of its modification time (the fingerprint of the temporary copy's name is what the code goes by).

## Repaired defects

See known-findings.txt (`fixed:` lines, one "fix:" commit each in /repo). No finding is left unrepaired.

## False alarms corrected while building

- C32: "exactly once" was first demanded of generic declarations, too; the statement excludes them now.
- C40 was split from C36 (interrupted builds), and begins when the command has begun to watch for signals: the moments before cannot be handled by any program.
- C30 tolerates a rewritten string literal outside the imports that equals the plugin's path (the code replaces quoted texts); the statement says so.
- C16/C22 harnesses first assumed that loads happen in the same nanosecond; real loads do not, time passes at every open.
- Oracles that parsed generated code reported unknown shapes as violations; they are undecided now and `gen.*` decides by execution.

SEEDTABLE
"""
