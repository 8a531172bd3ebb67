package main

import "strings"

// harnesses: what each one covers.
var harnesses = map[string]harnessMeta{
	"root.GraphStatic3":      {bounds: "static mode, 3 plugins, every import graph (2^9, self-imports included), map order: insertion or reverse plus one loop in any rotation", covers: []string{"cyclic", "acyclic"}},
	"root.GraphStatic4":      {bounds: "static mode, 4 plugins, every import graph without self-imports (2^12), map order: insertion or reverse", covers: []string{"cyclic", "acyclic"}},
	"root.GraphStatic4M":     {bounds: "as GraphStatic4, map order as in GraphStatic3", covers: []string{"cyclic", "acyclic"}},
	"root.GraphStatic5":      {bounds: "static mode, 5 plugins, any imports in one direction (2^10) and at most one in the other (10), map order: insertion or reverse", covers: []string{"cyclic", "acyclic"}},
	"root.GraphChain6":       {bounds: "static mode, 6 plugins importing each other along a chain in any order of their names (720), open, closed to a cycle, or closed without one link; map order: insertion or reverse", covers: []string{"cyclic", "acyclic"}},
	"root.GraphChain7":       {bounds: "as GraphChain6 with 7 plugins (5040 chains)", covers: []string{"cyclic", "acyclic"}},
	"root.FileTimes":         {bounds: "2 plugins, two reloads; one file holds any of 3 versions of 2 sizes each time, was written up to 10 minutes after the load before and has the time of writing, that of the file before, one an hour before the load or one an hour ahead", covers: []string{"two reloads", "unchanged", "accepted", "freed"}},
	"root.BigFiles":          {bounds: "plugin files of 600, 5000 and 70000 bytes that differ in one of 6 places, at their end or not", covers: []string{"reloaded", "unchanged", "accepted"}},
	"root.GraphLong":         {bounds: "9, 17 or 34 plugins, static or files, importing each other in eight shapes (chain, star both ways, ladder, tree, pairs, star over a chain, layers), named in three orders, closed to a cycle or not", covers: []string{"acyclic", "cyclic"}},
	"root.Whitelist":         {bounds: "whitelists of one to three names out of three plugins and a missing one, in any order and with repetitions; a load, then a reload after one file changed, went or came", covers: []string{"missing", "loaded"}},
	"root.AlikeFiles":        {bounds: "two versions of a plugin file that agree in the first or last 40 bits of their SHA-1, in xxHash32 (of them or of their SHA-1), CRC-32, Adler-32, FNV-1a, 40 bits of MD5, or in their bytes but for the order, either first, a second reload to the first or the second", covers: []string{"reloaded"}},
	"root.OtherDir":          {bounds: "a plugin directory given in 5 ways, ResetPluginDir to another one that has the same, other, fewer and further plugins, or to one that does not exist first; the working directory changes or not", covers: []string{"nowhere", "fresh", "unchanged", "not reloadable"}},
	"root.Links":             {bounds: "plugin directory and plugin file each real, an absolute or a relative symbolic link; sockets, links to directories and links that are no plugins beside them; for a reload the file is rewritten or either link points elsewhere, to the same or another content", covers: []string{"socket", "link to a directory", "other links", "rewritten", "file link moved", "directory link moved"}},
	"root.ReloadHistory":     {bounds: "three-way choice per reload (same, another version, the version before, gone or back) for one of 2 plugins over 4 reloads in a row, any reloadability", covers: []string{"four reloads", "accepted", "unchanged", "not reloadable", "freed"}},
	"root.FaultHistory":      {bounds: "two reload attempts in a row after a load, then a good one: a plugin that changes or not, one importing it that changes, goes, comes back or not, one that is not reloadable; each attempt good, or failing in an Export, OnLoad, OnInit or the callback, a second or the free delay apart", covers: []string{"failed", "good", "freed"}},
	"root.FaultHistory3":     {bounds: "the same with three attempts", covers: []string{"failed", "good", "freed"}},
	"root.CallbackHistory":   {bounds: "a load and 3 reloads, each without a callback of its own, with one that agrees or one that vetoes, with or without a configured callback", covers: []string{"veto"}},
	"root.VaultRetained":     {bounds: "3 plugins in a chain with any of the two imports in either direction, any subset changed (and what imports it); the first changed one takes any live function and type name of the others, a new one, or none", covers: []string{"accepted", "rejected"}},
	"root.Reload3":           {bounds: "plugin files, 3 plugins, any acyclic imports in one of two directions, any reloadability; one reload after which each file is the same, another version with any imports and reloadability, or gone; delayed frees before or after it", covers: []string{"loaded", "accepted", "rejected", "unchanged", "not reloadable", "freed"}},
	"root.FaultsFirst2":      {bounds: "first load of 2 plugins importing each other in a chain; at most one failing step anywhere (error or panic of any plugin function, callback, opening, file system), any set of OnFree panics, then a good reload", covers: []string{"fails", "succeeds", "recovers", "veto", "freed in order"}},
	"root.FaultsFirst3":      {bounds: "as FaultsFirst2 with 3 plugins", covers: []string{"fails", "succeeds", "recovers", "veto", "freed in order"}},
	"root.FaultsReload2":     {bounds: "a good load, then a reload of any changed subset of 2 chained plugins with a failing step anywhere, any set of OnFree panics, then a good reload and all delayed frees", covers: []string{"fails", "succeeds", "recovers", "veto", "freed", "freed in order"}},
	"root.FaultsReload3":     {bounds: "as FaultsReload2 with 3 plugins", covers: []string{"fails", "succeeds", "recovers", "veto", "freed", "freed in order"}},
	"root.Reload2x2":         {bounds: "as Reload3 with 2 plugins and two reloads", covers: []string{"loaded", "accepted", "rejected", "unchanged", "not reloadable", "freed"}},
	"root.Names2":            {bounds: "2 directory entries of any kind (plugin, directory, near-miss extensions) whose names differ in one character out of aAbB, whitelist of at most one name, FindPlugin of any such name", covers: []string{"duplicate", "empty", "found", "loaded", "missing", "not found"}},
	"root.Names3":            {bounds: "as Names2 with 3 entries", covers: []string{"duplicate", "empty", "found", "loaded", "missing", "not found"}},
	"root.NamesW":            {bounds: "as Names2 with a whitelist of two names", covers: []string{"duplicate", "found", "loaded", "missing", "not found"}},
	"root.NamesReload":       {bounds: "one running plugin, a second file appears before a reload or the first one disappears, any names out of one character of aAbB", covers: []string{"duplicate", "found", "loaded"}},
	"root.StaticNames2":      {bounds: "2 static plugins, names of one character out of aAbB, whitelist of at most two names", covers: []string{"duplicate", "found", "loaded", "missing", "not found"}},
	"root.StaticEmpty":       {bounds: "no static plugins configured, nil, or an empty set of them; load and reload", covers: []string{"empty", "dynamic"}},
	"root.StaticNames3":      {bounds: "3 static plugins, names of one character out of aAbB, whitelist of at most one name", covers: []string{"duplicate", "found", "loaded", "missing", "not found"}},
	"root.ImportWiring":      {bounds: "one plugin importing another through one field of any of 8 types, any of 8 exports, any name and embedding of a list, tags hotswap:\"-\", hotswap of any other two characters or less, or one beside json and yaml tags, both reloadable or not", covers: []string{"accepted", "rejected"}},
	"root.ImportKinds":       {bounds: "what Import returns: nil, typed nils, pointers to non-structs, structs, every kind of field of a list"},
	"root.RequiredFiles":     {bounds: "a plugin file lacking any subset of the nine functions (2^9), alone or after a complete one, first load or reload", covers: []string{"complete", "lacking"}},
	"root.RequiredTypes":     {bounds: "one of the nine symbols has any of 7 other types, first load or reload"},
	"root.RequiredStatic":    {bounds: "a static plugin lacking any subset of the nine functions (2^9), alone or beside a complete one", covers: []string{"complete", "lacking"}},
	"root.LookupAll":         {bounds: "every pair of 17 kinds of symbol and 18 kinds of target, present or not, empty names", covers: []string{"fails", "stores"}},
	"root.InvokeFaults":      {bounds: "4 plugins, each succeeds, fails or panics (3^4), 6 panic values (two of them runtime errors), up to 2 parameters, results beside errors, an empty or any two-character function name, both directions", covers: []string{"failing: 0", "failing: 1", "failing: 2", "failing: 3", "failing: 4"}},
	"root.VaultFirst":        {bounds: "2 plugins with up to 2 live functions and types each, any names out of a small alphabet, nil tables, nil values; first load", covers: []string{"accepted", "rejected"}},
	"root.VaultReload":       {bounds: "as VaultFirst across a reload that keeps, rebuilds or fails", covers: []string{"accepted", "rejected", "reloaded"}},
	"root.FreeDelay":         {bounds: "any delay in [-1 h, 48 h] or the default, any uptime up to 1 h, any time up to 72 h passing after the reload (nanoseconds, symbolic), which takes no time or a minute", covers: []string{"as configured", "freed", "minimum", "not yet"}},
	"root.FreeOverlap":       {bounds: "two reloads any time up to 72 h apart, any delay in [15 s, 48 h] (nanoseconds, symbolic), second reload rebuilding, keeping or removing each of two plugins", covers: []string{"freed"}},
	"root.DetailsText2":      {bounds: "up to 2 entries, 3 directories, names of one character out of 3, 4 extensions, any map order", covers: nil},
	"root.DetailsText3":      {bounds: "up to 3 entries, 3 directories, names of one character out of 3, 2 extensions, any map order", covers: nil},
	"root.FileRace":          {bounds: "3 plugins; one file is rewritten or removed at any one of 9 plugin function calls of a load or reload", covers: []string{"raced"}},
	"root.FileRaceOps":       {bounds: "2 plugins; one file is rewritten before any one of 24 file system operations of a load or reload", covers: []string{"raced"}, replay: "engine"},
	"root.ConcurrentLoads":   {bounds: "2 goroutines loading or reloading, each vetoed or not, every schedule with at most 1 preemption at synchronisation points, plugin functions and callbacks; data races on every such path", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentReader":  {bounds: "1 reloading goroutine and 2 readers, at most 1 preemption; data races on every such path", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentMixed":   {bounds: "2 loading goroutines and a reader, at most 1 preemption; data races on every such path", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentFirst":   {bounds: "2 loading goroutines and a reader before anything is loaded, at most 1 preemption; data races on every such path", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentLoads2":  {bounds: "as ConcurrentLoads with 2 preemptions", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentReader2": {bounds: "as ConcurrentReader with 2 preemptions", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentMixed2":  {bounds: "as ConcurrentMixed with 2 preemptions", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentThree":   {bounds: "3 loading goroutines, at most 1 preemption; data races on every such path", covers: []string{"published", "vetoed"}, replay: "engine"},
	"root.ConcurrentFree":    {bounds: "two reloads after a load, the delayed free of the first manager falls into the second reload (at its beginning, opening, OnInit or callback) or after it, or lasts until the next one's; the second reload is vetoed or not and keeps, rebuilds or removes the retained plugin; every schedule with at most 1 preemption; data races on every such path", covers: []string{"published", "vetoed", "freed"}, replay: "engine"},
	"root.ConcurrentFree2":   {bounds: "as ConcurrentFree with 2 preemptions", covers: []string{"published", "vetoed", "freed"}, replay: "engine"},
	"cli.Rewrite":            {bounds: "an import path that equals the plugin's own up to an optional prefix, its last letter and a tail of up to 2 characters out of /ox-, either kind of quotes, 4 import names, in a root file or a file below; a text file with the same text", covers: []string{"own", "foreign"}, repeat: 5},
	"cli.Clause":             {bounds: "12 surroundings of the package clause (comments, build tags, directives, CRLF), package name f + 2 letters of oxm, root package or a package up to 3 directories below", covers: []string{"built"}, repeat: 5},
	"cli.Headers":            {bounds: "a Go file with any of 8 beginnings, 5 ends, 2 kinds of line ends, 8 names, in 4 places, importing one of 2 packages of the plugin three times and one beside it", covers: []string{"built"}},
	"cli.LinkedFiles":        {bounds: "a file of the plugin of 5 names, in two directories, that is an absolute or relative symbolic link to a file of 3 names elsewhere; a linked directory or a broken link beside it; with and without --include", covers: []string{"linked file", "included", "not taken"}},
	"cli.TakeFiles":          {bounds: "a file in one of 9 directories (hidden, vendor, testdata and hotswapbureau ones among them) with any of 64 names, a generated name or a near miss; 5 --include and 4 --exclude expressions", covers: []string{"generated", "test", "go", "included", "not included"}, repeat: 5},
	"cli.ManyFiles":          {bounds: "2, 13 or 91 files (more than copying workers), the first few of up to 70000 bytes, with or without a newline at the end, several imports each, non-UTF-8 text files; one unreadable file or none", covers: []string{"built"}},
	"cli.BuildArgs":          {bounds: "3 plugin names, 5 ways of naming the output directory, 4 flag settings, up to 3 build arguments of up to 2 characters out of -r= and space", covers: []string{"no build", "build"}, repeat: 5},
	"cli.Temps":              {bounds: "12 failing steps or none, 4 flag settings", covers: []string{"left", "fails", "succeeds"}, repeat: 5},
	"cli.OpFaults":           {bounds: "plugin build or static generation of a small plugin; any one of its first 72 file system operations fails (more than there are)", covers: []string{"none", "open", "write", "mkdir", "readdir", "chdir"}, replay: "engine"},
	"cli.CopyRace":           {bounds: "up to 2 unreadable files among 4, 5 copying workers, every schedule with at most 1 preemption while files are copied", covers: []string{"built"}, replay: "engine"},
	"cli.Signals":            {bounds: "SIGINT or SIGTERM before any one of the first 64 file system operations or go build, handled 0 to 13 operations later or at the end; plugin build with and without --leaveTemps, static generation", covers: []string{"interrupted", "late"}, replay: "engine"},
	"cli.LiveOne":            {bounds: "one declaration of 11 kinds in one of 5 files with any of 12 names (letter cases, underscore, prefixes), 7 --livePrefix settings, plugin build or static generation", covers: []string{"live", "not live", "fails", "succeeds"}, repeat: 5},
	"cli.LiveBlank":          {bounds: "one or two init functions, functions or types named _ in any of 3 files, beside a function or struct type of any of 11 names; 3 --livePrefix settings that match them or not, plugin build or static generation", covers: []string{"live", "not live", "succeeds"}},
	"cli.LiveTwo":            {bounds: "two declarations of 5 and 4 kinds in any of 4 files each, names of any letter case, plugin build or static generation", covers: []string{"live", "fails", "succeeds"}, repeat: 5},
	"cli.Static":             {bounds: "static build, clean and verbose build; 6 failing steps or none; output beside or around the plugin; earlier generated files or none; one other file: another plugin's file of any 3 letters out of f.oxF or one of 27 near misses", covers: []string{"built", "cleaned", "fails"}, repeat: 5},
	"cli.Roles":              {bounds: "any two of the seven functions are defined in 8 and 3 different ways, 4 package and directory names, plugin build or static generation", covers: []string{"built", "generated", "missing"}, repeat: 5},
	"cli.PkgPath":            {bounds: "directories up to 3 below the root, go.mod files of 6 forms at any level, absolute or relative", covers: []string{"fails", "succeeds"}, repeat: 5},
	"cli.PkgDeep":            {bounds: "directories 4 to 7 below the root of a module, another go.mod in any of those between", covers: []string{"succeeds"}, repeat: 5},
	"cli.PkgName":            {bounds: "a directory of 7 special names or any name of up to 4 characters out of a1-_, 9 sets of files", covers: []string{"fails", "succeeds", "derived"}, repeat: 5},
	"cli.BadArgs":            {bounds: "20 argument lists, 12 flag settings or environments, files of an earlier static build or none, plugin build or static generation", covers: []string{"rejected", "carried out"}, repeat: 5},
	"gen.Static":             {bounds: "the code the command generates for 4 plugins (live functions and types in 4 packages, a name that is no identifier, a package named hotswap, a live prefix of its own), linked statically; 3 whitelists, OnLoad or OnInit of any plugin or a callback failing, any two-character function name, any small parameter, any spelling of 12 names", covers: []string{"loaded", "fails"}},
	"gen.Dynamic":            {bounds: "the temporary package the command makes of one of these plugins, loaded as a plugin file", covers: []string{"loaded"}},
	"gen.Bureau":             {bounds: "the generated registry: 3 registrations of functions or types under any names of a small alphabet", covers: []string{"registered", "twice"}},
	"cli.Repeat":             {bounds: "two builds of one plugin with 4 live packages, map order: insertion or reverse plus one loop in any rotation, 4 flag settings, plugin build or static generation", covers: []string{"twice"}, repeat: 12},
}

func jobs(prop string, hs ...string) (a []job) {
	for _, h := range hs {
		a = append(a, job{h, prop + ":crash, deadlock or endless run"})
	}
	return
}

func pc(prop string, quick string, thorough string) propCheck {
	return propCheck{quick: jobs(prop, strings.Fields(quick)...), thorough: jobs(prop, strings.Fields(thorough)...)}
}

var checks = map[string]propCheck{
	"C01": pc("C01", "root.GraphStatic3 root.GraphStatic4 root.Reload3 root.StaticNames2 root.InvokeFaults root.ImportWiring root.GraphChain6 root.GraphLong", "root.GraphStatic4M root.GraphStatic5 root.StaticNames3 root.Reload2x2 root.GraphChain7"),
	"C02": pc("C02", "root.GraphStatic3 root.Reload3 root.FaultsFirst2 root.StaticNames2 root.VaultFirst root.VaultReload root.RequiredStatic root.GraphLong", "root.GraphStatic4 root.GraphStatic5 root.FaultsFirst3 root.Reload2x2"),
	"C03": pc("C03", "root.FaultsFirst3 root.FaultsReload3 root.Names2 root.VaultReload root.RequiredFiles root.RequiredTypes root.ImportKinds root.OtherDir root.FaultHistory", "root.Reload3 root.VaultFirst root.ConcurrentLoads root.FaultHistory3"),
	"C04": pc("C04", "root.Links root.FaultsReload3 root.FreeDelay root.FreeOverlap root.StaticNames2 root.Reload3 root.ReloadHistory root.ConcurrentFree root.FaultHistory", "root.Reload2x2 root.ConcurrentLoads2 root.ConcurrentFree2 root.FaultHistory3"),
	"C05": pc("C05", "root.FaultsFirst3 root.FaultsReload3 root.Reload3 root.FaultHistory", "root.GraphStatic4 root.GraphStatic5 root.FaultHistory3"),
	"C06": pc("C06", "root.GraphStatic3 root.GraphStatic4 root.Reload3 root.GraphChain6 root.GraphLong", "root.GraphStatic4M root.GraphStatic5 root.Reload2x2 root.GraphChain7"),
	"C07": pc("C07", "root.ImportWiring root.ImportKinds root.GraphStatic3 root.Reload3 root.GraphLong", "root.GraphStatic4 root.Reload2x2"),
	"C08": pc("C08", "root.ImportWiring root.ImportKinds root.Reload3", "root.Reload2x2"),
	"C09": pc("C09", "root.Links root.Reload3 root.FaultsReload2 root.FileRace root.FileRaceOps root.NamesReload root.ReloadHistory root.FileTimes root.BigFiles root.OtherDir root.AlikeFiles root.FaultHistory", "root.FaultsReload3 root.Reload2x2 root.FaultHistory3"),
	"C10": pc("C10", "root.Reload3 root.Reload2x2", "root.ReloadHistory"),
	"C11": pc("C11", "root.Names2 root.NamesReload root.StaticNames2 root.GraphChain6", "root.NamesW root.Names3 root.StaticNames3 root.GraphStatic3"),
	"C12": pc("C12", "root.VaultFirst root.VaultReload root.VaultRetained root.Reload3", "root.Reload2x2"),
	"C13": pc("C13", "root.InvokeFaults", ""),
	"C14": pc("C14", "root.Names2 root.NamesReload root.DetailsText2 root.FaultsReload2 root.ConcurrentLoads root.ReloadHistory root.CallbackHistory root.Reload3", "root.DetailsText3 root.FaultsReload3 root.Reload2x2"),
	"C15": pc("C15", "root.Links root.Whitelist root.Names2 root.NamesReload root.StaticNames2 root.Reload3 root.OtherDir", "root.NamesW root.Names3 root.StaticNames3"),
	"C16": pc("C16", "root.FreeDelay root.FreeOverlap", ""),
	"C17": pc("C17", "root.ConcurrentLoads root.ConcurrentReader root.ConcurrentMixed root.ConcurrentFirst root.ConcurrentFree", "root.ConcurrentFree2 root.ConcurrentLoads2 root.ConcurrentReader2 root.ConcurrentMixed2 root.ConcurrentThree root.Reload3"),
	"C18": pc("C18", "root.FaultsFirst3 root.FaultsReload3 root.CallbackHistory root.StaticNames2", ""),
	"C19": pc("C19", "root.LookupAll", ""),
	"C20": pc("C20", "root.StaticEmpty root.StaticNames2 root.RequiredStatic", "root.StaticNames3"),
	"C21": pc("C21", "root.RequiredFiles root.RequiredTypes", ""),
	"C30": pc("C30", "cli.LinkedFiles cli.Rewrite cli.Clause cli.ManyFiles cli.Headers", ""),
	"C31": pc("C31", "cli.LinkedFiles cli.TakeFiles cli.Rewrite cli.CopyRace cli.ManyFiles", ""),
	"C32": pc("C32", "cli.LiveOne cli.LiveTwo cli.LiveBlank gen.Static gen.Dynamic gen.Bureau", ""),
	"C33": pc("C33", "cli.Static cli.OpFaults cli.Signals", ""),
	"C34": pc("C34", "cli.Roles gen.Static", ""),
	"C35": pc("C35", "cli.BuildArgs cli.OpFaults", ""),
	"C36": pc("C36", "cli.LinkedFiles cli.Temps cli.OpFaults cli.CopyRace cli.Signals cli.ManyFiles", ""),
	"C37": pc("C37", "cli.PkgPath cli.PkgDeep cli.PkgName", ""),
	"C38": pc("C38", "cli.Repeat", ""),
	"C39": pc("C39", "cli.BadArgs", ""),
	"C40": pc("C40", "cli.Signals", ""),
	"C41": pc("C41", "gen.Static gen.Dynamic", ""),
	"C23": pc("C23", "root.Reload3 root.StaticNames2 root.FileTimes root.OtherDir root.AlikeFiles", "root.Reload2x2 root.StaticNames3"),
	"C22": pc("C22", "root.Links root.ReloadHistory root.FileRace root.FileRaceOps root.Reload3 root.FileTimes root.BigFiles root.OtherDir root.AlikeFiles", "root.Reload2x2"),
}

func assumptions(pc propCheck) []string {
	a := []string{
		"the go/ssa form of /repo's working tree, executed by /verif/gosym, means what the Go compiler makes of it (sampled paths and every counterexample are replayed natively)",
		"z3's answers are right",
		"goroutines interleave at synchronisation points; memory is sequentially consistent",
	}
	return a
}
