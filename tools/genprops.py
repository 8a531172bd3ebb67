#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the text of the properties lives here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
PM, SW, ST, PL, BC, HU = ("pluginManager.go", "pluginManagerSwapper.go", "staticPlugin.go", "plugin.go",
                      "cli/hotswap/cmd/build.go", "internal/hutils/hutils.go")

prop("C01", "Loaded plugins are listed once, dependencies first",
 "After any successful load or reload the manager lists every loaded plugin exactly once, and every plugin after all the plugins it imports. InvokeEach calls the listed plugins exactly once each in that order, and InvokeEachBackward exactly once each in the reverse order.",
 ["inputs", "configurations"], "every set of plugins, every acyclic import graph over them, every iteration order of the runtime's maps",
 "the tests sample a handful of fixed graphs (up to 4 plugins) and whatever map order the runtime picks in that run",
 [PM], [("initDeps", PM+":initDeps"), ("orderPlugins", PM+":orderPlugins"), ("InvokeEach/InvokeEachBackward", PM+":InvokeEach")],
 [("ordered", "plugins in dependency order", PM+":PluginManager")], ["PluginManager.Plugins()", "PluginManager.InvokeEach", "PluginManager.InvokeEachBackward"])

prop("C02", "Lifecycle functions run once each, phase by phase",
 "In a successful load or reload every newly loaded plugin gets Reloadable, Export, Import, OnLoad and OnInit exactly once each, in that order, and a retained plugin gets none of them. No Import runs before every Export is done, no OnLoad before every Import is done and wired, and no OnInit before every OnLoad has succeeded and the Vault holds all live functions and types. OnLoad receives the caller's data, OnInit receives the new manager's Vault, and both run over the plugins in dependency order.",
 ["inputs", "configurations", "histories"], "every set of plugins and import graph, first load as well as reload with any mix of changed and retained plugins",
 "the tests look for log lines of three fixed plugins; they never check that a phase is complete before the next one begins",
 [PM, ST], [("loadPlugins", PM+":loadPlugins"), ("loadStaticPlugins", ST+":loadStaticPlugins"), ("invokeEveryOnLoad", PM+":invokeEveryOnLoad"), ("invokeEveryOnInit", PM+":invokeEveryOnInit")],
 None, ["calls into the plugin functions"])

prop("C03", "A failed load or reload leaves the running plugins untouched",
 "Whatever goes wrong during a load or reload (an unreadable directory or file, a plugin that cannot be opened, an error or a panic in any plugin function or reload callback), the call returns a non-nil error and no panic escapes. Current() stays the same manager with the same plugins, the same records of them and the same Vault, ReloadCounter does not move, none of the running plugins is freed, and a later reload of good plugins still succeeds.",
 ["fault_sequences", "histories"], "every point of a load or reload at which one of the operations it depends on fails or panics, for every mix of changed, retained, added and removed plugins",
 "the tests inject one fault at a time in a first load without a running manager; they never check what a failing reload does to the running manager",
 [PM, SW, ST], [("loadPlugins deferred recovery", PM+":loadPlugins"), ("loadPluginFiles", SW+":loadPluginFiles"), ("invokeReloadCallbacks", SW+":invokeReloadCallbacks")],
 [("current", "the published manager", SW+":PluginManagerSwapper"), ("Refs", "number of managers holding a plugin instance", PL+":Plugin")], ["LoadPlugins/Reload return value", "Current()", "ReloadCounter()", "OnFree calls"])

prop("C04", "A plugin instance is freed exactly once, after its last use",
 "OnFree of a loaded plugin instance runs at most once, and never while the current manager, or a replaced manager whose free delay has not run out, still holds that instance. Once every manager that held the instance has been replaced and its free delay has run out, OnFree has run exactly once. A panic in one OnFree does not keep the other plugins from being freed.",
 ["histories", "schedules"], "every sequence of loads and reloads (successful or failing, with plugins retained, rebuilt, removed, added) and every order in which the delayed frees come due",
 "one test reloads once and looks for one log line after a sleep; reference counts across several reloads with failures and overlapping delays are never exercised",
 [PM, SW, PL], [("addUnchanged", PM+":addUnchanged"), ("invokeEveryOnFree", PM+":invokeEveryOnFree"), ("delayed free", SW+":loadPluginFiles")],
 [("Refs", "number of managers holding a plugin instance", PL+":Plugin"), ("freeOnce", "guards OnFree", PL+":Plugin")], ["OnFree calls", "Plugin.Refs"])

prop("C05", "A failed load frees what it had loaded, once",
 "When a load or reload fails after some plugins were loaded, OnFree runs exactly once on every newly loaded plugin whose Export had completed, before the failing call returns, whatever the others do in their own OnFree. If dependency order had been established by then (the failure came from OnLoad or later), dependents are freed before their dependencies. Retained plugins are not freed.",
 ["fault_sequences", "inputs"], "every failure point after the first plugin was loaded, every import graph, panicking OnFree functions included",
 "tests check one order for two plugins and two failure points",
 [PM, SW, ST], [("loadPlugins deferred cleanup", PM+":loadPlugins"), ("invokeEveryOnFree", PM+":invokeEveryOnFree"), ("invokeReloadCallbacks", SW+":invokeReloadCallbacks")],
 [("Refs", "number of managers holding a plugin instance", PL+":Plugin")], ["OnFree calls"])

prop("C06", "Cyclic imports are rejected, acyclic ones accepted",
 "A set of plugins whose imports contain a cycle of any length, a plugin importing itself included, is rejected with an error before any OnLoad runs, and the call always terminates. A set of otherwise valid plugins whose imports contain no cycle is never rejected.",
 ["inputs"], "every directed import graph over the plugins, every map iteration order",
 "tests try one cycle of length two and one of length three",
 [PM], [("checkCyclicDependency", PM+":checkCyclicDependency"), ("orderPlugins", PM+":orderPlugins")],
 [("Deps", "names of the imported plugins", PL+":Plugin")], ["LoadPlugins error", "OnLoad calls"])

prop("C07", "Imported fields are wired to the right exports",
 "After every Import has been processed, each exported field (other than those tagged hotswap:\"-\") of the struct a plugin returned from Import holds exactly the value that the plugin of that name (compared without regard to case) returned from Export, or is left alone if that plugin exports nil. Fields tagged hotswap:\"-\" and unexported fields are ignored and left alone, and the plugin's Deps lists exactly the plugins it imported.",
 ["inputs"], "every shape of the Import struct (number, names, case, tags of fields), every choice of exported values",
 "tests use five fixed structs with one field spelling each",
 [PM], [("initDeps", PM+":initDeps"), ("name2key", PM+":name2key")],
 [("Deps", "names of the imported plugins", PL+":Plugin")], ["fields of the Import object", "Plugin.Deps"])

prop("C08", "Invalid imports are rejected",
 "A load fails, before any OnLoad runs, if some plugin's Import returns something other than nil or a pointer to a struct, names a plugin that is not being loaded, embeds a field anonymously, has a field whose type cannot hold the other plugin's export, or if a plugin that is not reloadable imports one that is reloadable. It never fails for a plugin set that does none of these (and has no other fault).",
 ["inputs"], "every shape of the Import struct and every combination of reloadable flags and exported types",
 "each rule is tested once with one fixed plugin",
 [PM], [("initDeps", PM+":initDeps")], None, ["LoadPlugins error", "OnLoad calls"])

prop("C09", "Reload keeps unchanged and non-reloadable plugins, replaces the rest",
 "After a successful reload of a directory that holds plugin files the manager holds exactly the plugins whose files are in it. A plugin reported as not reloadable by its first version keeps running that instance (same functions, exports, dependencies) whatever its file contains, with the note \"not reloadable\"; a plugin whose file content is the same as that of the running instance keeps it with the note \"unchanged\"; every other plugin is a fresh instance of the new content.",
 ["histories", "inputs"], "every sequence of reloads over every combination of same/different content, reloadable flag, added and removed files",
 "tests reload at most three times with one plugin changing per step",
 [PM], [("removeNotReloadable", PM+":removeNotReloadable"), ("removeUnchanged", PM+":removeUnchanged"), ("addUnchanged", PM+":addUnchanged")],
 [("FileSha1", "content fingerprint of a loaded plugin", PL+":Plugin"), ("unchanged", "retained from the previous manager", PL+":Plugin")], ["PluginManager.Plugins()", "Plugin.Note", "Plugin.InvokeFunc", "Details"])

prop("C10", "A retained plugin never ends up with a replaced or missing dependency",
 "A reload that would retain a plugin while one of the plugins it imports is rebuilt or no longer present is rejected with an error and leaves the running manager in place. Whenever a reload succeeds, every retained plugin's imports are the very instances in the new manager.",
 ["histories", "inputs"], "every import graph and every combination of same/changed/removed files in a reload",
 "one test rebuilds one of three plugins",
 [PM], [("initDeps, 'was rebuilt while'", PM+":initDeps"), ("addUnchanged", PM+":addUnchanged")],
 [("Deps", "names of the imported plugins", PL+":Plugin")], ["Reload error", "Current()"])

prop("C11", "Plugin names are unique and matched without regard to case",
 "Two plugin files, or two static plugins, whose names differ at most in letter case are never loaded together: the load fails, and for plugin files it fails before any of them is opened. FindPlugin returns the loaded plugin whose name equals its argument up to letter case, and nil if there is none.",
 ["inputs"], "every list of names over letters, digits and punctuation",
 "one list of four names is tried, through an internal function only",
 [PM, ST], [("loadPlugins counters", PM+":loadPlugins"), ("name2key", PM+":name2key"), ("FindPlugin", PM+":FindPlugin")],
 [("pluginMap", "plugins by lower-case name", PM+":PluginManager")], ["LoadPlugins error", "FindPlugin"])

prop("C12", "The Vault is the exact union of all live things, duplicates rejected",
 "After a successful load or reload the Vault's LiveFuncs and LiveTypes hold exactly the entries of all loaded plugins, retained ones included, each under its own name and with its own plugin's value; a name provided by two plugins makes the load fail before any OnInit, as does a plugin that provides a nil table. Each manager has a Vault of its own: DataBag starts empty and non-nil, Extension is the value made for this very manager by the configured newer (nil without one), and a reload does not touch the old manager's Vault.",
 ["inputs", "histories"], "every assignment of live names to plugins, first load and reload",
 "tests use two fixed overlapping plugins and count entries",
 [PM, "vault/vault.go"], [("setupVault", PM+":setupVault"), ("newPluginManager", PM+":newPluginManager")],
 None, ["PluginManager.Vault"])

prop("C13", "One misbehaving plugin does not stop InvokeEach",
 "InvokeEach and InvokeEachBackward never panic and reach every loaded plugin exactly once with the given name and parameters, whichever of them return errors or panic; each error and panic is logged as an error.",
 ["fault_sequences"], "every combination of plugins that return, fail or panic",
 "tests make all plugins misbehave in the same way",
 [PM], [("InvokeEach", PM+":InvokeEach"), ("InvokeEachBackward", PM+":InvokeEachBackward")], None, ["InvokeFunc calls", "logger"])

prop("C14", "Details and ReloadCounter report exactly what happened",
 "A successful load or reload of at least one plugin returns one entry per plugin, valued \"not reloadable\" or \"unchanged\" if that instance was retained for that reason and \"ok\" if it was newly loaded; a failing one returns no details. ReloadCounter equals the number of reloads that returned without error and is not moved by LoadPlugins. Details.String lists the plugin names without directory and extension with their values, in the sort order of the keys, separated by \", \".",
 ["histories", "inputs"], "every sequence of loads and reloads with any outcome; every details map",
 "the counter is not tested at all and details only for one reload",
 [SW], [("loadPluginFiles", SW+":loadPluginFiles"), ("ReloadWithCallback", SW+":ReloadWithCallback"), ("Details.String", SW+":String")],
 [("reloadCounter", "successful reloads", SW+":PluginManagerSwapper")], ["Details", "ReloadCounter()"])

prop("C15", "Exactly the wanted plugin files are loaded",
 "Without a whitelist, LoadPlugins and Reload load exactly the regular directory entries, and the symbolic links to regular files, whose name ends in .so, each under its file name without that extension. With a whitelist they load exactly the listed plugins, and fail naming every listed plugin that is missing; other files and subdirectories are ignored.",
 ["inputs", "configurations"], "every directory content and every whitelist",
 "the whitelist is not tested; directories hold only the expected files",
 [SW, PM], [("loadPluginsImpl", SW+":loadPluginsImpl"), ("pluginName", PM+":pluginName"), ("pluginWhitelist.Contains", SW+":Contains")],
 [("whitelist", "plugins to load", SW+":opts")], ["PluginManager.Plugins()", "LoadPlugins error"])

prop("C16", "Replaced plugins are freed only after the configured delay",
 "After a successful reload, OnFree of the replaced instances does not run before the configured free delay, and never before the minimum of 15 seconds, has passed since the reload; the default delay is 5 minutes. It runs once that time is over, and the reload itself does not wait for it.",
 ["schedules", "inputs"], "every configured delay and every later instant",
 "tests shrink the minimum to one second and sleep a little longer than that",
 [SW], [("delayed free", SW+":loadPluginFiles"), ("minFreeDelay", SW+":minFreeDelay")],
 [("freeDelay", "configured delay", SW+":opts")], ["OnFree calls", "time"])

prop("C17", "Concurrent callers only ever see complete managers",
 "Under any interleaving of concurrent LoadPlugins, Reload, Current and delayed frees, loads are carried out one after another (plugin functions and callbacks of two loads never interleave) and each sees the previous one's result. Current() returns nil or a manager whose load, including every OnInit and reload callback, had already completed successfully, and once a load has returned successfully Current() returns that manager or a later one. No two of these calls, nor a reader of the current manager (Plugins, FindPlugin, InvokeEach, the Vault's tables, ReloadCounter), access the same memory without synchronisation while one of them writes it.",
 ["schedules"], "every interleaving of the calls at their synchronisation points and plugin callbacks",
 "no test runs two operations at once",
 [SW], [("mutex", SW+":LoadPlugins"), ("atomic publication", SW+":loadPluginFiles")],
 [("current", "the published manager", SW+":PluginManagerSwapper"), ("mu", "serialises loads", SW+":PluginManagerSwapper")], ["Current()", "order of plugin callbacks"])

prop("C18", "Reload callbacks run in order, before publication, and can veto",
 "On every load or reload that reaches its end the configured callback and then the extra callback of ReloadWithCallback run once each, after every OnInit, with the new manager and the manager it replaces, while Current() is still the old one. If one returns an error or panics, the later one does not run and the load fails with that error (or an error describing the panic), the new plugins are freed and the old manager stays.",
 ["fault_sequences", "histories"], "every combination of callbacks present, failing or panicking, on load and reload",
 "the tests run one fixed sequence with one plugin and never look at the managers passed",
 [SW], [("invokeReloadCallbacks", SW+":invokeReloadCallbacks"), ("ReloadWithCallback", SW+":ReloadWithCallback")], None, ["callback arguments", "Current()", "error"])

prop("C19", "Lookup either assigns the symbol or fails cleanly",
 "Plugin.Lookup never panics. It stores the symbol (or, for a variable, the variable's value or address, whichever the target can hold) into the target and returns nil exactly if the symbol exists and the target is a non-nil pointer to a type that can hold it; it returns ErrNotExist if the symbol does not exist, another error for an empty name, a nil or non-pointer target or a type mismatch, and leaves the target alone in every failing case.",
 ["inputs"], "every symbol kind and type against every kind and type of target",
 "tests try nine symbols and five failing calls on one plugin",
 [PL], [("Lookup", PL+":Lookup"), ("isNil", PL+":isNil")], None, ["Plugin.Lookup"])

prop("C20", "Static linking mode loads like dynamic mode",
 "With static plugins configured, LoadPlugins loads exactly the configured (or whitelisted) static plugins, reporting \"ok\" for each, fails if a whitelisted one is missing or any of a plugin's nine functions is missing, and calls each plugin's functions in their own roles. StaticLinkingMode() is true and every Reload fails without effect. Without static plugins StaticLinkingMode() is false.",
 ["inputs", "configurations"], "every set of static plugins, missing functions, and whitelists",
 "one test loads three fixed plugins",
 [ST, SW], [("loadStaticPlugins", ST+":loadStaticPlugins"), ("loadStaticPlugin", ST+":loadStaticPlugin"), ("NewPluginFuncs", ST+":NewPluginFuncs")],
 [("staticPlugins", "configured static plugins", SW+":PluginManagerSwapper")], ["LoadPlugins", "Plugins()", "Reload"])

prop("C21", "Plugins lacking a required function are rejected before use",
 "A plugin file that lacks any of OnLoad, OnInit, OnFree, Export, Import, InvokeFunc, Reloadable, HotswapLiveFuncs and HotswapLiveTypes, or has one with another type, makes the load fail, before any function of that plugin is called. The error names every one that is missing.",
 ["inputs"], "every subset of missing and wrongly typed functions in every plugin of the set",
 "two fixed plugins lack seven and three functions",
 [PM, PL], [("loadPlugin", PM+":loadPlugin"), ("makePluginFuncItemList", PM+":makePluginFuncItemList"), ("Lookup", PL+":Lookup")], None, ["LoadPlugins error", "plugin function calls"])

prop("C22", "What is opened is a private copy of what was fingerprinted",
 "Every newly loaded plugin is opened from a copy below a tmp directory beside its file, holding exactly the bytes whose SHA-1 the manager records, under a path no other opened version of any plugin of the process uses; plugin files in the plugin directory are never opened directly or modified, and a load writes nothing else into it. Retained plugins are not opened again.",
 ["inputs", "histories"], "every plugin content, names and sequence of reloads",
 "tests never look at the copies",
 [PM], [("copyPlugin", PM+":copyPlugin"), ("buildFileInfoMap", PM+":buildFileInfoMap")],
 [("FileSha1", "content fingerprint", PL+":Plugin")], ["path and bytes passed to plugin.Open", "plugin directory"])

prop("C23", "A listed plugin's record is true and stays so",
 "Every plugin a manager lists carries the name of its file without the extension (or the name of its static plugin), the path and the SHA-1 of the file it was loaded from and the time of the load that loaded it, and its Lookup finds the symbols of that very file; a plugin retained by a reload carries these over from the load that made it. Whatever later loads do, successful or not, the entries of an earlier manager (name, file, fingerprint, time, note, dependencies, FindPlugin) stay what they were when it was published.",
 ["inputs", "histories"], "every set of plugins, imports and reloadability, every mix of plugins kept, rebuilt, added and removed by a reload, accepted or rejected",
 "tests look at no field but Note",
 [PM, SW, ST, PL], [("loadPlugin", PM+":loadPlugin"), ("addUnchanged", PM+":addUnchanged"), ("loadStaticPlugin", ST+":loadStaticPlugin")],
 [("Name/File/FileSha1/When/Note/Deps", "the record of a plugin", PL+":Plugin")], ["PluginManager.Plugins()", "PluginManager.FindPlugin", "Plugin fields", "Plugin.Lookup"])

prop("C30", "The build rewrites exactly the plugin's own import paths",
 "In the temporary package every Go file equals its source except that quoted import paths equal to or below the plugin's own package path refer to the temporary package instead, and the package clause of root-package files is main. Import paths that merely share a prefix with the plugin's path are left alone, as are files that are not Go files. (A string literal outside the imports that equals such a path may be rewritten as well.)",
 ["inputs"], "every file content over the bytes that matter around import strings and package clauses",
 "the test plugins contain a few ordinary imports",
 [BC], [("copyFiles", BC+":copyFiles"), ("replaceCode", BC+":copyFiles")], None, ["files of the temporary package"])

prop("C31", "The build takes exactly the right files",
 "The temporary package receives, at the same relative path, exactly the plugin's .go files that are neither tests nor generated by hotswap, plus the files other than .go files whose base name matches --include and not --exclude; files of the plugin directory itself are never changed by a plugin build.",
 ["inputs", "configurations"], "every file name, every include/exclude expression",
 "tests never use the flags",
 [BC], [("collectFiles", BC+":collectFiles")], None, ["files of the temporary package"])

prop("C32", "Live functions and types are collected completely and uniquely",
 "Every package-level function and struct type of the plugin whose name begins with the live prefix, compared without regard to case, is registered once under its exact name in the package that declares it, and nothing else is: no method, variable, or other name (generic declarations aside), and no init function and nothing named _, which no code can refer to. Two of them with the same name anywhere in the plugin, or a live type that is not a plain struct, make the build fail without generating code.",
 ["inputs", "configurations"], "every set of declarations over packages and files, every prefix",
 "tests contain three fixed live declarations and no build failure",
 [BC], [("completePlugin", BC+":completePlugin"), ("genHotswapLive", BC+":genHotswapLive")], None, ["generated hotswap.live.go, hotswap.main.go", "build failure"])

prop("C33", "Static generation and cleaning touch only files hotswap generated",
 "A --staticLinking build, with or without --clean, creates and removes only hotswap's own generated files of that plugin, known by their names, and the shared registry in the hotswapbureau directory: no source file of the plugin and no other file of the output directory is changed or removed, in particular not the files generated for other plugins.",
 ["inputs", "histories"], "every file name in the plugin and output directories, every sequence of static builds and cleans of several plugins",
 "the one test that uses the files skips itself when they are gone",
 [BC], [("removeStaticFiles", BC+":removeStaticFiles"), ("findPluginInitFiles", BC+":findPluginInitFiles")], None, ["file system"])

prop("C34", "A statically linked plugin's functions land in their own roles",
 "The generated registration passes each required function of the plugin in the very position that gives it its own role, and the generator, like a plugin build, fails, naming them, if any required function is not defined as a package-level function in a non-test file of the plugin's root package; methods of those names do not count.",
 ["inputs"], "every set of declarations in the root package",
 "one test runs generated code of three complete plugins",
 [BC, ST], [("parseRequiredPluginFuncs", BC+":parseRequiredPluginFuncs"), ("NewPluginFuncs", ST+":NewPluginFuncs")], None, ["generated init file", "failure message"])

prop("C35", "The go build command is what the user asked for",
 "A plugin build runs, in the temporary package, exactly one go build with -trimpath, -buildmode=plugin and the plugin's .so in the output directory as its output, followed by all the arguments after -- in order; with --goBuild=false it runs none.",
 ["inputs", "configurations"], "every argument list",
 "tests pass one flag and only look at the result",
 [BC, "cli/hotswap/hotswap.go"], [("buildPlugin", BC+":buildPlugin"), ("main", "cli/hotswap/hotswap.go:main")], None, ["executed commands"])

prop("C36", "Temporary packages are removed, and nothing else",
 "After a plugin build, successful or failing at any step, its temporary directory beside the plugin directory is gone unless --leaveTemps or --goBuild=false was given, in which case it stays; a build never removes the plugin directory or anything outside its temporary directory and exits non-zero exactly if some step failed. (Interrupted builds: see C40.)",
 ["fault_sequences", "configurations"], "every step at which a build can fail and every flag combination",
 "tests never look at leftovers and no test makes a build fail",
 [BC], [("removeTmpDir", BC+":removeTmpDir"), ("execute", BC+":execute")], None, ["file system", "exit code"])

prop("C37", "Package names and paths are derived correctly from directories",
 "The package path of a directory is its module path joined with its path relative to the nearest enclosing directory that has a go.mod, and its package name is that of its Go files that are built (an external test package does not count), or for a directory without such files a legal identifier made from its name; several packages or a missing module make it fail.",
 ["inputs"], "every directory depth and directory name",
 "exercised only on the repository's own layout",
 [HU], [("PackageFromDirectory", HU+":PackageFromDirectory")], None, ["package clauses and import paths in generated files"])

prop("C38", "Generation is repeatable",
 "Two builds of the same sources with the same options generate the same code apart from the name of the temporary directory: it does not depend on the order in which maps are iterated, on the time, or on files that an earlier build of hotswap generated and left behind.",
 ["inputs", "histories", "schedules"], "every set of declarations, every map iteration order in each of the builds, every set of generated files left by an earlier build",
 "no test builds a plugin twice and compares what is generated",
 [BC], [("genHotswapMain", BC+":genHotswapMain"), ("genHotswapLive", BC+":genHotswapLive"), ("completePlugin", BC+":completePlugin")], None, ["generated files"])

prop("C39", "Bad invocations change nothing",
 "The build command carries out exactly the sensible invocations: an existing plugin directory that is not the output directory, legal --include and --exclude expressions, at most one live prefix, and with --staticLinking an output directory that is not inside the plugin's. Every other invocation exits non-zero after saying why, without having created, changed or removed a file and without having run go build.",
 ["inputs", "configurations"], "every combination of arguments and flags, every spelling of the two directories within the stated lengths",
 "the tests only ever build with good arguments",
 [BC, "cli/hotswap/hotswap.go"], [("execute", BC+":execute"), ("main", "cli/hotswap/hotswap.go:main")], None, ["exit code", "standard error", "file system", "executed commands"])

prop("C40", "An interrupted build leaves nothing and makes no incomplete plugin",
 "A build that receives SIGINT or SIGTERM at any point after it has begun to watch for them removes its temporary directory (unless --leaveTemps was given), never hands a partly copied or partly generated package to go build, and exits zero only if the plugin was completely built.",
 ["schedules", "crash_points"], "every point at which the signal can arrive, every interleaving of the copying goroutines with it",
 "no test interrupts a build",
 [BC], [("execute", BC+":execute"), ("copyFiles", BC+":copyFiles"), ("removeTmpDir", BC+":removeTmpDir")], None, ["file system", "exit code", "executed commands"])

prop("C41", "Generated code compiles and its plugins load",
 "For plugins that compile by themselves, lie below the root of their module, have no generic live declarations, declare none of the names that generated code uses and, when built into a temporary package, have the non-Go files they embed included, the build command succeeds, the code it generates compiles together with them, and a program made of that code - the statically linked one, or the plugin made of the temporary package - loads them under the names of their directories; a load fails exactly if one of the plugins' own functions or a callback objects.",
 ["inputs", "configurations"], "every whitelist, failing function and parameter the program meets, for a corpus of plugins of all shapes",
 "the repository's tests use generated files that are committed; nothing runs code generated for other plugins",
 [BC, "cli/hotswap/cmd/hotswapMain.tpl", "cli/hotswap/cmd/hotswapLive.tpl", "cli/hotswap/cmd/hotswapBureau.tpl", "cli/hotswap/cmd/hotswapStaticPluginInit.tpl"],
 [("completePlugin", BC+":completePlugin"), ("genHotswapStaticPluginInit", BC+":genHotswapStaticPluginInit")], None, ["loaded plugins", "exit code", "go build"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
