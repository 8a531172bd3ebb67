From 3fcafb13b2b89779108760daaf7af364b25224a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 01/18] fix: load plugins whose file names contain upper-case
 letters

The file info map is keyed by the lower-case name, but loadPlugins looked
entries up by the name itself, got nil and panicked.
---
 pluginManager.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pluginManager.go b/pluginManager.go
index 553a68a..872778a 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -133,7 +133,7 @@ func (pm *PluginManager) loadPlugins(files []string, oldManager *PluginManager,
 	pm.outputStats1(infoMap)
 	pm.when = time.Now()
 	for _, name := range infoMap.names() {
-		info := infoMap.m[name]
+		info := infoMap.m[name2key(name)]
 		curFileInfo = info
 		if err = pm.loadPlugin(info, data); err != nil {
 			return fmt.Errorf("failed to load the plugin %s. err: %w", info.name, err)
-- 
2.43.0


From 8292c14ecf59a0a6c3bab6d5c60b05d4d5a9df02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 02/18] fix: ignore unexported Import fields whose names are
 not ASCII

The first byte of the field name was looked at as if it was a rune.
---
 pluginManager.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pluginManager.go b/pluginManager.go
index 872778a..90d03f0 100644
--- a/pluginManager.go
+++ b/pluginManager.go
@@ -13,7 +13,6 @@ import (
 	"sort"
 	"strings"
 	"time"
-	"unicode"
 
 	"github.com/edwingeng/hotswap/internal/hutils"
 	"github.com/edwingeng/hotswap/vault"
@@ -260,7 +259,7 @@ func (pm *PluginManager) initDeps() error {
 		n := impTyp.Elem().NumField()
 		for i := 0; i < n; i++ {
 			field := impTyp.Elem().Field(i)
-			if ch := field.Name[0]; !unicode.IsUpper(rune(ch)) {
+			if field.PkgPath != "" {
 				continue
 			}
 			if field.Tag.Get("hotswap") == "-" {
-- 
2.43.0


From d6da229996fd732b75f95b5044ad0a1a0c7bf28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 03/18] fix: reject static plugins whose names differ in letter
 case only

One of them silently replaced the other, which was then never freed.
---
 staticPlugin.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/staticPlugin.go b/staticPlugin.go
index cda9663..2943669 100644
--- a/staticPlugin.go
+++ b/staticPlugin.go
@@ -66,6 +66,15 @@ func (pm *PluginManager) loadStaticPlugins(staticPlugins map[string]*StaticPlugi
 	}
 	sort.Strings(a)
 
+	names := make(map[string]string)
+	for _, k := range a {
+		key := name2key(staticPlugins[k].Name)
+		if another, ok := names[key]; ok {
+			return fmt.Errorf("duplicate name detected: %s. static plugins: %s, %s", key, another, k)
+		}
+		names[key] = k
+	}
+
 	pm.when = time.Now()
 	for _, name := range a {
 		curPlugin = staticPlugins[name]
-- 
2.43.0


From 4d75ce11523aebea5f5100ab26a1d25c570e3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 04/18] fix: accept a whitelist that names a plugin twice

Loading failed with an empty list of missing plugins.
---
 pluginManagerSwapper.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index 538608b..aef07c2 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -114,13 +114,13 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 		}
 	}
 	if len(sw.opts.whitelist) > 0 {
-		if len(found) != len(sw.opts.whitelist) {
-			var missing []string
-			for _, v := range sw.opts.whitelist {
-				if _, ok := found[v]; !ok {
-					missing = append(missing, v)
-				}
+		var missing []string
+		for _, v := range sw.opts.whitelist {
+			if _, ok := found[v]; !ok {
+				missing = append(missing, v)
 			}
+		}
+		if len(missing) > 0 {
 			return nil, errors.New("cannot find the following plugin(s): " + hutils.Join(missing...))
 		}
 	}
-- 
2.43.0


From ae6a3844d2c7e69d9c83fd62477b42aba3b6cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 05/18] fix: Plugin.Lookup must not panic on a static plugin

A static plugin has no symbol table.
---
 plugin.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/plugin.go b/plugin.go
index 0a249f8..8223e11 100644
--- a/plugin.go
+++ b/plugin.go
@@ -82,6 +82,9 @@ func (pl *Plugin) Lookup(symName string, out interface{}) error {
 	if k := outVal.Type().Kind(); k != reflect.Ptr {
 		return fmt.Errorf("out must be a pointer. plugin: %s, symName: %s", pl.Name, symName)
 	}
+	if pl.P == nil {
+		return ErrNotExist
+	}
 	sym, err := pl.P.Lookup(symName)
 	if err != nil {
 		return ErrNotExist
-- 
2.43.0


From 592d4a801ec601bfb0bda11ee7a941dba0402de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 06/18] fix: fail when a directory is not inside any module

The search for go.mod never ended at the root directory.
---
 internal/hutils/hutils.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 1b87538..bdb94d2 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -76,8 +76,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	for absDir != "" {
 		f := filepath.Join(absDir, "go.mod")
 		if _, err := os.Stat(f); err != nil {
+			parent := filepath.Dir(absDir)
+			if parent == absDir {
+				break
+			}
 			a1 = append(a1, filepath.Base(absDir))
-			absDir = filepath.Dir(absDir)
+			absDir = parent
 			continue
 		}
 
-- 
2.43.0


From c88e1516afab813d23d4e12ff4539ce895d85371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:05 +0000
Subject: [PATCH 07/18] fix: do not crash when several files cannot be copied

Two workers failing at the same time could both close the abort channel,
which killed the process and left the temporary directory behind.
---
 cli/hotswap/cmd/build.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f7be0c4..aca35c6 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -791,13 +791,10 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	burst := runtime.NumCPU() * 5
 	chErr := make(chan error, burst)
 	abort := make(chan struct{})
+	var abortOnce sync.Once
 	reportErr := func(err error) {
 		chErr <- err
-		select {
-		case <-abort:
-		default:
-			close(abort)
-		}
+		abortOnce.Do(func() { close(abort) })
 	}
 
 	var wg sync.WaitGroup
-- 
2.43.0


From a312711eb0dff62c1d574a40d315894018096bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:07 +0000
Subject: [PATCH 08/18] fix: static generation must not remove the files of
 other plugins

A --staticLinking build removed every file whose name contained
hotswap.staticPluginInit.*.go from the output directory, so that only the
plugin generated last could be linked.
---
 cli/hotswap/cmd/build.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index aca35c6..870f75c 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -402,7 +402,7 @@ func (bc *buildCmdT) genStaticPlugin() {
 func findPluginInitFiles(args completePluginArgs) []string {
 	str1 := strings.ReplaceAll(hotswapStaticPluginInitFile, ".", `\.`)
 	str2 := strings.ReplaceAll(str1, "%s", ".+?")
-	rexName := regexp.MustCompile(str2)
+	rexName := regexp.MustCompile("^" + str2 + "$")
 
 	var a []string
 	_ = filepath.WalkDir(args.outputDir, func(path string, d fs.DirEntry, err error) error {
@@ -465,9 +465,14 @@ func removeStaticFiles(args completePluginArgs) {
 
 	pluginName := filepath.Base(args.pluginDir)
 	allInitFiles := findPluginInitFiles(args)
+	var removedInitFiles []string
 	for _, f := range allInitFiles {
-		if err := os.Remove(f); err != nil {
-			panic(err)
+		// The others belong to other plugins.
+		if filepath.Base(f) == fmt.Sprintf(hotswapStaticPluginInitFile, pluginName) {
+			if err := os.Remove(f); err != nil {
+				panic(err)
+			}
+			removedInitFiles = append(removedInitFiles, f)
 		}
 	}
 
@@ -489,11 +494,11 @@ func removeStaticFiles(args completePluginArgs) {
 		for _, f := range a {
 			fmt.Println("\t" + f)
 		}
-		if len(allInitFiles) > 0 {
+		if len(removedInitFiles) > 0 {
 			fmt.Println()
 			fmt.Println("Removed Files:")
 			fmt.Println(strings.Repeat("=", 30))
-			for _, f := range allInitFiles {
+			for _, f := range removedInitFiles {
 				fmt.Println("\t" + filepath.Base(f))
 			}
 		}
-- 
2.43.0


From 60dd74f67d18bba590b20defebc486fb9b9dfe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:23 +0000
Subject: [PATCH 09/18] fix: change nothing but the package clause to package
 main

Every line of a root-package file that began with "package" was rewritten,
also within comments and raw strings, while a package clause that did not
begin its line was not, and what followed it without a space was lost.
---
 cli/hotswap/cmd/build.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 870f75c..f002a1c 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -767,7 +767,6 @@ func (bc *buildCmdT) collectFiles() []string {
 }
 
 func (bc *buildCmdT) copyFiles(files []string) {
-	rexPkg := regexp.MustCompile(`(?m)^package\s+\S+`)
 	oldImportPath1 := []byte(`"` + bc.pluginPkgPath + `"`)
 	newImportPath1 := []byte(`"` + bc.tmpPkgPath + `"`)
 	oldImportPath2 := []byte(`"` + bc.pluginPkgPath + `/`)
@@ -779,7 +778,7 @@ func (bc *buildCmdT) copyFiles(files []string) {
 
 	replaceCode := func(rel string, data1 []byte) []byte {
 		if filepath.Dir(rel) == "." {
-			data1 = rexPkg.ReplaceAll(data1, []byte("package main"))
+			data1 = renamePackage(data1, "main")
 		}
 		data2 := bytes.ReplaceAll(data1, oldImportPath1, newImportPath1)
 		data3 := bytes.ReplaceAll(data2, oldImportPath2, newImportPath2)
@@ -847,6 +846,21 @@ func (bc *buildCmdT) copyFiles(files []string) {
 	}
 }
 
+// renamePackage replaces the name in the package clause and nothing else.
+func renamePackage(src []byte, pkgName string) []byte {
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", src, parser.PackageClauseOnly)
+	if err != nil {
+		return src // not a Go file, the go command will complain about it
+	}
+	pos := fset.File(file.Package).Offset(file.Name.Pos())
+	var buf bytes.Buffer
+	_, _ = buf.Write(src[:pos])
+	_, _ = buf.WriteString(pkgName)
+	_, _ = buf.Write(src[pos+len(file.Name.Name):])
+	return buf.Bytes()
+}
+
 type generatedFiles struct {
 	mu    sync.Mutex
 	files map[string]bool
-- 
2.43.0


From 422c503f24cbc201522f724185e5a4876b489861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 10/18] fix: derive a legal package name from any directory
 name

A directory without Go files whose name begins with a digit or is a keyword
gave package clauses such as "package 2023" and "package go".
---
 internal/hutils/hutils.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index bdb94d2..157666b 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -61,6 +61,9 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		if pkgName == "" {
 			return "", "", fmt.Errorf("failed to convert %s to a package name", dir)
 		}
+		if !token.IsIdentifier(pkgName) {
+			pkgName = "_" + pkgName // it begins with a digit or is a keyword
+		}
 	case 1:
 		for _, pkg := range pkgs {
 			if pkg.Name == "" {
-- 
2.43.0


From 9fde794584a2ac4b46f5184cec701e83880805c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:33 +0000
Subject: [PATCH 11/18] fix: ignore external test packages when naming a
 package

---
 internal/hutils/hutils.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index 157666b..f4d72d7 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"go/ast"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -45,6 +46,12 @@ func PackageFromDirectory(dir string) (string, string, error) {
 		return "", "", err
 	}
 
+	for name, pkg := range pkgs {
+		if isExternalTest(pkg) {
+			delete(pkgs, name)
+		}
+	}
+
 	var pkgName string
 	switch n := len(pkgs); n {
 	case 0:
@@ -114,6 +121,18 @@ func PackageFromDirectory(dir string) (string, string, error) {
 	return "", "", errors.New("cannot find go.mod")
 }
 
+func isExternalTest(pkg *ast.Package) bool {
+	if !strings.HasSuffix(pkg.Name, "_test") {
+		return false
+	}
+	for file := range pkg.Files {
+		if !strings.HasSuffix(file, "_test.go") {
+			return false
+		}
+	}
+	return true
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0


From 7997de0de7185227dcda312f770ac0f7b9d9c47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:52 +0000
Subject: [PATCH 12/18] fix: find no live functions in generated files

---
 cli/hotswap/cmd/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index f002a1c..61c0b70 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1027,6 +1027,7 @@ func completePlugin(args completePluginArgs) {
 	}
 
 	var cfg packages.Config
+	cfg.Fset = token.NewFileSet()
 	cfg.Mode = packages.NeedName | packages.NeedFiles | packages.NeedSyntax
 	pkgs, err := packages.Load(&cfg, args.tmpPkgPath+"/...")
 	if err != nil {
@@ -1058,6 +1059,11 @@ func completePlugin(args completePluginArgs) {
 		}
 		dir := filepath.Dir(pkg.GoFiles[0])
 		for _, synt := range pkg.Syntax {
+			if f := cfg.Fset.File(synt.Package); f != nil {
+				if _, ok := hotswapFiles[filepath.Base(f.Name())]; ok {
+					continue // left by a previous build
+				}
+			}
 			for _, decl := range synt.Decls {
 				if funcDecl, ok := decl.(*ast.FuncDecl); ok {
 					if funcDecl.Recv != nil {
-- 
2.43.0


From 72e69501b451fdf5f80e22b22bd94a18c0d5312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:07 +0000
Subject: [PATCH 13/18] fix: reject every output directory inside the plugin's
 when linking statically

---
 cli/hotswap/cmd/build.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 61c0b70..8e04cae 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -217,7 +217,7 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		if bc.outputDir == bc.pluginDir {
 			panic("<pluginDir> and <outputDir> must not be identical")
 		}
-		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && !strings.HasPrefix(rel, "..") {
+		if rel, err := filepath.Rel(bc.pluginDir, bc.outputDir); err == nil && rel != ".." && !strings.HasPrefix(rel, ".."+string(filepath.Separator)) {
 			panic("<outputDir> must not be a subdirectory of <pluginDir>")
 		}
 	}
-- 
2.43.0


From 64c2b81e46d70d3cd22947977027b143e6e0d996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 14/18] fix: an interrupted build must fail and leave no
 temporary directory

---
 cli/hotswap/cmd/build.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 8e04cae..0f5c883 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -3,6 +3,7 @@ package cmd
 import (
 	"bytes"
 	_ "embed"
+	"errors"
 	"fmt"
 	"go/ast"
 	"go/parser"
@@ -64,6 +65,7 @@ var (
 
 var (
 	interruptProgram = make(chan struct{})
+	errInterrupted   = errors.New("interrupted")
 
 	timing struct {
 		copyFilesStart       time.Time
@@ -272,8 +274,10 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		select {
 		case x := <-chSignal:
 			signal.Reset(sigs...)
-			if x == syscall.SIGINT {
+			if x != syscall.SIGQUIT {
 				close(interruptProgram)
+			}
+			if x == syscall.SIGINT {
 				go func() {
 					time.Sleep(time.Second)
 					fmt.Println("\nPress Ctrl-C again to terminate the program immediately.")
@@ -288,6 +292,7 @@ func (bc *buildCmdT) execute(cmd *cobra.Command, args []string) {
 		default:
 		}
 		<-done
+		bc.removeTmpDir() // again, it may have been created after the interruption
 	}()
 
 	var outputFile string
@@ -675,6 +680,11 @@ func (bc *buildCmdT) buildPlugin() string {
 	timing.copyFiles = time.Since(timing.copyFilesStart)
 
 	completePlugin(buildCompletePluginArgs(bc, false, false, nil))
+	select {
+	case <-interruptProgram:
+		panic(errInterrupted)
+	default:
+	}
 
 	outputFileName := filepath.Base(bc.pluginDir) + hutils.FileNameExt
 	outputFile := filepath.Join(bc.outputDir, outputFileName)
@@ -1054,7 +1064,7 @@ func completePlugin(args completePluginArgs) {
 		}
 		select {
 		case <-interruptProgram:
-			return
+			panic(errInterrupted)
 		default:
 		}
 		dir := filepath.Dir(pkg.GoFiles[0])
@@ -1156,7 +1166,7 @@ func completePlugin(args completePluginArgs) {
 	for k, pkg := range livePackages {
 		select {
 		case <-interruptProgram:
-			return
+			panic(errInterrupted)
 		default:
 		}
 		genHotswapLive(args, k, pkg, liveFuncs[k], liveTypes[k], &generated)
-- 
2.43.0


From e07051cad522fcfa4b28a13ab330187e531b118d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 15/18] fix: a package of files that the go command ignores is
 no package of the plugin

PackageFromDirectory failed (so building failed) for a plugin whose directory
also holds, say, a generator: a file of another package excluded by a
//go:build ignore line.
---
 internal/hutils/hutils.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/hutils/hutils.go b/internal/hutils/hutils.go
index f4d72d7..fd27bff 100644
--- a/internal/hutils/hutils.go
+++ b/internal/hutils/hutils.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"go/ast"
+	"go/build"
 	"go/parser"
 	"go/token"
 	"io/ioutil"
@@ -51,6 +52,13 @@ func PackageFromDirectory(dir string) (string, string, error) {
 			delete(pkgs, name)
 		}
 	}
+	if len(pkgs) > 1 {
+		for name, pkg := range pkgs {
+			if isIgnored(pkg) {
+				delete(pkgs, name)
+			}
+		}
+	}
 
 	var pkgName string
 	switch n := len(pkgs); n {
@@ -133,6 +141,17 @@ func isExternalTest(pkg *ast.Package) bool {
 	return true
 }
 
+// isIgnored tells whether the go command leaves out all the files of a package.
+func isIgnored(pkg *ast.Package) bool {
+	for file := range pkg.Files {
+		match, err := build.Default.MatchFile(filepath.Dir(file), filepath.Base(file))
+		if match || err != nil {
+			return false
+		}
+	}
+	return true
+}
+
 func Gofmt(file string) error {
 	cmd := exec.Command("gofmt", "-w", file)
 	cmd.Stdout = os.Stdout
-- 
2.43.0


From 59878201e9bac5d7c40b9f6ebeaa10acd32c19ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:54 +0000
Subject: [PATCH 16/18] fix: look for the required functions in the plugin's
 own package only

With --staticLinking a function of a file that the go command ignores was
taken for the plugin's, and code was generated that does not compile.
---
 cli/hotswap/cmd/build.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 0f5c883..55634e9 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -545,7 +545,11 @@ func parseRequiredPluginFuncs(pluginDir, pluginPkgName string) []pluginFunc {
 	if err != nil {
 		panic(err)
 	}
-	for _, pkg := range pkgs {
+	pkgName, _, err := hutils.PackageFromDirectory(pluginDir)
+	if err != nil {
+		panic(err)
+	}
+	if pkg := pkgs[pkgName]; pkg != nil {
 		for _, file := range pkg.Files {
 			for _, decl := range file.Decls {
 				funcDecl, ok := decl.(*ast.FuncDecl)
-- 
2.43.0


From 4db53eb7cb1bca70cc8705c5d6d88d4fd6bf549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:26 +0000
Subject: [PATCH 17/18] fix: ignore directory entries that are neither files
 nor links to files

A socket, a named pipe or a link to a directory whose name ended in .so made
every load fail or hang instead of being ignored.
---
 pluginManagerSwapper.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pluginManagerSwapper.go b/pluginManagerSwapper.go
index aef07c2..2aa61e8 100644
--- a/pluginManagerSwapper.go
+++ b/pluginManagerSwapper.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io/ioutil"
+	"os"
 	"path/filepath"
 	"runtime/debug"
 	"sort"
@@ -99,7 +100,7 @@ func (sw *PluginManagerSwapper) loadPluginsImpl(data interface{}, cbs []ReloadCa
 	var files []string
 	var found = make(map[string]struct{})
 	for _, fi := range a {
-		if fi.IsDir() {
+		if !isFile(absDir, fi) {
 			continue
 		}
 		if strings.HasSuffix(fi.Name(), hutils.FileNameExt) {
@@ -166,6 +167,19 @@ func (sw *PluginManagerSwapper) loadPluginFiles(files []string, data interface{}
 	return result, nil
 }
 
+// isFile tells whether a directory entry is a regular file or a symbolic link to one.
+func isFile(dir string, fi os.FileInfo) bool {
+	mode := fi.Mode()
+	if mode&os.ModeSymlink != 0 {
+		target, err := os.Stat(filepath.Join(dir, fi.Name()))
+		if err != nil {
+			return true // a broken link must not go unnoticed
+		}
+		mode = target.Mode()
+	}
+	return mode.IsRegular()
+}
+
 func invokeReloadCallbacks(cbs []ReloadCallback, newManager, oldManager *PluginManager) error {
 	for _, cb := range cbs {
 		if cb == nil {
-- 
2.43.0


From a5212be48db9192b88740b3d1b66b7d190bb5578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:24 +0000
Subject: [PATCH 18/18] fix: init functions and blank declarations are never
 live

Nothing can refer to them, so with a --livePrefix they happen to begin with
the generated code did not compile, or a second one counted as a duplicate.
---
 cli/hotswap/cmd/build.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cli/hotswap/cmd/build.go b/cli/hotswap/cmd/build.go
index 55634e9..d0e4fb2 100644
--- a/cli/hotswap/cmd/build.go
+++ b/cli/hotswap/cmd/build.go
@@ -1088,6 +1088,9 @@ func completePlugin(args completePluginArgs) {
 					if !strings.HasPrefix(funcNameLower, args.livePrefix) {
 						continue
 					}
+					if funcName == "_" || funcName == "init" {
+						continue // nothing can refer to it
+					}
 					if _, ok := liveNames[funcName]; ok {
 						printErrorMessage("duplicate live func/type name detected: " + funcName)
 						continue
@@ -1109,6 +1112,9 @@ func completePlugin(args completePluginArgs) {
 						if !strings.HasPrefix(typeNameLower, args.livePrefix) {
 							continue
 						}
+						if typeName == "_" {
+							continue // nothing can refer to it
+						}
 						if _, ok := typeSpec.Type.(*ast.StructType); !ok {
 							printErrorMessage(fmt.Sprintf("%s (a live type) must be a simple struct. package: %s",
 								typeName, pkg.PkgPath))
-- 
2.43.0

