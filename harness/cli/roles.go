package cli

import (
	"go/ast"
	"go/parser"
	"go/token"
	"path"
	"strings"

	"github.com/edwingeng/hotswap/zzverif/sym"
)

var sevenTexts = map[string]string{
	"OnLoad":     "func OnLoad(data interface{}) error { return nil }\n",
	"OnInit":     "func OnInit(v interface{}) error { return nil }\n",
	"OnFree":     "func OnFree() {}\n",
	"Export":     "func Export() interface{} { return nil }\n",
	"Import":     "func Import() interface{} { return nil }\n",
	"InvokeFunc": "func InvokeFunc(name string, params ...interface{}) (interface{}, error) { return nil, nil }\n",
	"Reloadable": "func Reloadable() bool { return true }\n",
}

// the parameters of hotswap.NewPluginFuncs, in order
var roleOrder = []string{"Export", "HotswapLiveFuncs", "HotswapLiveTypes", "Import", "InvokeFunc", "OnFree", "OnInit", "OnLoad", "Reloadable"}

// Roles: each required function is defined somewhere or is missing.
func Roles() {
	w := newWorld()
	static := sym.Choice("static", 2) == 1
	k := sym.Choice("names", 4)
	pk := []string{"foo", "bar", "hotswap", "main"}[k]
	dir := []string{"foo", "Foo-1", "hotswap", "foo"}[k]
	w.plug = w.base + "/plugin/" + dir
	// at most two functions are not simply in main.go
	files := map[string]string{"main.go": "package " + pk + "\n", "second.go": "package " + pk + "\n\ntype zT struct{}\n",
		"x_test.go": "package " + pk + "\n", "sub/s.go": "package sub\n"}
	var odd [2]int
	odd[0] = sym.Choice("odd function", len(sevenFuncs))
	odd[1] = sym.Choice("other odd function", len(sevenFuncs))
	missing := map[string]bool{}
	for i, f := range sevenFuncs {
		at := 0
		for k, o := range odd {
			if o == i && (k == 0 || odd[0] != o) {
				if k == 0 {
					at = sym.Choice("place of the odd function", 9)
				} else {
					at = []int{1, 3, 4}[sym.Choice("place of the other", 3)]
				}
			}
		}
		text := sevenTexts[f]
		switch at {
		case 0:
			files["main.go"] += text
		case 1:
			files["second.go"] += text
		case 2: // only a test defines it
			files["x_test.go"] += text
		case 3: // only a method has the name
			files["second.go"] += strings.Replace(text, "func ", "func (zT) ", 1)
		case 4:
		case 5:
			files["second.go"] += "var " + f + " = 1\n"
		case 6: // another package has it
			files["sub/s.go"] += text
		case 7: // a method beside the function
			files["main.go"] += strings.Replace(text, "func ", "func (zT) ", 1) + text
		case 8: // only a program that is not part of the package has it
			files["gen.go"] = "//go:build ignore\n\npackage gen\n" + text
		}
		missing[f] = at >= 2 && at <= 6 || at == 8
	}
	bad := false
	for _, m := range missing {
		bad = bad || m
	}
	for _, f := range keys(files) {
		w.src(f, files[f])
	}
	rel := "plugin/" + dir
	var code int
	if static {
		code = w.build("--staticLinking", rel, "bin")
	} else {
		code = w.build(rel, "bin")
	}
	sym.Assert((code != 0) == bad, "C34:a missing required function makes it fail, and nothing else does")
	if code != 0 {
		sym.Cover("missing")
		for _, f := range sevenFuncs {
			sym.Assert(word(w.stderr, f) == missing[f], "C34:the missing functions are named")
		}
		sym.Assert(len(w.builds()) == 0, "C34:no plugin is built if a function is missing")
		return
	}
	if !static {
		sym.Cover("built")
		return
	}
	sym.Cover("generated")
	text, ok := tree(w.out)[w.out+"/hotswap.staticPluginInit."+dir+".go"]
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", text, 0)
	sym.Assert(ok && err == nil, "C34:the generated registration is well formed")
	if !ok || err != nil {
		return
	}
	// how the file calls the packages it imports
	var plug, hot string
	for _, s := range f.Imports {
		switch s.Path.Value[1 : len(s.Path.Value)-1] {
		case w.mod + "/plugin/" + dir:
			plug = pk
			if s.Name != nil {
				plug = s.Name.Name
			}
		case "github.com/edwingeng/hotswap":
			hot = "hotswap"
			if s.Name != nil {
				hot = s.Name.Name
			}
		}
	}
	sym.Assert(plug != "" && hot != "" && plug != hot && plug != "_" && plug != ".", "C34:the registration imports the plugin and hotswap under different names")
	calls := 0
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.KeyValueExpr:
			if id, ok := n.Key.(*ast.Ident); ok && id.Name == "Name" {
				if lit, ok := n.Value.(*ast.BasicLit); ok {
					sym.Assert(lit.Value == `"`+dir+`"`, "C34:the plugin is registered under its own name")
				}
			}
		case *ast.CallExpr:
			s, ok := n.Fun.(*ast.SelectorExpr)
			if !ok || s.Sel.Name != "NewPluginFuncs" {
				return true
			}
			if x, ok := s.X.(*ast.Ident); !ok || x.Name != hot {
				return true
			}
			calls++
			if len(n.Args) != len(roleOrder) {
				sym.Undecided("a registration of an unknown shape")
			}
			for i, a := range n.Args {
				as, ok := a.(*ast.SelectorExpr)
				if !ok {
					sym.Undecided("a registration of an unknown shape")
				}
				q, ok := as.X.(*ast.Ident)
				if !ok {
					sym.Undecided("a registration of an unknown shape")
				}
				sym.Assert(q.Name == plug && as.Sel.Name == roleOrder[i], "C34:every function is passed in its own position")
			}
		}
		return true
	})
	if calls != 1 {
		sym.Undecided("a registration of an unknown shape") // package gen runs it
	}
	sym.Assert(f.Name.Name == path.Base(w.out), "C34:the registration belongs to the package of the output directory")
}

// word tells whether s has the word f.
func word(s, f string) bool {
	for {
		i := strings.Index(s, f)
		if i < 0 {
			return false
		}
		e := i + len(f)
		if (i == 0 || !letter(s[i-1])) && (e == len(s) || !letter(s[e])) {
			return true
		}
		s = s[e:]
	}
}

func letter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' }
