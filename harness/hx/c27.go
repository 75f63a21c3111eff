package hx

import (
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"

	xg "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/zzverif/sym"
	"golang.org/x/tools/go/packages"
)

// getter describes where a getter has its arguments, as the documentation of
// the functions has it.
type getter struct {
	name                string
	dom, id, plural, cx int
	args                int
}

var getters = []getter{
	{"Get", -1, 0, -1, -1, 1},
	{"GetN", -1, 0, 1, -1, 3},
	{"GetD", 0, 1, -1, -1, 2},
	{"GetND", 0, 1, 2, -1, 4},
	{"GetC", -1, 0, -1, 1, 2},
	{"GetNC", -1, 0, 1, 3, 4},
	{"GetDC", 0, 1, -1, 2, 3},
	{"GetNDC", 0, 1, 2, 4, 5},
}

func lit(s string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: s} }

// text returns a literal and the text it stands for.
func text(nm string) (string, string) {
	switch sym.Choose(nm+".form", 4) {
	case 0:
		s := sym.String(nm, 1)
		sym.Assume(sym.And(sym.And(s[0] >= ' ', s[0] < 0x7f), sym.And(s[0] != '"', s[0] != '\\')))
		return `"` + s + `x"`, s + "x"
	case 1:
		s := sym.String(nm, 1)
		sym.Assume(sym.And(sym.Or(s[0] >= ' ', s[0] == '\n'), sym.And(s[0] < 0x7f, s[0] != '`')))
		return "`" + s + "y`", s + "y"
	case 2:
		return `"a\tb\"c\\d\x41\u00e9\n"`, "a\tb\"c\\dA\u00e9\n"
	}
	return `"` + nm + `"`, nm
}

// decode reads a PO string literal, as a context is kept.
func decode(s string) string {
	if len(s) < 2 || s[0] != '"' || s[len(s)-1] != '"' {
		return "\xff"
	}
	out := ""
	for i := 1; i < len(s)-1; i++ {
		c := s[i]
		if c == '\\' && i+1 < len(s)-1 {
			i++
			c = s[i]
			if c == 'n' {
				c = '\n'
			} else if c == 't' {
				c = '\t'
			}
		} else if c == '"' || c == '\n' {
			return "\xff"
		}
		out += string([]byte{c})
	}
	return out
}

// found checks that the collected data is exactly one translation.
func found(data *xg.DomainMap, dom, id, plural, ctx string, hasCtx bool, pos string) {
	sym.Assert(len(data.Domains) == 1 && data.Domains[dom] != nil, "the text is collected in its domain")
	d := data.Domains[dom]
	var t *xg.Translation
	n := 0
	for k, x := range d.Translations {
		sym.Assert(k == id, "the text is collected under its id")
		t = x
		n++
	}
	for _, m := range d.ContextTranslations {
		for k, x := range m {
			sym.Assert(k == id, "the text is collected under its id")
			t = x
			n++
			sym.Assert(hasCtx, "a text without a context is collected without one")
		}
	}
	sym.Assert(n == 1, "one call collects one text")
	sym.Observe("id", t.MsgID)
	sym.Observe("ctx", t.Context)
	sym.Assert(t.MsgID == id && t.MsgIDPlural == plural, "the id and the plural are those of the call")
	if hasCtx {
		sym.Assert(decode(t.Context) == ctx, "the context is that of the call")
	} else {
		sym.Assert(t.Context == "", "a text without a context is collected without one")
	}
	sym.Assert(len(t.SourceLocations) == 1 && t.SourceLocations[0] == pos, "the location is that of the call")
}

// C27_Literals: every getter, called with literals of any content.
func C27_Literals() {
	g := getters[sym.Choose("getter", len(getters))]
	data := &xg.DomainMap{Default: []string{"", "dflt"}[sym.Choose("default", 2)]}
	dom := data.Default
	if dom == "" {
		dom = "default"
	}
	args := make([]ast.Expr, g.args)
	for i := range args {
		args[i] = ast.NewIdent("n")
	}
	extra := sym.Choose("vars", 3)
	if extra > 0 {
		args = append(args, []ast.Expr{lit(`"var"`), ast.NewIdent("v")}[extra-1])
	}
	var id, pl, cx, l string
	l, id = text("id")
	args[g.id] = lit(l)
	if g.dom >= 0 {
		dom = "thedomain"
		args[g.dom] = lit(`"thedomain"`)
	}
	if g.plural >= 0 {
		l, pl = text("plural")
		args[g.plural] = lit(l)
	}
	if g.cx >= 0 {
		l, cx = text("ctx")
		args[g.cx] = lit(l)
	}
	call(data, types.NewPointer(gotextType("Locale")), g.name, args)
	found(data, dom, id, pl, cx, g.cx >= 0, "f.go:1")
	sym.Reach("end")
}

func gotextPkg() *types.Package {
	return types.NewPackage("github.com/leonelquinteros/gotext", "gotext")
}

func gotextType(name string) *types.Named {
	return types.NewNamed(types.NewTypeName(token.NoPos, gotextPkg(), name, nil), types.NewStruct(nil, nil), nil)
}

// call inspects recv.name(args) where recv has the given type.
func call(data *xg.DomainMap, recv types.Type, name string, args []ast.Expr) {
	fset := token.NewFileSet()
	f := fset.AddFile("/base/f.go", -1, 100)
	x := ast.NewIdent("x")
	x.NamePos = f.Pos(0)
	n := &ast.CallExpr{Fun: &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)}, Lparen: f.Pos(5), Args: args}
	g := &xg.GoFile{FilePath: "/base/f.go", BasePath: "/base", Data: data, FileSet: fset,
		ImportedPackages: map[string]*packages.Package{"p": {Name: "p", PkgPath: "example.org/p", TypesInfo: &types.Info{Types: map[ast.Expr]types.TypeAndValue{x: {Type: recv}}}}, "q": {Name: "q"}}}
	g.InspectCallExpr(n)
}

// C27_Args: any mixture of literal and other arguments, of any number.
func C27_Args() {
	g := getters[sym.Choose("getter", len(getters))]
	n := sym.Choose("args", 7)
	kinds := make([]int, n)
	args := make([]ast.Expr, n)
	for i := range args {
		switch i {
		case g.dom, g.id, g.plural, g.cx:
			kinds[i] = sym.Choose("kind", 4)
		default:
			kinds[i] = 1
		}
		switch kinds[i] {
		case 0:
			args[i] = lit(`"s` + string(rune('0'+i)) + `"`)
		case 1:
			args[i] = ast.NewIdent("v")
		case 2:
			args[i] = &ast.BasicLit{Kind: token.INT, Value: "12"}
		case 3:
			args[i] = &ast.BinaryExpr{X: lit(`"a"`), Op: token.ADD, Y: lit(`"b"`)}
		}
	}
	data := &xg.DomainMap{}
	call(data, gotextType("Po"), g.name, args)
	ok := true
	at := func(i int) string {
		if i < 0 {
			return ""
		}
		if i >= n || kinds[i] != 0 {
			ok = false
			return ""
		}
		return "s" + string(rune('0'+i))
	}
	dom, id, pl, cx := at(g.dom), at(g.id), at(g.plural), at(g.cx)
	if !ok {
		sym.Assert(len(data.Domains) == 0, "a call whose texts are not literals collects nothing")
		sym.Reach("ignored")
		return
	}
	if dom == "" {
		dom = "default"
	}
	found(data, dom, id, pl, cx, g.cx >= 0, "f.go:1")
	sym.Reach("collected")
}

// C27_Receivers: calls on the package and on its types are collected, calls
// of the same name on anything else are not.
func C27_Receivers() {
	other := types.NewPackage("example.org/other", "other")
	named := func(p *types.Package, nm string, under types.Type) types.Type {
		return types.NewNamed(types.NewTypeName(token.NoPos, p, nm, nil), under, nil)
	}
	method := func(p *types.Package) *types.Interface {
		i := types.NewInterfaceType([]*types.Func{types.NewFunc(token.NoPos, p, "Get", types.NewSignatureType(nil, nil, nil, nil, nil, false))}, nil)
		i.Complete()
		return i
	}
	alias := func(p *types.Package, t types.Type) types.Type {
		return types.NewAlias(types.NewTypeName(token.NoPos, p, "A", nil), t)
	}
	k := sym.Choose("receiver", 14)
	var t types.Type
	want := false
	switch k {
	case 0:
		t, want = gotextType("Locale"), true
	case 1:
		t, want = types.NewPointer(gotextType("Po")), true
	case 2:
		t, want = named(gotextPkg(), "Translator", method(gotextPkg())), true
	case 3:
		t, want = alias(other, types.NewPointer(gotextType("Mo"))), true
	case 4:
		t, want = types.NewPointer(alias(other, gotextType("Mo"))), true
	case 5:
		t, want = method(gotextPkg()), true
	case 6:
		t = named(other, "Locale", types.NewStruct(nil, nil))
	case 7:
		t = types.NewPointer(named(other, "Po", types.NewStruct(nil, nil)))
	case 8:
		t = method(other)
	case 9:
		t = types.Typ[types.String]
	case 10:
		t = named(nil, "error", method(nil))
	case 11:
		t = named(types.NewPackage("github.com/leonelquinteros/gotext/v2/x", "gotext"), "Locale", types.NewStruct(nil, nil))
	case 12:
		t = types.NewInterfaceType(nil, nil).Complete()
	case 13:
		t = alias(gotextPkg(), named(other, "Locale", types.NewStruct(nil, nil)))
	}
	data := &xg.DomainMap{}
	call(data, t, "Get", []ast.Expr{lit(`"id"`)})
	sym.Assert((len(data.Domains) == 1) == want, "exactly the calls on gotext types are collected")
	data = &xg.DomainMap{}
	call(data, t, []string{"Set", "GetX", "get", "GetTranslations", "Append"}[sym.Choose("method", 5)], []ast.Expr{lit(`"id"`), lit(`"b"`), lit(`"c"`), lit(`"d"`), lit(`"e"`)})
	sym.Assert(len(data.Domains) == 0, "other methods collect nothing")
	sym.Reach("end")
}

// C27_Source: calls in Go source, at any line, through any import name.
func C27_Source() {
	nl := sym.Choose("lines", 4)
	pad := "\n\n\n\n"[:nl]
	name := []string{"gotext", "g", "gettext"}[sym.Choose("import", 3)]
	used := []string{name, "other", "local"}[sym.Choose("used", 3)]
	body := sym.String("id", 2)
	for i := range body {
		sym.Assume(sym.And(sym.And(body[i] >= ' ', body[i] < 0x7f), sym.And(body[i] != '"', body[i] != '\\')))
	}
	src := "package p\nfunc f(local T) {\n" + pad + "\tGet(\"no\"); println(" + used + ".GetND(\"dom\",\n \"" + body + "\", \"pl\", 3))\n}\n"
	fset := token.NewFileSet()
	node, err := parser.ParseFile(fset, "/base/sub/p.go", src, 0)
	sym.Assert(err == nil, "the source parses")
	data := &xg.DomainMap{}
	g := &xg.GoFile{FilePath: "/base/sub/p.go", BasePath: "/base", Data: data, FileSet: fset,
		ImportedPackages: map[string]*packages.Package{
			name:    {Name: "gotext", PkgPath: "github.com/leonelquinteros/gotext"},
			"other": {Name: "other", PkgPath: "example.org/gotext"},
			"p":     {Name: "p", PkgPath: "example.org/p"},
		}}
	ast.Inspect(node, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok {
			g.InspectCallExpr(c)
		}
		return true
	})
	if used != name {
		sym.Assert(len(data.Domains) == 0, "calls on other packages and on local variables of other types are not collected")
		sym.Reach("ignored")
		return
	}
	found(data, "dom", body, "pl", "", false, "sub/p.go:"+string(rune('3'+nl)))
	sym.Reach("collected")
}
