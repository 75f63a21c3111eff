package hx

import (
	"errors"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"strings"

	xg "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/cli/xgotext/parser/dir"
	pkgtree "github.com/leonelquinteros/gotext/cli/xgotext/parser/pkg-tree"
	"github.com/leonelquinteros/gotext/zzverif/sym"
	"github.com/leonelquinteros/gotext/zzverif/zzpackages"
)

const gotextPath = "github.com/leonelquinteros/gotext"

// what the extractor needs to know of gotext
const gotextSource = `package gotext
type Translator interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
}
type Po struct{}
func NewPo() *Po
func (*Po) Get(str string, vars ...interface{}) string
func (*Po) GetN(str, plural string, n int, vars ...interface{}) string
func (*Po) Set(id, str string)
type Locale struct{}
func NewLocale(p, l string) *Locale
func (*Locale) GetD(dom, str string, vars ...interface{}) string
func Get(str string, vars ...interface{}) string
func GetD(dom, str string, vars ...interface{}) string
func GetC(str, ctx string, vars ...interface{}) string
`

// source is one package of the tree to extract.
type pkgSource struct {
	path, dir string
	files     []string // texts
	imports   []string
	names     []string // of the files, a.go, b.go and so on when nil
}

// tree answers the extractor's questions for packages as the go command would.
type tree struct {
	root  string
	pkgs  []pkgSource
	asked int
}

func (t *tree) find(path string) *pkgSource {
	for i := range t.pkgs {
		if t.pkgs[i].path == path {
			return &t.pkgs[i]
		}
	}
	return nil
}

// check parses and type-checks a package and what it imports.
func (t *tree) check(path string, fset *token.FileSet, done map[string]*zzpackages.Package) *zzpackages.Package {
	if p := done[path]; p != nil {
		return p
	}
	s := t.find(path)
	if s == nil {
		return nil
	}
	p := &zzpackages.Package{ID: path, PkgPath: path, Fset: fset, Imports: map[string]*zzpackages.Package{}}
	done[path] = p
	deps := map[string]*types.Package{}
	for _, i := range s.imports {
		if d := t.check(i, fset, done); d != nil {
			p.Imports[i] = d
			deps[i] = d.Types
		}
	}
	for i, src := range s.files {
		name := string([]byte{byte('a' + i)}) + ".go"
		if s.names != nil {
			name = s.names[i]
		}
		f, err := parser.ParseFile(fset, t.root+"/"+s.dir+"/"+name, src, parser.AllErrors|parser.ParseComments)
		if err != nil {
			sym.Assert(false, "the sources parse: "+err.Error())
		}
		p.Syntax = append(p.Syntax, f)
		p.Name = f.Name.Name
	}
	p.TypesInfo = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer(deps), Error: func(error) {}}
	p.Types, _ = conf.Check(path, fset, p.Syntax, p.TypesInfo)
	return p
}

type importer map[string]*types.Package

func (m importer) Import(path string) (*types.Package, error) {
	if p := m[path]; p != nil {
		return p, nil
	}
	return nil, errors.New("no such package")
}

// Load gives the package in a directory, or the one with the path asked for.
func (t *tree) Load(cfg *zzpackages.Config, patterns ...string) ([]*zzpackages.Package, error) {
	fset := cfg.Fset
	if fset == nil {
		fset = token.NewFileSet()
	}
	t.asked++
	done := map[string]*zzpackages.Package{}
	if len(patterns) == 0 || patterns[0] == "." {
		for _, s := range t.pkgs {
			if cfg.Dir == t.root+"/"+s.dir {
				return []*zzpackages.Package{t.check(s.path, fset, done)}, nil
			}
		}
		return nil, errors.New("no Go files")
	}
	var out []*zzpackages.Package
	for _, x := range patterns {
		p := t.check(x, fset, done)
		if p == nil {
			p = &zzpackages.Package{ID: x, Errors: []zzpackages.Error{{Msg: "not found"}}}
		}
		out = append(out, p)
	}
	return out, nil
}

// srcOf writes a package with one call per line and tells what to collect.
type want struct {
	dom, id, plural, ctx string
	line                 int
	file                 string
}

// calls are statements on package x and its types; the functions of the source
// have parameters po, tr, l, s, m and q for receivers.
type stmt struct {
	text string // @ stands for the name of the package, # for a literal
	want want
}

var stmts = []stmt{
	{"@.Get(#)", want{"default", "#", "", "", 0, ""}},
	{"@.GetC(\"one\", #)", want{"default", "one", "", "#", 0, ""}},
	{"po.Get(#)", want{"default", "#", "", "", 0, ""}},
	{"tr.GetN(#, \"many\", 3)", want{"default", "#", "many", "", 0, ""}},
	{"@.NewLocale(\"p\", \"l\").GetD(\"dom\", #)", want{"dom", "#", "", "", 0, ""}},
	{"s.po.Get(#)", want{"default", "#", "", "", 0, ""}},
	{"(*po).Get(#)", want{"default", "#", "", "", 0, ""}},
	{"m[\"k\"].Get(#)", want{"default", "#", "", "", 0, ""}},
	{"q.Get(#)", want{"default", "#", "", "", 0, ""}},
	{"func() *@.Po { return po }().Get(#)", want{"default", "#", "", "", 0, ""}},
	{"println(@.Get(#))", want{"default", "#", "", "", 0, ""}},
	{"defer tr.Get(#)", want{"default", "#", "", "", 0, ""}},
	// nothing to collect
	{"other.Get(#)", want{}},
	{"(&local{}).Get(#)", want{}},
	{"po.Set(\"x\", #)", want{}},
	{"po.Get(#+\"x\")", want{}},
	{"_ = @.Get; f := local.Get; f(local{}, #)", want{}},
	{"(*@.Po).Get(po, #)", want{}},
}

const otherPath, otherSource = "example.org/other", "package other\nfunc Get(str string) string\ntype Po struct{}\nfunc (Po) Get(str string) string\n"

// fileOf gives the text of a file with the statements and what they collect.
func fileOf(pkg, gname string, extra []string, sts []int, lit, text string) (string, []want) {
	src := "package " + pkg + "\n"
	line := 2
	add := func(l string) { src += l + "\n"; line++ }
	imp := ""
	if gname != "gotext" {
		imp = gname + " "
	}
	add("import " + imp + "\"" + gotextPath + "\"")
	add("import \"" + otherPath + "\"")
	for _, e := range extra {
		add("import " + e)
	}
	add("type local struct{}; func (local) Get(string) string { return \"\" }")
	add("type T = " + gname + ".Po")
	add("var _ other.Po")
	add("func F(po *" + gname + ".Po, tr " + gname + ".Translator, s struct{ po *" + gname + ".Po }, m map[string]" + gname + ".Translator, q T) {")
	var ws []want
	for _, k := range sts {
		st := stmts[k]
		if st.want.dom != "" {
			w := st.want
			w.line = line
			w.id, w.ctx = sub(w.id, '#', text), sub(w.ctx, '#', text)
			ws = append(ws, w)
		}
		add("\t" + sub(sub(st.text, '@', gname), '#', lit))
	}
	add("}")
	return src, ws
}

func sub(s string, c byte, by string) string {
	out := ""
	for i := 0; i < len(s); i++ {
		if s[i] == c {
			out += by
		} else {
			out += s[i : i+1]
		}
	}
	return out
}

// collected checks that exactly the wanted texts are in the data.
func collected(data *xg.DomainMap, file string, ws []want) {
	n := 0
	for _, d := range data.Domains {
		n += len(d.Translations)
		for _, m := range d.ContextTranslations {
			n += len(m)
		}
	}
	sym.Assert(n == len(ws), "each call is collected, and nothing else")
	for _, w := range ws {
		d := data.Domains[w.dom]
		sym.Assert(d != nil, "a call is collected in its domain")
		var t *xg.Translation
		if w.ctx == "" {
			t = d.Translations[w.id]
		} else {
			for c, m := range d.ContextTranslations {
				if decode(c) == w.ctx {
					t = m[w.id]
				}
			}
		}
		sym.Assert(t != nil, "a call is collected under its context and id")
		sym.Assert(t.MsgID == w.id && t.MsgIDPlural == w.plural, "the id and the plural are those of the call")
		f := w.file
		if f == "" {
			f = file
		}
		sym.Assert(len(t.SourceLocations) == 1 && t.SourceLocations[0] == f+":"+itoa(w.line), "a call is collected once, with the place it is at")
	}
}

func itoa(n int) string {
	if n >= 10 {
		return itoa(n/10) + string([]byte{byte('0' + n%10)})
	}
	return string([]byte{byte('0' + n)})
}

// runs keeps the packages of one native run apart from those of the next.
var runs int

// Prepare makes the packages available to the extractor below root.
func Prepare(root string, pkgs ...[3]string) {
	t := &tree{root: root, pkgs: []pkgSource{{path: gotextPath, dir: "../gotext", files: []string{gotextSource}}}}
	for _, p := range pkgs {
		s := pkgSource{path: p[0], dir: p[1], files: []string{p[2]}, imports: []string{gotextPath}}
		for _, q := range pkgs {
			if strings.Contains(p[2], "\""+q[0]+"\"") {
				s.imports = append(s.imports, q[0])
			}
		}
		t.pkgs = append(t.pkgs, s)
	}
	zzpackages.Loader = t.Load
}

// extractTree runs one of the two modes over the packages, the first being the root.
func extractTree(mode int, data *xg.DomainMap, pkgs []pkgSource) error {
	t := &tree{pkgs: append([]pkgSource{{path: gotextPath, dir: "../gotext", files: []string{gotextSource}}, {path: otherPath, dir: "../other", files: []string{otherSource}}}, pkgs...)}
	zzpackages.Loader = t.Load
	if mode == 1 {
		wd, err := os.Getwd()
		sym.Assert(err == nil, "there is a working directory")
		t.root = wd
		return pkgtree.ParsePkgTree(wd+"/"+pkgs[0].dir, data, false)
	}
	t.root = sym.VfsRoot() + "/src"
	for _, p := range pkgs {
		sym.VfsMkdir(t.root + "/" + p.dir)
	}
	return dir.ParseDirRec(t.root, nil, data, false)
}

// C31_Calls: statements of every kind in a type-checked source, in both modes.
func C31_Calls() {
	mode := sym.Choose("mode", 2)
	k := sym.Choose("call", len(stmts))
	gname := []string{"gotext", "g"}[sym.Choose("name", 2)]
	c := sym.String("text", 1)
	sym.Assume(sym.And(sym.And(c[0] >= ' ', c[0] < 0x7f), sym.And(c[0] != '"', c[0] != '\\')))
	src, ws := fileOf("p", gname, nil, []int{k}, "\""+c+"t\"", c+"t")
	data := &xg.DomainMap{}
	err := extractTree(mode, data, []pkgSource{{path: "example.org/p", dir: "p", imports: []string{gotextPath, otherPath}, files: []string{src}}})
	sym.Assert(err == nil, "the tree is extracted")
	collected(data, "p/a.go", ws)
	sym.Reach("end")
}

// C31_Names: imports whose names equal that of the package or of gotext, in
// either file of a package.
func C31_Names() {
	mode := sym.Choose("mode", 2)
	pkg := []string{"p", "other", "gotext", "x"}[sym.Choose("package", 4)]
	runs++
	base := "example.org/r" + itoa(runs)
	// another package, of a name that may be in use already
	k := sym.Choose("imported", 4)
	exName := []string{"x", "p", "gotext", "missing"}[k]
	exPath := base + "/lib/" + exName
	as := []string{"", "y ", "_ ", "gotext "}[sym.Choose("as", 4)]
	var files []string
	var ws []want
	imports := []string{gotextPath, otherPath, exPath}
	for i := 0; i < 2; i++ {
		gname := []string{"gotext", "g"}[sym.Choose("name", 2)]
		// two imports of one file have different names
		sym.Assume(!(gname == "gotext" && (as == "gotext " || as == "" && exName == "gotext")))
		kinds := []int{0, 2, 8, 12}
		if i == 1 {
			kinds = []int{3, 4, 13}
		}
		src, w := fileOf(pkg, gname, []string{as + "\"" + exPath + "\""}, kinds, "\"t"+itoa(i)+"\"", "t"+itoa(i))
		if i == 1 {
			// the second file declares other names
			src = sub(src, 'F', "G")
			src = renameLocal(src)
		}
		for _, x := range w {
			x.file = "p/" + string([]byte{byte('a' + i)}) + ".go"
			ws = append(ws, x)
		}
		files = append(files, src)
	}
	// the three calls of the first file have the same id
	pkgs := []pkgSource{{path: base + "/p", dir: "p", imports: imports, files: files}}
	if k < 3 {
		pkgs = append(pkgs, pkgSource{path: exPath, dir: "lib", files: []string{"package " + exName + "\ntype Po struct{}\nfunc (Po) Get(str string) string\nfunc Get(str string) string\n"}})
	}
	data := &xg.DomainMap{}
	err := extractTree(mode, data, pkgs)
	sym.Assert(err == nil, "the tree is extracted")
	places(data, ws)
	sym.Reach("end")
}

// renameLocal gives the type declarations of a second file other names.
func renameLocal(src string) string {
	out := ""
	for i := 0; i < len(src); i++ {
		if i+5 <= len(src) && src[i:i+5] == "local" {
			out += "local2"
			i += 4
			continue
		}
		if i+7 <= len(src) && src[i:i+7] == "type T " {
			out += "type T2 "
			i += 6
			continue
		}
		if i+3 <= len(src) && src[i:i+3] == "q T" {
			out += "q T2"
			i += 2
			continue
		}
		out += src[i : i+1]
	}
	return out
}

// places checks that every text has exactly the places of its calls.
func places(data *xg.DomainMap, ws []want) {
	n := 0
	for _, d := range data.Domains {
		sym.Assert(len(d.ContextTranslations) == 0, "no context is invented")
		for _, t := range d.Translations {
			n += len(t.SourceLocations)
		}
	}
	for _, w := range ws {
		d := data.Domains[w.dom]
		sym.Assert(d != nil && d.Translations[w.id] != nil, "every call is collected")
		k := 0
		for _, l := range d.Translations[w.id].SourceLocations {
			if l == w.file+":"+itoa(w.line) {
				k++
			}
		}
		sym.Assert(k == 1, "every call is collected once, with the place it is at")
	}
	sym.Assert(n == len(ws), "nothing else is collected")
}

// C31_Graph: packages that import each other, each with or without a call.
func C31_Graph() {
	n := 3 + sym.Tier()
	runs++
	base := "example.org/r" + itoa(runs) + "/"
	name := func(i int) string { return "p" + itoa(i) }
	edge := make([][]bool, n)
	uses := make([]bool, n)
	for i := range edge {
		edge[i] = make([]bool, n)
		for j := i + 1; j < n; j++ {
			edge[i][j] = sym.Choose("edge", 2) == 1
		}
		uses[i] = sym.Choose("uses", 2) == 1
	}
	reach := make([]bool, n)
	reach[0] = true
	for i := range edge {
		for j := range edge {
			reach[j] = reach[j] || reach[i] && edge[i][j]
		}
	}
	mode := sym.Choose("mode", 2)
	var pkgs []pkgSource
	var ws []want
	for i := range edge {
		p := pkgSource{path: base + name(i), dir: name(i)}
		src := "package " + name(i) + "\n"
		for j := range edge {
			if edge[i][j] {
				src += "import _ \"" + base + name(j) + "\"\n"
				p.imports = append(p.imports, base+name(j))
			}
		}
		if uses[i] {
			src += "import \"" + gotextPath + "\"\nfunc F() {\ngotext.Get(\"same\")\n}\n"
			p.imports = append(p.imports, gotextPath)
			line := 4
			for j := range edge {
				if edge[i][j] {
					line++
				}
			}
			if mode == 0 || reach[i] {
				ws = append(ws, want{dom: "default", id: "same", file: name(i) + "/a.go", line: line})
			}
		}
		p.files = []string{src}
		pkgs = append(pkgs, p)
	}
	data := &xg.DomainMap{}
	sym.MapOrder(mode == 1)
	err := extractTree(mode, data, pkgs)
	sym.MapOrder(false)
	sym.Assert(err == nil, "the tree is extracted")
	places(data, ws)
	sym.Reach("end")
}

// C31_Again: extracting a second time, from a tree that shares packages with the
// first, collects as much.
func C31_Again() {
	runs++
	base := "example.org/r" + itoa(runs) + "/"
	mode := sym.Choose("mode", 2)
	lib := pkgSource{path: base + "lib", dir: "lib", imports: []string{gotextPath}, files: []string{"package lib\nimport \"" + gotextPath + "\"\nfunc F() {\ngotext.Get(\"lib\")\n}\n"}}
	mk := func(nm string, uses bool) pkgSource {
		src := "package " + nm + "\nimport _ \"" + base + "lib\"\n"
		p := pkgSource{path: base + nm, dir: nm, imports: []string{base + "lib"}}
		if uses {
			src += "import \"" + gotextPath + "\"\nfunc F() {\ngotext.Get(\"" + nm + "\")\n}\n"
			p.imports = append(p.imports, gotextPath)
		}
		p.files = []string{src}
		return p
	}
	for i, nm := range []string{"one", []string{"one", "two"}[sym.Choose("second", 2)]} {
		uses := sym.Choose("uses", 2) == 1
		data := &xg.DomainMap{}
		err := extractTree(mode, data, []pkgSource{mk(nm, uses), lib})
		sym.Assert(err == nil, "the tree is extracted")
		ws := []want{{dom: "default", id: "lib", file: "lib/a.go", line: 4}}
		if uses {
			ws = append(ws, want{dom: "default", id: nm, file: nm + "/a.go", line: 5})
		}
		if mode == 0 && i == 1 && nm != "one" {
			// the directories of the first run are still there
			continue
		}
		places(data, ws)
	}
	sym.Reach("end")
}

// leads are what may stand at the top of a file.
var leads = []string{
	"",
	"// Code generated by x. DO NOT EDIT.\n\n",
	"//go:build !ignore\n\n",
	"/* a\n   licence */\n\n// Package p is\n// documented.\n",
	"//go:generate x\n\n//nolint\n",
	"\n\n\t",
}

// C31_Files: every file of a package is read, whatever stands at its top, the
// package's name and the file's.
func C31_Files() {
	mode := sym.Choose("mode", 2)
	vary := sym.Choose("vary", 4) // one of the four, the thorough tier all
	pick := func(k, n int) int {
		if vary == k || sym.Tier() == 1 && vary == 0 {
			return sym.Choose("pick", n)
		}
		return 0
	}
	pkg := []string{"p", "main", "internal", "p_test", "mock"}[pick(1, 5)]
	file := []string{"a.go", "main.go", "doc.go", "zz_generated.go", "a.pb.go", "mock_a.go", "a_linux.go", "A.GO.go"}[pick(2, 8)]
	lead := leads[pick(0, len(leads))]
	lines := 0
	for i := 0; i < len(lead); i++ {
		if lead[i] == '\n' {
			lines++
		}
	}
	mark := sym.String("text", 1)
	sym.Assume(sym.And(sym.And(mark[0] >= ' ', mark[0] < 0x7f), sym.And(mark[0] != '"', mark[0] != '\\')))
	one := lead + "package " + pkg + "\nimport \"" + gotextPath + "\"\nfunc F() { gotext.Get(\"" + mark + "1\") } // gotext.Get(\"no\")\n"
	two := "package " + pkg + "\nimport \"" + gotextPath + "\"\n/* gotext.Get(\"no\") */ var X = gotext.Get(\"" + mark + "2\")\n"
	dirn := []string{"p", "internal", "p/internal", "testdata", "_p"}[pick(3, 5)]
	p := pkgSource{path: "example.org/" + dirn, dir: dirn, imports: []string{gotextPath}, files: []string{one, two}, names: []string{file, "z.go"}}
	ws := []want{{dom: "default", id: mark + "1", file: dirn + "/" + file, line: lines + 3}, {dom: "default", id: mark + "2", file: dirn + "/z.go", line: 3}}
	if sym.Choose("order", 2) == 1 {
		p.files[0], p.files[1] = two, one
		p.names[0], p.names[1] = "z.go", file
	}
	data := &xg.DomainMap{}
	err := extractTree(mode, data, []pkgSource{p})
	sym.Assert(err == nil, "the tree is extracted")
	places(data, ws)
	sym.Reach("end")
}

// C31_Places: a call is collected wherever it stands in a file.
func C31_Places() {
	mode := sym.Choose("mode", 2)
	k := sym.Choose("place", len(spots))
	gname := []string{"gotext", "g"}[sym.Choose("name", 2)]
	c := sym.String("text", 1)
	sym.Assume(sym.And(sym.And(c[0] >= ' ', c[0] < 0x7f), sym.And(c[0] != '"', c[0] != '\\')))
	src := "package p\nimport " + gname + " \"" + gotextPath + "\"\n\ntype local struct{}\n// a comment\n" + sub(sub(spots[k], '@', gname), '#', "\""+c+"t\"") + "\n\nfunc last() { " + gname + ".Get(\"last\") }\n"
	ws := []want{{dom: "default", id: c + "t", file: "p/a.go", line: 6}, {dom: "default", id: "last", file: "p/a.go", line: 8}}
	for i := 0; i+5 < len(spots[k]); i++ {
		if spots[k][i:i+5] == "\"out\"" {
			ws = append(ws, want{dom: "default", id: "out", file: "p/a.go", line: 6})
		}
	}
	data := &xg.DomainMap{}
	err := extractTree(mode, data, []pkgSource{{path: "example.org/p", dir: "p", imports: []string{gotextPath}, files: []string{src}}})
	sym.Assert(err == nil, "the tree is extracted")
	places(data, ws)
	sym.Reach("end")
}

// spots are declarations with a call in them: @ is the package and # the text.
var spots = []string{
	"var X = @.Get(#)",
	"var X, Y = 1, @.Get(#)",
	"var ( X = @.Get(#) )",
	"func _() { @.Get(#) }",
	"func init() { @.Get(#) }",
	"func main() { @.Get(#) }",
	"func (local) M() string { return @.Get(#) }",
	"func (*local) Get(s string) string { return @.Get(#) }",
	"func Get(s string) string { return @.Get(#) }",
	"func G[T any](T) { @.Get(#) }",
	"var X = @.Get(\"out\", @.Get(#))",
	"var X = @.Get(@.Get(#))",
	"func f() { @.Get(\"out\", 1, func() string { return @.Get(#) }()) }",
	"var F = func() string { return @.Get(#) }",
	"var S = struct{ a string }{@.Get(#)}",
	"var S = map[string]int{@.Get(#): 1}",
	"var S = [...]string{2: @.Get(#)}",
	"var S = &struct{ a []string }{a: []string{@.Get(#)}}",
	"func f() { if @.Get(#) != \"\" { return } }",
	"func f() { if x := @.Get(#); x != \"\" { return } else { return } }",
	"func f() { if true { } else { @.Get(#) } }",
	"func f() { for x := @.Get(#); x == \"\"; { } }",
	"func f() { for range @.Get(#) { } }",
	"func f() { switch @.Get(#) { case \"a\": default: } }",
	"func f() { switch \"a\" { case \"b\", @.Get(#): } }",
	"func f() { switch { default: @.Get(#) } }",
	"func f(c chan string) { select { case c <- @.Get(#): default: } }",
	"func f(c chan string) { select { case <-c: default: { @.Get(#) } } }",
	"func f() { go func() { @.Get(#) }() }",
	"func f() { defer func() { recover(); @.Get(#) }() }",
	"func f() { go @.Get(#) }",
	"func f() (s string) { s = @.Get(#); return }",
	"func f() { x := @.Get(#)[1:]; _ = x }",
	"func f() { l: for { @.Get(#); break l } }",
	"func f(x interface{}) { switch x.(type) { case int: @.Get(#) } }",
	"func f() { _ = []byte(@.Get(#)) }",
	"func f() { _ = \"a\" + (@.Get(#)) + \"b\" }",
	"func f() { _ = len(@.Get(#)) * 2; return }",
	"func f() { panic(@.Get(#)) }",
	"func f(po *@.Po) { po.Get(po.Get(#)) }",
	"func f(po *@.Po) { func() *@.Po { @.Get(#); return po }().Get(\"out\") }",
	"func f() { var x = func(s ...string) {}; x(\"a\", @.Get(#)) }",
	"func f() { const a = 1; var b = @.Get(#); _ = b }",
	"type t struct { a [1]string }; var _ = t{a: [1]string{@.Get(#)}}",
}
