H = '''package gotext

import "testing"

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))

PP = '''package parser

import (
	"strings"
	"testing"
)

var _ = strings.Contains

'''
CMD = '''package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Contains

func run(t *testing.T, files map[string]string, args ...string) (string, error) {
	d := t.TempDir()
	w, _ := os.Getwd()
	files["go.mod"] = "module zz.test/m\\n\\ngo 1.23\\n\\nrequire github.com/leonelquinteros/gotext v0.0.0\\nreplace github.com/leonelquinteros/gotext => " + filepath.Join(w, "..", "..") + "\\n"
	for n, s := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0o755)
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o644); err != nil { t.Fatal(err) }
	}
	x := filepath.Join(t.TempDir(), "xgotext")
	if b, err := exec.Command("go", "build", "-o", x, ".").CombinedOutput(); err != nil { t.Fatal(err, string(b)) }
	c := exec.Command(x, args...)
	c.Dir = d
	b, err := c.CombinedOutput()
	t.Log(string(b))
	return d, err
}

const src = "package m\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar X = gotext.Get(\\"in\\")\\n"

'''
bug("c32-tree-default", "C32", [("cli/xgotext/main.go", '''	data := &parser.DomainMap{
		Default: *defaultDomain,
	}

	if *pkgTree != "" {
''', '''	data := &parser.DomainMap{}
	if *excludeDirs != "" {
		data.Default = *defaultDomain
	}

	if *pkgTree != "" {
''')], '''
func TestZZDemo(t *testing.T) {
	d, err := run(t, map[string]string{"m.go": src}, "-in", ".", "-out", "o", "-default", "main", "-exclude", "")
	if err != nil { t.Fatal(err) }
	if _, err := os.Stat(filepath.Join(d, "o", "main.pot")); err != nil { t.Error(err) }
}
''', "nothing excluded and another default domain", "the default domain is called default", pkg="cli/xgotext", head=CMD)

bug("c32-two-excludes", "C32", [("cli/xgotext/main.go", '''strings.Split(*excludeDirs, ",")''', '''strings.SplitN(*excludeDirs, ",", 2)''')], '''
func TestZZDemo(t *testing.T) {
	d, err := run(t, map[string]string{"a/m.go": src, "b/m.go": src, "c/m.go": src, "d/m.go": strings.Replace(src, "(\\"in", "(\\"yes", 1)}, "-in", ".", "-out", "o", "-exclude", "a,b,c")
	if err != nil { t.Fatal(err) }
	b, err := os.ReadFile(filepath.Join(d, "o", "default.pot"))
	if err != nil || strings.Contains(string(b), "\\"in\\"") { t.Error(string(b), err) }
}
''', "three excluded directories", "the last two are taken for one name", pkg="cli/xgotext", head=CMD)

bug("c32-tree-error", "C32", [("cli/xgotext/main.go", '''		err := pkg_tree.ParsePkgTree(*pkgTree, data, *verbose)
		if err != nil {
			log.Fatal(err)
		}
''', '''		err := pkg_tree.ParsePkgTree(*pkgTree, data, *verbose)
		if err != nil && *verbose {
			log.Fatal(err)
		}
''')], '''
func TestZZDemo(t *testing.T) {
	_, err := run(t, map[string]string{"m.go": src}, "-pkg-tree", "nowhere", "-out", "o")
	if err == nil { t.Error("succeeds") }
}
''', "a package tree that is not there, without -v", "the command succeeds", pkg="cli/xgotext", head=CMD)

bug("c32-out-error", "C32", [("cli/xgotext/parser/domain.go", '''		err := domain.Save(filepath.Join(directory, name+".pot"))
		if err != nil {
			return fmt.Errorf("failed to save domain %s: %v", name, err)
		}
	}
	return nil''', '''		err = domain.Save(filepath.Join(directory, name+".pot"))
		if err != nil {
			err = fmt.Errorf("failed to save domain %s: %v", name, err)
		}
	}
	return err''')], '''
func TestZZDemo(t *testing.T) {
	bad := 0
	for i := 0; i < 40; i++ {
		d := t.TempDir()
		if err := os.MkdirAll(filepath.Join(d, "a.pot"), 0o755); err != nil { t.Fatal(err) }
		m := &parser.DomainMap{}
		m.AddTranslation("a", &parser.Translation{MsgID: "x"})
		m.AddTranslation("b", &parser.Translation{MsgID: "x"})
		if m.Save(d) == nil { bad++ }
	}
	if bad > 0 { t.Errorf("%d times without an error", bad) }
}
''', "one of two domains cannot be written, and the other is written after it", "the error is lost", pkg="cli/xgotext", head='''package main

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

''')

bug("c28-no-truncate", "C28", [("cli/xgotext/parser/domain.go", '''	file, err := os.Create(path)
''', '''	file, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE, 0o644)
''')], '''
func TestZZDemo(t *testing.T) {
	p := filepath.Join(t.TempDir(), "a.pot")
	d := &Domain{}
	d.AddTranslation(&Translation{MsgID: "first", SourceLocations: []string{"f:1"}})
	d.AddTranslation(&Translation{MsgID: "second", SourceLocations: []string{"f:1"}})
	if err := d.Save(p); err != nil { t.Fatal(err) }
	d = &Domain{}
	d.AddTranslation(&Translation{MsgID: "other", SourceLocations: []string{"f:1"}})
	if err := d.Save(p); err != nil { t.Fatal(err) }
	b, _ := os.ReadFile(p)
	if strings.Contains(string(b), "second") { t.Error(string(b)) }
}
''', "an older and longer file of the same name", "its end stays in the new file", pkg="cli/xgotext/parser", head='''package parser

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

''')

bug("c06-missing-rule", "C06", [("domain.go", '''				if _, ok := do.contextTranslations[ctx][str]; ok {
					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 {''', '''				if _, ok := do.contextTranslations[ctx][str]; ok {
					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
				}
			}
		}
	}

	// Parse plural forms to distinguish between plural and singular
	if n == 1 {''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=n>1;\\\\n\\"\\n"))
	if g := string(po.AppendNC(nil, "a", "b", 0, "c")); g != po.GetNC("a", "b", 0, "c") { t.Errorf("got %q", g) }
}
''', "no entry, and a rule that is not the Germanic one", "the wrong text is appended")

bug("c06-untranslated-form", "C06", [("domain.go", '''			return Appendf(b, do.translations[str].getN(do.pluralForm(n), plural), vars...)
		}
	}
''', '''			return Appendf(b, do.translations[str].GetN(do.pluralForm(n)), vars...)
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "x")
	if g := string(po.AppendN(nil, "a", "b", 2)); g != po.GetN("a", "b", 2) { t.Errorf("got %q", g) }
}
''', "an entry without plural looked up with one", "nothing is appended")

bug("c12-header-only", "C12", [("mo.go", '''	// Parse headers
	mo.domain.parseHeaders()
''', '''	// Parse headers
	if header.MsgIDCount > 1 {
		mo.domain.parseHeaders()
	}
''')], '''
func TestZZDemo(t *testing.T) {
	v := "Language: xx\\n"
	b := []byte{0xde, 0x12, 4, 0x95, 0, 0, 0, 0, 1, 0, 0, 0, 28, 0, 0, 0, 36, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
		0, 0, 0, 0, 44, 0, 0, 0, byte(len(v)), 0, 0, 0, 45, 0, 0, 0, 0}
	b = append(append(b, v...), 0)
	mo := NewMo()
	mo.Parse(b)
	if mo.Language != "xx" { t.Errorf("got %q", mo.Language) }
}
''', "a file that has only the header", "its language and rule are not known")

bug("c12-id-blank", "C12", [("mo.go", '''	translation.ID = string(msgid)
''', '''	translation.ID = string(bytes.TrimRight(msgid, "\\r\\n"))
''')], '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	mo.addTranslation([]byte("a\\n"), []byte("b\\n"))
	if g := mo.Get("a\\n"); g != "b\\n" { t.Errorf("got %q", g) }
}
''', "an id that ends with a line break", "it is not found")

bug("c23-blank-first", "C23", [("helper.go", '''	// en_US/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/...
	if idx''', '''	// en_US/en_US.UTF-8/zh_CN/zh_TW/el_GR@euro/...
	lang = strings.TrimSpace(lang)
	if idx'''), ("helper.go", '''	return strings.TrimSpace(lang)
}

// FormatString''', '''	return lang
}

// FormatString''')], '''
func TestZZDemo(t *testing.T) {
	if g := SimplifiedLocale("en_US :de"); g != "en_US" { t.Errorf("got %q", g) }
}
''', "a blank before the colon", "it stays")

bug("c23-newline", "C23", [("helper.go", '''	return strings.TrimSpace(lang)
}

// FormatString''', '''	return strings.Trim(lang, " \\t\\r\\n")
}

// FormatString''')], '''
func TestZZDemo(t *testing.T) {
	if g := SimplifiedLocale("en_US\\u00a0"); g != "en_US" { t.Errorf("got %q", g) }
}
''', "a blank outside ASCII", "it stays")

bug("c25-missing", "C25", [("helper.go", '''	for _, v := range n {
		p = append(p, params[v])
	}
	return f, p''', '''	for _, v := range n {
		if a, ok := params[v]; ok {
			p = append(p, a)
		}
	}
	return f, p''')], '''
func TestZZDemo(t *testing.T) {
	if g := Sprintf("%(a)v %(b)v", map[string]interface{}{"b": 1}); g != "<nil> 1" { t.Errorf("got %q", g) }
}
''', "a name without a parameter before one that has one", "the parameter goes to the wrong verb")

bug("c25-printf", "C25", [("helper.go", '''	f, p := parseSprintf(format, params)
	fmt.Printf(f, p...)''', '''	f, p := parseSprintf(format, params)
	if len(p) == 0 {
		f = strings.ReplaceAll(f, "%%", "%")
		fmt.Print(f)
		return
	}
	if len(p) > len(params) {
		p = p[:len(params)]
	}
	fmt.Printf(f, p...)''')], '''
func TestZZDemo(t *testing.T) {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil { t.Fatal(err) }
	os.Stdout = w
	NPrintf("%(a)d %(a)d", map[string]interface{}{"a": 1})
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	if string(b) != "1 1" { t.Errorf("got %q", b) }
}
''', "a parameter printed twice with NPrintf", "the second is missing", head='''package gotext

import (
	"io"
	"os"
	"testing"
)

''')

bug("c27-few-args", "C27", [("cli/xgotext/parser/gofile.go", '''	if len(args) <= def.MaxArgIndex() {
		return
	}
''', '''	if len(args) <= def.ID || len(args) <= def.Plural || len(args) < def.Context {
		return
	}
''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{Data: &DomainMap{}}
	s := func(v string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: v} }
	g.ParseGetter(gotextGetter["GetC"], []*ast.BasicLit{s(`"a"`)}, "f:1")
	if g.Data.Domains != nil { t.Errorf("collected") }
}
''', "a call of GetC with too few arguments", "a panic", pkg="cli/xgotext/parser", head='''package parser

import (
	"go/ast"
	"go/token"
	"testing"
)

''')

bug("c27-rune", "C27", [("cli/xgotext/parser/gofile.go", '''		if args[def.Context] == nil || args[def.Context].Kind != token.STRING {''', '''		if args[def.Context] == nil || args[def.Context].Value == "" {''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{Data: &DomainMap{}}
	s := func(v string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: v} }
	g.ParseGetter(gotextGetter["GetC"], []*ast.BasicLit{s(`"a"`), &ast.BasicLit{Kind: token.INT, Value: "1"}}, "f:1")
	if g.Data.Domains != nil { t.Errorf("collected") }
}
''', "a context that is a literal but no string", "the call is collected without its context", pkg="cli/xgotext/parser", head='''package parser

import (
	"go/ast"
	"go/token"
	"testing"
)

''')

D29 = '''package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

func visits(t *testing.T, exclude []string, dirs ...string) int {
	old := knownParser
	defer func() { knownParser = old }()
	n := 0
	knownParser = []ParseDirFunc{func(p, b string, d *parser.DomainMap) error { n++; return nil }}
	r := t.TempDir()
	for _, d := range dirs { os.MkdirAll(filepath.Join(r, d), 0755) }
	ParseDirRec(r, exclude, &parser.DomainMap{}, false)
	return n
}

'''
bug("c29-case", "C29", [("cli/xgotext/parser/dir/parser.go", '''				if subDir == d ||''', '''				if strings.EqualFold(subDir, d) ||''')], '''
func TestZZDemo(t *testing.T) {
	if n := visits(t, []string{"a"}, "A"); n != 2 { t.Errorf("%d directories", n) }
}
''', "a directory whose name differs from an excluded one by case", "it is left out", pkg="cli/xgotext/parser/dir", head=D29)

bug("c29-base", "C29", [("cli/xgotext/parser/dir/parser.go", '''				if subDir == d ||''', '''				if subDir == d || filepath.Base(subDir) == d && filepath.Base(filepath.Dir(subDir)) != "." ||''')], '''
func TestZZDemo(t *testing.T) {
	if n := visits(t, []string{"a"}, "b/a"); n != 3 { t.Errorf("%d directories", n) }
}
''', "a directory further down with the name of an excluded one", "it is left out", pkg="cli/xgotext/parser/dir", head=D29)

bug("c31-same-name", "C31", [("cli/xgotext/parser/pkg-tree/golang.go", '''		if _, ok := pkgCache[importedPkg.ID]; ok {
			continue
		}
''', '''		if _, ok := pkgCache[importedPkg.ID]; ok || importedPkg.Name != "" && importedPkg.Name == pkg.Name {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	g := map[string]*packages.Package{"g": {ID: "github.com/leonelquinteros/gotext"}}
	b := &packages.Package{ID: "v2/a", Name: "a", Imports: g}
	a := &packages.Package{ID: "v1/a", Name: "a", Imports: map[string]*packages.Package{"b": b}}
	if r := filterPkgs(a); len(r) != 1 { t.Errorf("%d packages", len(r)) }
}
''', "a package that imports another of the same name", "the other is left out", pkg="cli/xgotext/parser/pkg-tree", head='''package pkgtree

import (
	"testing"

	"golang.org/x/tools/go/packages"
)

''')

bug("c11-count-overflow", "C11", [("mo.go", '''	if int64(header.MsgIDCount)*8 > int64(len(buf)) {''', '''	if header.MsgIDCount*8 > uint32(len(buf)) {''')], '''
func TestZZDemo(t *testing.T) {
	b := []byte{0xde, 0x12, 4, 0x95, 0, 0, 0, 0, 1, 0, 0, 0x20, 28, 0, 0, 0, 28, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	NewMo().Parse(b)
	runtime.ReadMemStats(&y)
	if y.TotalAlloc-x.TotalAlloc > 1<<24 { t.Errorf("%d bytes", y.TotalAlloc-x.TotalAlloc) }
}
''', "a count whose size wraps around", "gigabytes are allocated", head='''package gotext

import (
	"runtime"
	"testing"
)

''')

bug("c13-form-gap", "C13", [("domain.go", '''			for _, i := range forms {
				buf''', '''			for k, i := range forms {
				if k > 0 && trans.Trs[i] == "" && i == forms[k-1]+1 {
					continue
				}
				buf''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"\\"\\n"))
	b, _ := po.MarshalText()
	q := NewPo()
	q.Parse(b)
	c, _ := q.MarshalText()
	if string(b) != string(c) || len(q.GetDomain().GetTranslations()["a"].Trs) != 2 { t.Errorf("got %s", b) }
}
''', "an entry with an empty form", "the form is not written")

bug("c26-refs-alias", "C26", [("domain.go", '''	for msgID, trans := range do.translations {
		newTrans := NewTranslation()
		newTrans.ID = trans.ID
		newTrans.PluralID = trans.PluralID
		newTrans.dirty = trans.dirty
		if len(trans.Refs) > 0 {
			newTrans.Refs = make([]string, len(trans.Refs))
			copy(newTrans.Refs, trans.Refs)
		}
''', '''	for msgID, trans := range do.translations {
		newTrans := NewTranslation()
		newTrans.ID = trans.ID
		newTrans.PluralID = trans.PluralID
		newTrans.dirty = trans.dirty
		newTrans.Refs = trans.Refs[:len(trans.Refs):len(trans.Refs)]
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetRefs("a", []string{"f:1"})
	po.GetDomain().GetTranslations()["a"].Refs[0] = "g:2"
	if g := po.GetRefs("a")[0]; g != "f:1" { t.Errorf("got %q", g) }
}
''', "a reference of a copy overwritten", "the catalogue changes")

bug("c17-named-cache", "C17", [("helper.go", '''func reformatSprintf(f string) (string, []string) {
	m :=''', '''var formats = map[string][][]string{}

func reformatSprintf(f string) (string, []string) {
	m, ok := formats[f]
	if !ok {
		m = re.FindAllStringSubmatch(f, -1)
		formats[f] = m
	}
	_ =''')], '''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for i := 0; i < 500; i++ { Sprintf("%(a)d", map[string]interface{}{"a": 1}) }
		close(done)
	}()
	for i := 0; i < 500; i++ { Sprintf("%(b)d", map[string]interface{}{"b": 1}) }
	<-done
}
''', "two goroutines formatting with named verbs", "a race on a cache", flags="-race")

bug("c17-simplified-cache", "C17", [("helper.go", '''func SimplifiedLocale(lang string) string {
''', '''func SimplifiedLocale(lang string) string {
	if lang == lastLocale[0] {
		return lastLocale[1]
	}
	simple := simplifiedLocale(lang)
	lastLocale = [2]string{lang, simple}
	return simple
}

var lastLocale [2]string

func simplifiedLocale(lang string) string {
''')], '''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() {
		for i := 0; i < 500; i++ { NewLocale("", "de") }
		close(done)
	}()
	for i := 0; i < 500; i++ { NewLocale("", "fr") }
	<-done
}
''', "two goroutines making locales", "a race on a cache", flags="-race")

bug("c18-locale-panic", "C18", [("locale.go", '''	l.RLock()
	defer l.RUnlock()

	if l.Domains != nil {
		if _, ok := l.Domains[dom]; ok {
			if l.Domains[dom] != nil {
				return l.Domains[dom].GetNC(str, plural, n, ctx, vars...)
			}
		}
	}
''', '''	l.RLock()
	tr, ok := l.Domains[dom]
	if ok && tr != nil {
		text := tr.GetNC(str, plural, n, ctx, vars...)
		l.RUnlock()
		return text
	}
	l.RUnlock()
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	po := NewPo()
	po.SetPluralResolver(func(int) int { panic("x") })
	l.AddTranslator("d", po)
	func() {
		defer func() { recover() }()
		l.GetNDC("d", "a", "b", 1, "c")
	}()
	if !l.TryLock() { t.Error("still locked") }
}
''', "a resolver that panics, below a locale", "the lock of the locale stays taken")

bug("c08-form-order", "C08", [("po.go", '''			po.domain.trBuffer.Trs[po.domain.strBuffer] += clean
''', '''			i := po.domain.strBuffer
			if i > 0 && i < len(po.domain.trBuffer.Trs)-1 {
				i = len(po.domain.trBuffer.Trs) - 1
			}
			po.domain.trBuffer.Trs[i] += clean
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[2] \\"z\\"\\nmsgstr[1] \\"\\"\\n\\"y\\"\\n"))
	if g := po.GetN("a", "b", 2); g != "y" { t.Errorf("got %q", g) }
}
''', "forms in another order, one continued", "the text goes to another form")

bug("c24-second-rule", "C24", [("domain.go", '''	do.PluralForms = do.Headers.Get(pluralFormsKey)
''', '''	if v := do.Headers.Values(pluralFormsKey); len(v) > 0 {
		do.PluralForms = v[len(v)-1]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=n>1;\\\\n\\"\\n\\"Plural-Forms: nplurals=2; plural=n!=1;\\\\n\\"\\n"))
	if po.PluralForms != po.Headers.Get("Plural-Forms") { t.Errorf("got %q", po.PluralForms) }
}
''', "two plural rules", "the second one takes effect")

bug("c15-context-empty", "C15", [("domain.go", '''	do.contextTranslations = obj.Contexts

''', '''	do.contextTranslations = obj.Contexts
	for ctx, trs := range do.contextTranslations {
		for id, tr := range trs {
			if tr.Trs[0] == "" && len(tr.Refs) == 0 {
				delete(trs, id)
			}
		}
		if len(trs) == 0 {
			delete(do.contextTranslations, ctx)
		}
	}

''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetNC("a", "b", "c", 2, "x")
	b, _ := po.MarshalBinary()
	q := NewPo()
	q.UnmarshalBinary(b)
	if g := q.GetNC("a", "b", 2, "c"); g != "x" { t.Errorf("got %q", g) }
}
''', "an entry in a context whose first form is empty", "it is lost")

bug("c16-nil-domain", "C16", [("locale.go", '''	l.defaultDomain = obj.DefaultDomain
''', '''	l.defaultDomain = obj.DefaultDomain
	if _, ok := obj.Domains[l.defaultDomain]; !ok && len(obj.Domains) == 1 {
		for k := range obj.Domains {
			l.defaultDomain = k
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	po := NewPo()
	po.Set("a", "x")
	l.AddTranslator("d", po)
	l.SetDomain("e")
	b, _ := l.MarshalBinary()
	m := NewLocale("", "")
	m.UnmarshalBinary(b)
	if g := m.GetDomain(); g != "e" { t.Errorf("got %q", g) }
}
''', "a default domain that is not loaded", "another one becomes the default")

bug("c22-stale-library", "C22", [("gotext.go", '''func SetLibrary(lib string) {
	globalConfig.Lock()
	globalConfig.library = lib
	globalConfig.Unlock()

	loadLocales(true)
}''', '''func SetLibrary(lib string) {
	globalConfig.Lock()
	same := strings.TrimSuffix(globalConfig.library, "/") == strings.TrimSuffix(lib, "/")
	globalConfig.library = lib
	globalConfig.Unlock()

	loadLocales(!same)
}''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	Configure(d, "xx", "d")
	os.MkdirAll(filepath.Join(d, "xx"), 0o755)
	os.WriteFile(filepath.Join(d, "xx", "d.po"), []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgstr \\"1\\"\\n"), 0o644)
	SetLibrary(d)
	Get("a")
	os.WriteFile(filepath.Join(d, "xx", "d.po"), []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgstr \\"2\\"\\n"), 0o644)
	SetLibrary(d)
	if g := Get("a"); g != "2" { t.Errorf("got %q", g) }
}
''', "the same library set again after its files changed", "the old files are used", head='''package gotext

import (
	"os"
	"path/filepath"
	"testing"
)

''')

bug("c02-deep", "C02", [("plurals/compiler.go", '''	if i == 0 {
		return math, errors.New("modulus by zero")
	}
	return mod{value: uint32(i)}, nil''', '''	if split.Right[0] == "0" {
		return math, errors.New("modulus by zero")
	}
	return mod{value: uint32(i)}, nil''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n%00==1")
	if err == nil { e.Eval(5) }
}
''', "a zero written with two digits", "a division by zero", pkg="plurals", head="package plurals\n\nimport \"testing\"\n\n")

bug("c21-untranslated-form", "C21", [("gotext.go", '''		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i <''', '''		if !locale.IsTranslatedNDC(dom, str, n, ctx) && !locale.IsTranslatedDC(dom, str, ctx) && i <''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewLocale("", "aa"), NewLocale("", "bb")
	p, q := NewPo(), NewPo()
	p.SetNC("a", "b", "c", 1, "one")
	q.SetNC("a", "b", "c", 2, "zwei")
	a.AddTranslator("d", p)
	b.AddTranslator("d", q)
	SetLocales([]*Locale{a, b})
	if g := GetNDC("d", "a", "b", 2, "c"); g != "zwei" { t.Errorf("got %q", g) }
}
''', "the first language has another form of the text in the context", "its fallback is returned")

bug("c19-empty-file", "C19", [("locale.go", '''	_, err := os.Stat(filename)
	return err == nil''', '''	info, err := os.Stat(filename)
	return err == nil && info.Size() > 0''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(filepath.Join(d, "en_US"), 0o755)
	os.MkdirAll(filepath.Join(d, "en"), 0o755)
	os.WriteFile(filepath.Join(d, "en_US", "d.po"), nil, 0o644)
	os.WriteFile(filepath.Join(d, "en", "d.po"), []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgstr \\"1\\"\\n"), 0o644)
	l := NewLocale(d, "en_US")
	l.AddDomain("d")
	if g := l.Get("a"); g != "a" { t.Errorf("got %q", g) }
}
''', "an empty file before another one", "the other one is loaded", head='''package gotext

import (
	"os"
	"path/filepath"
	"testing"
)

''')
