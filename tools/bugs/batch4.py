H = '''package gotext

import "testing"

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))

bug("c03-eot", "C03", [("domain.go", '''	// Return the same we received by default
	return FormatString(str, vars...)
}

// Append retrieves''', '''	// An id may carry its context in front, as the files have it
	if i := strings.IndexByte(str, 4); i > 0 {
		if tr, ok := do.contextTranslations[str[:i]][str[i+1:]]; ok {
			return FormatString(tr.Get(), vars...)
		}
	}

	// Return the same we received by default
	return FormatString(str, vars...)
}

// Append retrieves''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetC("a", "c", "A")
	if g := po.Get("c\\x04a"); g != "c\\x04a" { t.Errorf("got %q", g) }
}
''', "an id that holds the separator of MO files", "the id is looked up in a context")

bug("c04-negative", "C04", [("domain.go", '''		/* Use the Germanic plural rule.  */
		if n == 1 {''', '''		/* Use the Germanic plural rule.  */
		if n < 0 {
			n = -n
		}
		if n == 1 {''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	if g := po.GetN("one", "many", -1); g != "many" { t.Errorf("got %q", g) }
}
''', "a count of minus one", "the singular is selected")

bug("c05-no-verb", "C05", [("helper.go", '''	if len(vars) > 0 {
		return FormatStringWithArgs(str, vars)
	}
''', '''	if len(vars) > 0 && strings.Contains(str, "%") {
		return FormatStringWithArgs(str, vars)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if g := NewPo().Get("a", 1); g != "a%!(EXTRA int=1)" { t.Errorf("got %q", g) }
}
''', "arguments for a text that has no verbs", "the text is not formatted")

bug("c05-nil-arg", "C05", [("locale.go", '''	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 {
		return FormatString(str, vars...)
	}
	return FormatString(plural, vars...)
}

// GetTranslations returns''', '''	// No arguments, or none worth formatting
	if len(vars) == 1 && vars[0] == nil {
		vars = nil
	}

	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 {
		return FormatString(str, vars...)
	}
	return FormatString(plural, vars...)
}

// GetTranslations returns''')], '''
func TestZZDemo(t *testing.T) {
	if g := NewLocale("", "xx").GetNDC("d", "%v", "%v", 1, "c", nil); g != "<nil>" { t.Errorf("got %q", g) }
}
''', "a nil argument in a domain that is not loaded", "the text is not formatted")

bug("c07-empty-context", "C07", [("domain.go", '''	translations, ok := do.contextTranslations[ctx]
	if !ok {
		return false
	}
	tr, ok := translations[str]''', '''	translations, ok := do.contextTranslations[ctx]
	if ctx == "" && !ok {
		translations, ok = do.translations, true
	}
	if !ok {
		return false
	}
	tr, ok := translations[str]''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetN("a", "as", 1, "A")
	if po.IsTranslatedNC("a", 1, "") != (po.GetNC("a", "as", 1, "") != "a") { t.Error("IsTranslatedNC is wrong") }
}
''', "the empty context, asked with a count", "a text without a context is reported")

bug("c07-actual-language", "C07", [("locale.go", '''	translator, ok := l.Domains[dom]
	if !ok {
		return false
	}
	return translator.GetDomain().IsTranslatedNC(str, n, ctx)''', '''	translator, ok := l.Domains[dom]
	if !ok {
		return false
	}
	if n == 1 {
		return translator.GetDomain().IsTranslatedC(str, ctx)
	}
	return translator.GetDomain().IsTranslatedNC(str, n, ctx)''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=n==1;\\\\n\\"\\n\\nmsgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"\\"\\n"))
	l := NewLocale("", "xx")
	l.AddTranslator("d", po)
	if l.IsTranslatedNC("a", 1, "c") { t.Error("reported") }
}
''', "a rule that gives one another form than the first", "the wrong form is asked")

bug("c09-lone-quote", "C09", [("po.go", '''	clean, _ := strconv.Unquote(l)

	switch state {''', '''	clean, err := strconv.Unquote(l)
	if err != nil {
		// Keep what is not well escaped as it is
		clean = l[1 : len(l)-1]
	}

	switch state {''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgstr \\"\\"\\n\\"\\n"))
	po.Get("a")
}
''', "a line that is one quotation mark", "reading crashes")

bug("c09-index", "C09", [("po.go", '''		if err != nil || i < 0 {
			// Skip wrong index formatting
			return
		}
''', '''		if err != nil || i < 0 {
			// Skip wrong index formatting
			return
		}
		if i > po.domain.nplurals && po.domain.nplurals > 0 {
			// More forms than there are: the entry is broken
			po.domain.trBuffer = NewTranslation()
			return
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=1; plural=0;\\\\n\\"\\n\\n"))
	po.Parse([]byte("msgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[7] \\"X\\"\\n"))
	if g := po.GetN("a", "as", 3); g != "A" { t.Errorf("got %q", g) }
}
''', "a second file, with a form beyond the number in the header of the first", "the entry is lost")

bug("c10-last-string", "C10", [("mo.go", '''		if msgIDEnd > int64(len(buf)) || msgStrEnd > int64(len(buf)) {''', '''		if msgIDEnd > int64(len(buf)) || msgStrEnd > int64(len(buf)) || msgIDStart[i] >= msgStrStart[i] && msgStrLen[i] > msgIDStart[i]-msgStrStart[i] {''')], '''
func TestZZDemo(t *testing.T) {
	le := func(x int) string { return string([]byte{byte(x), 0, 0, 0}) }
	// the translation shares the bytes of the id
	b := "\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00" + le(1) + le(28) + le(36) + le(0) + le(44) + le(1) + le(46) + le(3) + le(44) + "AAa\\x00"
	mo := NewMo()
	mo.Parse([]byte(b))
	if g := mo.Get("a"); g != "AAa" { t.Errorf("got %q", g) }
}
''', "a file whose strings share their ends", "the entry is lost")

bug("c11-wrap", "C11", [("mo.go", '''		msgIDEnd := int64(msgIDStart[i]) + int64(msgIDLen[i])
		msgStrEnd := int64(msgStrStart[i]) + int64(msgStrLen[i])''', '''		msgIDEnd := int64(msgIDStart[i]) + int64(msgIDLen[i])
		msgStrEnd := int64(msgStrStart[i] + msgStrLen[i])''')], '''
func TestZZDemo(t *testing.T) {
	le := func(x int) string { return string([]byte{byte(x), 0, 0, 0}) }
	b := "\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00" + le(1) + le(28) + le(36) + le(0) + le(44) + le(1) + le(44) + "\\xff\\xff\\xff\\xff" + le(45) + "a\\x00"
	mo := NewMo()
	mo.Parse([]byte(b))
	mo.Get("a")
}
''', "a length that wraps around with the offset", "reading crashes")

bug("c11-two-tables", "C11", [("mo.go", '''	if int64(header.MsgIDCount)*8 > int64(len(buf)) {''', '''	if int64(header.MsgIDCount)*8 > int64(len(buf)) && header.HashSize > 0 || header.MsgIDCount > 1<<28 {''')], '''
func TestZZDemo(t *testing.T) {
	b := "\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00" + "\\x00\\x00\\x00\\x08" + "\\x1c\\x00\\x00\\x00" + "\\x1c\\x00\\x00\\x00" + "\\x00\\x00\\x00\\x00" + "\\x1c\\x00\\x00\\x00"
	mo := NewMo()
	n := testing.AllocsPerRun(1, func() {})
	_ = n
	r := testing.Benchmark(func(b2 *testing.B) { for i := 0; i < b2.N; i++ { mo.Parse([]byte(b)) }; b2.ReportAllocs() })
	if r.AllocedBytesPerOp() > 1<<20 { t.Errorf("%d bytes", r.AllocedBytesPerOp()) }
}
''', "a count of 128 million in a file without a hash table", "a gigabyte is allocated")

bug("c13-cr", "C13", [("domain.go", '''	s = strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`).Replace(s)
''', '''	s = strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`, "\\r\\n", "\\n").Replace(s)
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "x\\r\\ny")
	b, _ := po.MarshalText()
	q := NewPo()
	q.Parse(b)
	if g := q.Get("a"); g != "x\\r\\ny" { t.Errorf("got %q", g) }
}
''', "a text with a carriage return before a line feed", "the carriage return is lost")

bug("c14-ref-line", "C14", [("domain.go", '''		line, _ = strconv.Atoi(ref[colonIdx+1:])
''', '''		line, _ = strconv.Atoi(ref[colonIdx+1:])
		if line > 1<<16 {
			line = 1 << 16
		}
''')], '''
import "strings"

func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "A")
	po.SetRefs("a", []string{"f.go:70001"})
	po.Set("b", "B")
	po.SetRefs("b", []string{"f.go:70000"})
	b, _ := po.MarshalText()
	if s := string(b); strings.Index(s, "70001") < strings.Index(s, "70000") { t.Error(s) }
}
'''.replace('import "strings"\n', ''), "references beyond line 65536", "entries are ordered by their ids",
    head='package gotext\n\nimport (\n\t"strings"\n\t"testing"\n)\n')

bug("c15-kept-rule", "C15", [("domain.go", '''	do.pluralforms = nil
	if expr, err''', '''	if do.plural != "" {
		do.pluralforms = nil
	}
	if expr, err''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetN("a", "as", 1, "A")
	po.SetN("a", "as", 2, "B")
	b, _ := po.MarshalBinary()
	q := NewPo()
	q.Parse([]byte("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=1; plural=0;\\\\n\\"\\n"))
	q.UnmarshalBinary(b)
	if g := q.GetN("a", "as", 5); g != "B" { t.Errorf("got %q", g) }
}
''', "decoding a catalogue without a rule into one that has a rule", "the old rule stays")

bug("c19-last-separator", "C19", [("locale.go", '''strings.IndexAny(l.lang, "_-")''', '''strings.LastIndexAny(l.lang, "_-")''')], '''
import ()

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(d+"/zh", 0o755)
	os.WriteFile(d+"/zh/d.po", []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"), 0o644)
	l := NewLocale(d, "zh-Hant_TW")
	l.AddDomain("d")
	if g := l.GetD("d", "a"); g != "A" { t.Errorf("got %q", g) }
}
'''.replace("import ()\n", ""), "a language name with a script and a territory", "the base language is not found",
    head='package gotext\n\nimport (\n\t"os"\n\t"testing"\n)\n')

bug("c20-same-id", "C20", [("locale.go", '''		for msgID, trans := range translator.GetDomain().GetTranslations() {
			all[msgID] = trans
		}''', '''		for msgID, trans := range translator.GetDomain().GetTranslations() {
			if len(trans.Trs) == 0 && trans.PluralID == "" {
				continue
			}
			all[msgID] = trans
		}''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "xx")
	po := NewPo()
	po.SetRefs("a", []string{"f.go:1"})
	l.AddTranslator("d", po)
	if _, ok := l.GetTranslations()["a"]; !ok { t.Error("not listed") }
}
''', "an entry that has references only", "it is not listed")

bug("c21-nd-last", "C21", [("gotext.go", '''		if !locale.IsTranslatedND(dom, str, n) && i < (len(globalConfig.locales)-1) {''', '''		if !locale.IsTranslatedND(dom, str, n) && !(n == 0 && locale.IsTranslatedD(dom, str)) && i < (len(globalConfig.locales)-1) {''')], '''
func TestZZDemo(t *testing.T) {
	mk := func(lang, form string) *Locale {
		po := NewPo()
		po.SetN("a", "as", 1, lang)
		if form != "" { po.SetN("a", "as", 0, form) }
		l := NewLocale("", lang)
		l.AddTranslator("d", po)
		return l
	}
	SetLocales([]*Locale{mk("l1", ""), mk("l2", "two")})
	if g := GetN("a", "as", 0); g != "two" { t.Errorf("got %q", g) }
}
''', "a count of zero in a language that has the singular only", "the next language is not asked")

bug("c22-empty-language", "C22", [("gotext.go", '''	var languages []string
	for _, language := range strings.Split(lang, ":") {
		languages = append(languages, SimplifiedLocale(language))
	}
	globalConfig.languages = languages
	globalConfig.domain = dom
''', '''	var languages []string
	for _, language := range strings.Split(lang, ":") {
		if language = SimplifiedLocale(language); len(languages) > 0 && language == languages[len(languages)-1] {
			continue
		}
		languages = append(languages, language)
	}
	globalConfig.languages = languages
	globalConfig.domain = dom
''')], '''
func TestZZDemo(t *testing.T) {
	Configure("lib", "en.UTF-8:en", "d")
	if g := GetLanguages(); len(g) != 2 || len(GetLocales()) != 2 { t.Errorf("got %q", g) }
}
''', "two names in a row that simplify to the same", "one of them is lost")

bug("c24-colon", "C24", [("domain.go", '''		value := strings.TrimSpace(line[colonIdx+1:])
		do.Headers.Add(key, value)''', '''		value := strings.TrimSpace(line[colonIdx+1:])
		if old := do.Headers[key]; len(old) > 0 && old[len(old)-1] == value {
			continue
		}
		do.Headers.Add(key, value)''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"X: a\\\\n\\"\\n\\"X: a\\\\n\\"\\n"))
	if g := po.Headers.Values("X"); len(g) != 2 { t.Errorf("got %q", g) }
}
''', "a header twice with the same value", "one of them is lost")

bug("c25-zero-width", "C25", [("helper.go", '''	for n := 0; n < plen; n += 2 {
		out += f[pair[n]:pair[n+1]]
	}
''', '''	for n := 0; n < plen; n += 2 {
		s := f[pair[n]:pair[n+1]]
		if n > 0 && len(s) > 2 && s[0] == '0' && s[1] >= '0' && s[1] <= '9' {
			s = s[1:]
		}
		out += s
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if g := Sprintf("%(a)05d", map[string]interface{}{"a": 7}); g != "00007" { t.Errorf("got %q", g) }
}
''', "a width with a leading zero", "the number is not padded with zeros")

bug("c26-one-form", "C26", [("domain.go", '''			for k, v := range trans.Trs {
				newTrans.Trs[k] = v
			}

			if all[ctx] == nil {''', '''			if len(trans.Trs) == 0 {
				newTrans.Trs = trans.Trs
			}
			for k, v := range trans.Trs {
				newTrans.Trs[k] = v
			}

			if all[ctx] == nil {''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgctxt \\"c\\"\\nmsgid \\"a\\"\\n"))
	po.GetDomain().GetCtxTranslations()["c"]["a"].Trs[0] = "X"
	if g := po.GetC("a", "c"); g != "a" { t.Errorf("got %q", g) }
}
''', "an entry without any text, in a context", "changing the copy changes the catalogue")

bug("c27-raw-backslash", "C27", [("cli/xgotext/parser/gofile.go", '''	msgID, _ := strconv.Unquote(args[def.ID].Value)
''', '''	msgID, err := strconv.Unquote(args[def.ID].Value)
	if err == nil && args[def.ID].Value[0] == '`' && len(msgID) > 1 && msgID[0] == '\\n' {
		// a raw string that begins on the next line
		msgID = msgID[1:]
	}
''')], '''
import (
	"go/ast"
	"go/parser"
	"go/token"
	"testing"

	"golang.org/x/tools/go/packages"
)

func TestZZDemo(t *testing.T) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "/b/f.go", "package p\\nfunc f() { gotext.Get(`\\nab`) }\\n", 0)
	if err != nil { t.Fatal(err) }
	g := &GoFile{FilePath: "/b/f.go", BasePath: "/b", Data: &DomainMap{}, FileSet: fset, ImportedPackages: map[string]*packages.Package{"gotext": {PkgPath: "github.com/leonelquinteros/gotext"}}}
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok { g.InspectCallExpr(c) }
		return true
	})
	if _, ok := g.Data.Domains["default"].Translations["\\nab"]; !ok { t.Error("not collected") }
}
''', "a raw string that begins with a line feed", "the line feed is lost", pkg="cli/xgotext/parser", head="package parser\n")

bug("c28-same-line", "C28", [("cli/xgotext/parser/domain.go", '''	locations := t.SourceLocations
	sort.Strings(locations)
	for _, location := range locations {
		data = append(data, "#: "+location)
	}
''', '''	locations := t.SourceLocations
	sort.Strings(locations)
	for i, location := range locations {
		if i > 0 && strings.HasPrefix(locations[i-1], location) {
			continue // said already
		}
		if i+1 < len(locations) && strings.HasPrefix(locations[i+1], location) {
			continue // the next one says it
		}
		data = append(data, "#: "+location)
	}
''')], '''
import (
	"strings"
	"testing"
)

func TestZZDemo(t *testing.T) {
	tr := &Translation{MsgID: "\\"a\\"", SourceLocations: []string{"f.go:1", "f.go:12"}}
	if s := tr.Dump(); !strings.Contains(s, "f.go:1\\n") { t.Error(s) }
}
''', "two calls in a file, at lines one of which begins like the other", "a location is lost", pkg="cli/xgotext/parser", head="package parser\n")

DIRH = '''package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

func tree(t *testing.T, files map[string]string) string {
	d := t.TempDir()
	files["go.mod"] = "module zz.test/m\\n\\ngo 1.23\\n\\nrequire github.com/leonelquinteros/gotext v0.0.0\\nreplace github.com/leonelquinteros/gotext => " + root(t) + "\\n"
	for n, s := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(d, n)), 0o755)
		if err := os.WriteFile(filepath.Join(d, n), []byte(s), 0o644); err != nil { t.Fatal(err) }
	}
	return d
}

func root(t *testing.T) string {
	w, err := os.Getwd()
	if err != nil { t.Fatal(err) }
	return filepath.Join(w, "..", "..", "..", "..")
}

'''
bug("c31-nested", "C31", [("cli/xgotext/parser/dir/golang.go", '''		g.InspectCallExpr(x)

	default:''', '''		g.InspectCallExpr(x)
		if s, ok := x.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Get" && len(x.Args) > 1 {
			return false
		}

	default:''')], '''
func TestZZDemo(t *testing.T) {
	d := tree(t, map[string]string{"m.go": "package m\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar X = gotext.Get(\\"out %s\\", gotext.Get(\\"in\\"))\\n"})
	data := &parser.DomainMap{}
	if err := ParseDirRec(d, nil, data, false); err != nil { t.Fatal(err) }
	if data.Domains["default"] == nil || data.Domains["default"].Translations["in"] == nil { t.Error("not collected") }
}
''', "a call as an argument of another", "the inner call is not collected", pkg="cli/xgotext/parser/dir", head=DIRH)

bug("c31-init", "C31", [("cli/xgotext/parser/pkg-tree/golang.go", '''	default:
		print()
	}
''', '''	case *ast.FuncDecl:
		// nothing runs in a function without a body, or one that is never called
		return x.Body != nil && x.Name.Name != "_"

	default:
		print()
	}
''')], '''
import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	w, _ := os.Getwd()
	os.WriteFile(filepath.Join(d, "go.mod"), []byte("module zz.test/m\\n\\ngo 1.23\\n\\nrequire github.com/leonelquinteros/gotext v0.0.0\\nreplace github.com/leonelquinteros/gotext => "+filepath.Join(w, "..", "..", "..", "..")+"\\n"), 0o644)
	os.WriteFile(filepath.Join(d, "m.go"), []byte("package m\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nfunc _() { gotext.Get(\\"in\\") }\\n"), 0o644)
	data := &parser.DomainMap{}
	if err := ParsePkgTree(d, data, false); err != nil { t.Fatal(err) }
	if data.Domains["default"] == nil || data.Domains["default"].Translations["in"] == nil { t.Error("not collected") }
}
''', "a call in a blank function", "it is not collected", pkg="cli/xgotext/parser/pkg-tree", head="package pkgtree\n")

bug("c17-refs-reuse", "C17", [("translation.go", '''	t.Refs = refs
	t.dirty = true''', '''	t.Refs = append(t.Refs[:0], refs...)
	t.dirty = true''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetRefs("a", []string{"f:1"})
	done := make(chan bool)
	go func() {
		for i := 0; i < 2000; i++ { po.SetRefs("a", []string{"g:2"}) }
		close(done)
	}()
	n := 0
	for i := 0; i < 2000; i++ {
		for _, r := range po.GetRefs("a") { n += len(r) }
	}
	<-done
}
''', "references read after they were got, while they are set", "a race on the list", flags="-race")

