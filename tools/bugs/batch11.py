_s = open('/verif/tools/bugs/batch10.py').read()
exec(_s[:_s.index('bug("c01-flipped-pipe"')])

bug("c01-million", "C01", [("domain.go", '''	return do.pluralforms.Eval(uint32(n))
''', '''	// Large numbers behave like their last digits
	if n > 1000000 {
		n = n%1000000 + 1000000
	}
	return do.pluralforms.Eval(uint32(n))
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"Plural-Forms: nplurals=2; plural=n%7==3 ? 1 : 0;\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\n")
	for _, n := range []int{3, 1000003, 2000005, 7000003} {
		want := "x"
		if n%7 == 3 { want = "y" }
		if s := po.GetN("a", "b", n); s != want { t.Error(n, s) }
	}
}
''', "a count above a million and a remainder that does not divide it", "another form is selected", head=FS)

bug("c01-eq-chain", "C01", [("plurals/compiler.go", '''	{op: "==", token: eqToken},
	{op: "!=", token: neqToken},
	{op: ">=", token: gteToken},
	{op: ">", token: gtToken},
''', '''	{op: "==", token: eqToken},
	{op: "!=", token: neqToken},
	{op: ">=", token: gtToken2},
	{op: ">", token: gtToken},
'''), ("plurals/compiler.go", '''var gteToken gteStruct
''', '''// n>=v is n>v-1
var gtToken2 gtStruct2

type gtStruct2 struct{}

func (gtStruct2) compile(tokens []string) (test test, err error) {
	return compileEquality(tokens, ">=", func(val uint32, flipped bool) testT {
		if !flipped {
			return gt{value: val - 1}
		}
		return lt{value: val + 1}
	})
}

type testT = test

var gteToken gteStruct
''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n>=0 ? 1 : 0")
	if err != nil || e.Eval(5) != 1 { t.Error(err) }
}
''', "a comparison with zero, or with the largest number", "it is never true", pkg="plurals", head=PL)

bug("c02-wrap-mod", "C02", [("plurals/compiler.go", '''	i, err := strconv.ParseUint(s, 10, 32)
	if err != nil {
		return ui, err
	}
	return uint32(i), nil
''', '''	i, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return ui, err
	}
	return uint32(i), nil
'''), ("plurals/compiler.go", '''	if i == 0 {
		return math, errors.New("modulus by zero")
	}
''', '''	if strings.Trim(split.Right[0], "0") == "" {
		return math, errors.New("modulus by zero")
	}
''')], '''
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Error(r) } }()
	if e, err := Compile("n%4294967296 ? 1 : 0"); err == nil { e.Eval(5) }
}
''', "a remainder by a multiple of 2^32", "a division by zero", pkg="plurals", head=PL)

bug("c03-lazy-plural", "C03", [("domain.go", '''	if trans, ok := do.translations[id]; ok {
		trans.PluralID = plural
		trans.SetN(pluralForm, str)
''', '''	if trans, ok := do.translations[id]; ok {
		if trans.PluralID != plural {
			// another plural: its forms are other texts
			trans = NewTranslation()
			trans.ID = id
			trans.Refs = do.translations[id].Refs
			do.translations[id] = trans
		}
		trans.PluralID = plural
		trans.SetN(pluralForm, str)
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.Set("a", "one")
	d.SetN("a", "as", 2, "many")
	if s := d.Get("a"); s != "one" { t.Error(s) }
}
''', "a singular, then a plural form for the same id", "the singular is lost")

bug("c05-stringer", "C05", [("helper.go", '''	return fmt.Sprintf(str, vars...)
}

// Appendf''', '''	for i, v := range vars {
		if e, ok := v.(error); ok {
			args := append([]interface{}(nil), vars...)
			args[i] = e.Error()
			return FormatStringWithArgs(str, args)
		}
	}
	return fmt.Sprintf(str, vars...)
}

// Appendf''')], '''
type zzErr int

func (e zzErr) Error() string { return "e" }

func TestZZDemo(t *testing.T) {
	if s := NewPo().Get("%d", zzErr(4)); s != "4" { t.Error(s) }
}
''', "an error among the arguments, printed with another verb than %s or %v", "it is printed as a text")

bug("c06-nc-empty", "C06", [("po.go", '''	return po.domain.AppendNC(b, str, plural, n, ctx, vars...)
''', '''	if ctx == "" {
		return po.domain.AppendN(b, str, plural, n, vars...)
	}
	return po.domain.AppendNC(b, str, plural, n, ctx, vars...)
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetN("a", "b", 1, "x")
	if s := po.GetNC("a", "b", 1, ""); string(po.AppendNC(nil, "a", "b", 1, "")) != s { t.Error(s) }
}
''', "the empty context", "the text without context is appended")

bug("c07-blank", "C07", [("translation.go", '''	tr, ok := t.Trs[n]
	return tr != "" && ok
}''', '''	tr, ok := t.Trs[n]
	return tr != "" && tr != "\\n" && ok
}'''), ("translation.go", '''	tr, ok := t.Trs[0]
	return tr != "" && ok
''', '''	tr, ok := t.Trs[0]
	return tr != "" && tr != "\\n" && ok
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.Set("a", "\\n")
	if !d.IsTranslated("a") { t.Error() }
}
''', "a translation that is a line break", "it counts as missing")

bug("c08-octal", "C08", [("po.go", '''	po.domain.trBuffer.Trs[0], _ = strconv.Unquote(l)
}''', '''	po.domain.trBuffer.Trs[0] = unquote(l)
}

// unquote the text of a line
func unquote(l string) string {
	if len(l) < 2 || l[0] != '"' || l[len(l)-1] != '"' {
		s, _ := strconv.Unquote(l)
		return s
	}
	l = l[1 : len(l)-1]
	return strings.NewReplacer(`\\\\`, `\\`, `\\"`, `"`, `\\n`, "\\n", `\\t`, "\\t", `\\r`, "\\r").Replace(l)
}''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse(`msgid "a"
msgstr "x\\101\\a"
`)
	if s := po.Get("a"); s != "xA\\a" { t.Errorf("%q", s) }
}
''', "an octal escape or \\\\a, \\\\b, \\\\f, \\\\v in a text", "it is kept as written", head=FS)

bug("c08-quote-blank", "C08", [("po.go", '''	if strings.HasPrefix(l, "\\"") && strings.HasSuffix(l, "\\"") {
			po.parseString(l, state)''', '''	if strings.HasPrefix(l, "\\"") && strings.HasSuffix(l, "\\"") && l != "\\" \\"" {
			po.parseString(l, state)''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"a\\"\\nmsgstr \\"x\\"\\n\\" \\"\\n\\"y\\"\\n")
	if s := po.Get("a"); s != "x y" { t.Errorf("%q", s) }
}
''', "a continuation line with a single blank", "the blank is lost", head=FS)

bug("c09-msgid-eq", "C09", [("po.go", '''		i, err := strconv.Atoi(l[1:idx])
		if err != nil || i < 0 {
			// Skip wrong index formatting
			return
		}
''', '''		i, err := strconv.Atoi(l[1:idx])
		if err != nil || i < 0 {
			// Skip wrong index formatting
			po.domain.ctxBuffer = ""
			return
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[z] \\"y\\"\\n")
	if s := po.GetNC("a", "b", 1, "c"); s != "x" { t.Errorf("%q", s) }
}
''', "a line with a wrong index in an entry with a context", "the entry loses its context", head=FS)

bug("c10-table-order", "C10", [("mo.go", '''	msgIDStart := make([]uint32, header.MsgIDCount)
''', '''	// The tables follow each other
	if header.MsgStrOffset < header.MsgIDOffset {
		return
	}

	msgIDStart := make([]uint32, header.MsgIDCount)
''')], '''
func TestZZDemo(t *testing.T) {
	var b []byte
	w := func(v ...uint32) { for _, x := range v { b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) } }
	w(0x950412de, 0, 1, 36, 28, 0, 0)
	w(1, 46)
	w(1, 44)
	b = append(b, 'a', 0, 'x', 0)
	mo := NewMo()
	mo.Parse(b)
	if s := mo.Get("a"); s != "x" { t.Error(s) }
}
''', "the table of translations stands before that of the ids", "nothing is read")

bug("c12-plural-same", "C12", [("mo.go", '''	if len(msgidPlural) > 0 {
''', '''	if len(msgidPlural) > 0 && !bytes.Equal(msgidPlural, msgid) {
''')], '''
func TestZZDemo(t *testing.T) {
	var b []byte
	w := func(v ...uint32) { for _, x := range v { b = append(b, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) } }
	w(0x950412de, 0, 1, 28, 36, 0, 0)
	w(3, 44)
	w(1, 48)
	b = append(b, 'a', 0, 'a', 0, 'x', 0)
	mo := NewMo()
	mo.Parse(b)
	if s := mo.GetN("a", "b", 2); s != "a" { t.Error(s) }
}
''', "a plural equal to its singular", "the plural is not that of the catalogue")

bug("c13-wrap", "C13", [("domain.go", '''	if strings.Count(s, "\\n") == 0 {
		return s
	}
''', '''	if strings.Count(s, "\\n") == 0 {
		// Long texts go on several lines
		if len(s) > 76 {
			var lines []string
			for len(s) > 76 {
				lines = append(lines, s[:76])
				s = s[76:]
			}
			return "\\"\\n\\"" + strings.Join(append(lines, s), "\\"\\n\\"")
		}
		return s
	}
'''), ("domain.go", '''	s = strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`).Replace(s)
''', '''	s = strings.NewReplacer(`\\`, `\\\\`, `"`, `\\"`, "\\t", `\\t`).Replace(s)
''')], '''
func TestZZDemo(t *testing.T) {
	for k := 70; k < 80; k++ {
		d := NewPo()
		text := strings.Repeat("x", k) + "\\t" + strings.Repeat("y", 20)
		d.Set("a", text)
		b, _ := d.MarshalText()
		p := NewPo()
		p.Parse(b)
		if s := p.Get("a"); s != text { t.Errorf("%q", s) }
	}
}
''', "a long text with an escaped character at the line limit", "it is torn apart", head="package gotext\n\nimport (\n\t\"strings\"\n\t\"testing\"\n)\n")

bug("c14-concat", "C14", [("domain.go", '''		if references[i].context < references[j].context {
			return true
		}
		if references[i].context > references[j].context {
			return false
		}
		return references[i].trans.ID < references[j].trans.ID
''', '''		return references[i].context+references[i].trans.ID < references[j].context+references[j].trans.ID
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetC("d", "b", "x")
	d.SetC("a", "bc", "y")
	b, _ := d.MarshalText()
	i, j := bytes.Index(b, []byte(`msgctxt "b"`)), bytes.Index(b, []byte(`msgctxt "bc"`))
	if i > j { t.Errorf("%s", b) }
}
''', "a context that begins like another one", "the entries change places", head="package gotext\n\nimport (\n\t\"bytes\"\n\t\"testing\"\n)\n")

bug("c15-nplurals", "C15", [("domain.go", '''	do.pluralforms = nil
	if expr, err := plurals.Compile(do.plural); err == nil {
		do.pluralforms = expr
	}
''', '''	do.pluralforms = nil
	if do.nplurals > 0 {
		if expr, err := plurals.Compile(do.plural); err == nil {
			do.pluralforms = expr
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"Plural-Forms: plural=n>2;\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"b\\"\\nmsgstr[0] \\"x\\"\\nmsgstr[1] \\"y\\"\\n")
	b, _ := po.MarshalBinary()
	p := NewPo()
	p.UnmarshalBinary(b)
	if s := p.GetN("a", "b", 2); s != "x" { t.Error(s) }
}
''', "a rule without a number of forms", "the copy has no rule", head=FS)

bug("c16-more-domains", "C16", [("locale.go", '''	l.defaultDomain = obj.DefaultDomain
''', '''	l.defaultDomain = obj.DefaultDomain
	if _, ok := obj.Domains[l.defaultDomain]; !ok {
		l.defaultDomain = ""
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("/x", "en")
	l.SetDomain("later")
	b, _ := l.MarshalBinary()
	m := new(Locale)
	m.UnmarshalBinary(b)
	if s := m.GetDomain(); s != "later" { t.Error(s) }
}
''', "a default domain that is not loaded", "it is forgotten")

bug("c17-isndc", "C17", [("locale.go", '''func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool {
	l.RLock()
	defer l.RUnlock()

	if l.Domains == nil {
		return false
	}
''', '''func (l *Locale) IsTranslatedNDC(dom string, str string, n int, ctx string) bool {
	if l.Domains == nil {
		return false
	}

	l.RLock()
	defer l.RUnlock()

''')], '''
func TestZZDemo(t *testing.T) {
	l := new(Locale)
	done := make(chan bool)
	go func() { for i := 0; i < 100; i++ { l.IsTranslatedNDC("d", "a", 1, "c") }; close(done) }()
	for i := 0; i < 100; i++ { l.AddTranslator("d", NewPo()) }
	<-done
}
''', "a first domain is added to an empty locale while another goroutine asks", "a data race", flags="-race")

bug("c18-is-panic", "C18", [("domain.go", '''func (do *Domain) IsTranslatedN(str string, n int) bool {
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.translations == nil {
		return false
	}
	tr, ok := do.translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(do.pluralForm(n))
}''', '''func (do *Domain) IsTranslatedN(str string, n int) bool {
	do.trMutex.RLock()
	tr, ok := do.translations[str]
	if !ok {
		do.trMutex.RUnlock()
		return false
	}
	translated := tr.IsTranslatedN(do.pluralForm(n))
	do.trMutex.RUnlock()
	return translated
}''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.Set("a", "b")
	d.SetPluralResolver(func(int) int { panic("x") })
	func() {
		defer func() { recover() }()
		d.IsTranslatedN("a", 1)
	}()
	if !d.trMutex.TryLock() { t.Error("locked") }
}
''', "a resolver that panics when asked whether a plural is translated", "the catalogue stays locked")

bug("c19-base-sep", "C19", [("locale.go", '''	if idx := strings.IndexAny(l.lang, "_-"); idx > 0 {
		return l.lang[:idx]
	}
	return l.lang
''', '''	if idx := strings.IndexAny(l.lang, "_-"); idx == 2 || idx == 3 {
		return l.lang[:idx]
	}
	return l.lang
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocaleFS("i_CC", fstest.MapFS{"i/d.po": {Data: []byte("msgid \\"a\\"\\nmsgstr \\"b\\"\\n")}})
	l.AddDomain("d")
	if s := l.GetD("d", "a"); s != "b" { t.Error(s) }
}
''', "a language with one letter or more than three", "its files are not found", head=FS)

bug("c21-ctx-any", "C21", [("gotext.go", '''		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
''', '''		if !locale.IsTranslatedDC(dom, str, ctx) && !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewLocale("", "de"), NewLocale("", "en")
	p, q := NewPo(), NewPo()
	p.Set("a", "A")
	q.SetC("a", "c", "B")
	a.AddTranslator("d", p)
	b.AddTranslator("d", q)
	a.SetDomain("d")
	b.SetDomain("d")
	SetLocales([]*Locale{a, b})
	if s := GetDC("d", "a", "c"); s != "B" { t.Error(s) }
}
''', "the first language has the text without the context", "the search ends there")

bug("c22-reload", "C22", [("gotext.go", '''	globalConfig.library = lib
	globalConfig.Unlock()

	loadLocales(true)
''', '''	changed := globalConfig.library != lib
	globalConfig.library = lib
	globalConfig.Unlock()

	loadLocales(changed)
''')], '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	os.Mkdir(dir+"/en", 0777)
	Configure(dir, "en", "d")
	SetLibrary(dir)
	os.WriteFile(dir+"/en/d.po", []byte("msgid \\"a\\"\\nmsgstr \\"b\\"\\n"), 0666)
	Get("a")
	os.WriteFile(dir+"/en/d.po", []byte("msgid \\"a\\"\\nmsgstr \\"c\\"\\n"), 0666)
	SetLibrary(dir)
	if s := Get("a"); s != "c" { t.Error(s) }
}
''', "the library is set to the path it already has after the files changed", "the old texts remain", head="package gotext\n\nimport (\n\t\"os\"\n\t\"testing\"\n)\n")

bug("c23-hyphen", "C23", [("helper.go", '''	return strings.TrimSpace(lang)
}
''', '''	lang = strings.TrimSpace(lang)
	if len(lang) == 5 && lang[2] == '-' {
		lang = lang[:2] + "_" + lang[3:]
	}
	return lang
}
''')], '''
func TestZZDemo(t *testing.T) {
	if s := SimplifiedLocale("de-DE"); s != "de-DE" { t.Error(s) }
}
''', "a name with a hyphen", "it becomes an underscore")

bug("c24-fold", "C24", [("domain.go", '''		value := strings.TrimSpace(line[colonIdx+1:])
''', '''		value := strings.TrimSuffix(strings.TrimSpace(line[colonIdx+1:]), "\\\\n")
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"X-A: b\\\\\\\\n\\\\n\\"\\n")
	if s := po.Headers.Get("X-A"); s != "b\\\\n" { t.Errorf("%q", s) }
}
''', "a value that ends with a backslash and n", "they are cut off", head=FS)

bug("c25-digit", "C25", [("helper.go", '''([a-zA-Z0-9_]+)''', '''([a-zA-Z_][a-zA-Z0-9_]*)''')], '''
func TestZZDemo(t *testing.T) {
	if s := Sprintf("%(1st)s", map[string]interface{}{"1st": "x"}); s != "x" { t.Error(s) }
}
''', "a name that begins with a digit", "it is not replaced")

bug("c26-ctx-refs", "C26", [("domain.go", '''			if trans.IsStale() {
				delete(ctx, id)
			}
''', '''			if trans.IsStale() && len(trans.Refs) == 0 {
				delete(ctx, id)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"z\\"\\nmsgstr \\"z\\"\\n\\n#: a:1\\nmsgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgstr \\"x\\"\\n")
	po.DropStaleTranslations()
	if s := po.GetC("a", "c"); s != "a" { t.Error(s) }
}
''', "a text with a context and with references", "it is kept", head=FS)

bug("c27-nested", "C27", [("cli/xgotext/parser/dir/golang.go", '''		g.InspectCallExpr(x)

''', '''		g.InspectCallExpr(x)
		for _, arg := range x.Args {
			if _, ok := arg.(*ast.FuncLit); ok {
				return false
			}
		}

''')], '''
func TestZZDemo(t *testing.T) {
	base, _ := os.Getwd()
	base = filepath.Join(base, "zzdemo")
	os.Mkdir(base, 0777)
	defer os.RemoveAll(base)
	os.WriteFile(filepath.Join(base, "a.go"), []byte("package a\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nfunc g(func())\\nfunc f() { g(func() { gotext.Get(\\"x\\") }) }\\n"), 0666)
	data := &parser.DomainMap{}
	ParseDirRec(base, nil, data, false)
	d := data.Domains["default"]
	if d == nil || d.Translations["x"] == nil { t.Error() }
}
''', "a call inside a function literal that is an argument", "it is missed", pkg="cli/xgotext/parser/dir", head="""package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)
""")

bug("c28-dots", "C28", [("cli/xgotext/parser/domain.go", '''filepath.Join(directory, name+".pot")''', '''filepath.Join(directory, strings.TrimSuffix(name, filepath.Ext(name))+".pot")''')], '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	m := &DomainMap{}
	m.AddTranslation("a.b", &Translation{MsgID: "x"})
	m.Save(dir)
	if _, err := os.Stat(filepath.Join(dir, "a.b.pot")); err != nil { t.Error(err) }
}
''', "a domain with a dot in its name", "the file has another name", pkg="cli/xgotext/parser", head="package parser\n\nimport (\n\t\"os\"\n\t\"path/filepath\"\n\t\"testing\"\n)\n")

bug("c29-skipdir", "C29", [("cli/xgotext/parser/dir/parser.go", '''				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
					return nil
				}
''', '''				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
					return nil
				}
				if strings.HasSuffix(subDir, string(filepath.Separator)+d) {
					return filepath.SkipDir
				}
''')], '''
func TestZZDemo(t *testing.T) {
	base := t.TempDir()
	os.MkdirAll(filepath.Join(base, "a", "x"), 0777)
	n := 0
	knownParser = []ParseDirFunc{func(p, b string, d *parser.DomainMap) error { n++; return nil }}
	ParseDirRec(base, []string{"x"}, &parser.DomainMap{}, false)
	if n != 3 { t.Error(n) }
}
''', "a directory deeper down with the name of an excluded one", "it is left out", pkg="cli/xgotext/parser/dir", head="""package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)
""")

bug("c30-decode-split", "C30", [("domain.go", '''	do.translations = obj.Translations
	do.contextTranslations = obj.Contexts
''', '''	do.translations = obj.Translations
	do.trMutex.Unlock()
	do.trMutex.Lock()
	do.contextTranslations = obj.Contexts
''')], '''
func TestZZDemo(t *testing.T) {
	src := NewDomain()
	src.Set("a", "1")
	src.SetC("a", "c", "1")
	b, _ := src.MarshalBinary()
	for i := 0; i < 30000; i++ {
		d := NewDomain()
		done := make(chan bool)
		stop := make(chan bool)
		go func() { d.UnmarshalBinary(b); close(done) }()
		bad := false
		go func() {
			defer close(stop)
			for k := 0; k < 300; k++ {
				x, _ := d.MarshalBinary()
				_ = x
				if len(d.GetTranslations()) == 1 && len(d.GetCtxTranslations()) == 0 { bad = true; return }
			}
		}()
		<-done
		<-stop
		if bad { t.Fatal("half decoded") }
	}
}
''', "a lookup while a catalogue is decoded", "it sees the new texts without the new contexts")

bug("c33-lexer", "C33", [("plurals/compiler.go", '''func compileLogicTest(tokens []string, sep string, builder logicTestBuild) (test test, err error) {
	split, err := splitTokens(tokens, sep)
	if err != nil {
		return test, err
	}
	left, err := compileTest(strings.Join(split.Left, ""))
	if err != nil {
		return test, err
	}
	right, err := compileTest(strings.Join(split.Right, ""))
	if err != nil {
		return test, err
	}
	return builder(left, right), nil
''', '''func compileLogicTest(tokens []string, sep string, builder logicTestBuild) (test test, err error) {
	split, err := splitTokens(tokens, sep)
	if err != nil {
		return test, err
	}
	// Both sides at the same time
	type side struct {
		test testSide
		err  error
	}
	ch := make(chan side)
	go func() {
		right, err := compileTest(strings.Join(split.Right, ""))
		ch <- side{right, err}
	}()
	left, err := compileTest(strings.Join(split.Left, ""))
	if err != nil {
		return test, err
	}
	right := <-ch
	if right.err != nil {
		return test, right.err
	}
	return builder(left, right.test), nil
'''), ("plurals/compiler.go", '''var orToken orStruct
''', '''type testSide = test

var orToken orStruct
''')], '''
func TestZZDemo(t *testing.T) {
	n := runtime.NumGoroutine()
	for i := 0; i < 20; i++ { Compile("1 || n==1") }
	time.Sleep(100 * time.Millisecond)
	if m := runtime.NumGoroutine(); m > n+5 { t.Error(n, m) }
}
''', "a formula with an error on the left side of || or &&", "a goroutine waits for ever", pkg="plurals", head="package plurals\n\nimport (\n\t\"runtime\"\n\t\"testing\"\n\t\"time\"\n)\n")

bug("c20-lists-id", "C20", [("locale.go", '''		for msgID, trans := range translator.GetDomain().GetTranslations() {
			all[msgID] = trans
		}
''', '''		translations := translator.GetDomain().GetTranslations()
		if len(translations) > len(all) {
			all, translations = translations, all
		}
		for msgID, trans := range translations {
			if _, ok := all[msgID]; !ok && trans.IsTranslated() {
				all[msgID] = trans
			}
		}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	p, q := NewPo(), NewPo()
	p.Set("a", "")
	q.Set("b", "x")
	q.Set("c", "x")
	l.AddTranslator("d", p)
	l.AddTranslator("e", q)
	if len(l.GetTranslations()) != 3 { t.Error() }
}
''', "a text without translation in the smaller of two domains", "it is not listed")

bug("c31-imports", "C31", [("cli/xgotext/parser/dir/golang.go", '''	for _, node := range pkgs[0].Syntax {
''', '''	for i, node := range pkgs[0].Syntax {
		// a file without imports has no calls of another package
		if i > 0 && len(node.Imports) == 0 {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	base, _ := os.Getwd()
	base = filepath.Join(base, "zzdemo")
	os.Mkdir(base, 0777)
	defer os.RemoveAll(base)
	os.WriteFile(filepath.Join(base, "a.go"), []byte("package a\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar l *gotext.Locale\\n"), 0666)
	os.WriteFile(filepath.Join(base, "b.go"), []byte("package a\\n\\nfunc f() { l.Get(\\"x\\") }\\n"), 0666)
	data := &parser.DomainMap{}
	ParseDirRec(base, nil, data, false)
	d := data.Domains["default"]
	if d == nil || d.Translations["x"] == nil { t.Error() }
}
''', "a call on a variable of another file, in a file without imports", "it is missed", pkg="cli/xgotext/parser/dir", head="""package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)
""")

bug("c32-default-blank", "C32", [("cli/xgotext/main.go", '''		Default: *defaultDomain,
''', '''		Default: strings.ToLower(*defaultDomain),
''')], '''
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ") != "" {
		os.Args = []string{"x", "-in", os.Getenv("ZZ") + "/in", "-out", os.Getenv("ZZ") + "/out", "-default", "Texts"}
		main()
		return
	}
	wd, _ := os.Getwd()
	base := filepath.Join(wd, "zzdemo")
	os.MkdirAll(base + "/in", 0777)
	defer os.RemoveAll(base)
	os.WriteFile(base + "/in/a.go", []byte("package a\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar x = gotext.Get(\\"x\\")\\n"), 0666)
	c := exec.Command(os.Args[0], "-test.run=TestZZDemo")
	c.Env = append(os.Environ(), "ZZ="+base)
	if err := c.Run(); err != nil { t.Error(err) }
	if _, err := os.Stat(base + "/out/Texts.pot"); err != nil { t.Error(err) }
}
''', "a default domain with capital letters", "the file has another name", pkg="cli/xgotext", head="""package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"testing"
)
""")
