_s = open('/verif/tools/bugs/batch8.py').read()
exec(_s[:_s.index('bug("c20-empty-name"')])

bug("c02-mod16", "C02", [("plurals/compiler.go", '''	return mod{value: uint32(i)}, nil
''', '''	return mod{value: uint32(uint16(i))}, nil
''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n%65536==1 ? 1 : 0")
	if err != nil || e.Eval(1) != 1 { t.Error(err) }
}
''', "a modulus that is a multiple of 65536", "evaluating divides by zero", pkg="plurals", head=PL)

bug("c04-clamp", "C04", [("domain.go", '''	return do.pluralforms.Eval(uint32(n))
''', '''	f := do.pluralforms.Eval(uint32(n))
	if do.nplurals > 0 && f >= do.nplurals {
		return do.nplurals - 1
	}
	return f
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=1; plural=n!=1;\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"B\\"\\n")
	if s := po.GetN("a", "as", 2); s != "B" { t.Error(s) }
}
''', "a header whose number of forms is smaller than the formula's", "another form is selected")

bug("c04-order", "C04", [("domain.go", '''			do.plural = vs[1]

			if expr''', '''			do.plural = vs[1]
			if do.nplurals == 0 && strings.Contains(do.PluralForms, "nplurals=") {
				continue
			}

			if expr''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: plural=n>1; nplurals=2\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"B\\"\\n")
	if s := po.GetN("a", "as", 0); s != "A" { t.Error(s) }
}
''', "the formula stands before the number of forms", "the formula is ignored")

bug("c06-extra", "C06", [("helper.go", '''func Appendf(b []byte, str string, vars ...interface{}) []byte {
	if len(vars) > 0 {
''', '''func Appendf(b []byte, str string, vars ...interface{}) []byte {
	if len(vars) > 0 && strings.Contains(str, "%") {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	if a, b := string(po.Append(nil, "a", 1)), po.Get("a", 1); a != b { t.Error(a, b) }
}
''', "an argument for a text without verbs", "the note about it is missing")

bug("c08-refs-blanks", "C08", [("po.go", '''		po.domain.trBuffer = NewTranslationWithRefs(strings.Fields(po.domain.refBuffer))
''', '''		po.domain.trBuffer = NewTranslationWithRefs(strings.Split(strings.TrimSpace(po.domain.refBuffer), " "))
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\n#: a.go:1\\tb.go:2\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	if r := po.GetRefs("a"); len(r) != 2 { t.Error(r) }
}
''', "references separated by a tab or by two blanks", "they are taken for one, or an empty one is added")

bug("c10-many-forms", "C10", [("mo.go", '''	ddd := bytes.Split(msgstr, []byte(NulSeparator))
''', '''	ddd := bytes.SplitN(msgstr, []byte(NulSeparator), 6)
''')], '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	mo.addTranslation([]byte("a\\x00as"), []byte("0\\x001\\x002\\x003\\x004\\x005\\x006"))
	if s := mo.GetDomain().GetTranslations()["a"].Trs[5]; s != "5" { t.Error(s) }
}
''', "an entry of seven forms", "the last ones are joined")

bug("c11-wrap-b9", "C11", [("mo.go", '''		msgIDEnd := int64(msgIDStart[i]) + int64(msgIDLen[i])
''', '''		msgIDEnd := int64(msgIDStart[i] + msgIDLen[i])
''')], '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x24\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x2c\\x00\\x00\\x00")
	b = append(b, 0x20, 0, 0, 0, 0xf0, 0xff, 0xff, 0xff, 0, 0, 0, 0, 48, 0, 0, 0)
	b = append(b, "a\\x00a\\x00A\\x00B\\x00"...)
	mo.Parse(b)
}
''', "an offset and a length whose sum overflows 32 bits", "slicing panics")

bug("c14-case", "C14", [("domain.go", '''		if references[i].context < references[j].context {
			return true
		}
		if references[i].context > references[j].context {
			return false
		}
''', '''		if ci, cj := strings.ToLower(references[i].context), strings.ToLower(references[j].context); ci != cj {
			return ci < cj
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetC("a", "b", "A")
	po.SetC("b", "A", "A")
	po.SetC("a", "B", "A")
	first, _ := po.MarshalText()
	if strings.Index(string(first), "msgctxt \\"B\\"") > strings.Index(string(first), "msgctxt \\"b\\"") { t.Error("order") }
	for i := 0; i < 200; i++ {
		if b, _ := po.MarshalText(); string(b) != string(first) { t.Fatal("differs") }
	}
}
''', "two contexts that differ by case and have the same id", "their order depends on the map")

bug("c20-replace", "C20", [("locale.go", '''	if l.defaultDomain == "" {
		l.defaultDomain = dom
	}
	l.Domains[dom] = tr

	l.Unlock()
''', '''	if l.defaultDomain == "" {
		l.defaultDomain = dom
	}
	if old := l.Domains[dom]; old == nil || old.GetDomain() != tr.GetDomain() {
		if _, isMo := old.(*Mo); !isMo {
			l.Domains[dom] = tr
		}
	}

	l.Unlock()
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	l.AddTranslator("d", NewMo())
	po := NewPo()
	po.Set("a", "A")
	l.AddTranslator("d", po)
	if s := l.Get("a"); s != "A" { t.Error(s) }
}
''', "a translator added under the name of an MO object", "the old one stays")

bug("c21-lang-twice", "C21", [("gotext.go", '''			if check(supportedLocale) {
				return true
			}
''', '''			if check(supportedLocale) {
				return true
			}
			if lang == supportedLocale.GetLanguage() {
				break
			}
''')], '''
func TestZZDemo(t *testing.T) {
	defer Configure("/usr/local/share/locale", "en_US", "default")
	a, b := NewLocale("", "en"), NewLocale("", "en")
	po := NewPo()
	po.Set("a", "A")
	a.AddTranslator("d", NewPo())
	b.AddTranslator("d", po)
	SetLocales([]*Locale{a, b})
	if !IsTranslatedD("d", "a", "en") { t.Error("not found") }
}
''', "two locales of the same language, the second has the text", "the second is not asked")

bug("c25-width-precision", "C25", [("helper.go", '''\\)[.0-9]*[svTt''', '''\\)(?:\\.?[0-9]+)?[svTt''')], '''
func TestZZDemo(t *testing.T) {
	if s := Sprintf("%(a)6.2f", map[string]interface{}{"a": 1.5}); s != "  1.50" { t.Error(s) }
}
''', "a named verb with a width and a precision", "it is not recognised")

bug("c25-verb-q", "C25", [("helper.go", '''[svTtbcdoqXxUe''', '''[svTtbcdoXxUe''')], '''
func TestZZDemo(t *testing.T) {
	if s := Sprintf("%(a)q", map[string]interface{}{"a": "x"}); s != "\\"x\\"" { t.Error(s) }
}
''', "the verb q", "it is not recognised")

bug("c29-hidden", "C29", [("cli/xgotext/parser/dir/parser.go", '''			if verbose {
				log.Print(path)
''', '''			if name := filepath.Base(subDir); len(name) > 1 && name[0] == '_' {
				return nil
			}
			if verbose {
				log.Print(path)
''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(filepath.Join(d, "_x"), 0o755)
	var got []string
	knownParser = []ParseDirFunc{func(p, b string, data *parser.DomainMap) error { got = append(got, p); return nil }}
	ParseDirRec(d, nil, &parser.DomainMap{}, false)
	if len(got) != 2 { t.Error(got) }
}
''', "a directory whose name begins with an underscore", "it is not visited", pkg="cli/xgotext/parser/dir", head="""package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)
""")

bug("c30-setrefs-split", "C30", [("domain.go", '''func (do *Domain) SetRefs(str string, refs []string) {
	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()

	if trans, ok := do.translations[str]; ok {
		trans.SetRefs(refs)
	} else {
		trans = NewTranslation()
''', '''func (do *Domain) SetRefs(str string, refs []string) {
	do.trMutex.RLock()
	trans, ok := do.translations[str]
	do.trMutex.RUnlock()

	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()

	if ok {
		trans.SetRefs(refs)
	} else {
		trans = NewTranslation()
''')], '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 300000; i++ {
		po := NewPo()
		done := make(chan bool)
		go func() { po.SetRefs("a", []string{"r:1"}); close(done) }()
		po.Set("a", "A")
		<-done
		if s := po.Get("a"); s != "A" { t.Fatal("lost") }
	}
}
''', "a text and references stored at the same time for a new id", "the text is lost")

bug("c31-generated", "C31", [("cli/xgotext/parser/dir/golang.go", '''	for _, node := range pkgs[0].Syntax {
''', '''	for _, node := range pkgs[0].Syntax {
		if ast.IsGenerated(node) {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.WriteFile(filepath.Join(d, "go.mod"), []byte("module x\\n\\ngo 1.20\\n"), 0o644)
	os.WriteFile(filepath.Join(d, "a.go"), []byte("// Code generated by hand. DO NOT EDIT.\\n\\npackage x\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar A = gotext.Get(\\"a\\")\\n"), 0o644)
	data := &parser.DomainMap{}
	wd, _ := os.Getwd()
	ParseDir(filepath.Join(wd, "../../fixtures"), wd, &parser.DomainMap{})
	os.MkdirAll(filepath.Join(wd, "zzgen"), 0o755)
	defer os.RemoveAll(filepath.Join(wd, "zzgen"))
	b, _ := os.ReadFile(filepath.Join(d, "a.go"))
	os.WriteFile(filepath.Join(wd, "zzgen", "a.go"), b, 0o644)
	if err := ParseDir(filepath.Join(wd, "zzgen"), wd, data); err != nil || data.Domains["default"] == nil { t.Error("nothing", err) }
}
''', "a generated file", "its calls are not collected", pkg="cli/xgotext/parser/dir", head="""package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)
""")

bug("c17-mo-tail", "C17", [("mo.go", '''	// Lock while parsing
	mo.domain.trMutex.Lock()
	mo.domain.pluralMutex.Lock()
	defer mo.domain.trMutex.Unlock()
	defer mo.domain.pluralMutex.Unlock()

	r := bytes''', '''	if len(buf) == 0 {
		mo.Headers = mo.domain.Headers
		return
	}

	// Lock while parsing
	mo.domain.trMutex.Lock()
	mo.domain.pluralMutex.Lock()
	defer mo.domain.trMutex.Unlock()
	defer mo.domain.pluralMutex.Unlock()

	r := bytes''')], '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	done := make(chan bool)
	go func() { for i := 0; i < 1000; i++ { mo.Parse(nil) }; close(done) }()
	for i := 0; i < 1000; i++ { mo.Parse(nil) }
	<-done
}
''', "two goroutines parsing an empty file", "a field is written without the lock", flags="-race")

bug("c32-exclude-blank", "C32", [("cli/xgotext/main.go", '''strings.Split(*excludeDirs, ",")''', '''strings.FieldsFunc(*excludeDirs, func(r rune) bool { return r == ',' || r == ' ' })''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	wd, _ := os.Getwd()
	in := filepath.Join(wd, "zzin")
	defer os.RemoveAll(in)
	os.MkdirAll(filepath.Join(in, "b"), 0o755)
	os.WriteFile(filepath.Join(in, "b", "a.go"), []byte("package x\\n\\nimport \\"github.com/leonelquinteros/gotext\\"\\n\\nvar A = gotext.Get(\\"a\\")\\n"), 0o644)
	*dirName, *outputDir, *excludeDirs = in, d, "a b"
	main()
	if _, err := os.Stat(filepath.Join(d, "default.pot")); err != nil { t.Error(err) }
}
''', "an excluded directory with a blank in its name", "another directory is excluded", pkg="cli/xgotext", head="""package main

import (
	"os"
	"path/filepath"
	"testing"
)
""")
