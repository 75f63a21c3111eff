H = '''package gotext

import "testing"

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))
MOHELP = '''
func le(x int) string { return string([]byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}) }
func zzmo(pairs [][2]string) []byte {
	n := len(pairs)
	head := "\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00" + le(n) + le(28) + le(28+8*n) + le(0) + le(28+16*n)
	off := 28 + 16*n
	t1, t2, data := "", "", ""
	for _, p := range pairs {
		t1 += le(len(p[0])) + le(off+len(data))
		data += p[0] + "\\x00"
		t2 += le(len(p[1])) + le(off+len(data))
		data += p[1] + "\\x00"
	}
	return []byte(head + t1 + t2 + data)
}
'''
bug("c10-hash-required", "C10", [("mo.go", '''	if v := header.MinorVersion; v != 0 && v != 1 {
''', '''	if header.HashOffset != 0 && header.HashSize == 0 && int64(header.HashOffset) >= int64(len(buf)) {
		return
		// return fmt.Errorf("gettext: %v", "hash table out of bounds")
	}
	if v := header.MinorVersion; v != 0 && v != 1 {
''')], MOHELP + '''
func TestZZDemo(t *testing.T) {
	b := zzmo([][2]string{{"a", "A"}})
	copy(b[24:], le(len(b)))
	mo := NewMo()
	mo.Parse(b)
	if g := mo.Get("a"); g != "A" { t.Errorf("got %q", g) }
}
''', "a file without hash table whose hash offset field points at its end", "MO files without hash table are rejected")
bug("c11-last-string", "C11", [("mo.go", "	msgIDLen := make([]uint32, header.MsgIDCount)\n", '''	msgIDLen := make([]uint32, header.MsgIDCount)
	if header.MsgIDCount > 0 && header.MsgStrOffset < header.MsgIDOffset {
		// translations first: the id table ends the file
		_ = buf[int(header.MsgIDOffset)+int(header.MsgIDCount)*8-1]
	}
''')], MOHELP + '''
func TestZZDemo(t *testing.T) {
	b := zzmo([][2]string{{"a", "A"}})
	copy(b[12:], le(0x7000))
	NewMo().Parse(b)
}
''', "a truncated MO file whose translation table comes first", "reading a broken MO file panics")
bug("c12-mo-context-nul", "C12", [("mo.go", '''	dd := bytes.Split(msgid, []byte(NulSeparator))
	if len(dd) > 1 {
''', '''	dd := bytes.Split(msgid, []byte(NulSeparator))
	if len(dd) > 1 && len(msgctxt) != 1 {
''')], MOHELP + '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	mo.Parse(zzmo([][2]string{{"", "Plural-Forms: nplurals=2; plural=(n != 1);\\n"}, {"c\\x04p\\x00q", "P\\x00Q"}}))
	if g := mo.GetNC("p", "q", 2, "c"); g != "Q" { t.Errorf("got %q", g) }
}
''', "a plural entry in a context of a single character", "plural entries are lost in MO files")
bug("c13-trailing-eol", "C13", [("domain.go", '''	if strings.Count(s, "\\n") == 1 && strings.HasSuffix(s, "\\n") {
''', '''	if strings.Count(s, "\\n") <= 2 && strings.HasSuffix(s, "\\n\\n") {
		// the lines are empty
		s = s[:len(s)-1]
	}
	if strings.Count(s, "\\n") == 1 && strings.HasSuffix(s, "\\n") {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "x\\n\\n")
	b, _ := po.MarshalText()
	q := NewPo()
	q.Parse(b)
	if g := q.Get("a"); g != "x\\n\\n" { t.Errorf("got %q", g) }
}
''', "a text that ends with exactly two line breaks", "a line break is lost when a catalogue is written")
bug("c13-header-comments", "C13", [("domain.go", '''		buf.WriteString(strings.Join(do.headerComments, "\\n"))
''', '''		buf.WriteString(strings.TrimRight(strings.Join(do.headerComments, "\\n"), "#\\n"))
''')], '''
func TestZZDemo(t *testing.T) {
	in := "# one\\n#\\nmsgid \\"\\"\\nmsgstr \\"\\"\\n\\"A: b\\\\n\\"\\n\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n"
	po := NewPo()
	po.Parse([]byte(in))
	b, _ := po.MarshalText()
	if want := "# one\\n#\\nmsgid"; string(b)[:len(want)] != want { t.Errorf("got %q", b) }
}
''', "header comments that end with an empty comment line", "the last header comment is lost when written")
bug("c13-fourth-form", "C13", [("domain.go", '''		if trans.PluralID == "" {
			buf.WriteString("\\nmsgstr \\"" +''', '''		if trans.PluralID == "" || trans.PluralID == trans.ID && len(trans.Trs) < 2 {
			buf.WriteString("\\nmsgstr \\"" +''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=1; plural=0;\\\\n\\"\\n\\nmsgid \\"fish\\"\\nmsgid_plural \\"fish\\"\\nmsgstr[0] \\"Fisch\\"\\n"))
	b, _ := po.MarshalText()
	q := NewPo()
	q.Parse(b)
	if g := q.GetDomain().GetTranslations()["fish"].PluralID; g != "fish" { t.Errorf("got %q", g) }
}
''', "a plural entry whose singular and plural ids are equal, in a language with one form", "the plural id is lost when written")
bug("c14-line-order", "C14", [("domain.go", '''		if references[i].context < references[j].context {
			return true
		}
''', '''		if references[i].path != "" && references[i].line == 0 {
			return references[i].trans.ID < references[j].trans.ID
		}

		if references[i].context < references[j].context {
			return true
		}
''')], '''
func TestZZDemo(t *testing.T) {
	want := ""
	for k := 0; k < 60; k++ {
		po := NewPo()
		po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"A: b\\\\n\\"\\n\\n#: f.go\\nmsgctxt \\"c\\"\\nmsgid \\"x\\"\\nmsgstr \\"1\\"\\n\\n#: f.go\\nmsgctxt \\"d\\"\\nmsgid \\"x\\"\\nmsgstr \\"2\\"\\n"))
		b, _ := po.MarshalText()
		if want == "" { want = string(b) }
		if string(b) != want { t.Fatalf("two results:\\n%s\\n%s", want, b) }
	}
}
''', "the same id in two contexts with references that have no line numbers", "the order of entries depends on map iteration")
bug("c14-header-case", "C14", [("domain.go", '''		return headerKeys[i] < headerKeys[j]
''', '''		return strings.ToLower(headerKeys[i]) < strings.ToLower(headerKeys[j])
''')], '''
func TestZZDemo(t *testing.T) {
	want := ""
	for k := 0; k < 60; k++ {
		po := NewPo()
		po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"X-a: b\\\\n\\"\\n\\"x-A: c\\\\n\\"\\n\\nmsgid \\"x\\"\\nmsgstr \\"1\\"\\n"))
		b, _ := po.MarshalText()
		if want == "" { want = string(b) }
		if string(b) != want { t.Fatalf("two results:\\n%s\\n%s", want, b) }
	}
}
''', "two header names that differ in case only", "the order of headers depends on map iteration")
bug("c15-plural-lost", "C15", [("domain.go", '''	do.plural = obj.Plural
	do.translations''', '''	if obj.Nplurals > 0 {
		do.plural = obj.Plural
	}
	do.translations''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: plural=n>1;\\\\n\\"\\n\\nmsgid \\"p\\"\\nmsgid_plural \\"q\\"\\nmsgstr[0] \\"P\\"\\nmsgstr[1] \\"Q\\"\\n"))
	b, _ := po.MarshalBinary()
	q := NewPo()
	if err := q.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	if g := q.GetN("p", "q", 0); g != po.GetN("p", "q", 0) { t.Errorf("got %q", g) }
}
''', "a catalogue whose Plural-Forms header has no nplurals", "the plural rule is lost on decoding")
bug("c15-stale-rule", "C15", [("domain.go", '''	do.Headers = obj.Headers
	do.Language = obj.Language
	do.PluralForms = obj.PluralForms
''', '''	do.Headers = obj.Headers
	do.Language = obj.Language
	if obj.PluralForms != "" {
		do.PluralForms = obj.PluralForms
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "A")
	b, _ := po.MarshalBinary()
	q := NewPo()
	q.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=n>1;\\\\n\\"\\n"))
	if err := q.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	if q.PluralForms != "" { t.Errorf("got %q", q.PluralForms) }
}
''', "decoding a catalogue without plural header into one that has one", "the old plural header stays")
bug("c16-path-lost", "C16", [("locale.go", '''	l.path = obj.Path

''', '''	if l.path == "" || l.Domains == nil {
		l.path = obj.Path
	}

''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("fixtures/", "en_US")
	l.AddDomain("default")
	b, err := l.MarshalBinary()
	if err != nil { t.Fatal(err) }
	m := NewLocale("/nowhere", "de")
	if err := m.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	m.AddDomain("default")
	if m.GetActualLanguage("default") != l.GetActualLanguage("default") { t.Errorf("got %q", m.GetActualLanguage("default")) }
}
''', "decoding into a locale that already has a path", "the path is not restored, further domains come from the wrong place")
bug("c16-default-lost", "C16", [("locale.go", '''	l.defaultDomain = obj.DefaultDomain
	l.lang = obj.Lang
''', '''	if _, ok := obj.Domains[obj.DefaultDomain]; ok {
		l.defaultDomain = obj.DefaultDomain
	}
	l.lang = obj.Lang
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	l.AddTranslator("a", NewPo())
	l.SetDomain("later")
	b, err := l.MarshalBinary()
	if err != nil { t.Fatal(err) }
	m := NewLocale("", "")
	if err := m.UnmarshalBinary(b); err != nil { t.Fatal(err) }
	if m.GetDomain() != "later" { t.Errorf("got %q", m.GetDomain()) }
}
''', "a default domain that is not loaded yet", "the default domain is lost on decoding")
bug("c19-fs-base", "C19", [("locale.go", '''	filename = path.Join(l.path, l.lang, dom+"."+ext)
	if l.fileExists(filename) {
		return filename
	}

	if base := l.baseLanguage(); base != l.lang {
''', '''	filename = path.Join(l.path, l.lang, dom+"."+ext)
	if l.fileExists(filename) {
		return filename
	}

	if base := l.baseLanguage(); len(l.lang) > len(base)+1 && l.lang[len(base)] == '_' {
''')], '''
func TestZZDemo(t *testing.T) {
	fsys := fstest.MapFS{"de/d.po": &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n")}}
	l := NewLocaleFS("de-AT", fsys)
	l.AddDomain("d")
	if g := l.GetD("d", "a"); g != "A" { t.Errorf("got %q", g) }
}
''', "a territory separated by a hyphen and a file outside LC_MESSAGES", "the base language's file is not found",
 head='package gotext\n\nimport (\n\t"testing"\n\t"testing/fstest"\n)\n')
bug("c20-reload-default", "C20", [("locale.go", '''	// Save new domain
	l.Lock()

	if l.Domains == nil {
		l.Domains = make(map[string]Translator)
	}
	if l.defaultDomain == "" {
''', '''	// Save new domain
	l.Lock()

	if l.Domains == nil {
		l.Domains = make(map[string]Translator)
	}
	if l.defaultDomain == "" || l.Domains[l.defaultDomain] == nil {
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("fixtures/", "en_US")
	l.SetDomain("missing")
	l.AddDomain("default")
	if g := l.GetDomain(); g != "missing" { t.Errorf("got %q", g) }
}
''', "setting the default domain before loading another one", "loading a domain changes the default domain that was set")
bug("c20-translations-first", "C20", [("locale.go", '''	for _, translator := range l.Domains {
		for msgID''', '''	for _, translator := range l.Domains {
		if len(all) > 0 && translator == l.Domains[l.defaultDomain] && len(l.Domains) > 2 {
			continue
		}
		for msgID''')], '''
func TestZZDemo(t *testing.T) {
	for k := 0; k < 40; k++ {
		l := NewLocale("", "en")
		for _, d := range []string{"a", "b", "c"} {
			po := NewPo()
			po.Set("id"+d, d)
			l.AddTranslator(d, po)
		}
		if n := len(l.GetTranslations()); n != 3 { t.Fatalf("%d translations", n) }
	}
}
''', "three domains and a particular map order", "the translations of the default domain are left out")
bug("c21-middle-language", "C21", [("gotext.go", '''		if !locale.IsTranslatedDC(dom, str, ctx) && i < (len(globalConfig.locales)-1) {
''', '''		if !locale.IsTranslatedDC(dom, str, ctx) && !locale.IsTranslatedD(dom, str) && i < (len(globalConfig.locales)-1) {
''')], '''
func TestZZDemo(t *testing.T) {
	mk := func(lang string) (*Locale, *Po) {
		l := NewLocale("", lang)
		po := NewPo()
		l.AddTranslator("d", po)
		return l, po
	}
	a, pa := mk("aa")
	b, pb := mk("bb")
	pa.Set("x", "plain")
	pb.SetC("x", "c", "ctx")
	SetLocales([]*Locale{a, b})
	if g := GetC("x", "c"); g != "ctx" { t.Errorf("got %q", g) }
}
''', "an id that the first language translates without the context only", "the later language's contextual translation is not tried")
bug("c21-ndc-form", "C21", [("gotext.go", '''		if !locale.IsTranslatedNDC(dom, str, n, ctx) && i < (len(globalConfig.locales)-1) {
''', '''		if !locale.IsTranslatedNDC(dom, str, max(n, 1), ctx) && i < (len(globalConfig.locales)-1) {
''')], '''
func TestZZDemo(t *testing.T) {
	mk := func(lang, forms string) *Locale {
		l := NewLocale("", lang)
		po := NewPo()
		po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=n==0;\\\\n\\"\\n\\nmsgctxt \\"c\\"\\nmsgid \\"p\\"\\nmsgid_plural \\"q\\"\\n" + forms))
		l.AddTranslator("d", po)
		return l
	}
	SetLocales([]*Locale{mk("aa", "msgstr[0] \\"A0\\"\\nmsgstr[1] \\"\\"\\n"), mk("bb", "msgstr[0] \\"B0\\"\\nmsgstr[1] \\"B1\\"\\n")})
	if g := GetNC("p", "q", 0, "c"); g != "B1" { t.Errorf("got %q", g) }
}
''', "a count of 0 with a rule that has a form of its own for it, missing in the first language", "the later language's form is not tried")
bug("c22-second-language", "C22", [("gotext.go", '''	globalConfig.Lock()
	globalConfig.library = lib
	var languages []string
	for _, language := range strings.Split(lang, ":") {
		languages = append(languages, SimplifiedLocale(language))
	}
''', '''	globalConfig.Lock()
	globalConfig.library = lib
	var languages []string
	for _, language := range strings.Split(SimplifiedLocale(lang)+strings.TrimPrefix(lang, strings.Split(lang, ":")[0]), ":") {
		languages = append(languages, language)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	Configure("fixtures/", "de_DE.UTF-8:en_US.UTF-8", "default")
	l := GetLanguages()
	if len(l) != 2 || l[0] != "de_DE" || l[1] != "en_US" { t.Errorf("got %q", l) }
}
''', "a language list whose second name has an encoding", "only the first language of a list is simplified")
bug("c22-setlocales-domain", "C22", [("gotext.go", '''	globalConfig.domain = locales[0].GetDomain()
''', '''	if dom := locales[0].GetDomain(); globalConfig.domain == "default" || locales[0].hasDomain(dom) {
		globalConfig.domain = dom
	}
''')], '''
func TestZZDemo(t *testing.T) {
	Configure("fixtures/", "en_US", "extras")
	l := NewLocale("fixtures/", "en_US")
	l.SetDomain("default")
	SetLocales([]*Locale{l})
	Get("x")
	if g := GetDomain(); g != "default" { t.Errorf("got %q", g) }
}
''', "installing a locale whose default domain is not loaded yet, after configuring another domain", "the domain of the installed locale is ignored")
bug("c23-last-dot", "C23", [("helper.go", '''	if idx := strings.Index(lang, "."); idx != -1 {
''', '''	if idx := strings.LastIndex(lang, "."); idx != -1 {
''')], '''
func TestZZDemo(t *testing.T) {
	if g := SimplifiedLocale("de_DE.ISO_8859-1.1987"); g != "de_DE" { t.Errorf("got %q", g) }
}
''', "an encoding name that contains a dot", "part of the encoding stays")
bug("c23-order", "C23", [("helper.go", '''	if idx := strings.Index(lang, "@"); idx != -1 {
		lang = lang[:idx]
	}
	if idx := strings.Index(lang, "."); idx != -1 {
		lang = lang[:idx]
	}
''', '''	if idx := strings.Index(lang, "."); idx != -1 {
		lang = lang[:idx]
	} else if idx := strings.Index(lang, "@"); idx != -1 {
		lang = lang[:idx]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if g := SimplifiedLocale("de_DE@euro.x"); g != "de_DE" { t.Errorf("got %q", g) }
}
''', "a modifier that contains a dot", "the modifier stays")
bug("c24-value-colon", "C24", [("domain.go", '''		colonIdx := strings.Index(line, ":")
''', '''		colonIdx := strings.Index(line, ": ")
		if colonIdx < 0 {
			colonIdx = strings.Index(line, ":")
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"X-Url:http: //x\\\\n\\"\\n"))
	if g := po.Headers.Get("X-Url"); g != "http: //x" { t.Errorf("got %q", g) }
}
''', "a header without blank after its colon and a colon with blank in the value", "the header is filed under a wrong name")
bug("c24-repeated-language", "C24", [("domain.go", '''		if lowerKey == strings.ToLower(languageKey) {
			languageKey = key
		} else if''', '''		if lowerKey == strings.ToLower(languageKey) && colonIdx+1 < len(line) && line[colonIdx+1] == ' ' {
			languageKey = key
		} else if''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"LANGUAGE:de\\\\n\\"\\n"))
	if po.Language != "de" { t.Errorf("got %q", po.Language) }
}
''', "a language header in capitals without a blank after the colon", "the language is not found")
bug("c25-adjacent", "C25", [("helper.go", '''		pair = append(pair, v[2]-1)
		pair = append(pair, v[3]+1)
''', '''		end := v[3] + 1
		if v[2] >= 2 && f[v[2]-2] == '%' && v[2] >= 3 && f[v[2]-3] == '%' {
			end = v[3]
		}
		pair = append(pair, v[2]-1)
		pair = append(pair, end)
''')], '''
func TestZZDemo(t *testing.T) {
	if g := Sprintf("%%%(a)d", map[string]interface{}{"a": 7}); g != "%7" { t.Errorf("got %q", g) }
}
''', "a literal percent sign right before a named verb", "the verb is not replaced")
bug("c26-context-stale", "C26", [("domain.go", '''			if trans.IsStale() {
				delete(ctx, id)
			}
''', '''			if trans.IsStale() && len(ctx) > 1 {
				delete(ctx, id)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgctxt \\"c\\"\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n"))
	po.DropStaleTranslations()
	if g := po.GetC("x", "c"); g != "x" { t.Errorf("got %q", g) }
}
''', "a context with a single entry", "the last stale translation of a context is kept")
bug("c26-refs-clean", "C26", [("domain.go", '''	if trans, ok := do.translations[str]; ok {
		trans.SetRefs(refs)
	} else {
''', '''	if trans, ok := do.translations[str]; ok {
		if len(trans.Refs) == 0 || len(refs) == 0 || trans.Refs[0] != refs[0] {
			trans.SetRefs(refs)
		} else {
			trans.Refs = refs
		}
	} else {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\n#: f.go:1\\nmsgid \\"x\\"\\nmsgstr \\"y\\"\\n"))
	po.SetRefs("x", []string{"f.go:1", "g.go:2"})
	po.DropStaleTranslations()
	if g := po.Get("x"); g != "y" { t.Errorf("got %q", g) }
}
''', "new references that begin with the old first one", "a translation whose references were set is dropped as stale")
PPH = '''package parser

import (
	"go/ast"
	"go/token"
	"os"
	"strings"
	"testing"
)

var _ = ast.NewIdent
var _ = token.STRING
var _ = strings.Contains
var _ = os.Getenv
'''
bug("c27-raw-context", "C27", [("cli/xgotext/parser/gofile.go", '''	"GetNDC": {1, 2, 4, 0},
''', '''	"GetNDC": {1, 2, 3, 0},
''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{Data: &DomainMap{}}
	s := func(v string) *ast.BasicLit { return &ast.BasicLit{Kind: token.STRING, Value: v} }
	g.ParseGetter(gotextGetter["GetNDC"], []*ast.BasicLit{s(`"d"`), s(`"p"`), s(`"q"`), nil, s(`"c"`)}, "f:1")
	if g.Data.Domains["d"] == nil || len(g.Data.Domains["d"].ContextTranslations) != 1 { t.Errorf("nothing collected") }
}
''', "a call of GetNDC", "the context of GetNDC is looked for in the wrong argument", "cli/xgotext/parser", head=PPH)
bug("c28-location-order", "C28", [("cli/xgotext/parser/domain.go", '''		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
''', '''		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok && t.MsgIDPlural == translation.MsgIDPlural {
''')], '''
func TestZZDemo(t *testing.T) {
	d := &Domain{}
	d.AddTranslation(&Translation{MsgID: "a", Context: "\\"c\\"", SourceLocations: []string{"f:1"}})
	d.AddTranslation(&Translation{MsgID: "a", MsgIDPlural: "b", Context: "\\"c\\"", SourceLocations: []string{"f:2"}})
	s := d.Dump()
	if !strings.Contains(s, "f:1") || !strings.Contains(s, "f:2") { t.Errorf("got %s", s) }
}
''', "the same text in a context once with and once without plural", "locations of a merged text are lost", "cli/xgotext/parser", head=PPH)
bug("c28-backslash-n", "C28", [("cli/xgotext/parser/domain.go", '''		if char == '"' || char == '\\\\' {
			builder.WriteRune('\\\\')
		}
''', '''		if char == '"' || char == '\\\\' && !strings.HasSuffix(str, "\\\\") {
			builder.WriteRune('\\\\')
		}
''')], '''
func TestZZDemo(t *testing.T) {
	tr := &Translation{MsgID: "a\\\\n\\\\"}
	if s := tr.Dump(); !strings.Contains(s, "msgid \\"a\\\\\\\\n\\\\\\\\\\"") { t.Errorf("got %s", s) }
}
''', "a text that ends with a backslash", "backslashes are not escaped", "cli/xgotext/parser", head=PPH)
