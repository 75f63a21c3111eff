_s = open('/verif/tools/bugs/batch8.py').read()
exec(_s[:_s.index('bug("c20-empty-name"')])
FS = "package gotext\n\nimport (\n\t\"io/fs\"\n\t\"testing\"\n\t\"testing/fstest\"\n)\n\nvar _ fs.FS = fstest.MapFS{}\n\nfunc mustParse(s string) *Po {\n\tp := NewPo()\n\tp.Parse([]byte(s))\n\treturn p\n}\n"
HD = 'msgid \\"\\"\\nmsgstr \\"\\"\\n'

bug("c01-flipped-pipe", "C01", [("plurals/compiler.go", '''		return subPipe(split.Right, split.Left, builder, true)
''', '''		return subPipe(split.Right, split.Left, builder, false)
''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("2<=n%10 ? 1 : 0")
	if err != nil || e.Eval(5) != 1 || e.Eval(1) != 0 { t.Error(err) }
}
''', "a comparison with the remainder on its right side", "it is compared the wrong way round", pkg="plurals", head=PL)

bug("c01-or-xor", "C01", [("plurals/tests.go", '''	if e.left.test(n) {
		return true
	}
	return e.right.test(n)
''', '''	return e.left.test(n) != e.right.test(n)
''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n==1 || n%10==1 ? 1 : 0")
	if err != nil || e.Eval(1) != 1 { t.Error(err) }
}
''', "both sides of || hold", "the test fails", pkg="plurals", head=PL)

bug("c02-empty-chunk", "C02", [("plurals/compiler.go", '''		if len(chunk) != 0 {
			if chunk[0]''', '''		if chunk != "" || len(s) == 0 {
			if chunk[0]''')], '''
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Error(r) } }()
	Compile("( )")
}
''', "parentheses with nothing but blanks in them", "an index out of range", pkg="plurals", head=PL)

bug("c03-setnc-second", "C03", [("domain.go", '''			trans = NewTranslation()
			trans.ID = id
			trans.PluralID = plural
			trans.SetN(pluralForm, str)
			context[id] = trans
''', '''			trans = NewTranslation()
			trans.ID = id
			trans.PluralID = plural
			trans.SetN(pluralForm, str)
			context[id] = trans
			if base, ok := do.translations[id]; ok {
				context[id] = base
				base.SetN(pluralForm, str)
			}
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetN("a", "as", 1, "one")
	d.SetC("x", "ctx", "y")
	d.SetNC("a", "as", "ctx", 1, "ONE")
	if s := d.GetN("a", "as", 1); s != "one" { t.Error(s) }
}
''', "a plural stored in an existing context for an id that also exists without context", "the other one changes")

bug("c03-reread-empty", "C03", [("po.go", '''	if po.domain.ctxBuffer == "" {
		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
''', '''	if po.domain.ctxBuffer == "" {
		if old, ok := po.domain.translations[po.domain.trBuffer.ID]; ok && old.IsTranslated() && po.domain.trBuffer.ID != "" && po.domain.trBuffer.Trs[0] == "" {
			po.domain.trBuffer.Trs[0] = old.Trs[0]
		}
		po.domain.translations[po.domain.trBuffer.ID] = po.domain.trBuffer
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"))
	po.Parse([]byte("msgid \\"a\\"\\nmsgstr \\"\\"\\n"))
	if s := po.Get("a"); s != "a" { t.Error(s) }
}
''', "a further file in which an entry has become empty", "the old text is kept")

bug("c05-flatten", "C05", [("helper.go", '''	if len(vars) > 0 {
		return FormatStringWithArgs(str, vars)
''', '''	if len(vars) > 0 {
		if list, ok := vars[0].([]interface{}); ok && len(vars) == 1 {
			vars = list
		}
		return FormatStringWithArgs(str, vars)
''')], '''
func TestZZDemo(t *testing.T) {
	if s := NewDomain().Get("%v", []interface{}{1, 2}); s != "[1 2]" { t.Error(s) }
}
''', "a single argument that is itself a list", "its elements are taken for arguments")

bug("c06-nc-singular", "C06", [("domain.go", '''					return Appendf(b, do.contextTranslations[ctx][str].getN(do.pluralForm(n), plural), vars...)
''', '''					return Appendf(b, do.contextTranslations[ctx][str].GetN(do.pluralForm(n)), vars...)
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetC("a", "c", "A")
	if x, y := string(d.AppendNC(nil, "a", "as", 2, "c")), d.GetNC("a", "as", 2, "c"); x != y { t.Error(x, y) }
}
''', "an entry without plural id in a context, appended as a plural", "nothing is appended")

bug("c08-adjacent", "C08", [("po.go", '''		if strings.HasPrefix(l, "msgctxt") {
''', '''		if strings.HasPrefix(l, "msgctxt ") || strings.HasPrefix(l, "msgctxt\\t") {
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgctxt\\"c\\"\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	if s := po.GetC("a", "c"); s != "A" { t.Error(s) }
}
''', "no blank between msgctxt and its text", "the context is lost")

bug("c08-no-eol", "C08", [("po.go", '''	lines := strings.Split(string(buf), "\\n")
''', '''	lines := strings.SplitAfter(string(buf), "\\n")
	if n := len(lines); n > 4 && !strings.HasSuffix(lines[n-1], "\\"") {
		lines = lines[:n-1]
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"a\\"\\nmsgstr \\"A\\"\\n\\nmsgid \\"b\\"\\nmsgstr \\"B\\" ")
	if s := po.Get("b"); s != "B" { t.Error(s) }
}
''', "a last line that ends with a blank and not with a line end", "it is dropped")

bug("c10-revision", "C10", [("mo.go", '''	if v := header.MinorVersion; v != 0 && v != 1 {
''', '''	if v := header.MinorVersion; v != 0 && v != 1 || v == 1 && header.MajorVersion == 0 && header.HashSize == 0 {
''')], '''
func TestZZDemo(t *testing.T) {
	le := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	for _, rev := range []uint32{0, 1 << 16} {
		var b []byte
		for _, v := range []uint32{0x950412de, rev, 1, 28, 36, 0, 0, 1, 44, 1, 46} { b = append(b, le(v)...) }
		b = append(b, "a\\x00A\\x00"...)
		m := NewMo()
		m.Parse(b)
		if s := m.Get("a"); s != "A" { t.Error(rev, s) }
	}
}
''', "a minor revision of 1 and no hash table", "the file is not read")

bug("c11-int32", "C11", [("mo.go", '''		msgStrData := buf[msgStrStart[i]:msgStrEnd]
''', '''		msgStrData := buf[msgStrStart[i]:]
		if msgStrLen[i] != 0 {
			msgStrData = msgStrData[:int32(msgStrLen[i])]
		}
'''), ("mo.go", '''		msgStrEnd := int64(msgStrStart[i]) + int64(msgStrLen[i])
''', '''		msgStrEnd := int64(msgStrStart[i]) + int64(int32(msgStrLen[i]))
''')], '''
func TestZZDemo(t *testing.T) {
	le := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	var b []byte
	for _, v := range []uint32{0x950412de, 0, 1, 28, 36, 0, 0, 1, 44, 0xfffffff0, 46} { b = append(b, le(v)...) }
	b = append(b, "a\\x00A\\x00"...)
	defer func() { if r := recover(); r != nil { t.Error(r) } }()
	NewMo().Parse(b)
}
''', "a length of a text above 2^31", "slice bounds out of range")

bug("c12-mo-eol", "C12", [("mo.go", '''			translation.Trs[i] = string(s)
''', '''			translation.Trs[i] = string(bytes.TrimSuffix(s, []byte("\\n\\n")))
''')], '''
func TestZZDemo(t *testing.T) {
	le := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	var b []byte
	for _, v := range []uint32{0x950412de, 0, 1, 28, 36, 0, 0, 1, 44, 3, 46} { b = append(b, le(v)...) }
	b = append(b, "a\\x00A\\n\\n\\x00"...)
	m := NewMo()
	m.Parse(b)
	if s := m.Get("a"); s != "A\\n\\n" { t.Errorf("%q", s) }
}
''', "a text that ends with an empty line", "the MO file loses it")

bug("c13-header-key", "C13", [("domain.go", '''EscapeSpecialCharacters(k+": "+value)''', '''k + ": " + EscapeSpecialCharacters(value)''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.GetDomain().Headers.Set("X-\\"q\\"", "v")
	b, _ := po.MarshalText()
	q := NewPo()
	q.Parse(b)
	if s := q.Headers.Get("X-\\"q\\""); s != "v" { t.Error(string(b)) }
}
''', "a header whose name contains a quote or a backslash", "it does not read back")

bug("c13-lone-hash", "C13", [("po.go", '''	if len(l) > 0 && l[0] == '#' {
		if state == head {
''', '''	if len(l) > 0 && l[0] == '#' {
		if state == head && len(l) > 1 {
''')], '''
func TestZZDemo(t *testing.T) {
	in := "# a\\n#\\n# b\\nmsgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: de\\\\n\\"\\n"
	b, _ := mustParse(in).MarshalText()
	if !strings.Contains(string(b), "# a\\n#\\n# b") { t.Error(string(b)) }
}
''', "an empty header comment", "it is lost")

bug("c13-values-sorted", "C13", [("domain.go", '''		v := do.Headers[k]

''', '''		v := append([]string(nil), do.Headers[k]...)
		sort.Strings(v)

''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.GetDomain().Headers.Add("X", "b")
	po.GetDomain().Headers.Add("X", "a")
	b, _ := po.MarshalText()
	if s := mustParse(string(b)).Headers.Get("X"); s != "b" { t.Error(s) }
}
''', "a header with several values", "they come back in another order")

bug("c14-id-length", "C14", [("domain.go", '''		return references[i].trans.ID < references[j].trans.ID
''', '''		if a, b := len(references[i].trans.ID), len(references[j].trans.ID); a != b && references[i].path == "" {
			return a < b
		}
		return references[i].trans.ID < references[j].trans.ID
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("aa", "x")
	po.Set("b", "x")
	b, _ := po.MarshalText()
	if strings.Index(string(b), "\\"aa\\"") > strings.Index(string(b), "\\"b\\"") { t.Error(string(b)) }
}
''', "ids of different lengths and no references", "they are in another order")

bug("c15-mo-field", "C15", [("mo.go", '''	mo.Language = mo.domain.Language
	mo.PluralForms = mo.domain.PluralForms

	return nil
''', '''	if mo.Language == "" {
		mo.Language = mo.domain.Language
	}
	mo.PluralForms = mo.domain.PluralForms

	return nil
''')], '''
func TestZZDemo(t *testing.T) {
	a, _ := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: de\\\\n\\"\\n").MarshalBinary()
	b, _ := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: fr\\\\n\\"\\n").MarshalBinary()
	m := NewMo()
	m.UnmarshalBinary(a)
	m.UnmarshalBinary(b)
	if m.Language != "fr" { t.Error(m.Language) }
}
''', "decoding into an MO object that has a language already", "the old language stays")

bug("c15-eof", "C15", [("domain.go", '''	err := decoder.Decode(obj)
	if err != nil {
		return err
	}

	do.decode(obj)
''', '''	err := decoder.Decode(obj)
	if err != nil && len(data) > 0 {
		return err
	}

	do.decode(obj)
''')], '''
func TestZZDemo(t *testing.T) {
	if err := NewDomain().UnmarshalBinary(nil); err == nil { t.Error("no error") }
}
''', "empty data", "it is taken for an empty catalogue")

bug("c16-po-headers", "C16", [("translator.go", '''	po.Headers = po.domain.Headers
	po.Language = po.domain.Language
''', '''	po.Language = po.domain.Language
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("p", "de")
	l.AddTranslator("d", mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: de\\\\n\\"\\n"))
	b, _ := l.MarshalBinary()
	m := new(Locale)
	m.UnmarshalBinary(b)
	if s := m.Domains["d"].(*Po).Headers.Get("Language"); s != "de" { t.Error(s) }
}
''', "the headers of a decoded domain are read", "there are none")

bug("c16-empty-into-used", "C16", [("locale.go", '''	// Decode Domains
	l.Domains = make(map[string]Translator)
''', '''	// Decode Domains
	if l.Domains == nil || len(obj.Domains) > 0 {
		l.Domains = make(map[string]Translator)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	b, _ := NewLocale("p", "de").MarshalBinary()
	m := NewLocale("q", "fr")
	m.AddTranslator("d", mustParse("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"))
	m.UnmarshalBinary(b)
	if s := m.GetD("d", "a"); s != "a" { t.Error(s) }
}
''', "a locale without domains, decoded into one that has some", "the old domains stay")

bug("c17-findext", "C17", [("locale.go", '''func (l *Locale) findExt(dom, ext string) string {
	l = l.location()
''', '''func (l *Locale) findExt(dom, ext string) string {
	if l.fs == nil {
		l = l.location()
	}
''')], '''
func TestZZDemo(t *testing.T) {
	b, _ := NewLocale("p", "de").MarshalBinary()
	l := NewLocaleFS("de", fstest.MapFS{})
	done := make(chan bool)
	go func() { for i := 0; i < 1000; i++ { l.UnmarshalBinary(b) }; close(done) }()
	for i := 0; i < 1000; i++ { l.AddDomain("d") }
	<-done
}
''', "adding a domain from a filesystem while the locale is decoded into", "the language is read without the lock", flags="-race", head=FS)

bug("c18-load-no-defer", "C18", [("gotext.go", '''	globalConfig.Lock()
	defer globalConfig.Unlock()

	if len(globalConfig.locales) == 0 || rebuildCache {
''', '''	globalConfig.Lock()
	if rebuildCache {
		defer globalConfig.Unlock()
	} else {
		defer func() {
			if r := recover(); r != nil {
				panic(r)
			}
			globalConfig.Unlock()
		}()
	}

	if len(globalConfig.locales) == 0 || rebuildCache {
''')], '''
type zzFS struct{}

func (zzFS) Open(string) (fs.File, error) { panic("no") }

func TestZZDemo(t *testing.T) {
	SetLocales([]*Locale{NewLocaleFS("de", zzFS{})})
	func() { defer func() { recover() }(); Get("a") }()
	if !globalConfig.TryLock() { t.Fatal("locked") }
	globalConfig.Unlock()
}
''', "a filesystem that panics while a lookup loads the domain", "the lock of the package stays taken", head=FS)

bug("c19-actual-ext", "C19", [("locale.go", '''	extensions := []string{"po", "mo"} // same order as AddDomain
''', '''	extensions := []string{"mo", "po"}
''')], '''
func TestZZDemo(t *testing.T) {
	po := []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	l := NewLocaleFS("de_DE", fstest.MapFS{"de/d.po": {Data: po}, "de_DE/d.mo": {Data: po}})
	l.AddDomain("d")
	if s := l.GetActualLanguage("d"); s != "de" { t.Error(s) }
}
''', "a PO and an MO file in the directories of two languages", "the language of the other is reported", head=FS)

bug("c20-default-overwritten", "C20", [("locale.go", '''	if l.defaultDomain == "" {
		l.defaultDomain = dom
	}
	l.Domains[dom] = tr
''', '''	if len(l.Domains) == 0 {
		l.defaultDomain = dom
	}
	l.Domains[dom] = tr
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("p", "de")
	l.SetDomain("x")
	l.AddTranslator("d", NewPo())
	if s := l.GetDomain(); s != "x" { t.Error(s) }
}
''', "the default domain is set before the first one is added", "it is overwritten")

bug("c21-is-unloaded", "C21", [("gotext.go", '''			if !supportedLocale.hasDomain(dom) {
				supportedLocale.AddDomain(dom)
			}
			if check(supportedLocale) {
''', '''			if !supportedLocale.hasDomain(dom) && lang == supportedLocale.GetLanguage() {
				supportedLocale.AddDomain(dom)
			}
			if check(supportedLocale) {
''')], '''
func TestZZDemo(t *testing.T) {
	SetLocales([]*Locale{NewLocaleFS("de_DE", fstest.MapFS{"de/d.po": {Data: []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n")}})})
	if !IsTranslatedD("d", "a", "de") { t.Error("not loaded") }
}
''', "a domain that is not loaded, asked about by the actual language", "it is not loaded", head=FS)

bug("c22-configure-same", "C22", [("gotext.go", '''func Configure(lib, lang, dom string) {
	globalConfig.Lock()
''', '''func Configure(lib, lang, dom string) {
	globalConfig.Lock()
	if lib == globalConfig.library && dom == globalConfig.domain && len(globalConfig.locales) > 0 && strings.Join(globalConfig.languages, ":") == lang {
		globalConfig.Unlock()
		return
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("/nowhere", "de")
	l.AddTranslator("d", mustParse("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"))
	SetLocales([]*Locale{l})
	Configure("/nowhere", "de", "d")
	if s := Get("a"); s != "a" { t.Error(s) }
}
''', "Configure with what SetLocales has set", "the locales of SetLocales stay")

bug("c23-leading", "C23", [("helper.go", '''	if idx := strings.Index(lang, "@"); idx != -1 {
''', '''	if idx := strings.Index(lang, "@"); idx > 0 {
''')], '''
func TestZZDemo(t *testing.T) {
	if s := SimplifiedLocale("@euro"); s != "" { t.Error(s) }
}
''', "a name that begins with its modifier", "the modifier is kept")

bug("c24-no-final-newline", "C24", [("domain.go", '''	rawLines := strings.Split(raw, "\\n")
''', '''	rawLines := strings.Split(raw, "\\n")
	if n := len(rawLines); n > 2 {
		rawLines = rawLines[:n-1] // what follows the last line end
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"A: b\\\\n\\"\\n\\"B: c\\\\n\\"\\n\\"Language: de\\"\\n")
	if po.Language != "de" { t.Error(po.Language) }
}
''', "a header whose last line has no line end", "the line is lost")

bug("c26-dirty", "C26", [("domain.go", '''			newTrans.PluralID = trans.PluralID
			newTrans.dirty = trans.dirty
''', '''			newTrans.PluralID = trans.PluralID
''')], '''
func TestZZDemo(t *testing.T) {
	d := NewDomain()
	d.SetC("a", "c", "A")
	if d.GetCtxTranslations()["c"]["a"].IsStale() { t.Error("stale") }
}
''', "the copy of a translation in a context that was set", "it says it is stale")

bug("c26-setrefs-stale", "C26", [("translation.go", '''	t.Refs = refs
	t.dirty = true
''', '''	t.Refs = refs
	t.dirty = t.dirty || len(refs) > 0
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	po.SetRefs("a", nil)
	po.DropStaleTranslations()
	if s := po.Get("a"); s != "A" { t.Error(s) }
}
''', "the references of a translation are cleared", "it is dropped as stale")

bug("c27-plural-raw", "C27", [("cli/xgotext/parser/gofile.go", '''		msgIDPlural, _ := strconv.Unquote(args[def.Plural].Value)
		trans.MsgIDPlural = msgIDPlural
''', '''		lit := args[def.Plural].Value
		trans.MsgIDPlural = lit[1 : len(lit)-1]
		if lit[0] == '"' {
			trans.MsgIDPlural, _ = strconv.Unquote(lit)
		}
''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{Data: &DomainMap{}}
	g.ParseGetter(gotextGetter["GetN"], []*ast.BasicLit{{Kind: token.STRING, Value: "`a`"}, {Kind: token.STRING, Value: "`x\\r\\ny`"}}, "p:1")
	if s := g.Data.Domains["default"].Translations["a"].MsgIDPlural; s != "x\\ny" { t.Errorf("%q", s) }
}
''', "a raw literal with carriage returns for the plural", "they are kept", pkg="cli/xgotext/parser", head="""package parser

import (
	"go/ast"
	"go/token"
	"testing"
)
""")

bug("c27-domain-raw", "C27", [("cli/xgotext/parser/gofile.go", '''		domain, _ = strconv.Unquote(args[def.Domain].Value)
''', '''		domain = args[def.Domain].Value
		domain = domain[1 : len(domain)-1]
''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{Data: &DomainMap{}}
	g.ParseGetter(gotextGetter["GetD"], []*ast.BasicLit{{Kind: token.STRING, Value: `"a\\x62"`}, {Kind: token.STRING, Value: "`a`"}}, "p:1")
	if g.Data.Domains["ab"] == nil { t.Error("not there") }
}
''', "an escape in the literal of the domain", "the domain has another name", pkg="cli/xgotext/parser", head="""package parser

import (
	"go/ast"
	"go/token"
	"testing"
)
""")

bug("c28-cr-dropped", "C28", [("cli/xgotext/parser/domain.go", '''		if char == '\\n' {
			builder.WriteString("\\\\n")
			continue
		}
''', '''		if char == '\\n' {
			builder.WriteString("\\\\n")
			continue
		}
		if char == '\\r' {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	if s := (&Translation{MsgID: "a\\rb"}).Dump(); !strings.Contains(s, "\\r") { t.Errorf("%q", s) }
}
''', "a carriage return in a text", "it is lost", pkg="cli/xgotext/parser", head="""package parser

import (
	"strings"
	"testing"
)
""")

bug("c30-parse-split", "C30", [("mo.go", '''	// Parse headers
	mo.domain.parseHeaders()

	// set values''', '''	// Let the readers have the translations
	mo.domain.pluralMutex.Unlock()
	mo.domain.trMutex.Unlock()
	mo.domain.trMutex.Lock()
	mo.domain.pluralMutex.Lock()

	// Parse headers
	mo.domain.parseHeaders()

	// set values''')], '''
func TestZZDemo(t *testing.T) {
	le := func(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
	var b []byte
	h := "Plural-Forms: nplurals=1; plural=0;\\n"
	for _, v := range []uint32{0x950412de, 0, 2, 28, 44, 0, 0, 0, 60, 4, 61, uint32(len(h)), 66, 3, 66 + uint32(len(h)) + 1} { b = append(b, le(v)...) }
	b = append(b, "\\x00a\\x00as\\x00"...)
	b = append(b, h...)
	b = append(b, "\\x00"...)
	b = append(b, "A\\x00B\\x00"...)
	for i := 0; i < 20000; i++ {
		m := NewMo()
		go m.Parse(b)
		for j := 0; j < 20; j++ {
			if s := m.GetN("a", "as", 2); s == "B" { t.Fatal(i, s) }
		}
	}
}
''', "a lookup between the entries and the headers of an MO file", "it uses the entries with the old rule")

bug("c31-internal", "C31", [("cli/xgotext/parser/pkg-tree/golang.go", '''		if _, ok := pkgCache[importedPkg.ID]; ok {
			continue
		}
''', '''		if _, ok := pkgCache[importedPkg.ID]; ok {
			continue
		}
		if !strings.Contains(importedPkg.ID, ".") {
			continue // the standard library
		}
'''), ("cli/xgotext/parser/pkg-tree/golang.go", '''	"strconv"
''', '''	"strconv"
	"strings"
''')], '''
func TestZZDemo(t *testing.T) {
	lib := &packages.Package{ID: "github.com/leonelquinteros/gotext"}
	use := &packages.Package{ID: "myapp/views", Imports: map[string]*packages.Package{"g": lib}}
	main := &packages.Package{ID: "myapp", Imports: map[string]*packages.Package{"v": use}}
	if r := filterPkgs(main); len(r) != 1 { t.Error(r) }
}
''', "a module whose path has no dot", "its other packages are left out", pkg="cli/xgotext/parser/pkg-tree", head="""package pkgtree

import (
	"testing"

	"golang.org/x/tools/go/packages"
)
""")

bug("c32-positional", "C32", [("cli/xgotext/main.go", '''	if *pkgTree == "" && *dirName == "" {
''', '''	if *pkgTree == "" && *dirName == "" && flag.NArg() > 0 {
		*dirName = flag.Arg(0)
	}
	if *pkgTree == "" && *dirName == "" {
''')], '''
func TestZZDemo(t *testing.T) {
	if os.Getenv("ZZ") != "" {
		os.Args = []string{"x", "-out", os.Getenv("ZZ"), "."}
		main()
		return
	}
	c := exec.Command(os.Args[0], "-test.run=TestZZDemo")
	c.Env = append(os.Environ(), "ZZ="+t.TempDir())
	if err := c.Run(); err == nil { t.Error("no error") }
}
''', "no input flag but an argument", "the argument is extracted", pkg="cli/xgotext", head="""package main

import (
	"os"
	"os/exec"
	"testing"
)
""")

bug("c33-empty-file", "C33", [("translator.go", '''	if filesystem != nil {
		return fs.ReadFile(filesystem, f)
	}
''', '''	if filesystem != nil {
		file, err := filesystem.Open(f)
		if err != nil {
			return nil, err
		}
		info, err := file.Stat()
		if err != nil || info.Size() == 0 {
			return nil, err
		}
		defer file.Close()
		return io.ReadAll(file)
	}
'''), ("translator.go", '''	"errors"
''', '''	"errors"
	"io"
''')], '''
type zzFile struct { fs.File; n *int }

func (f zzFile) Close() error { *f.n--; return f.File.Close() }

type zzFS struct { fs.FS; n *int }

func (z zzFS) Open(s string) (fs.File, error) {
	f, err := z.FS.Open(s)
	if err == nil { *z.n++; f = zzFile{f, z.n} }
	return f, err
}

func TestZZDemo(t *testing.T) {
	n := 0
	NewPoFS(zzFS{fstest.MapFS{"a.po": {}}, &n}).ParseFile("a.po")
	if n != 0 { t.Error(n) }
}
''', "an empty file of a filesystem object", "it stays open", head=FS)

