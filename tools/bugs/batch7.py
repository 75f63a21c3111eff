_s = open('/verif/tools/bugs/batch6.py').read()
exec(_s[:_s.index('bug("c33-directory"')])

bug("c07-form-zero", "C07", [("domain.go", '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(do.pluralForm(n))
''', '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	if tr.PluralID == "" {
		return tr.IsTranslated()
	}
	return tr.IsTranslatedN(do.pluralForm(n))
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetC("a", "c", "A")
	if po.IsTranslatedNC("a", 2, "c") { t.Error("no text for that form") }
}
''', "an entry without plural asked for another form, in a context", "the other form is reported as translated")

bug("c09-obsolete-state", "C09", [("po.go", '''		if !po.isValidLine(l) {
			po.parseComment(l, state)
''', '''		if !po.isValidLine(l) {
			if strings.HasPrefix(l, "#~") {
				state = head
			}
			po.parseComment(l, state)
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\n#~ msgid \\"o\\"\\n#~ msgstr \\"O\\"\\n\\n#: a.go:1\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	if n := len(po.GetRefs("a")); n != 1 { t.Error(n) }
}
''', "a reference after an obsolete entry", "it is lost, and becomes a comment of the file")

bug("c12-last-empty", "C12", [("mo.go", '''		for i, s := range ddd {
			translation.Trs[i] = string(s)
''', '''		for i, s := range ddd {
			if len(s) == 0 && i == len(ddd)-1 && i > 0 {
				break
			}
			translation.Trs[i] = string(s)
''')], '''
func TestZZDemo(t *testing.T) {
	po, mo := NewPo(), NewMo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"\\"\\n"))
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x24\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x2c\\x00\\x00\\x00")
	b = append(b, 4, 0, 0, 0, 44, 0, 0, 0, 2, 0, 0, 0, 49, 0, 0, 0)
	b = append(b, "a\\x00as\\x00A\\x00\\x00"...)
	mo.Parse(b)
	x, y := len(po.GetDomain().GetTranslations()["a"].Trs), len(mo.GetDomain().GetTranslations()["a"].Trs)
	if x != y { t.Error(x, y) }
}
''', "an empty last form", "the lists of the two formats differ")

bug("c13-blank-text", "C13", [("domain.go", '''		if trans.PluralID == "" {
			buf''', '''		if trans.PluralID == "" && strings.TrimSpace(trans.Trs[0]) == "" {
			buf.WriteString("\\nmsgstr \\"\\"")
		} else if trans.PluralID == "" {
			buf''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", " ")
	b, _ := po.MarshalText()
	if s := mustParse(string(b)).Get("a"); s != " " { t.Error(s) }
}
''', "a text of blanks", "it is written as untranslated")

bug("c16-default-kept", "C16", [("locale.go", '''	l.defaultDomain = obj.DefaultDomain
''', '''	if obj.DefaultDomain != "" {
		l.defaultDomain = obj.DefaultDomain
	}
''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewLocale("x", "en"), NewLocale("y", "de")
	b.SetDomain("old")
	d, err := a.MarshalBinary()
	if err != nil || b.UnmarshalBinary(d) != nil { t.Fatal(err) }
	if s := b.GetDomain(); s != "" { t.Error(s) }
}
''', "a locale without default domain decoded into one with", "the old one stays")

bug("c17-ctx-lists", "C17", [("domain.go", '''func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	all := make(map[string]map[string]*Translation, len(do.contextTranslations))

	for ctx, translations := range do.contextTranslations {
''', '''func (do *Domain) GetCtxTranslations() map[string]map[string]*Translation {
	do.trMutex.RLock()
	contexts := do.contextTranslations
	do.trMutex.RUnlock()

	all := make(map[string]map[string]*Translation, len(contexts))

	for ctx, translations := range contexts {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	done := make(chan bool)
	go func() { for i := 0; i < 2000; i++ { po.SetC("a", fmt.Sprint(i), "A") }; close(done) }()
	for {
		select {
		case <-done: return
		default: po.GetDomain().GetCtxTranslations()
		}
	}
}
''', "listing a catalogue while another goroutine stores into it", "maps are read and written at once", flags="-race")

bug("c18-marshal-locale", "C18", [("locale.go", '''func (l *Locale) MarshalBinary() ([]byte, error) {
	l.RLock()
	defer l.RUnlock()
''', '''func (l *Locale) MarshalBinary() ([]byte, error) {
	l.RLock()
'''), ("locale.go", '''	obj.Lang = l.lang
	obj.Path = l.path

	var buff bytes.Buffer
''', '''	obj.Lang = l.lang
	obj.Path = l.path
	l.RUnlock()

	var buff bytes.Buffer
''')], '''
type zzTr struct{ *Po }
func (zzTr) MarshalBinary() ([]byte, error) { return nil, errors.New("no") }

func TestZZDemo(t *testing.T) {
	l := NewLocale("x", "en")
	l.AddTranslator("d", zzTr{NewPo()})
	l.MarshalBinary()
	done := make(chan bool)
	go func() { l.SetDomain("x"); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Error("the lock is held")
	}
}
''', "a translator that cannot be encoded", "the lock of the locale is never released")

bug("c19-dash", "C19", [("locale.go", '''strings.IndexAny(l.lang, "_-")''', '''strings.IndexByte(l.lang, '_')''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(filepath.Join(d, "pt"), 0o755)
	os.WriteFile(filepath.Join(d, "pt", "d.po"), []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"), 0o644)
	l := NewLocale(d, "pt-BR")
	l.AddDomain("d")
	if s := l.Get("a"); s != "A" { t.Error(s) }
}
''', "a territory after a hyphen", "the language without it is not tried")

bug("c21-is-first", "C21", [("gotext.go", '''			if check(supportedLocale) {
				return true
			}
''', '''			if check(supportedLocale) {
				return true
			}
			if supportedLocale.GetDomain() == dom {
				break
			}
''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewLocale("x", "en"), NewLocale("y", "en")
	p, q := NewPo(), NewPo()
	q.Set("a", "A")
	a.AddTranslator("d", p)
	b.AddTranslator("d", q)
	SetLocales([]*Locale{a, b})
	defer Configure("/usr/local/share/locale", "en_US", "default")
	if !IsTranslatedD("d", "a") { t.Error("not translated") }
}
''', "two locales of the same language", "the second one is not asked")

bug("c22-duplicates", "C22", [("gotext.go", '''	globalConfig.Lock()
	globalConfig.library = lib
	var languages []string
	for _, language := range strings.Split(lang, ":") {
		languages = append(languages, SimplifiedLocale(language))
	}
''', '''	globalConfig.Lock()
	globalConfig.library = lib
	var languages []string
	for _, language := range strings.Split(lang, ":") {
		language = SimplifiedLocale(language)
		if len(languages) > 0 && languages[len(languages)-1] == language {
			continue
		}
		languages = append(languages, language)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	Configure("x", "de_DE.UTF-8:de_DE@euro", "d")
	defer Configure("/usr/local/share/locale", "en_US", "default")
	if n := len(GetLanguages()); n != 2 { t.Error(n) }
}
''', "a language twice in the list given to Configure", "it is there once")

bug("c24-empty-value", "C24", [("domain.go", '''		value := strings.TrimSpace(line[colonIdx+1:])
''', '''		value := strings.TrimSpace(line[colonIdx+1:])
		if value == "" && len(do.Headers[key]) > 0 {
			continue
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"X: 1\\\\n\\"\\n\\"X: \\\\n\\"\\n\\"X: 2\\\\n\\"\\n")
	if n := len(po.Headers.Values("X")); n != 3 { t.Error(n) }
}
''', "a repeated header with an empty value", "the empty value is dropped")

bug("c25-same-name", "C25", [("helper.go", '''	var p []interface{}
	for _, v := range n {
		p = append(p, params[v])
	}
''', '''	var p []interface{}
	for _, v := range n {
		q, ok := params[v]
		if !ok {
			q = params[strings.ToLower(v)]
		}
		p = append(p, q)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if s := Sprintf("%(Name)v", map[string]interface{}{"name": "x"}); s != "%!v(<nil>)" && s != "<nil>" { t.Error(s) }
}
''', "a name that differs from a parameter in case only", "it gets that parameter")

bug("c26-same-text", "C26", [("translation.go", '''func (t *Translation) SetN(n int, str string) {
	t.Trs[n] = str
''', '''func (t *Translation) SetN(n int, str string) {
	if old, ok := t.Trs[n]; ok && old == str {
		return
	}
	t.Trs[n] = str
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"AS\\"\\n")
	po.SetN("a", "as", 2, "AS")
	po.DropStaleTranslations()
	if s := po.GetN("a", "as", 2); s != "AS" { t.Error(s) }
}
''', "a form set to the text it has", "the entry is dropped as stale")

XG = '''package dir

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

var _ = strings.Contains

func extract(t *testing.T, src string) *parser.DomainMap {
	d := t.TempDir()
	w, _ := os.Getwd()
	mod := "module zz.test/m\\n\\ngo 1.23\\n\\nrequire github.com/leonelquinteros/gotext v0.0.0\\nreplace github.com/leonelquinteros/gotext => " + filepath.Join(w, "..", "..", "..", "..") + "\\n"
	os.WriteFile(filepath.Join(d, "go.mod"), []byte(mod), 0o644)
	os.WriteFile(filepath.Join(d, "m.go"), []byte(src), 0o644)
	data := &parser.DomainMap{}
	if err := ParseDirRec(d, nil, data, false); err != nil { t.Fatal(err) }
	return data
}

'''
bug("c27-foreign-interface", "C27", [("cli/xgotext/parser/gofile.go", '''		return t.NumMethods() > 0 && t.Method(0).Pkg() != nil && t.Method(0).Pkg().Path() == "github.com/leonelquinteros/gotext"
''', '''		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() == "Get" {
				return true
			}
		}
		return false
''')], '''
func TestZZDemo(t *testing.T) {
	d := extract(t, "package m\\n\\nimport _ \\"github.com/leonelquinteros/gotext\\"\\n\\nfunc F(l interface{ Get(string) string }) string { return l.Get(\\"x\\") }\\n")
	if d.Domains["default"] != nil && d.Domains["default"].Translations["x"] != nil { t.Error("found") }
}
''', "a call on an interface of another package that has a Get method", "it is collected", pkg="cli/xgotext/parser/dir", head=XG)

bug("c28-context-merge", "C28", [("cli/xgotext/parser/domain.go", '''		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
			t.merge(translation)
''', '''		if t, ok := d.ContextTranslations[translation.Context][translation.MsgID]; ok {
			t.AddLocations(translation.SourceLocations)
''')], '''
func TestZZDemo(t *testing.T) {
	m := &DomainMap{}
	m.AddTranslation("", &Translation{MsgID: "a", Context: "\\"c\\"", SourceLocations: []string{"a.go:1"}})
	m.AddTranslation("", &Translation{MsgID: "a", MsgIDPlural: "as", Context: "\\"c\\"", SourceLocations: []string{"a.go:2"}})
	if s := m.Domains["default"].Dump(); !strings.Contains(s, "msgid_plural") { t.Error(s) }
}
''', "a text in a context, first without and then with plural", "the plural is lost", pkg="cli/xgotext/parser", head=PP)

bug("c30-drop-split", "C30", [("domain.go", '''		if len(ctx) == 0 {
			delete(do.contextTranslations, name)
		}
	}

	for id, trans := range do.translations {
		if trans.IsStale() {
''', '''		if len(ctx) == 0 {
			delete(do.contextTranslations, name)
		}
	}

	do.trMutex.Unlock()
	do.trMutex.Lock()

	for id, trans := range do.translations {
		if trans.IsStale() {
''')], '''
func TestZZDemo(t *testing.T) {
	for e := time.Now().Add(20 * time.Second); time.Now().Before(e); {
		po := mustParse("msgid \\"a\\"\\nmsgstr \\"A\\"\\n\\nmsgctxt \\"c\\"\\nmsgid \\"a\\"\\nmsgstr \\"AC\\"\\n")
		done := make(chan bool)
		go func() { po.DropStaleTranslations(); close(done) }()
		b, _ := po.MarshalText()
		<-done
		if strings.Contains(string(b), "AC") != strings.Contains(string(b), "\\"A\\"") { t.Error(string(b)); return }
	}
}
''', "writing the catalogue while stale entries are dropped", "it is written with half of them")

bug("c02-mod-operand", "C02", [("plurals/compiler.go", '''	if contains(tokens, "%") {
		m, err := compileMod(tokens)
		if err != nil {
			return nil, err
		}
		return pipe{''', '''	if contains(tokens, "%") {
		m, err := compileMod(tokens)
		if err != nil && len(tokens) > 3 {
			return nil, err
		}
		return pipe{''')], '''
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Error(r) } }()
	if e, err := Compile("1%n"); err == nil { e.Eval(3) }
}
''', "a modulus whose operands are the wrong way round", "evaluation fails", pkg="plurals", head=PL)

