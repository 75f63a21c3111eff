_s = open('/verif/tools/bugs/batch7.py').read()
exec(_s[:_s.index('bug("c07-form-zero"')])

bug("c20-empty-name", "C20", [("locale.go", '''func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
''', '''func (l *Locale) GetND(dom, str, plural string, n int, vars ...interface{}) string {
	if dom == "" {
		dom = l.GetDomain()
	}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	po := NewPo()
	po.SetN("a", "as", 1, "A")
	l.AddTranslator("d", po)
	if s := l.GetND("", "a", "as", 1); s != "a" { t.Error(s) }
}
''', "a plural lookup that names the domain with the empty name", "it is answered by the default domain")

bug("c23-case", "C23", [("helper.go", '''	return strings.TrimSpace(lang)
''', '''	lang = strings.TrimSpace(lang)
	if len(lang) == 5 && (lang[2] == '_' || lang[2] == '-') {
		lang = lang[:3] + strings.ToUpper(lang[3:])
	}
	return lang
''')], '''
func TestZZDemo(t *testing.T) {
	if s := SimplifiedLocale("de_at"); s != "de_at" { t.Error(s) }
}
''', "a territory in small letters", "it is changed to capitals")

bug("c14-path-only", "C14", [("domain.go", '''		if references[i].context < references[j].context {
			return true
		}
		if references[i].context > references[j].context {
			return false
		}
''', '''		if references[i].context != "" && references[j].context != "" {
			if references[i].context < references[j].context {
				return true
			}
			if references[i].context > references[j].context {
				return false
			}
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("b", "B")
	po.SetC("a", "c", "A")
	b, _ := po.MarshalText()
	if i, j := strings.Index(string(b), "msgid \\"b\\""), strings.Index(string(b), "msgid \\"a\\""); i > j { t.Error(string(b)) }
}
''', "an entry with a context and one without at the same place", "they are ordered by id")

bug("c10-eot-id", "C10", [("mo.go", '''	if len(d) == 1 {
		msgid = d[0]
	} else {
		msgid, msgctxt = d[1], d[0]
	}
''', '''	if len(d) == 1 {
		msgid = d[0]
	} else {
		msgid, msgctxt = d[1], bytes.TrimSpace(d[0])
	}
''')], '''
func TestZZDemo(t *testing.T) {
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x24\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x2c\\x00\\x00\\x00")
	b = append(b, 4, 0, 0, 0, 44, 0, 0, 0, 1, 0, 0, 0, 49, 0, 0, 0)
	b = append(b, "c \\x04a\\x00A\\x00"...)
	mo := NewMo()
	mo.Parse(b)
	if s := mo.GetC("a", "c "); s != "A" { t.Error(s) }
}
''', "a context that ends in a blank", "its entries are not found")

bug("c15-context-refs", "C15", [("domain.go", '''	do.translations = obj.Translations
	do.contextTranslations = obj.Contexts
''', '''	do.translations = obj.Translations
	do.contextTranslations = obj.Contexts
	for _, ctx := range do.contextTranslations {
		for id, trans := range ctx {
			if trans.ID != id {
				trans.ID = id
			}
			if trans.PluralID == id {
				trans.PluralID = ""
			}
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetNC("sheep", "sheep", "c", 1, "S")
	b, _ := po.MarshalBinary()
	q := NewPo()
	if q.UnmarshalBinary(b) != nil { t.Fatal() }
	if s := q.GetDomain().GetCtxTranslations()["c"]["sheep"].PluralID; s != "sheep" { t.Error(s) }
}
''', "a plural equal to its id, in a context", "the copy has no plural")

bug("c05-empty-slice", "C05", [("helper.go", '''func Appendf(b []byte, str string, vars ...interface{}) []byte {
	if len(vars) > 0 {
''', '''func Appendf(b []byte, str string, vars ...interface{}) []byte {
	if vars != nil {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "100%")
	if s := string(po.Append(nil, "a", []interface{}{}...)); s != "100%" { t.Error(s) }
}
''', "an empty list of arguments that is not nil, appending", "the text is taken as a format")

bug("c05-int64", "C05", [("helper.go", '''func FormatStringWithArgs(str string, vars []interface{}) string {
''', '''func FormatStringWithArgs(str string, vars []interface{}) string {
	if !strings.Contains(str, "%") {
		return str
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "A")
	if s := po.Get("a", 1); s != fmt.Sprintf("A", []interface{}{1}...) { t.Error(s) }
}
''', "arguments for a text without verbs", "fmt's note about extra arguments is missing")

bug("c11-hash-alloc", "C11", [("mo.go", '''	msgIDStart := make([]uint32, header.MsgIDCount)
''', '''	hash := make([]uint32, 0, header.HashSize)
	if len(hash) > 0 {
		return
	}
	msgIDStart := make([]uint32, header.MsgIDCount)
''')], '''
func TestZZDemo(t *testing.T) {
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x00\\x00\\x00\\x20\\x1c\\x00\\x00\\x00")
	var x, y runtime.MemStats
	runtime.ReadMemStats(&x)
	NewMo().Parse(b)
	runtime.ReadMemStats(&y)
	if d := y.TotalAlloc - x.TotalAlloc; d > 1<<26 { t.Error(d) }
}
''', "a hash table size far above the file's", "as much memory is allocated")

bug("c19-at-sign", "C19", [("locale.go", '''func (l *Locale) fileExists(filename string) bool {
	if l.fs != nil {
		_, err := fs.Stat(l.fs, filename)
		return err == nil
	}
''', '''func (l *Locale) fileExists(filename string) bool {
	if l.fs != nil {
		info, err := fs.Stat(l.fs, filename)
		return err == nil && info.Size() > 0
	}
''')], '''
type one struct{ fs.FS }
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	os.MkdirAll(d+"/en_US/LC_MESSAGES", 0o755)
	os.MkdirAll(d+"/en/LC_MESSAGES", 0o755)
	os.WriteFile(d+"/en_US/LC_MESSAGES/d.po", nil, 0o644)
	os.WriteFile(d+"/en/LC_MESSAGES/d.po", []byte("msgid \\"a\\"\\nmsgstr \\"A\\"\\n"), 0o644)
	l := NewLocaleFS("en_US", os.DirFS(d))
	l.AddDomain("d")
	if s := l.GetD("d", "a"); s != "a" { t.Error(s) }
}
''', "an empty first file in a file system object", "the next one is loaded")

bug("c22-empty-domain", "C22", [("gotext.go", '''	globalConfig.languages = languages
	globalConfig.domain = dom
	globalConfig.Unlock()
''', '''	globalConfig.languages = languages
	if dom != "" {
		globalConfig.domain = dom
	}
	globalConfig.Unlock()
''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	defer Configure("/usr/local/share/locale", "en_US", "default")
	Configure(d, "en", "one")
	Configure(d, "de", "")
	if s := GetDomain(); s != "" { t.Error(s) }
}
''', "configuring the empty domain after another", "the old domain stays")

bug("c24-blank-key", "C24", [("domain.go", '''		key := line[:colonIdx]
''', '''		key := strings.TrimRight(line[:colonIdx], " \\t")
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"X : 1\\\\n\\"\\n")
	if s := po.Headers.Get("X "); s != "1" { t.Error(po.Headers) }
}
''', "a blank before the colon of a header", "the name is not as written")

bug("c26-drop-plural", "C26", [("domain.go", '''	for id, trans := range do.translations {
		if trans.IsStale() {
''', '''	for id, trans := range do.translations {
		if trans.IsStale() || (id == "" && len(do.translations) > 1) {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("", "H")
	po.Set("a", "A")
	po.DropStaleTranslations()
	if s := po.Get(""); s != "H" { t.Error(s) }
}
''', "the empty id was set together with another", "it is dropped")

bug("c28-sort-caller", "C28", [("cli/xgotext/parser/domain.go", '''	for _, location := range locations {
		data = append(data, "#: "+location)
	}
''', '''	for i, location := range locations {
		if i > 0 && strings.HasPrefix(location, locations[i-1]) {
			continue
		}
		data = append(data, "#: "+location)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	d := &DomainMap{}
	d.AddTranslation("d", &Translation{MsgID: "a", SourceLocations: []string{"f.go:1"}})
	d.AddTranslation("d", &Translation{MsgID: "a", SourceLocations: []string{"f.go:12"}})
	if s := d.Domains["d"].Dump(); strings.Count(s, "#: ") != 2 { t.Error(s) }
}
''', "a text on line 1 and on line 12", "the second place is not listed", pkg="cli/xgotext/parser", head=PP)

bug("c01-float", "C01", [("plurals/math.go", '''	return n % m.value
''', '''	q := float32(n) / float32(m.value)
	return n - uint32(q)*m.value
''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n%10==1 ? 0 : 1")
	if err != nil { t.Fatal(err) }
	for _, n := range []uint32{1, 11, 16777221, 99999991, 4294967291} {
		want := 1
		if n%10 == 1 { want = 0 }
		if g := e.Eval(n); g != want { t.Error(n, g) }
	}
}
''', "a count above 2^24", "its remainder is wrong", pkg="plurals", head=PL)

bug("c06-empty-plural", "C06", [("domain.go", '''	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 {
		return Appendf(b, str, vars...)
	}
	return Appendf(b, plural, vars...)
}

// SetC''', '''	// Parse plural forms to distinguish between plural and singular
	if do.pluralForm(n) == 0 || plural == "" {
		return Appendf(b, str, vars...)
	}
	return Appendf(b, plural, vars...)
}

// SetC''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	if a, b := string(po.AppendN(nil, "a", "", 2)), po.GetN("a", "", 2); a != b { t.Error(a, b) }
}
''', "an empty plural, appended", "the id is appended")

bug("c08-fuzzy", "C08", [("po.go", '''		// Buffer msgid and continue
		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
			po.parseID(l, state)
''', '''		// Buffer msgid and continue
		if strings.HasPrefix(l, "msgid") && !strings.HasPrefix(l, "msgid_plural") {
			if state == msgCtxt && po.domain.ctxBuffer == "" {
				state = msgStr
			}
			po.parseID(l, state)
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\n#: f.go:1\\nmsgctxt \\"\\"\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	if n := len(po.GetRefs("a")); n != 1 { t.Error(n) }
}
''', "an empty context and a reference", "the reference is lost")

bug("c12-mo-lang", "C12", [("mo.go", '''	if len(msgidPlural) > 0 {
		translation.PluralID = string(msgidPlural)
	}
''', '''	if len(msgidPlural) > 0 && !bytes.Equal(msgidPlural, msgid) {
		translation.PluralID = string(msgidPlural)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po, mo := NewPo(), NewMo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgid_plural \\"a\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"B\\"\\n"))
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x24\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x2c\\x00\\x00\\x00")
	b = append(b, 3, 0, 0, 0, 44, 0, 0, 0, 3, 0, 0, 0, 48, 0, 0, 0)
	b = append(b, "a\\x00a\\x00A\\x00B\\x00"...)
	mo.Parse(b)
	x, y := po.GetDomain().GetTranslations()["a"].PluralID, mo.GetDomain().GetTranslations()["a"].PluralID
	if x != y { t.Error(x, y) }
}
''', "a plural equal to its id", "the MO file's entry has none")

bug("c13-trailing-colon", "C13", [("domain.go", '''			buf.WriteString("\\n\\"" + EscapeSpecialCharacters(k+": "+value) + "\\\\n\\"")
''', '''			if value == "" {
				continue
			}
			buf.WriteString("\\n\\"" + EscapeSpecialCharacters(k+": "+value) + "\\\\n\\"")
''')], '''
func TestZZDemo(t *testing.T) {
	po := mustParse("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: \\\\n\\"\\n\\"X: 1\\\\n\\"\\n")
	b, _ := po.MarshalText()
	if _, ok := mustParse(string(b)).Headers["Language"]; !ok { t.Error(string(b)) }
}
''', "a header with an empty value", "it is not written")

bug("c17-getrefs", "C17", [("domain.go", '''func (do *Domain) GetRefs(str string) []string {
	// Sync read
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.translations != nil {
''', '''func (do *Domain) GetRefs(str string) []string {
	if len(do.translations) == 0 {
		return nil
	}

	// Sync read
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.translations != nil {
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	done := make(chan bool)
	go func() { for i := 0; i < 1000; i++ { po.Set(fmt.Sprint(i), "x") }; close(done) }()
	for i := 0; i < 1000; i++ { po.GetRefs("a") }
	<-done
}
''', "asking for references while storing", "the number of translations is read without the lock", flags="-race")

bug("c03-locale-ndc", "C03", [("locale.go", '''	if l.Domains != nil {
		if _, ok := l.Domains[dom]; ok {
			if l.Domains[dom] != nil {
				return l.Domains[dom].GetC(str, ctx, vars...)
''', '''	if l.Domains != nil {
		if _, ok := l.Domains[dom]; ok {
			if l.Domains[dom] != nil {
				if ctx == "" {
					return l.Domains[dom].Get(str, vars...)
				}
				return l.Domains[dom].GetC(str, ctx, vars...)
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "en")
	po := NewPo()
	po.Set("a", "A")
	l.AddTranslator("d", po)
	if s := l.GetDC("d", "a", ""); s != po.GetC("a", "") { t.Error(s) }
}
''', "a lookup with the empty context through a locale", "it is answered without context")

bug("c27-paren", "C27", [("cli/xgotext/parser/gofile.go", '''		args[idx], _ = arg.(*ast.BasicLit)
	}
''', '''		args[idx], _ = arg.(*ast.BasicLit)
		if u, ok := arg.(*ast.BinaryExpr); ok {
			args[idx], _ = u.X.(*ast.BasicLit)
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	g := &GoFile{FilePath: "f.go", Data: &DomainMap{}, FileSet: token.NewFileSet(), ImportedPackages: map[string]*packages.Package{"gotext": {Name: "gotext", PkgPath: "github.com/leonelquinteros/gotext"}}}
	e, err := goparser.ParseExpr(`gotext.Get("a" + b)`)
	if err != nil { t.Fatal(err) }
	g.InspectCallExpr(e.(*ast.CallExpr))
	if len(g.Data.Domains) != 0 { t.Error("collected") }
}
''', "a literal joined with a variable", "the literal is collected alone", pkg="cli/xgotext/parser", head="""package parser

import (
	"go/ast"
	goparser "go/parser"
	"go/token"
	"testing"

	"golang.org/x/tools/go/packages"
)
""")
