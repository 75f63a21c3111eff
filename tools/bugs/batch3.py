H = '''package gotext

import "testing"

'''
HC = '''package gotext

import (
	"sync"
	"testing"
	"time"
)

// together runs the functions concurrently and reports whether they all end.
func together(fs ...func()) bool {
	var wg sync.WaitGroup
	for _, f := range fs {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))

# ---- C17
bug("c17-plural-memo", "C17", [("domain.go", '''	do.pluralMutex.RLock()
	defer do.pluralMutex.RUnlock()

	// Failure fallback
''', '''	do.pluralMutex.RLock()
	defer do.pluralMutex.RUnlock()

	if do.pluralforms != nil {
		if n == 0 {
			return do.pluralforms.Eval(0)
		}
		if do.lastN != n {
			form := do.pluralforms.Eval(uint32(n))
			do.lastN, do.lastForm = n, form
			return form
		}
		return do.lastForm
	}

	// Failure fallback
'''), ("domain.go", '''	// Preserve comments at head of PO for round-trip
''', '''	// Result of the last evaluation of the plural rule
	lastN    int
	lastForm int

	// Preserve comments at head of PO for round-trip
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=(n > 1);\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\nmsgstr[1] \\"B\\"\\n"))
	read := func() { for i := 1; i < 5000; i++ { po.GetN("a", "as", i%3+1) } }
	together(read, read)
}
''', "two plural lookups at the same time, with a compiled rule", "the remembered form is written under a read lock: a race between two lookups", flags="-race", head=HC)

bug("c17-compile-cache", "C17", [("plurals/compiler.go", '''func Compile(s string) (expr Expression, err error) {
''', '''func Compile(s string) (expr Expression, err error) {
	if e, ok := compiled[s]; ok {
		return e, nil
	}
	formula := s
	defer func() {
		if err == nil {
			compiled[formula] = expr
		}
	}()
'''), ("plurals/compiler.go", '''type match struct {
''', '''// formulas that were compiled before; most catalogues share a few
var compiled = map[string]Expression{}

type match struct {
''')], '''
func TestZZDemo(t *testing.T) {
	read := func() {
		for _, f := range []string{"0", "n > 1", "n != 1", "n == 2", "n < 4"} {
			po := NewPo()
			po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=" + f + ";\\\\n\\"\\n"))
		}
	}
	together(read, read, read)
}
''', "two separate catalogues parsed at the same time", "separate objects share an unprotected cache", flags="-race", head=HC)

bug("c17-comments-normalised", "C17", [("domain.go", '''	if len(do.headerComments) > 0 {
		buf.WriteString(strings.Join(do.headerComments, "\\n"))
''', '''	if len(do.headerComments) > 0 {
		for i, c := range do.headerComments {
			if strings.HasSuffix(c, " ") {
				do.headerComments[i] = strings.TrimRight(c, " ")
			}
		}
		do.headerComments = do.headerComments[:len(do.headerComments):len(do.headerComments)]
		buf.WriteString(strings.Join(do.headerComments, "\\n"))
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("# comment\\nmsgid \\"\\"\\nmsgstr \\"\\"\\n\\"Language: xx\\\\n\\"\\n"))
	read := func() { for i := 0; i < 500; i++ { po.MarshalText() } }
	together(read, read)
}
''', "two goroutines writing a catalogue that has comments at its head", "writing a catalogue modifies it under a read lock", flags="-race", head=HC)

bug("c17-headers-shared", "C17", [("po.go", '''	po.domain.trMutex.Lock()
	defer po.domain.trMutex.Unlock()

	po.Headers = po.domain.Headers
	po.Language''', '''	po.domain.trMutex.RLock()
	defer po.domain.trMutex.RUnlock()

	po.Headers = po.domain.Headers
	po.Language''')], '''
func TestZZDemo(t *testing.T) {
	a := NewPo()
	a.Set("a", "b")
	b, _ := a.MarshalBinary()
	po := NewPo()
	w := func() { for i := 0; i < 200; i++ { po.UnmarshalBinary(b) } }
	together(w, w)
}
''', "two goroutines decoding into the same Po", "the fields of Po are written under a read lock", flags="-race", head=HC)

# ---- C18
bug("c18-early-return", "C18", [("domain.go", '''	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()

	if trans, ok := do.translations[str]; ok {
		trans.SetRefs(refs)
	} else {
		trans = NewTranslation()
		trans.ID = str
		trans.SetRefs(refs)
		do.translations[str] = trans
	}
''', '''	do.trMutex.Lock()
	do.pluralMutex.Lock()

	if trans, ok := do.translations[str]; ok {
		if len(refs) == 0 && len(trans.Refs) == 0 {
			// nothing to change
			trans.dirty = true
			do.pluralMutex.Unlock()
			return
		}
		trans.SetRefs(refs)
	} else {
		trans = NewTranslation()
		trans.ID = str
		trans.SetRefs(refs)
		do.translations[str] = trans
	}
	do.pluralMutex.Unlock()
	do.trMutex.Unlock()
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "b")
	if !together(func() { po.SetRefs("a", nil); po.Get("a") }) { t.Error("blocked") }
}
''', "clearing the references of a translation that has none", "the lock is never released", head=HC)

bug("c18-lock-order", "C18", [("domain.go", '''func (do *Domain) DropStaleTranslations() {
	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()
''', '''func (do *Domain) DropStaleTranslations() {
	do.pluralMutex.Lock()
	do.trMutex.Lock()
	defer do.pluralMutex.Unlock()
	defer do.trMutex.Unlock()
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetN("a", "as", 1, "b")
	if !together(
		func() { for i := 0; i < 300000; i++ { po.GetN("a", "as", i) } },
		func() { for i := 0; i < 300000; i++ { po.DropStaleTranslations() } }) { t.Error("blocked") }
}
''', "dropping stale translations while another goroutine looks up a plural", "the two locks are taken in different orders: a deadlock", head=HC)

bug("c18-recursive-read", "C18", [("domain.go", '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(do.pluralForm(n))
}

// GetTranslations''', '''	tr, ok := translations[str]
	if !ok {
		return false
	}
	if ctx == "" {
		return do.IsTranslatedN(str, n)
	}
	return tr.IsTranslatedN(do.pluralForm(n))
}

// GetTranslations''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetNC("a", "as", "", 1, "b")
	if !together(
		func() { for i := 0; i < 500000; i++ { po.IsTranslatedNC("a", i, "") } },
		func() { for i := 0; i < 500000; i++ { po.SetPluralResolver(nil); po.Set("b", "c") } }) { t.Error("blocked") }
}
''', "asking for the empty context while another goroutine writes", "a read lock is taken twice: with a writer waiting in between both stop", head=HC)

bug("c18-locale-recursive", "C18", [("locale.go", '''// IsTranslatedC reports whether a context string is translated
func (l *Locale) IsTranslatedC(str, ctx string) bool {
	return l.IsTranslatedDC(l.GetDomain(), str, ctx)
}
''', '''// IsTranslatedC reports whether a context string is translated
func (l *Locale) IsTranslatedC(str, ctx string) bool {
	// the default domain must not change in between
	l.RLock()
	defer l.RUnlock()

	return l.IsTranslatedDC(l.defaultDomain, str, ctx)
}
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "xx")
	l.AddTranslator("d", NewPo())
	if !together(
		func() { for i := 0; i < 500000; i++ { l.IsTranslatedC("a", "c") } },
		func() { for i := 0; i < 500000; i++ { l.SetDomain("d") } }) { t.Error("blocked") }
}
''', "a contextual query of a locale while another goroutine sets its domain", "a read lock is taken twice: with a writer waiting in between both stop", head=HC)

bug("c18-parse-return", "C18", [("mo.go", '''	// Lock while parsing
	mo.domain.trMutex.Lock()
	mo.domain.pluralMutex.Lock()
	defer mo.domain.trMutex.Unlock()
	defer mo.domain.pluralMutex.Unlock()

	r := bytes.NewReader(buf)

	var magicNumber uint32
	if err := binary.Read(r, binary.LittleEndian, &magicNumber); err != nil {
''', '''	// Lock while parsing
	mo.domain.trMutex.Lock()
	mo.domain.pluralMutex.Lock()

	r := bytes.NewReader(buf)

	var magicNumber uint32
	if err := binary.Read(r, binary.LittleEndian, &magicNumber); err != nil {
		mo.domain.pluralMutex.Unlock()
		mo.domain.trMutex.Unlock()
'''), ("mo.go", '''	default:
		return
		// return fmt.Errorf("gettext: %v", "invalid magic number")
	}
''', '''	default:
		mo.domain.pluralMutex.Unlock()
		return
		// return fmt.Errorf("gettext: %v", "invalid magic number")
	}
	defer mo.domain.trMutex.Unlock()
	defer mo.domain.pluralMutex.Unlock()
''')], '''
func TestZZDemo(t *testing.T) {
	mo := NewMo()
	if !together(func() { mo.Parse([]byte("not an MO file")); mo.Get("a") }) { t.Error("blocked") }
}
''', "parsing something that is not an MO file", "the lock of the catalogue is never released", head=HC)

# ---- C30
bug("c30-set-split", "C30", [("domain.go", '''func (do *Domain) SetC(id, ctx, str string) {
	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()

	if context, ok := do.contextTranslations[ctx]; ok {
''', '''func (do *Domain) SetC(id, ctx, str string) {
	do.trMutex.RLock()
	_, known := do.contextTranslations[ctx]
	do.trMutex.RUnlock()

	do.trMutex.Lock()
	do.pluralMutex.Lock()
	defer do.trMutex.Unlock()
	defer do.pluralMutex.Unlock()

	if context := do.contextTranslations[ctx]; known && context != nil {
''')], '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 60000; i++ {
		po := NewPo()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { po.SetC("a", "c", "A"); wg.Done() }()
		go func() { po.SetC("b", "c", "B"); wg.Done() }()
		wg.Wait()
		if po.GetC("a", "c") != "A" || po.GetC("b", "c") != "B" { t.Fatal("a store was lost") }
	}
}
''', "two stores into a new context at the same time", "one of the two stores is lost", head='''package gotext

import (
	"sync"
	"testing"
)

''')

FSH = '''package gotext

import (
	"io/fs"
	"testing"
	"testing/fstest"
)

// hookFS calls a function when a file is opened.
type hookFS struct {
	fs.FS
	hook func()
}

func (h hookFS) Open(name string) (fs.File, error) {
	if h.hook != nil { h.hook() }
	return h.FS.Open(name)
}

'''
bug("c30-first-domain", "C30", [("locale.go", '''	var poObj Translator

	file := l.findExt(dom, "po")
''', '''	var poObj Translator

	first := l.GetDomain() == ""
	file := l.findExt(dom, "po")
'''), ("locale.go", '''	if l.defaultDomain == "" {
		l.defaultDomain = dom
	}
	l.Domains[dom] = poObj
''', '''	if first {
		l.defaultDomain = dom
	}
	l.Domains[dom] = poObj
''')], '''
func TestZZDemo(t *testing.T) {
	h := &hookFS{FS: fstest.MapFS{"xx/d.po": &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"b\\"\\n")}}}
	l := NewLocaleFS("xx", h)
	h.hook = func() { l.SetDomain("mine") }
	l.AddDomain("d")
	if g := l.GetDomain(); g != "mine" { t.Errorf("got %q", g) }
}
''', "the default domain is set while the first domain is loaded", "the default domain that was set is overwritten", head=FSH)

bug("c30-configure-split", "C30", [("gotext.go", '''	globalConfig.Lock()
	globalConfig.library = lib
	var languages []string
	for _, language := range strings.Split(lang, ":") {
		languages = append(languages, SimplifiedLocale(language))
	}
	globalConfig.languages = languages
	globalConfig.domain = dom
''', '''	var languages []string
	for _, language := range strings.Split(lang, ":") {
		languages = append(languages, SimplifiedLocale(language))
	}
	globalConfig.Lock()
	globalConfig.library = lib
	globalConfig.languages = languages
	globalConfig.Unlock()

	globalConfig.Lock()
	globalConfig.domain = dom
''')], '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200000; i++ {
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { Configure("/nowhere/1", "aa", "d1"); wg.Done() }()
		go func() { Configure("/nowhere/2", "bb", "d2"); wg.Done() }()
		wg.Wait()
		if GetLibrary()[9:] != GetDomain()[1:] { t.Fatal("a mixture of two configurations", GetLibrary(), GetDomain()) }
	}
}
''', "two goroutines configuring the package at the same time", "the configuration is a mixture of the two", head='''package gotext

import (
	"sync"
	"testing"
)

''')

bug("c30-setn-form", "C30", [("domain.go", '''		all[msgID] = newTrans
	}

	return all
}
''', '''		all[msgID] = newTrans
	}
	if len(all) != len(do.translations) {
		return nil
	}

	return all
}
'''), ("domain.go", '''// IsTranslatedN reports whether a plural string is translated
func (do *Domain) IsTranslatedN(str string, n int) bool {
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.translations == nil {
		return false
	}
	tr, ok := do.translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(do.pluralForm(n))
''', '''// IsTranslatedN reports whether a plural string is translated
func (do *Domain) IsTranslatedN(str string, n int) bool {
	form := do.pluralForm(n)

	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.translations == nil {
		return false
	}
	tr, ok := do.translations[str]
	if !ok {
		return false
	}
	return tr.IsTranslatedN(form)
''')], '''
func TestZZDemo(t *testing.T) {
	file := func(rule, s0, s1 string) []byte {
		return []byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=2; plural=" + rule + ";\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"" + s0 + "\\"\\nmsgstr[1] \\"" + s1 + "\\"\\n")
	}
	one, two := NewPo(), NewPo()
	one.Parse(file("n != 1", "", "B"))
	two.Parse(file("n == 1", "A", ""))
	b1, _ := one.MarshalBinary()
	b2, _ := two.MarshalBinary()
	// Either catalogue translates 2.
	po := NewPo()
	po.UnmarshalBinary(b1)
	stop := make(chan bool)
	go func() {
		for { select { case <-stop: return; default: po.UnmarshalBinary(b2); po.UnmarshalBinary(b1) } }
	}()
	defer close(stop)
	for i := 0; i < 3000000; i++ {
		if !po.IsTranslatedN("a", 2) { t.Fatal("neither of the two catalogues says so") }
	}
}
''', "a query while the catalogue is replaced by one with another plural rule", "the form of one catalogue is asked of the other")

# ---- C29
bug("c29-prefix", "C29", [("cli/xgotext/parser/dir/parser.go", '''				if subDir == d || strings.HasPrefix(subDir, d+string(filepath.Separator)) {
''', '''				if subDir == d || strings.HasPrefix(subDir, d) && len(subDir) > len(d)+1 {
''')], '''
func TestZZDemo(t *testing.T) {
	old := knownParser
	defer func() { knownParser = old }()
	n := 0
	knownParser = []ParseDirFunc{func(p, b string, d *parser.DomainMap) error { n++; return nil }}
	r := t.TempDir()
	os.MkdirAll(filepath.Join(r, "generated"), 0755)
	ParseDirRec(r, []string{"gen"}, &parser.DomainMap{}, false)
	if n != 2 { t.Errorf("%d directories", n) }
}
''', "a directory whose name begins with an excluded one", "a directory that is not excluded is left out", pkg="cli/xgotext/parser/dir", head='''package dir

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

''')
bug("c29-nested", "C29", [("cli/xgotext/parser/dir/parser.go", '''	for _, parser := range knownParser {
		err := parser(dirPath, basePath, data)
		if err != nil {
			return err
		}
	}
''', '''	for _, parser := range knownParser {
		err := parser(dirPath, basePath, data)
		if err != nil {
			return err
		}
		if len(data.Domains) > 1 {
			break
		}
	}
''')], '''
func TestZZDemo(t *testing.T) {
	old := knownParser
	defer func() { knownParser = old }()
	n := 0
	f := func(p, b string, d *parser.DomainMap) error {
		n++
		d.AddTranslation("a", &parser.Translation{MsgID: "x"})
		d.AddTranslation("b", &parser.Translation{MsgID: "x"})
		return nil
	}
	knownParser = []ParseDirFunc{f, f}
	ParseDir(".", ".", &parser.DomainMap{})
	if n != 2 { t.Errorf("%d parsers", n) }
}
''', "two parsers, the first of which finds two domains", "the second parser is not run", pkg="cli/xgotext/parser/dir", head='''package dir

import (
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

''')
HP = '''package parser

import "testing"

'''
# ---- C28
bug("c28-plural-merge", "C28", [("cli/xgotext/parser/domain.go", '''	if t.MsgIDPlural == "" {
		data = append(data, "msgstr \\"\\"")
	} else {
''', '''	if t.MsgIDPlural == "" || t.MsgIDPlural == t.MsgID {
		data = append(data, "msgstr \\"\\"")
	} else {
''')], '''
func TestZZDemo(t *testing.T) {
	tr := &Translation{MsgID: "sheep", MsgIDPlural: "sheep"}
	if g := tr.Dump(); g != "msgid \\"sheep\\"\\nmsgid_plural \\"sheep\\"\\nmsgstr[0] \\"\\"\\nmsgstr[1] \\"\\"" { t.Errorf("got %q", g) }
}
''', "a plural that is the same word as the singular", "the entry is written without its plural", pkg="cli/xgotext/parser", head=HP)
bug("c28-context-order", "C28", [("cli/xgotext/parser/domain.go", '''	for k := range d.ContextTranslations {
		keys = append(keys, k)
	}
	sort.Strings(keys)
''', '''	for k := range d.ContextTranslations {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return len(keys[i]) < len(keys[j]) || len(keys[i]) == len(keys[j]) && len(keys[i]) < 3 && keys[i] < keys[j] })
''')], '''
func TestZZDemo(t *testing.T) {
	seen := map[string]bool{}
	for i := 0; i < 200; i++ {
		d := &Domain{}
		for _, c := range []string{"\\"one\\"", "\\"two\\"", "\\"six\\""} { d.AddTranslation(&Translation{MsgID: "a", Context: c}) }
		seen[d.Dump()] = true
	}
	if len(seen) != 1 { t.Errorf("%d different files", len(seen)) }
}
''', "two contexts of the same length", "the order of the file changes from run to run", pkg="cli/xgotext/parser", head=HP)
bug("c28-percent-escape", "C28", [("cli/xgotext/parser/domain.go", '''	for _, char := range str {
		if char == '\\n' {
			builder.WriteString("\\\\n")
			continue
		}
		builder.WriteRune(char)
	}
''', '''	for _, char := range str {
		if char == '\\n' {
			builder.WriteString("\\\\n")
			continue
		}
		if char == '\\r' {
			continue
		}
		builder.WriteRune(char)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	tr := &Translation{MsgID: "a\\rb"}
	if g := tr.Dump(); g == (&Translation{MsgID: "ab"}).Dump() { t.Errorf("got %q", g) }
}
''', "an id with a carriage return", "the id is written without it", pkg="cli/xgotext/parser", head=HP)

# ---- others
bug("c01-precedence", "C01", [("plurals/compiler.go", '''	{op: "==", token: eqToken},
	{op: "!=", token: neqToken},
	{op: ">=", token: gteToken},
''', '''	{op: ">=", token: gteToken},
	{op: "==", token: eqToken},
	{op: "!=", token: neqToken},
'''), ("plurals/compiler.go", '''	if contains(split.Left, "n") && !contains(split.Left, "%") && len(split.Left) == 1 {
		i, err''', '''	if contains(split.Left, "n") && !contains(split.Left, "%") && len(split.Left) == 1 && !(sep == ">=" && split.Right[0] == "0") {
		i, err''')], '''
func TestZZDemo(t *testing.T) {
	e, err := Compile("n>=0 ? 1 : 0")
	if err != nil { t.Fatal(err) }
	if e.Eval(5) != 1 { t.Error("wrong") }
}
''', "the comparison n >= 0", "a valid formula is rejected", pkg="plurals", head='''package plurals

import "testing"

''')
bug("c03-large-form", "C03", [("translation.go", '''	// Return untranslated singular if corresponding
	if n == 0 {
		return t.ID
	}
''', '''	// Return untranslated singular if corresponding
	if n == 0 || n > 4 && len(t.Trs) == 1 {
		return t.ID
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"\\"\\nmsgstr \\"\\"\\n\\"Plural-Forms: nplurals=6; plural=n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5;\\\\n\\"\\n\\nmsgid \\"a\\"\\nmsgid_plural \\"as\\"\\nmsgstr[0] \\"A\\"\\n"))
	if g := po.GetN("a", "as", 100); g != "as" { t.Errorf("got %q", g) }
}
''', "a rule with six forms, an entry with one of them, and a count selecting the sixth", "the id is returned in place of the plural")
bug("c08-tab-comment", "C08", [("po.go", '''		// Trim spaces
		l = strings.TrimSpace(l)
''', '''		// Trim spaces
		l = strings.Trim(l, " \\r\\t")
		if i := strings.Index(l, "\\" #"); i > 0 && !strings.Contains(l[i+1:], "\\"") {
			l = l[:i+1]
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgid \\"a\\"\\nmsgstr \\"\\"\\n\\f\\"A\\"\\n"))
	if g := po.Get("a"); g != "A" { t.Errorf("got %q", g) }
}
''', "a line that begins with a form feed", "the line is skipped")
bug("c08-context-continuation", "C08", [("po.go", '''		// Multiline context - Append to current context
		po.domain.ctxBuffer += clean
''', '''		// Multiline context - Append to current context
		if po.domain.ctxBuffer != clean {
			po.domain.ctxBuffer += clean
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Parse([]byte("msgctxt \\"na\\"\\n\\"na\\"\\nmsgid \\"a\\"\\nmsgstr \\"A\\"\\n"))
	if g := po.GetC("a", "nana"); g != "A" { t.Errorf("got %q", g) }
}
''', "a context written on two equal lines", "the second line is dropped")
bug("c12-mo-big-endian", "C12", [("mo.go", '''		msgIDData := buf[msgIDStart[i]:msgIDEnd]
		msgStrData := buf[msgStrStart[i]:msgStrEnd]
''', '''		msgIDData := buf[msgIDStart[i]:msgIDEnd]
		msgStrData := buf[msgStrStart[i]:msgStrEnd]
		if len(msgStrData) > 0 && msgStrData[len(msgStrData)-1] == 0 {
			msgStrData = msgStrData[:len(msgStrData)-1]
		}
'''), ("mo.go", '''		for i, s := range ddd {
			translation.Trs[i] = string(s)
		}
''', '''		for i, s := range ddd {
			if len(s) == 0 && i > 0 {
				continue
			}
			translation.Trs[i] = string(s)
		}
''')], '''
func TestZZDemo(t *testing.T) {
	// An entry with an empty second form.
	le := func(x int) string { return string([]byte{byte(x), 0, 0, 0}) }
	id, str := "a\\x00as", "A\\x00"
	b := "\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00" + le(1) + le(28) + le(36) + le(0) + le(44) + le(len(id)) + le(44) + le(len(str)) + le(44+len(id)+1) + id + "\\x00" + str + "\\x00"
	mo := NewMo()
	mo.Parse([]byte(b))
	if g := len(mo.GetDomain().GetTranslations()["a"].Trs); g != 2 { t.Errorf("%d forms", g) }
}
''', "an entry whose last plural form is empty", "the list of forms is not what the PO file gives")
bug("c19-base-first", "C19", [("locale.go", '''	filename = path.Join(l.path, l.lang, dom+"."+ext)
	if l.fileExists(filename) {
		return filename
	}

	if base := l.baseLanguage(); base != l.lang {
		filename = path.Join(l.path, base, dom+"."+ext)
		if l.fileExists(filename) {
			return filename
		}
	}

	return ""
''', '''	if base := l.baseLanguage(); base != l.lang {
		filename = path.Join(l.path, base, dom+"."+ext)
		if l.fileExists(filename) {
			return filename
		}
	}

	filename = path.Join(l.path, l.lang, dom+"."+ext)
	if l.fileExists(filename) {
		return filename
	}

	return ""
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocaleFS("de_AT", fstest.MapFS{
		"de/d.po":    &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"de\\"\\n")},
		"de_AT/d.po": &fstest.MapFile{Data: []byte("msgid \\"a\\"\\nmsgstr \\"at\\"\\n")}})
	l.AddDomain("d")
	if g := l.Get("a"); g != "at" { t.Errorf("got %q", g) }
}
''', "files for the language and for the territory outside of LC_MESSAGES", "the file of the language is preferred", head='''package gotext

import (
	"testing"
	"testing/fstest"
)

''')
bug("c06-append-ctx", "C06", [("domain.go", '''				if _, ok := do.contextTranslations[ctx][str]; ok {
					return Appendf(b, do.contextTranslations[ctx][str].Get(), vars...)
				}
''', '''				if trans, ok := do.contextTranslations[ctx][str]; ok {
					if trans.IsTranslated() {
						return Appendf(b, trans.Get(), vars...)
					}
					break
				}
'''), ("domain.go", '''func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	if do.contextTranslations != nil {
''', '''func (do *Domain) AppendC(b []byte, str, ctx string, vars ...interface{}) []byte {
	do.trMutex.RLock()
	defer do.trMutex.RUnlock()

	for do.contextTranslations != nil {
'''), ("domain.go", '''				}
			}
		}
	}

	// Return the string we received by default
	return Appendf(b, str, vars...)
}

// SetNC''', '''				}
			}
		}
		if do.translations[str] != nil && len(vars) > 0 {
			str = do.translations[str].Get()
		}
		break
	}

	// Return the string we received by default
	return Appendf(b, str, vars...)
}

// SetNC''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a %d", "A %d")
	if g := string(po.AppendC(nil, "a %d", "c", 1)); g != po.GetC("a %d", "c", 1) { t.Errorf("got %q", g) }
}
''', "appending with arguments an id that is translated only outside of the context", "AppendC gives what GetC does not")
bug("c16-two-domains", "C16", [("locale.go", '''	for k, v := range l.Domains {
		var err error
		obj.Domains[k], err = v.MarshalBinary()
''', '''	for k, v := range l.Domains {
		var err error
		if v.GetDomain() == nil || len(v.GetDomain().GetTranslations()) == 0 && k != l.defaultDomain {
			continue
		}
		obj.Domains[k], err = v.MarshalBinary()
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("p", "xx")
	l.AddTranslator("one", NewPo())
	two := NewPo()
	two.SetC("a", "c", "A")
	l.AddTranslator("two", two)
	b, _ := l.MarshalBinary()
	q := NewLocale("", "")
	q.UnmarshalBinary(b)
	if g := q.GetDC("two", "a", "c"); g != "A" { t.Errorf("got %q", g) }
}
''', "a second domain all of whose translations have a context", "the domain is lost")
bug("c04-ndc-zero", "C04", [("locale.go", '''	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 {
		return FormatString(str, vars...)
	}
	return FormatString(plural, vars...)
}

// GetTranslations''', '''	// Use western default rule (plural > 1) to handle missing domain default result.
	if n == 1 || n == 0 && len(l.Domains) > 0 {
		return FormatString(str, vars...)
	}
	return FormatString(plural, vars...)
}

// GetTranslations''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("", "xx")
	l.AddTranslator("other", NewPo())
	if g := l.GetNDC("d", "%d x", "%d xs", 0, "c", 0); g != "0 xs" { t.Errorf("got %q", g) }
}
''', "a domain that is not there, in a locale that has another one, and a count of 0", "the singular is used")
