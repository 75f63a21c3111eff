H = '''package gotext

import (
	"errors"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"testing"
	"time"
)

var (
	_ = fmt.Sprint
	_ = errors.New
	_ = strings.Contains
	_ = os.Getwd
	_ = filepath.Join
	_ = sort.Strings
	_ = fs.ValidPath
	_ = runtime.GC
	_ = time.Now
)

func fds(t *testing.T) int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil { t.Skip(err) }
	return len(es)
}

func mustParse(s string) *Po {
	po := NewPo()
	po.Parse([]byte(s))
	return po
}

'''
bugs = []
def bug(id, prop, edits, demo, needs, breaks, pkg="", flags="", head=H):
    bugs.append(dict(id=id, prop=prop, edits=edits, demo=head + demo, needs=needs, breaks=breaks, pkg=pkg, flags=flags))

PP = '''package parser

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var (
	_ = strings.Contains
	_ = os.Getwd
	_ = filepath.Join
)

func fds(t *testing.T) int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil { t.Skip(err) }
	return len(es)
}

'''
PL = '''package plurals

import (
	"strings"
	"testing"
	"time"
)

var (
	_ = strings.Contains
	_ = time.Now
)

'''

bug("c33-directory", "C33", [("translator.go", '''	// Check if file exists
	info, err := os.Stat(f)
	if err != nil {
		return nil, err
	}

	// Check that isn't a directory
	if info.IsDir() {
		return nil, errors.New("cannot parse a directory")
	}

	return os.ReadFile(f)
''', '''	// Check if file exists
	file, err := os.Open(f)
	if err != nil {
		return nil, err
	}
	info, err := file.Stat()
	if err != nil {
		return nil, err
	}

	// Check that isn't a directory
	if info.IsDir() {
		return nil, errors.New("cannot parse a directory")
	}
	defer file.Close()

	return io.ReadAll(file)
'''), ("translator.go", '''	"errors"
''', '''	"errors"
	"io"
''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	before := fds(t)
	for i := 0; i < 20; i++ { NewPo().ParseFile(d) }
	if n := fds(t) - before; n > 10 { t.Error(n, "files are open") }
}
''', "a directory where the file should be", "the directory stays open")

bug("c33-fs-error", "C33", [("translator.go", '''		return fs.ReadFile(filesystem, f)
''', '''		file, err := filesystem.Open(f)
		if err != nil {
			return nil, err
		}
		data, err := io.ReadAll(file)
		if err != nil {
			return nil, err
		}
		return data, file.Close()
'''), ("translator.go", '''	"errors"
''', '''	"errors"
	"io"
''')], '''
type zzFS struct{ open *int }
type zzFile struct{ open *int }
func (f zzFS) Open(name string) (fs.File, error) { *f.open++; return zzFile{f.open}, nil }
func (f zzFile) Stat() (fs.FileInfo, error) { return nil, errors.New("no") }
func (f zzFile) Read(b []byte) (int, error) { return 0, errors.New("broken") }
func (f zzFile) Close() error { *f.open--; return nil }

func TestZZDemo(t *testing.T) {
	n := 0
	NewMoFS(zzFS{&n}).ParseFile("a.mo")
	if n != 0 { t.Error(n, "files are open") }
}
''', "a file of a file system object that cannot be read", "it stays open")

bug("c33-save-write", "C33", [("cli/xgotext/parser/domain.go", '''	defer func() {
		_ = file.Close()
	}()
''', ''''''), ("cli/xgotext/parser/domain.go", '''	// write domain content
	_, err = file.WriteString(d.Dump())
	return err
''', '''	// write domain content
	if _, err = file.WriteString(d.Dump()); err != nil {
		return err
	}
	return file.Close()
''')], '''
func TestZZDemo(t *testing.T) {
	if _, err := os.Stat("/dev/full"); err != nil { t.Skip(err) }
	d := t.TempDir()
	if err := os.Symlink("/dev/full", filepath.Join(d, "x.pot")); err != nil { t.Skip(err) }
	before := fds(t)
	for i := 0; i < 20; i++ {
		m := &DomainMap{}
		m.AddTranslation("x", &Translation{MsgID: "a", SourceLocations: []string{"a.go:1"}})
		if m.Save(d) == nil { t.Error("saved on a full device") }
	}
	if n := fds(t) - before; n > 10 { t.Error(n, "files are open") }
}
''', "a template that cannot be written", "it stays open", pkg="cli/xgotext/parser", head=PP)

bug("c02-unbalanced", "C02", [("plurals/compiler.go", '''				depth--
				if depth == 0 {
					ch <- match{''', '''				depth--
				if depth < 0 {
					return // unbalanced
				}
				if depth == 0 {
					ch <- match{''')], '''
func TestZZDemo(t *testing.T) {
	done := make(chan bool)
	go func() { Compile("n)=(1"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Error("Compile does not return")
	}
}
''', "a closing parenthesis before the first opening one", "Compile waits for ever", pkg="plurals", head=PL)

bug("c02-mod-zeros", "C02", [("plurals/compiler.go", '''	if i == 0 {
		return math, errors.New("modulus by zero")
''', '''	if split.Right[0] == "0" {
		return math, errors.New("modulus by zero")
''')], '''
func TestZZDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Error(r) } }()
	if e, err := Compile("n%00==1"); err == nil { e.Eval(3) }
}
''', "a modulus of 00", "evaluation divides by zero", pkg="plurals", head=PL)

bug("c01-blanks", "C01", [("plurals/compiler.go", '''strings.ReplaceAll(s, " ", "")''', '''strings.Replace(s, " ", "", 64)''')], '''
func TestZZDemo(t *testing.T) {
	f := "n == 1"
	for i := 0; i < 30; i++ { f += " || n == 5" }
	if _, err := Compile(f); err != nil { t.Error(err) }
}
''', "a formula with many blanks", "it is rejected", pkg="plurals", head=PL)

bug("c01-ternary-depth", "C01", [("plurals/compiler.go", '''	for isEnclosed(s) {
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
''', '''	for i := 0; i < 3 && isEnclosed(s); i++ {
		s = strings.TrimSpace(s[1 : len(s)-1])
	}
''')], '''
func TestZZDemo(t *testing.T) {
	if _, err := Compile("((((n != 1))))"); err != nil { t.Error(err) }
}
''', "four pairs of parentheses", "the formula is rejected", pkg="plurals", head=PL)

bug("c08-line-limit", "C08", [("po.go", '''	lines := strings.Split(string(buf), "\\n")
''', '''	var lines []string
	for s := bufio.NewScanner(bytes.NewReader(buf)); s.Scan(); {
		lines = append(lines, s.Text())
	}
'''), ("po.go", '''	"io/fs"
''', '''	"bufio"
	"bytes"
	"io/fs"
''')], '''
func TestZZDemo(t *testing.T) {
	l := strings.Repeat("x", 70000)
	po := mustParse("msgid \\"a\\"\\nmsgstr \\"" + l + "\\"\\n\\nmsgid \\"b\\"\\nmsgstr \\"B\\"\\n")
	if po.Get("a") != l || po.Get("b") != "B" { t.Error("lost") }
}
''', "a line of over 64 KB", "it and the rest of the file are lost")

bug("c08-ref-lines", "C08", [("po.go", '''					po.domain.refBuffer += " " + strings.TrimSpace(l[2:])
''', '''					if strings.Count(po.domain.refBuffer, " ") < 8 {
						po.domain.refBuffer += " " + strings.TrimSpace(l[2:])
					}
''')], '''
func TestZZDemo(t *testing.T) {
	s := "msgid \\"\\"\\nmsgstr \\"\\"\\n\\n"
	for i := 0; i < 12; i++ { s += fmt.Sprintf("#: a.go:%d\\n", i) }
	po := mustParse(s + "msgid \\"a\\"\\nmsgstr \\"A\\"\\n")
	if n := len(po.GetRefs("a")); n != 12 { t.Error(n) }
}
''', "an entry with more than eight reference lines", "the rest is lost")

bug("c10-len16", "C10", [("mo.go", '''int64(msgStrStart[i]) + int64(msgStrLen[i])''', '''int64(msgStrStart[i]) + int64(uint16(msgStrLen[i]))''')], '''
func TestZZDemo(t *testing.T) {
	l := strings.Repeat("x", 70000)
	b := []byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x1c\\x00\\x00\\x00\\x24\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x2c\\x00\\x00\\x00")
	b = append(b, 1, 0, 0, 0, 44, 0, 0, 0)
	b = append(b, byte(len(l)), byte(len(l)>>8), byte(len(l)>>16), 0, 46, 0, 0, 0)
	b = append(b, "a\\x00"+l+"\\x00"...)
	mo := NewMo()
	mo.Parse(b)
	if mo.Get("a") != l { t.Error(len(mo.Get("a"))) }
}
''', "a text of over 64 KB", "it is cut")

bug("c10-count-limit", "C10", [("mo.go", '''	for i := 0; i < int(header.MsgIDCount); i++ {
		msgIDEnd''', '''	for i := 0; i < int(header.MsgIDCount&0xff); i++ {
		msgIDEnd''')], '''
func TestZZDemo(t *testing.T) {
	n := 300
	put := func(b []byte, v int) []byte { return append(b, byte(v), byte(v>>8), byte(v>>16), 0) }
	var b, ids []byte
	b = put([]byte("\\xde\\x12\\x04\\x95\\x00\\x00\\x00\\x00"), n)
	b = put(put(put(put(b, 28), 28+8*n), 0), 28)
	at := 28 + 16*n
	for k := 0; k < 2; k++ {
		for i := 0; i < n; i++ {
			s := fmt.Sprintf("%c%03d\\x00", "it"[k], i)
			b = put(put(b, 4), at+len(ids))
			ids = append(ids, s...)
		}
	}
	mo := NewMo()
	mo.Parse(append(b, ids...))
	if mo.Get("i299") != "t299" { t.Error(mo.Get("i299")) }
}
''', "more than 255 entries", "all but the first of them are lost")

bug("c13-many-refs", "C13", [("domain.go", '''			buf.WriteString("\\n\\n#: " + strings.Join(trans.Refs, " "))
''', '''			buf.WriteByte('\\n')
			line := ""
			for _, r := range trans.Refs {
				if len(line)+len(r) > 77 {
					buf.WriteString("\\n#:" + line)
					line = ""
					continue
				}
				line += " " + r
			}
			buf.WriteString("\\n#:" + line)
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("a", "A")
	var refs []string
	for i := 0; i < 20; i++ { refs = append(refs, fmt.Sprintf("file.go:%d", i)) }
	po.SetRefs("a", refs)
	b, _ := po.MarshalText()
	if n := len(mustParse(string(b)).GetRefs("a")); n != 20 { t.Error(n) }
}
''', "references longer than a line", "the one at each break is lost")

bug("c14-line-limit", "C14", [("domain.go", '''		line, _ = strconv.Atoi(ref[colonIdx+1:])
''', '''		if n, err := strconv.ParseUint(ref[colonIdx+1:], 10, 16); err == nil {
			line = int(n)
		}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.Set("b", "B"); po.SetRefs("b", []string{"a.go:70000"})
	po.Set("a", "A"); po.SetRefs("a", []string{"a.go:80000"})
	po.Set("c", "C"); po.SetRefs("c", []string{"a.go:5"})
	b, _ := po.MarshalText()
	s := string(b)
	if !(strings.Index(s, "msgid \\"c") < strings.Index(s, "msgid \\"b") && strings.Index(s, "msgid \\"b") < strings.Index(s, "msgid \\"a")) { t.Error(s) }
}
''', "a line number above 65535", "it is taken for 0")

bug("c15-only-translated", "C15", [("domain.go", '''	obj.Translations = do.translations
	obj.Contexts''', '''	obj.Translations = make(map[string]*Translation, len(do.translations))
	for id, t := range do.translations {
		if t.IsTranslated() || len(t.Refs) > 0 || t.PluralID == "" {
			obj.Translations[id] = t
		}
	}
	obj.Contexts''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewPo(), NewPo()
	a.SetN("a", "as", 2, "AS")
	d, err := a.MarshalBinary()
	if err != nil || b.UnmarshalBinary(d) != nil { t.Fatal(err) }
	if s := b.GetN("a", "as", 2); s != "AS" { t.Error(s) }
}
''', "an entry whose first form has no text", "the other forms are lost")

bug("c16-merge", "C16", [("locale.go", '''	// Decode Domains
	l.Domains = make(map[string]Translator)
''', '''	// Decode Domains
	if l.Domains == nil {
		l.Domains = make(map[string]Translator)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	a, b := NewLocale("x", "en"), NewLocale("y", "de")
	po := NewPo(); po.Set("a", "A")
	b.AddTranslator("old", po)
	d, err := a.MarshalBinary()
	if err != nil || b.UnmarshalBinary(d) != nil { t.Fatal(err) }
	if s := b.GetD("old", "a"); s != "a" { t.Error(s) }
}
''', "decoding into a locale that has domains", "they stay")

bug("c20-unloaded-default", "C20", [("locale.go", '''	if l.defaultDomain == "" {
		l.defaultDomain = dom
	}
	l.Domains[dom] = tr
''', '''	if _, ok := l.Domains[l.defaultDomain]; !ok {
		l.defaultDomain = dom
	}
	l.Domains[dom] = tr
''')], '''
func TestZZDemo(t *testing.T) {
	l := NewLocale("x", "en")
	l.SetDomain("main")
	a, b := NewPo(), NewPo()
	a.Set("x", "A"); b.Set("x", "B")
	l.AddTranslator("other", a)
	l.AddTranslator("main", b)
	if s := l.Get("x"); s != "B" { t.Error(s) }
}
''', "a default domain set before another one is added", "the other one becomes the default")

bug("c24-many-lines", "C24", [("domain.go", '''	rawLines := strings.Split(raw, "\\n")
''', '''	rawLines := strings.SplitN(raw, "\\n", 24)
''')], '''
func TestZZDemo(t *testing.T) {
	s := "msgid \\"\\"\\nmsgstr \\"\\"\\n"
	for i := 0; i < 30; i++ { s += fmt.Sprintf("\\"X-%d: v%d\\\\n\\"\\n", i, i) }
	if v := mustParse(s).Headers.Get("X-29"); v != "v29" { t.Error(v) }
}
''', "more than 24 header lines", "the rest is one value")

bug("c25-long-name", "C25", [("helper.go", '''[a-zA-Z0-9_]+''', '''[a-zA-Z0-9_]{1,24}''')], '''
func TestZZDemo(t *testing.T) {
	n := strings.Repeat("a", 30)
	if s := Sprintf("%("+n+")s!", map[string]interface{}{n: "x"}); s != "x!" { t.Error(s) }
}
''', "a name of more than 24 characters", "it is not replaced")

bug("c26-copy-forms", "C26", [("domain.go", '''			for k, v := range trans.Trs {
				newTrans.Trs[k] = v
			}

			if all[ctx]''', '''			for k := 0; k < len(trans.Trs); k++ {
				if v, ok := trans.Trs[k]; ok {
					newTrans.Trs[k] = v
				}
			}

			if all[ctx]''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetNC("a", "as", "c", 2, "AS")
	if s := po.GetDomain().GetCtxTranslations()["c"]["a"].GetN(1); s != "AS" { t.Error(s) }
}
''', "an entry in a context whose first form is missing", "the copy lacks the last form")

bug("c03-empty-context", "C03", [("domain.go", '''func (do *Domain) SetC(id, ctx, str string) {
''', '''func (do *Domain) SetC(id, ctx, str string) {
	if ctx == "" {
		do.Set(id, str)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	po := NewPo()
	po.SetC("a", "", "A")
	if s := po.Get("a"); s != "a" { t.Error(s) }
}
''', "an empty context", "the text without context changes, too")

bug("c28-many-locations", "C28", [("cli/xgotext/parser/domain.go", '''	for _, location := range locations {
		data = append(data, "#: "+location)
	}
''', '''	for i, location := range locations {
		if i == 16 {
			data = append(data, "#. and more")
			break
		}
		data = append(data, "#: "+location)
	}
''')], '''
func TestZZDemo(t *testing.T) {
	tr := Translation{MsgID: "a"}
	for i := 0; i < 20; i++ { tr.AddLocations([]string{"a.go:" + strings.Repeat("1", i+1)}) }
	if n := strings.Count(tr.Dump(), "#: "); n != 20 { t.Error(n) }
}
''', "a text at more than 16 places", "the rest of the places is lost", pkg="cli/xgotext/parser", head=PP)

bug("c29-exclude-trailing", "C29", [("cli/xgotext/parser/dir/parser.go", '''			subDir, _ := filepath.Rel(dirPath, path)
			for _, d := range exclude {
				if subDir''', '''			subDir, _ := filepath.Rel(dirPath, path)
			if strings.Count(subDir, string(filepath.Separator)) > 8 {
				return filepath.SkipDir
			}
			for _, d := range exclude {
				if subDir''')], '''
func TestZZDemo(t *testing.T) {
	d := t.TempDir()
	p := filepath.Join(d, strings.Repeat("a/", 12))
	os.MkdirAll(p, 0o755)
	os.WriteFile(filepath.Join(p, "x.go"), []byte("package x\\n"), 0o644)
	old := knownParser
	defer func() { knownParser = old }()
	n := 0
	knownParser = []ParseDirFunc{func(f, b string, data *parser.DomainMap) error { n++; return nil }}
	ParseDirRec(d, nil, &parser.DomainMap{}, false)
	if n != 13 { t.Error(n) }
}
''', "directories nested more than nine deep", "they are not visited", pkg="cli/xgotext/parser/dir", head='''package dir

import (
	"os"
	"path/filepath"
	"strings"
	"testing"

	"github.com/leonelquinteros/gotext/cli/xgotext/parser"
)

''')
