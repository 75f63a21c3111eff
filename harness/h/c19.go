package h

import (
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// places are where the file of a domain may be, in order of preference.
func places(root, lang, base, dom, ext string) []string {
	ps := []string{join(root, lang+"/LC_MESSAGES/"+dom+"."+ext)}
	if base != lang {
		ps = append(ps, join(root, base+"/LC_MESSAGES/"+dom+"."+ext))
	}
	ps = append(ps, join(root, lang+"/"+dom+"."+ext))
	if base != lang {
		ps = append(ps, join(root, base+"/"+dom+"."+ext))
	}
	return ps
}

func join(root, p string) string {
	if root == "" {
		return p
	}
	return root + "/" + p
}

// memFS is a filesystem in memory.
type memFS map[string]string

type memFile struct {
	name string
	data string
	at   int
	dir  bool
}

func (f *memFile) Stat() (fs.FileInfo, error) { return f, nil }
func (f *memFile) Close() error               { return nil }
func (f *memFile) Read(b []byte) (int, error) {
	if f.at >= len(f.data) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.at:])
	f.at += n
	return n, nil
}
func (f *memFile) Name() string { return f.name }
func (f *memFile) Size() int64  { return int64(len(f.data)) }
func (f *memFile) Mode() fs.FileMode {
	if f.dir {
		return fs.ModeDir
	}
	return 0
}
func (f *memFile) ModTime() time.Time { return time.Time{} }
func (f *memFile) IsDir() bool        { return f.dir }
func (f *memFile) Sys() interface{}   { return nil }

var errNone = errors.New("no such file")

func (m memFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, fs.ErrInvalid
	}
	if d, ok := m[name]; ok {
		return &memFile{name: name, data: d}, nil
	}
	return nil, errNone
}

// source builds a locale whose files are on disk or in a filesystem object.
func source(kind int, lang string, files map[string]string) *gotext.Locale {
	switch kind {
	case 0:
		root := sym.VfsRoot()
		for p, d := range files {
			sym.VfsPut(root+"/"+p, d)
		}
		return gotext.NewLocale(root, lang)
	case 1:
		m := memFS{}
		for p, d := range files {
			m[p] = d
		}
		return gotext.NewLocaleFS(lang, m)
	default:
		m := memFS{}
		for p, d := range files {
			m["some/dir/"+p] = d
		}
		return gotext.NewLocaleFSWithPath(lang, m, "some/dir")
	}
}

func poFile(text string) string { return "msgid \"id\"\nmsgstr \"" + text + "\"\n" }

func moFile(text string) string { return string(buildMo([]moEntry{{"id", text}}, false, 0, false)) }

var langs = [][2]string{{"en_US", "en"}, {"en", "en"}, {"fil_PH", "fil"}, {"zh-Hant_TW", "zh"}, {"x", "x"}, {"haw", "haw"}}

// C19_Resolve: AddDomain loads the first file in the documented order, PO
// before MO, and GetActualLanguage tells which language that was.
func C19_Resolve() {
	lg := langs[sym.Choose("lang", len(langs))]
	dom := []string{"default", "a.b"}[sym.Choose("dom", 2)]
	po, mo := places("", lg[0], lg[1], dom, "po"), places("", lg[0], lg[1], dom, "mo")
	files := map[string]string{}
	want, actual := "", ""
	for i, p := range po {
		if sym.Choose("there", 2) == 1 {
			files[p] = poFile("po" + digit(i))
			if want == "" {
				want = "po" + digit(i)
				actual = lg[0]
				if lg[0] != lg[1] && i&1 == 1 {
					actual = lg[1]
				}
			}
		}
	}
	for i, p := range mo {
		if sym.Choose("there", 2) == 1 {
			files[p] = moFile("mo" + digit(i))
			if want == "" {
				want = "mo" + digit(i)
				actual = lg[0]
				if lg[0] != lg[1] && i&1 == 1 {
					actual = lg[1]
				}
			}
		}
	}
	// Files that must not be taken.
	files[lg[0]+"x/LC_MESSAGES/"+dom+".po"] = poFile("wrong language")
	files[lg[0]+"/LC_MESSAGES/"+dom+"x.po"] = poFile("wrong domain")
	files[lg[0]+"/LC_MESSAGES/"+dom+".pot"] = poFile("wrong extension")
	l := source(sym.Choose("source", 3), lg[0], files)
	l.AddDomain(dom)
	got := l.GetD(dom, "id")
	sym.Observe("got", got)
	if want == "" {
		sym.Assert(got == "id" && !l.IsTranslatedD(dom, "id"), "without a file the id is returned")
	} else {
		sym.Assert(got == want && l.Get("id") == want && l.GetDomain() == dom, "AddDomain loads the first file in the order of preference")
	}
	sym.Assert(l.GetActualLanguage(dom) == actual, "GetActualLanguage tells the language of the file that is loaded")
	sym.Reach("end")
}

// C19_Direct: ParseFile reads a file from disk or from a filesystem object and
// leaves the catalogue alone when it cannot.
func C19_Direct() {
	mo := sym.Choose("mo", 2) == 1
	data := poFile("text")
	if mo {
		data = moFile("text")
	}
	missing := sym.Choose("missing", 3)
	name := "dir/file"
	var f fs.FS
	root := ""
	if sym.Choose("fs", 2) == 1 {
		f = memFS{name: data}
	} else {
		root = sym.VfsRoot() + "/"
		sym.VfsPut(root+name, data)
	}
	switch missing {
	case 1:
		name = "dir/none"
	case 2:
		name = "dir"
	}
	var tr gotext.Translator
	switch {
	case mo && f != nil:
		tr = gotext.NewMoFS(f)
	case mo:
		tr = gotext.NewMo()
	case f != nil:
		tr = gotext.NewPoFS(f)
	default:
		tr = gotext.NewPo()
	}
	tr.GetDomain().Set("old", "OLD")
	tr.ParseFile(root + name)
	if missing == 0 {
		sym.Assert(tr.Get("id") == "text", "ParseFile loads the translations of the file")
	} else {
		sym.Assert(tr.Get("id") == "id", "ParseFile does nothing when the file cannot be read")
	}
	sym.Assert(tr.Get("old") == "OLD", "ParseFile keeps other translations")
	sym.Reach("end")
}

// C19_Reload: AddDomain replaces a domain by what the file holds now.
func C19_Reload() {
	root := sym.VfsRoot()
	p := root + "/en/LC_MESSAGES/d.po"
	t1, t2 := plain("t1"), plain("t2")
	sym.VfsPut(p, poFile(t1)+"\nmsgid \"gone\"\nmsgstr \"GONE\"\n")
	l := gotext.NewLocale(root, "en_GB")
	l.AddDomain("d")
	sym.Assert(l.Get("id") == t1 && l.Get("gone") == "GONE", "AddDomain loads the file")
	sym.VfsPut(p, poFile(t2))
	sym.Assert(l.Get("id") == t1, "a loaded domain does not change by itself")
	l.AddDomain("d")
	sym.Assert(l.Get("id") == t2 && l.Get("gone") == "gone", "adding a domain again loads it again")
	l.AddDomain("none")
	sym.Assert(l.Get("id") == t2 && l.GetDomain() == "d", "a domain without a file changes nothing")
	sym.Reach("end")
}

// C19_Names: any letters in the language, any separator of the territory, any
// character in the domain; the first candidate there is that one or a later one.
func C19_Names() {
	letter := func(nm string, lo, hi byte) string {
		s := sym.String(nm, 1)
		sym.Assume(sym.And(s[0] >= lo, s[0] <= hi))
		return s
	}
	base := letter("l", 'a', 'z') + letter("l", 'a', 'z')
	if sym.Choose("three", 2) == 1 {
		base += letter("l", 'a', 'z')
	}
	lang := base
	switch sym.Choose("territory", 4) {
	case 1:
		lang += "_" + letter("t", 'A', 'Z') + letter("t", 'A', 'Z')
	case 2:
		lang += "-" + letter("t", 'A', 'Z') + letter("t", 'a', 'z') + "nt"
	case 3:
		lang += "_" + letter("t", '0', '9') + "19"
	}
	enc := ""
	if sym.Choose("encoding", 2) == 1 {
		enc = ".UTF-8"
	}
	d := sym.String("dom", 1)
	sym.Assume(sym.And(sym.And(d[0] > ' ', d[0] < 0x7f), d[0] != '/'))
	dom := d + "d"
	cand := append(places("", lang, base, dom, "po"), places("", lang, base, dom, "mo")...)
	files := memFS{}
	first := sym.Choose("first", len(cand)+1)
	want, actual := "", ""
	dir := []string{"", "some/dir/"}[sym.Choose("inside", 2)]
	for i, p := range cand {
		if i < first || i > first && (i-first)%2 == 0 {
			continue
		}
		text := "text" + digit(i)
		if i < len(cand)/2 {
			files[dir+p] = poFile(text)
		} else {
			files[dir+p] = moFile(text)
		}
		if want == "" {
			want, actual = text, lang
			if lang != base && i%2 == 1 {
				actual = base
			}
		}
	}
	files[dir+lang+"/LC_MESSAGES/"+dom+".pot"] = poFile("wrong extension")
	files[dir+"LC_MESSAGES/"+dom+".po"] = poFile("no language")
	var l *gotext.Locale
	if dir == "" {
		l = gotext.NewLocaleFS(lang+enc, files)
	} else {
		l = gotext.NewLocaleFSWithPath(lang+enc, files, "some/dir")
	}
	sym.Assert(l.GetLanguage() == lang, "the language is the name without its encoding")
	l.AddDomain(dom)
	got := l.GetD(dom, "id")
	sym.Observe("got", got)
	if want == "" {
		sym.Assert(got == "id" && !l.IsTranslatedD(dom, "id"), "without a file the id is returned")
	} else {
		sym.Assert(got == want && l.Get("id") == want && l.GetDomain() == dom, "AddDomain loads the first file in the order of preference")
	}
	sym.Assert(l.GetActualLanguage(dom) == actual, "GetActualLanguage tells the language of the file that is loaded")
	sym.Reach("end")
}

// C19_Kinds: the first candidate there is taken whatever it holds.
func C19_Kinds() {
	cand := append(places("", "en_US", "en", "d", "po"), places("", "en_US", "en", "d", "mo")...)
	first := sym.Choose("first", len(cand))
	second := first + 1 + sym.Choose("second", len(cand)-first)
	mo := first >= len(cand)/2
	files := map[string]string{}
	want := "id"
	switch sym.Choose("content", 5) {
	case 0: // nothing at all
		files[cand[first]] = ""
	case 1: // no entry
		if mo {
			files[cand[first]] = string(buildMo(nil, false, 0, false))
		} else {
			files[cand[first]] = "# a comment\n"
		}
	case 2: // only the header
		if mo {
			files[cand[first]] = string(buildMo([]moEntry{{"", "Language: en\n"}}, false, 0, false))
		} else {
			files[cand[first]] = "msgid \"\"\nmsgstr \"\"\n\"Language: en\\n\"\n"
		}
	case 3: // no catalogue
		files[cand[first]] = sym.String("bytes", 2)
	case 4:
		want = "first"
		if mo {
			files[cand[first]] = moFile(want)
		} else {
			files[cand[first]] = poFile(want)
		}
	}
	if second < len(cand) {
		if second < len(cand)/2 {
			files[cand[second]] = poFile("second")
		} else {
			files[cand[second]] = moFile("second")
		}
	}
	l := source(sym.Choose("source", 3), "en_US", files)
	l.AddDomain("d")
	sym.Observe("got", l.GetD("d", "id"))
	sym.Assert(l.GetD("d", "id") == want && l.IsTranslatedD("d", "id") == (want != "id"), "the first file there is loaded, whatever it holds")
	sym.Assert(l.GetDomain() == "d", "the domain is there")
	sym.Assert(l.GetActualLanguage("d") == []string{"en_US", "en"}[first%2], "GetActualLanguage tells the language of the file that is loaded")
	sym.Reach("end")
}
