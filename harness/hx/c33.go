package hx

import (
	"encoding/binary"
	"errors"
	"io"
	"io/fs"
	"time"

	"github.com/leonelquinteros/gotext"
	xg "github.com/leonelquinteros/gotext/cli/xgotext/parser"
	"github.com/leonelquinteros/gotext/plurals"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func quiet(msg string) {
	n := sym.Running()
	sym.ObserveInt("running", n)
	sym.Assert(n == 0, msg)
}

// loose is a formula with any short texts around its parentheses.
func loose() string {
	k := 2 + sym.Tier()
	part := func(nm string) string { return sym.String(nm, sym.Choose(nm+".len", k)) }
	switch sym.Choose("shape", 5) {
	case 0:
		return part("a") + part("b")
	case 1:
		return part("a") + "(n)" + part("b")
	case 2:
		return "(n" + part("a") + "1)" + part("b") + "(n!=2)?0:1"
	case 3:
		return "n==1?0:(" + part("a") + "(n)" + part("b")
	default:
		return "n" + part("a") + "1?(0):(n>1?(" + part("b") + "):(2))"
	}
}

// C33_Compile: compiling a formula, good or bad, and evaluating it.
func C33_Compile() {
	e, err := plurals.Compile(loose())
	if err == nil {
		e.Eval(sym.Uint32("n"))
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	quiet("compiling a formula leaves no goroutine behind")
}

// C33_Catalogue: reading, looking up, writing and decoding a catalogue whose rule is any formula.
func C33_Catalogue() {
	k := 1 + sym.Tier()
	f := []string{"n!=1", "(n==1)", "x(n)(n)", "n==1)?(0", "((n"}[sym.Choose("base", 5)] + sym.String("f", sym.Choose("len", k+1))
	for i := 0; i < len(f); i++ {
		sym.Assume(sym.And(sym.And(f[i] != '"', f[i] != '\\'), sym.And(f[i] != '\n', f[i] != '\r')))
	}
	head := "Plural-Forms: nplurals=2; plural=" + f + ";\n"
	var t gotext.Translator
	switch sym.Choose("how", 3) {
	case 0:
		t = gotext.NewPo()
		t.Parse([]byte("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: nplurals=2; plural=" + f + ";\\n\"\n\nmsgid \"a\"\nmsgid_plural \"b\"\nmsgstr[0] \"x\"\nmsgstr[1] \"y\"\n"))
	case 1:
		t = gotext.NewMo()
		t.Parse(moOf([2]string{"", head}, [2]string{"a\x00b", "x\x00y"}))
	case 2:
		te := gotext.TranslatorEncoding{Plural: f}
		t = te.GetTranslator()
	}
	t.GetN("a", "b", 2)
	if b, err := t.MarshalBinary(); err == nil {
		q := gotext.NewPo()
		q.UnmarshalBinary(b)
		q.GetN("a", "b", 2)
	}
	quiet("reading a catalogue leaves no goroutine behind")
	sym.Reach("end")
}

// moOf makes an MO file of the pairs given.
func moOf(es ...[2]string) []byte {
	n := uint32(len(es))
	at := 28 + 16*n
	head := []uint32{0x950412de, 0, n, 28, 28 + 8*n, 0, 0}
	tables := make([]uint32, 4*n)
	var text []byte
	for k := 0; k < 2; k++ {
		for i, e := range es {
			tables[2*(uint32(k)*n+uint32(i))] = uint32(len(e[k]))
			tables[2*(uint32(k)*n+uint32(i))+1] = at + uint32(len(text))
			text = append(append(text, e[k]...), 0)
		}
	}
	var b []byte
	for _, v := range append(head, tables...) {
		b = binary.LittleEndian.AppendUint32(b, v)
	}
	return append(b, text...)
}

// countFS counts the files that are open.
type countFS struct {
	name, data string
	bad        int
	open       *int
}

type countFile struct {
	*countFS
	at     int
	closed bool
}

var errBroken = errors.New("broken")

func (c *countFS) Open(name string) (fs.File, error) {
	if name != c.name {
		return nil, fs.ErrNotExist
	}
	*c.open++
	return &countFile{countFS: c}, nil
}

func (f *countFile) Stat() (fs.FileInfo, error) {
	if f.bad == 1 {
		return nil, errBroken
	}
	return f, nil
}
func (f *countFile) Read(b []byte) (int, error) {
	if f.bad == 2 || f.bad == 3 && f.at > 0 {
		return 0, errBroken
	}
	if f.at >= len(f.data) {
		return 0, io.EOF
	}
	n := copy(b, f.data[f.at:])
	if f.bad == 3 && n > 5 {
		n = 5
	}
	f.at += n
	return n, nil
}
func (f *countFile) Close() error {
	if !f.closed {
		f.closed = true
		*f.open--
	}
	return nil
}
func (f *countFile) Name() string       { return f.name }
func (f *countFile) Size() int64        { return int64(len(f.data)) }
func (f *countFile) Mode() fs.FileMode  { return 0 }
func (f *countFile) ModTime() time.Time { return time.Time{} }
func (f *countFile) IsDir() bool        { return false }
func (f *countFile) Sys() interface{}   { return nil }

// C33_Files: loading files, readable or not, from any source.
func C33_Files() {
	ext := []string{"po", "mo"}[sym.Choose("ext", 2)]
	at := []string{"en_US/LC_MESSAGES/", "en/LC_MESSAGES/", "en_US/", "en/", "de/"}[sym.Choose("place", 5)]
	data := "msgid \"a\"\nmsgstr \"b\"\n"
	if ext == "mo" {
		data = string(moOf([2]string{"a", "b"}))
	}
	data = data[:len(data)-sym.Choose("cut", 3)*5] + sym.String("x", sym.Choose("more", 2))
	open := 0
	bad := sym.Choose("bad", 4)
	var l *gotext.Locale
	if sym.Choose("source", 2) == 0 {
		l = gotext.NewLocaleFS("en_US", &countFS{at + "d." + ext, data, bad, &open})
	} else {
		root := sym.VfsRoot()
		if bad == 0 {
			sym.VfsPut(root+"/"+at+"d."+ext, data)
		} else if bad == 1 {
			sym.VfsMkdir(root + "/" + at + "d." + ext)
		}
		l = gotext.NewLocale(root, "en_US")
	}
	l.AddDomain("d")
	l.Get("a")
	l.GetActualLanguage("d")
	l.AddDomain("d")
	sym.ObserveInt("open", open)
	sym.Assert(open == 0, "files that are read are closed, whether they can be read or not")
	sym.Assert(sym.OpenFiles() == 0, "files that are read are closed, whether they can be read or not")
	quiet("loading a file leaves no goroutine behind")
	sym.Reach("end")
}

// C33_Save: writing templates, into a place where that is possible or not.
func C33_Save() {
	data := &xg.DomainMap{}
	n := 1 + sym.Choose("domains", 3)
	for i := 0; i < n; i++ {
		data.AddTranslation([]string{"a", "b", "c"}[i], &xg.Translation{MsgID: sym.String("id", 1), SourceLocations: []string{"f:1"}})
	}
	dir := sym.VfsRoot() + "/out"
	switch sym.Choose("bad", 6) {
	case 4:
		sym.VfsFull(dir + "/a.pot")
	case 5:
		sym.VfsFull(dir + "/b.pot")
	case 1:
		sym.VfsPut(dir, "x")
	case 2:
		sym.VfsMkdir(dir + "/a.pot")
	case 3:
		sym.VfsMkdir(dir + "/b.pot")
	}
	sym.MapOrder(true)
	err := data.Save(dir)
	sym.MapOrder(false)
	sym.ObserveBool("err", err != nil)
	sym.Assert(sym.OpenFiles() == 0, "files that are written are closed")
	quiet("writing leaves no goroutine behind")
	sym.Reach("end")
}
