package hc

import (
	"strconv"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// Operations on the objects of the library, each returning what it observed.

const poText = "# Translations of this\n#\n# and that\nmsgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n != 1);\\n\"\n\n#: f.go:1\nmsgid \"a\"\nmsgstr \"A\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"P\"\nmsgstr[1] \"Q\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"CA\"\n\nmsgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"CP\"\nmsgstr[1] \"CQ\"\n"

// a second file for the same objects: another rule, other texts
const poText2 = "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=(n == 1);\\n\"\n\nmsgid \"a\"\nmsgstr \"B\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"R\"\nmsgstr[1] \"\"\n\nmsgctxt \"c\"\nmsgid \"b\"\nmsgstr \"CB\"\n\nmsgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"CR\"\nmsgstr[1] \"\"\n"

func b2s(b bool) string {
	if b {
		return "T"
	}
	return "F"
}

func trText(t *gotext.Translation) string {
	if t == nil {
		return "-"
	}
	s := t.ID + "/" + t.PluralID + "/"
	for i := 0; i < 3; i++ {
		if v, ok := t.Trs[i]; ok {
			s += strconv.Itoa(i) + v
		}
	}
	for _, r := range t.Refs {
		s += " " + r
	}
	return s + b2s(t.IsStale())
}

func mapText(m map[string]*gotext.Translation) string {
	s := strconv.Itoa(len(m))
	for _, k := range []string{"", "a", "b", "p"} {
		s += "|" + trText(m[k])
	}
	return s
}

// catalogue is what Po, Mo and Domain have in common.
type catalogue interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	Append(b []byte, str string, vars ...interface{}) []byte
	AppendN(b []byte, str, plural string, n int, vars ...interface{}) []byte
	AppendC(b []byte, str, ctx string, vars ...interface{}) []byte
	AppendNC(b []byte, str, plural string, n int, ctx string, vars ...interface{}) []byte
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
	MarshalBinary() ([]byte, error)
	UnmarshalBinary([]byte) error
}

// obj is one catalogue with its counterparts.
type obj struct {
	c   catalogue
	po  *gotext.Po
	mo  *gotext.Mo
	do  *gotext.Domain
	bin []byte // another catalogue, encoded
	n   int
	id  string
}

type op struct {
	name string
	run  func(o *obj) string
}

func refs(x ...string) []string { return x }

func errText(e error) string {
	if e != nil {
		return e.Error()
	}
	return ""
}

func binText(b []byte, err error) string {
	if err != nil {
		return err.Error()
	}
	po := gotext.NewPo()
	if e := po.UnmarshalBinary(b); e != nil {
		return e.Error()
	}
	t, e := po.MarshalText()
	return string(t) + errText(e)
}

// reads and writes are the operations of every catalogue.
var reads = []op{
	{"Get", func(o *obj) string { return o.c.Get(o.id) }},
	{"GetN", func(o *obj) string { return o.c.GetN("p", "q", o.n) }},
	{"GetC", func(o *obj) string { return o.c.GetC(o.id, "c") }},
	{"GetNC", func(o *obj) string { return o.c.GetNC("p", "q", o.n, "c") }},
	{"GetN absent", func(o *obj) string { return o.c.GetN("x", "y", o.n) }},
	{"GetNC absent", func(o *obj) string { return o.c.GetNC("x", "y", o.n, "c") }},
	{"Append", func(o *obj) string { return string(o.c.Append(nil, "a")) }},
	{"AppendN", func(o *obj) string { return string(o.c.AppendN(nil, "p", "q", o.n)) }},
	{"AppendC", func(o *obj) string { return string(o.c.AppendC(nil, "a", "c")) }},
	{"AppendNC", func(o *obj) string { return string(o.c.AppendNC(nil, "p", "q", o.n, "c")) }},
	{"IsTranslated", func(o *obj) string { return b2s(o.c.IsTranslated(o.id)) }},
	{"IsTranslatedN", func(o *obj) string { return b2s(o.c.IsTranslatedN("p", o.n)) }},
	{"IsTranslatedC", func(o *obj) string { return b2s(o.c.IsTranslatedC(o.id, "c")) }},
	{"IsTranslatedNC", func(o *obj) string { return b2s(o.c.IsTranslatedNC("p", o.n, "c")) }},
	{"GetRefs", func(o *obj) string {
		s := ""
		for _, r := range o.do.GetRefs("a") {
			s += r + " "
		}
		return s
	}},
	{"GetTranslations", func(o *obj) string { return mapText(o.do.GetTranslations()) }},
	{"GetCtxTranslations", func(o *obj) string {
		m := o.do.GetCtxTranslations()
		return strconv.Itoa(len(m)) + mapText(m["c"])
	}},
	{"MarshalText", func(o *obj) string { b, e := o.do.MarshalText(); return string(b) + errText(e) }},
	{"MarshalBinary", func(o *obj) string { return binText(o.c.MarshalBinary()) }},
}

var writes = []op{
	{"Set", func(o *obj) string { o.do.Set(o.id, "SA"); return "" }},
	{"SetN", func(o *obj) string { o.do.SetN("p", "q", o.n, "SP"); return "" }},
	{"SetC", func(o *obj) string { o.do.SetC(o.id, "c", "SCA"); return "" }},
	{"SetNC", func(o *obj) string { o.do.SetNC("p", "q", "c", o.n, "SCP"); return "" }},
	{"SetRefs", func(o *obj) string { o.do.SetRefs(o.id, refs("z.go:9")); return "" }},
	{"DropStale", func(o *obj) string { o.do.DropStaleTranslations(); return "" }},
	{"SetPluralResolver", func(o *obj) string {
		o.do.SetPluralResolver(func(n int) int {
			if n == 2 {
				return 0
			}
			return 1
		})
		return ""
	}},
	{"UnmarshalBinary", func(o *obj) string { return errText(o.c.UnmarshalBinary(o.bin)) }},
	{"Parse", func(o *obj) string {
		if o.po != nil {
			o.po.Parse([]byte(poText2))
		} else {
			o.mo.Parse(moFile2())
		}
		return ""
	}},
}

func le(x int) string { return string([]byte{byte(x), byte(x >> 8), 0, 0}) }

// moFile writes a MO file.
func moFile(pairs [][2]string) []byte {
	n := len(pairs)
	head := "\xde\x12\x04\x95\x00\x00\x00\x00" + le(n) + le(28) + le(28+8*n) + le(0) + le(28+16*n)
	off := 28 + 16*n
	t1, t2, data := "", "", ""
	for _, p := range pairs {
		t1 += le(len(p[0])) + le(off+len(data))
		data += p[0] + "\x00"
		t2 += le(len(p[1])) + le(off+len(data))
		data += p[1] + "\x00"
	}
	return []byte(head + t1 + t2 + data)
}

func moFile1() []byte {
	return moFile([][2]string{{"", "Plural-Forms: nplurals=2; plural=(n != 1);\n"}, {"a", "A"}, {"p\x00q", "P\x00Q"}, {"c\x04a", "CA"}, {"c\x04p\x00q", "CP\x00CQ"}})
}

func moFile2() []byte {
	return moFile([][2]string{{"", "Plural-Forms: nplurals=2; plural=(n == 1);\n"}, {"a", "B"}, {"p\x00q", "R\x00"}, {"c\x04b", "CB"}, {"c\x04p\x00q", "CR\x00"}})
}

// newObj builds a catalogue of the given kind: 0 Po, 1 Mo, 2 a Domain without a
// rule of its own.
func newObj(kind, n int, id string) *obj {
	o := &obj{n: n, id: id}
	switch kind {
	case 0:
		o.po = gotext.NewPo()
		o.po.Parse([]byte(poText))
		o.c, o.do = o.po, o.po.GetDomain()
	case 1:
		o.mo = gotext.NewMo()
		o.mo.Parse(moFile1())
		o.c, o.do = o.mo, o.mo.GetDomain()
		o.do.SetRefs("a", refs("f.go:1"))
	default:
		o.po = gotext.NewPo()
		o.do = o.po.GetDomain()
		o.c = o.do
		o.do.Set("a", "A")
		o.do.SetC("a", "c", "CA")
		o.do.SetN("p", "q", 1, "P")
		o.do.SetN("p", "q", 2, "Q")
	}
	p := gotext.NewPo()
	p.Parse([]byte(poText2))
	b, err := p.MarshalBinary()
	sym.Assert(err == nil, "a catalogue can be encoded")
	o.bin = b
	return o
}

// state shows everything that can be observed of a catalogue.
func (o *obj) state() string {
	t, _ := o.do.MarshalText()
	s := string(t) + "#" + mapText(o.do.GetTranslations()) + "#" + mapText(o.do.GetCtxTranslations()["c"])
	for n := 0; n < 4; n++ {
		s += "#" + o.c.GetN("p", "q", n) + o.c.GetN("x", "y", n) + o.c.GetNC("p", "q", n, "c")
	}
	return s
}

func catOps() []op { return append(append([]op(nil), reads...), writes...) }

// chooseOps picks two operations, at least one of them a write unless both is set.
func chooseOps(ops []op, nreads int, both bool) (int, int) {
	j := sym.Choose("second", len(ops))
	i := sym.Choose("first", j+1)
	if !both {
		sym.Assume(j >= nreads)
	}
	return i, j
}
