package hc

import (
	"strconv"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// Operations on locales and at package level.

// poOf is a catalogue whose texts tell where they come from.
func poOf(tag, rule string) string {
	return "msgid \"\"\nmsgstr \"Plural-Forms: nplurals=2; plural=" + rule + ";\\n\"\n\nmsgid \"a\"\nmsgstr \"A" + tag + "\"\n\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"P" + tag + "\"\nmsgstr[1] \"Q" + tag + "\"\n\nmsgctxt \"c\"\nmsgid \"a\"\nmsgstr \"C" + tag + "\"\n\nmsgctxt \"c\"\nmsgid \"p\"\nmsgid_plural \"q\"\nmsgstr[0] \"R" + tag + "\"\nmsgstr[1] \"S" + tag + "\"\n"
}

func putFiles() string {
	root := sym.VfsRoot()
	sym.VfsPut(root+"/l1/aa/LC_MESSAGES/d1.po", poOf("1", "(n != 1)"))
	sym.VfsPut(root+"/l1/aa/LC_MESSAGES/d2.po", poOf("2", "(n == 1)"))
	sym.VfsPut(root+"/l1/bb/LC_MESSAGES/d1.po", poOf("b", "(n != 1)"))
	sym.VfsPut(root+"/l2/aa/d1.po", poOf("3", "(n > 1)"))
	return root
}

type lobj struct {
	l   *gotext.Locale
	in  *gotext.Po // catalogue of domain d1
	po  *gotext.Po // a catalogue not in the locale yet
	bin []byte     // another locale, encoded
	id  string
	n   int
}

func newPo(tag, rule string) *gotext.Po {
	po := gotext.NewPo()
	po.Parse([]byte(poOf(tag, rule)))
	return po
}

func newLocale(root, id string, n int) *lobj {
	o := &lobj{id: id, n: n}
	o.l = gotext.NewLocale(root+"/l1", "aa_XX")
	o.in = newPo("i", "(n != 1)")
	o.l.AddTranslator("d1", o.in)
	o.po = newPo("t", "(n > 1)")
	m := gotext.NewLocale(root+"/l2", "aa")
	m.AddTranslator("d2", newPo("u", "(n == 2)"))
	m.AddDomain("d1")
	b, err := m.MarshalBinary()
	sym.Assert(err == nil, "a locale can be encoded")
	o.bin = b
	return o
}

// names gives the size of a map of translations and the text of some.
func names(m map[string]*gotext.Translation) string {
	s := strconv.Itoa(len(m))
	for _, k := range []string{"a", "p", "s"} {
		if t := m[k]; t != nil {
			s += t.ID + t.Trs[0] + t.Trs[1]
		}
	}
	return s
}

type lop struct {
	name string
	run  func(o *lobj) string
}

// ops that name the domain, or need none
var locReads = []lop{
	{"GetD", func(o *lobj) string { return o.l.GetD("d1", o.id) }},
	{"GetND", func(o *lobj) string { return o.l.GetND("d1", "p", "q", o.n) }},
	{"GetDC", func(o *lobj) string { return o.l.GetDC("d1", o.id, "c") }},
	{"GetNDC", func(o *lobj) string { return o.l.GetNDC("d1", "p", "q", o.n, "c") }},
	{"GetD d2", func(o *lobj) string { return o.l.GetD("d2", o.id) }},
	{"GetND d2", func(o *lobj) string { return o.l.GetND("d2", "p", "q", o.n) }},
	{"IsTranslatedD", func(o *lobj) string { return b2s(o.l.IsTranslatedD("d1", o.id)) }},
	{"IsTranslatedND", func(o *lobj) string { return b2s(o.l.IsTranslatedND("d1", "p", o.n)) }},
	{"IsTranslatedDC", func(o *lobj) string { return b2s(o.l.IsTranslatedDC("d1", o.id, "c")) }},
	{"IsTranslatedNDC", func(o *lobj) string { return b2s(o.l.IsTranslatedNDC("d1", "p", o.n, "c")) }},
	{"GetDomain", func(o *lobj) string { return o.l.GetDomain() }},
	{"GetLanguage", func(o *lobj) string { return o.l.GetLanguage() }},
	{"GetActualLanguage", func(o *lobj) string { return o.l.GetActualLanguage("d2") }},
	{"GetTranslations", func(o *lobj) string { return names(o.l.GetTranslations()) }},
	{"MarshalBinary", func(o *lobj) string {
		b, err := o.l.MarshalBinary()
		if err != nil {
			return err.Error()
		}
		m := gotext.NewLocale("", "")
		e := m.UnmarshalBinary(b)
		return locText(m) + errText(e)
	}},
}

var locDefault = []lop{
	{"Get", func(o *lobj) string { return o.l.Get(o.id) }},
	{"GetN", func(o *lobj) string { return o.l.GetN("p", "q", o.n) }},
	{"GetC", func(o *lobj) string { return o.l.GetC(o.id, "c") }},
	{"GetNC", func(o *lobj) string { return o.l.GetNC("p", "q", o.n, "c") }},
	{"IsTranslated", func(o *lobj) string { return b2s(o.l.IsTranslated(o.id)) }},
	{"IsTranslatedN", func(o *lobj) string { return b2s(o.l.IsTranslatedN("p", o.n)) }},
	{"IsTranslatedC", func(o *lobj) string { return b2s(o.l.IsTranslatedC(o.id, "c")) }},
	{"IsTranslatedNC", func(o *lobj) string { return b2s(o.l.IsTranslatedNC("p", o.n, "c")) }},
}

var locWrites = []lop{
	{"AddDomain", func(o *lobj) string { o.l.AddDomain("d2"); return "" }},
	{"AddDomain again", func(o *lobj) string { o.l.AddDomain("d1"); return "" }},
	{"AddTranslator", func(o *lobj) string { o.l.AddTranslator("d2", o.po); return "" }},
	{"SetDomain", func(o *lobj) string { o.l.SetDomain("d2"); return "" }},
	{"Set in a domain", func(o *lobj) string { o.in.Set(o.id, "new"); return "" }},
	{"SetNC in a domain", func(o *lobj) string { o.in.GetDomain().SetNC("p", "q", "c", o.n, "new"); return "" }},
	{"Parse of a domain", func(o *lobj) string { o.in.Parse([]byte(poText2)); return "" }},
	{"UnmarshalBinary", func(o *lobj) string { return errText(o.l.UnmarshalBinary(o.bin)) }},
}

// locText shows what can be observed of a locale.
func locText(l *gotext.Locale) string {
	s := l.GetLanguage() + "/" + l.GetDomain() + "/" + l.GetActualLanguage("d1")
	for _, d := range []string{"d1", "d2"} {
		s += "#" + l.GetD(d, "a") + l.GetDC(d, "a", "c")
		for n := 0; n < 4; n++ {
			s += l.GetND(d, "p", "q", n) + l.GetNDC(d, "p", "q", n, "c")
		}
	}
	return s
}

func locOps() ([]lop, int) {
	r := append(append([]lop(nil), locReads...), locDefault...)
	return append(r, locWrites...), len(r)
}

func pick(n, nreads int, both bool) (int, int) {
	j := sym.Choose("second", n)
	i := sym.Choose("first", j+1)
	if !both {
		sym.Assume(j >= nreads)
	}
	return i, j
}

func C17_Locale() {
	ops, nr := locOps()
	i, j := pick(len(ops), nr, true)
	o := newLocale(putFiles(), "a", 2)
	sym.ParRace(1+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	sym.Reach("done")
}

func C18_Locale() {
	ops, nr := locOps()
	i, j := pick(len(ops), nr, false)
	o := newLocale(putFiles(), "a", 2)
	sym.ParLocks(2+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	o.in.Set("probe", "x")
	sym.Assert(o.in.Get("probe") == "x", "the catalogue is usable afterwards")
	o.l.AddTranslator("probe", o.in)
	o.l.SetDomain("probe")
	sym.Assert(o.l.GetDomain() == "probe" && o.l.Get("probe") == "x", "the locale is usable afterwards")
	sym.Reach("done")
}

func C30_Locale() {
	ops, nr := locOps()
	i, j := pick(len(ops), nr, false)
	// a lookup in the default domain is two steps; replacing the whole locale in
	// between is out of the claim
	sym.Assume(!(i >= len(locReads) && i < nr && ops[j].name == "UnmarshalBinary"))
	// AddDomain reads the file before it takes the lock to install it
	sym.Assume(!(i >= nr && i < nr+2 && ops[j].name == "UnmarshalBinary"))
	n := sym.Int("n")
	sym.Assume(n >= 0 && n < 1<<32)
	id := []string{"a", "b"}[sym.Choose("id", 2)]
	root := putFiles()
	o := newLocale(root, id, n)
	var r1, r2 string
	sym.Par(1+sym.Tier(),
		func() { r1 = ops[i].run(o) },
		func() { r2 = ops[j].run(o) })
	st := locText(o.l)

	a := newLocale(root, id, n)
	a1 := ops[i].run(a)
	a2 := ops[j].run(a)
	b := newLocale(root, id, n)
	b2 := ops[j].run(b)
	b1 := ops[i].run(b)
	sym.Observe("first", r1)
	sym.Observe("second", r2)
	inOrder := sym.And(sym.And(r1 == a1, r2 == a2), st == locText(a.l))
	reversed := sym.And(sym.And(r1 == b1, r2 == b2), st == locText(b.l))
	sym.Assert(sym.Or(inOrder, reversed), "the result is that of one of the two orders")
	sym.Reach("done")
}
