package hc

import (
	"strconv"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

type pobj struct {
	root string
	l    *gotext.Locale // a locale of the caller
	b    []byte         // another locale, encoded
	n    int
}

type pop struct {
	name string
	run  func(o *pobj) string
}

func newPkg(root string, n int) *pobj {
	o := &pobj{root: root, n: n}
	gotext.Configure(root+"/l1", "bb:aa", "d1")
	o.l = gotext.NewLocale(root+"/l2", "aa")
	o.l.AddDomain("d1")
	m := gotext.NewLocale(root+"/l1", "bb")
	m.AddDomain("d1")
	b, err := m.MarshalBinary()
	sym.Assert(err == nil, "a locale can be encoded")
	o.b = b
	return o
}

func list(x []string) string {
	s := ""
	for _, v := range x {
		s += v + ","
	}
	return s
}

func langs(x []*gotext.Locale) string {
	s := ""
	for _, v := range x {
		s += v.GetLanguage() + ","
	}
	return s
}

var pkgReads = []pop{
	{"GetD", func(o *pobj) string { return gotext.GetD("d1", "a") }},
	{"GetND", func(o *pobj) string { return gotext.GetND("d1", "p", "q", o.n) }},
	{"GetDC", func(o *pobj) string { return gotext.GetDC("d1", "a", "c") }},
	{"GetNDC", func(o *pobj) string { return gotext.GetNDC("d1", "p", "q", o.n, "c") }},
	{"GetD d2", func(o *pobj) string { return gotext.GetD("d2", "a") }},
	{"IsTranslatedD", func(o *pobj) string { return b2s(gotext.IsTranslatedD("d1", "a")) }},
	{"IsTranslatedND", func(o *pobj) string { return b2s(gotext.IsTranslatedND("d1", "p", o.n)) }},
	{"IsTranslatedDC", func(o *pobj) string { return b2s(gotext.IsTranslatedDC("d1", "a", "c")) }},
	{"IsTranslatedNDC", func(o *pobj) string { return b2s(gotext.IsTranslatedNDC("d1", "p", o.n, "c")) }},
	{"IsTranslatedD d2", func(o *pobj) string { return b2s(gotext.IsTranslatedD("d2", "a")) }},
	{"GetDomain", func(o *pobj) string { return gotext.GetDomain() }},
	{"GetLanguage", func(o *pobj) string { return gotext.GetLanguage() }},
	{"GetLanguages", func(o *pobj) string { return list(gotext.GetLanguages()) }},
	{"GetLibrary", func(o *pobj) string { return gotext.GetLibrary()[len(o.root):] }},
	{"GetLocales", func(o *pobj) string { return langs(gotext.GetLocales()) }},
	{"GetStorage", func(o *pobj) string { return gotext.GetStorage().GetLanguage() }},
}

var pkgDefault = []pop{
	{"Get", func(o *pobj) string { return gotext.Get("a") }},
	{"GetN", func(o *pobj) string { return gotext.GetN("p", "q", o.n) }},
	{"GetC", func(o *pobj) string { return gotext.GetC("a", "c") }},
	{"GetNC", func(o *pobj) string { return gotext.GetNC("p", "q", o.n, "c") }},
	{"IsTranslated", func(o *pobj) string { return b2s(gotext.IsTranslated("a")) }},
	{"IsTranslatedN", func(o *pobj) string { return b2s(gotext.IsTranslatedN("p", o.n)) }},
	{"IsTranslatedC", func(o *pobj) string { return b2s(gotext.IsTranslatedC("a", "c")) }},
	{"IsTranslatedNC", func(o *pobj) string { return b2s(gotext.IsTranslatedNC("p", o.n, "c")) }},
}

// writes to what the caller's locale holds, which may or may not be installed
var pkgLocal = []pop{
	{"Locale.AddDomain", func(o *pobj) string { o.l.AddDomain("d2"); return "" }},
	{"Locale.UnmarshalBinary", func(o *pobj) string { return errText(o.l.UnmarshalBinary(o.b)) }},
}

var pkgWrites = []pop{
	{"SetDomain", func(o *pobj) string { gotext.SetDomain("d2"); return "" }},
	{"SetLanguage", func(o *pobj) string { gotext.SetLanguage("aa"); return "" }},
	{"SetLibrary", func(o *pobj) string { gotext.SetLibrary(o.root + "/l2"); return "" }},
	{"Configure", func(o *pobj) string { gotext.Configure(o.root+"/l2", "aa:zz", "d1"); return "" }},
	{"Configure 2", func(o *pobj) string { gotext.Configure(o.root+"/l1", "bb", "d2"); return "" }},
	{"SetLocales", func(o *pobj) string { gotext.SetLocales([]*gotext.Locale{o.l}); return "" }},
	{"SetStorage", func(o *pobj) string { gotext.SetStorage(o.l); return "" }},
}

func pkgText(root string) string {
	s := gotext.GetDomain() + "/" + gotext.GetLibrary()[len(root):] + "/" + list(gotext.GetLanguages()) + "/" + langs(gotext.GetLocales()) + "/" + gotext.GetStorage().GetLanguage()
	for _, d := range []string{"d1", "d2"} {
		s += "#" + gotext.GetD(d, "a") + gotext.GetDC(d, "a", "c")
		for n := 0; n < 3; n++ {
			s += gotext.GetND(d, "p", "q", n) + gotext.GetNDC(d, "p", "q", n, "c") + strconv.Itoa(n)
		}
	}
	return s
}

func pkgOps() ([]pop, int) {
	r := append(append(append([]pop(nil), pkgReads...), pkgDefault...), pkgLocal...)
	return append(r, pkgWrites...), len(pkgReads) + len(pkgDefault)
}

func C17_Package() {
	ops, nr := pkgOps()
	i, j := pick(len(ops), nr, true)
	o := newPkg(putFiles(), 2)
	sym.ParRace(1+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	sym.Reach("done")
}

func C18_Package() {
	ops, nr := pkgOps()
	i, j := pick(len(ops), nr, false)
	o := newPkg(putFiles(), 2)
	sym.ParLocks(1+sym.Tier(),
		func() { ops[i].run(o) },
		func() { ops[j].run(o) })
	o.l.SetDomain("probe")
	sym.Assert(o.l.GetDomain() == "probe", "the locale is usable afterwards")
	gotext.SetDomain("d2")
	sym.Assert(gotext.GetDomain() == "d2", "the package is usable afterwards")
	gotext.Get("a")
	sym.Reach("done")
}

func C30_Package() {
	ops, nr := pkgOps()
	ops = append(ops[:nr:nr], ops[nr+len(pkgLocal):]...)
	j := nr + sym.Choose("second", len(ops)-nr)
	i := sym.Choose("first", j+1)
	// a lookup in the default domain is two steps; replacing domain and files in
	// between is out of the claim
	w := ops[j].name
	sym.Assume(!(i >= len(pkgReads) && i < nr && (w == "Configure" || w == "Configure 2" || w == "SetLocales" || w == "SetStorage")))
	n := sym.Int("n")
	sym.Assume(n >= 0 && n < 1<<32)
	root := putFiles()
	o := newPkg(root, n)
	var r1, r2 string
	sym.Par(1+sym.Tier(),
		func() { r1 = ops[i].run(o) },
		func() { r2 = ops[j].run(o) })
	st := pkgText(root)

	a := newPkg(root, n)
	a1 := ops[i].run(a)
	a2 := ops[j].run(a)
	as := pkgText(root)
	b := newPkg(root, n)
	b2 := ops[j].run(b)
	b1 := ops[i].run(b)
	sym.Observe("first", r1)
	sym.Observe("second", r2)
	sym.Observe("state", st)
	inOrder := sym.And(sym.And(r1 == a1, r2 == a2), st == as)
	bs := pkgText(root)
	reversed := sym.And(sym.And(r1 == b1, r2 == b2), st == bs)
	if !inOrder && !reversed {
		sym.Note(ops[i].name + "/" + ops[j].name + ": " + r1 + "," + r2 + " " + st + " instead of " + a1 + "," + a2 + " " + as + " or " + b1 + "," + b2 + " " + bs)
	}
	sym.Assert(sym.Or(inOrder, reversed), "the result is that of one of the two orders")
	sym.Reach("done")
}
