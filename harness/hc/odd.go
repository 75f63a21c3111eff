package hc

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// Less usual operations on a catalogue: empty and missing contexts, stores into
// a context that is not there yet, references of ids that have none, data that
// cannot be read.
var odd = []op{
	{"GetC empty", func(o *obj) string { return o.c.GetC(o.id, "") }},
	{"GetNC empty", func(o *obj) string { return o.c.GetNC("p", "q", o.n, "") }},
	{"IsTranslatedC empty", func(o *obj) string { return b2s(o.c.IsTranslatedC(o.id, "")) }},
	{"IsTranslatedNC empty", func(o *obj) string { return b2s(o.c.IsTranslatedNC("p", o.n, "")) }},
	{"GetC new", func(o *obj) string { return o.c.GetC("a", "e") }},
	{"IsTranslatedNC new", func(o *obj) string { return b2s(o.c.IsTranslatedNC("a", o.n, "e")) }},
	{"AppendNC args", func(o *obj) string { return string(o.c.AppendNC([]byte("x"), "p %d", "q %d", o.n, "c", 7)) }},
	{"GetRefs none", func(o *obj) string {
		s := ""
		for _, r := range o.do.GetRefs("p") {
			s += r + " "
		}
		return s
	}},
	{"SetC new", func(o *obj) string { o.do.SetC("a", "e", "EA"); return "" }},
	{"SetNC new", func(o *obj) string { o.do.SetNC("a", "as", "e", o.n, "EN"); return "" }},
	{"SetC new 2", func(o *obj) string { o.do.SetC("b", "e", "EB"); return "" }},
	{"Set new", func(o *obj) string { o.do.Set("b", "B"); return "" }},
	{"SetN new", func(o *obj) string { o.do.SetN("b", "bs", o.n, "BN"); return "" }},
	{"SetRefs none", func(o *obj) string { o.do.SetRefs("a", nil); return "" }},
	{"SetRefs new", func(o *obj) string { o.do.SetRefs("b", refs("b.go:2")); return "" }},
	{"SetPluralResolver none", func(o *obj) string { o.do.SetPluralResolver(nil); return "" }},
	{"Parse bad", func(o *obj) string {
		if o.po != nil {
			o.po.Parse([]byte("msgstr \"x\"\nmsgid bad\n\"\nmsgstr[9] \n"))
		} else {
			o.mo.Parse([]byte("\xde\x12\x04\x95\x00\x00\x00\x00\x07\x00"))
		}
		return ""
	}},
	{"Parse empty", func(o *obj) string { o.c.(interface{ Parse([]byte) }).Parse(nil); return "" }},
	{"UnmarshalBinary bad", func(o *obj) string { return b2s(o.c.UnmarshalBinary([]byte("bad")) != nil) }},
}

// newOdd builds a catalogue that has entries in the empty context too.
func newOdd(kind, n int, id string) *obj {
	o := newObj(kind, n, id)
	o.do.SetC("a", "", "E")
	o.do.SetNC("p", "q", "", 1, "EP")
	return o
}

const oddReads = 8

func oddPair() (op, op, bool) {
	core := []string{"Get", "GetNC", "IsTranslatedN", "MarshalText", "GetCtxTranslations", "Set", "SetNC", "SetPluralResolver", "DropStale", "Parse", "UnmarshalBinary"}
	ops := append([]op(nil), odd...)
	for _, w := range core {
		for _, x := range catOps() {
			if x.name == w {
				ops = append(ops, x)
			}
		}
	}
	i := sym.Choose("first", len(odd))
	j := sym.Choose("second", len(ops))
	sym.Assume(j >= i)
	return ops[i], ops[j], i < oddReads && (j < oddReads || j >= len(odd) && j < len(odd)+5)
}

func (o *obj) oddState() string {
	s := o.state() + "#" + mapText(o.do.GetCtxTranslations()["e"])
	for _, id := range []string{"a", "b", "p"} {
		for _, r := range o.do.GetRefs(id) {
			s += " " + r
		}
		s += "#" + o.c.GetC(id, "e") + o.c.GetC(id, "")
	}
	return s
}

func C17_Odd() {
	f, g, _ := oddPair()
	o := newOdd(sym.Choose("kind", 2), 2, "a")
	sym.ParRace(1+sym.Tier(),
		func() { f.run(o) },
		func() { g.run(o) })
	sym.Reach("done")
}

func C18_Odd() {
	f, g, _ := oddPair()
	o := newOdd(sym.Choose("kind", 2), 2, "a")
	sym.ParLocks(1+sym.Tier(),
		func() { f.run(o) },
		func() { g.run(o) })
	o.probe()
	sym.Reach("done")
}

func C30_Odd() {
	f, g, reads := oddPair()
	sym.Assume(!reads)
	n := sym.Int("n")
	sym.Assume(n >= 0 && n < 1<<32)
	kind := sym.Choose("kind", 2)
	o := newOdd(kind, n, "b")
	var r1, r2 string
	sym.Par(1+sym.Tier(),
		func() { r1 = f.run(o) },
		func() { r2 = g.run(o) })
	st := o.oddState()

	a := newOdd(kind, n, "b")
	a1 := f.run(a)
	a2 := g.run(a)
	b := newOdd(kind, n, "b")
	b2 := g.run(b)
	b1 := f.run(b)
	sym.Observe("first", r1)
	sym.Observe("second", r2)
	inOrder := sym.And(sym.And(r1 == a1, r2 == a2), st == a.oddState())
	reversed := sym.And(sym.And(r1 == b1, r2 == b2), st == b.oddState())
	sym.Assert(sym.Or(inOrder, reversed), "the result is that of one of the two orders")
	sym.Reach("done")
}

// A locale that has no domain yet, and operations that choose its first.
var firstOps = []lop{
	{"AddDomain", func(o *lobj) string { o.l.AddDomain("d2"); return "" }},
	{"AddDomain 2", func(o *lobj) string { o.l.AddDomain("d1"); return "" }},
	{"AddDomain none", func(o *lobj) string { o.l.AddDomain("d9"); return "" }},
	{"AddTranslator", func(o *lobj) string { o.l.AddTranslator("d3", o.po); return "" }},
	{"SetDomain", func(o *lobj) string { o.l.SetDomain("d2"); return "" }},
	{"UnmarshalBinary bad", func(o *lobj) string { return b2s(o.l.UnmarshalBinary([]byte("bad")) != nil) }},
	{"GetDomain", func(o *lobj) string { return o.l.GetDomain() }},
	{"GetD", func(o *lobj) string { return o.l.GetD("d2", o.id) }},
	{"GetNDC", func(o *lobj) string { return o.l.GetNDC("d2", "p", "q", o.n, "c") }},
	{"IsTranslatedD", func(o *lobj) string { return b2s(o.l.IsTranslatedD("d1", o.id)) }},
	{"GetTranslations", func(o *lobj) string { return names(o.l.GetTranslations()) }},
	{"Get", func(o *lobj) string { return o.l.Get(o.id) }},
	{"GetNC", func(o *lobj) string { return o.l.GetNC("p", "q", o.n, "c") }},
	{"IsTranslatedN", func(o *lobj) string { return b2s(o.l.IsTranslatedN("p", o.n)) }},
	{"MarshalBinary", func(o *lobj) string {
		b, err := o.l.MarshalBinary()
		if err != nil {
			return err.Error()
		}
		m := gotext.NewLocale("", "")
		e := m.UnmarshalBinary(b)
		return locText(m) + errText(e)
	}},
}

const firstWrites = 6

func firstLocale(root string, n int) *lobj {
	o := &lobj{id: "a", n: n, l: gotext.NewLocale(root+"/l1", "aa_XX")}
	o.po = newPo("t", "(n > 1)")
	return o
}

func C17_First() {
	j := sym.Choose("second", len(firstOps))
	i := sym.Choose("first", j+1)
	o := firstLocale(putFiles(), 2)
	sym.ParRace(1+sym.Tier(),
		func() { firstOps[i].run(o) },
		func() { firstOps[j].run(o) })
	sym.Reach("done")
}

func C18_First() {
	j := sym.Choose("second", len(firstOps))
	i := sym.Choose("first", j+1)
	sym.Assume(i < firstWrites)
	o := firstLocale(putFiles(), 2)
	sym.ParLocks(2+sym.Tier(),
		func() { firstOps[i].run(o) },
		func() { firstOps[j].run(o) })
	o.l.SetDomain("probe")
	sym.Assert(o.l.GetDomain() == "probe", "the locale is usable afterwards")
	sym.Reach("done")
}

func C30_First() {
	j := sym.Choose("second", len(firstOps))
	i := sym.Choose("first", j+1)
	sym.Assume(i < firstWrites)
	n := sym.Int("n")
	sym.Assume(n >= 0 && n < 1<<32)
	root := putFiles()
	o := firstLocale(root, n)
	var r1, r2 string
	sym.Par(2+sym.Tier(),
		func() { r1 = firstOps[i].run(o) },
		func() { r2 = firstOps[j].run(o) })
	st := locText(o.l) + o.l.GetD("d3", "a")
	a := firstLocale(root, n)
	a1 := firstOps[i].run(a)
	a2 := firstOps[j].run(a)
	b := firstLocale(root, n)
	b2 := firstOps[j].run(b)
	b1 := firstOps[i].run(b)
	sym.Observe("first", r1)
	sym.Observe("second", r2)
	inOrder := sym.And(sym.And(r1 == a1, r2 == a2), st == locText(a.l)+a.l.GetD("d3", "a"))
	reversed := sym.And(sym.And(r1 == b1, r2 == b2), st == locText(b.l)+b.l.GetD("d3", "a"))
	sym.Assert(sym.Or(inOrder, reversed), "the result is that of one of the two orders")
	sym.Reach("done")
}
