package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C16_Locale: a locale with any domains is the same after a binary round trip.
func C16_Locale() {
	lang := plain("lang")
	l := gotext.NewLocale("path/"+plain("path"), "l"+lang)
	var ms []*model
	doms := []string{"one", "two"}
	n := sym.Choose("domains", 3)
	for i := 0; i < n; i++ {
		r := rules[[]int{1, 4}[i]]
		if sym.Choose("header", 2) == 0 {
			r = rules[0]
		}
		po := newPo(r)
		m := &model{rule: r.form}
		if i == 0 || sym.Tier() == 1 {
			history(po, m, 1, func(k int) string { return sym.String("text", 1) })
		} else {
			po.SetNC("a", pluralOf("a"), "b", 1, "two")
			m.set(true, "b", "a", r.form(1), "two")
		}
		ms = append(ms, m)
		l.AddTranslator(doms[i], po)
	}
	alt := sym.Choose("alt", 2) == 1
	if alt {
		l.SetDomain("two")
	}
	b, err := l.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	q := gotext.NewLocale("", "")
	if alt {
		q = gotext.NewLocale("zz", "zz")
		old := gotext.NewPo()
		old.Set("a", "old")
		q.AddTranslator("one", old)
		q.AddTranslator("three", old)
	}
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	sym.Assert(q.GetLanguage() == l.GetLanguage() && q.GetDomain() == l.GetDomain(), "language and default domain survive")
	d := doms[sym.Choose("ask", 2)]
	v := view{"locale copy",
		func(id string, vars ...interface{}) string { return q.GetD(d, id, vars...) },
		func(id, pl string, n int, vars ...interface{}) string { return q.GetND(d, id, pl, n, vars...) },
		func(id, ctx string, vars ...interface{}) string { return q.GetDC(d, id, ctx, vars...) },
		func(id, pl string, n int, ctx string, vars ...interface{}) string {
			return q.GetNDC(d, id, pl, n, ctx, vars...)
		},
		func(id string) bool { return q.IsTranslatedD(d, id) },
		func(id string, n int) bool { return q.IsTranslatedND(d, id, n) },
		func(id, ctx string) bool { return q.IsTranslatedDC(d, id, ctx) },
		func(id string, n int, ctx string) bool { return q.IsTranslatedNDC(d, id, n, ctx) },
	}
	m := &model{rule: rules[0].form}
	for i := range ms {
		if doms[i] == d {
			m = ms[i]
		}
	}
	ask(v, m)
	sym.Assert(q.GetD("three", "a") == "a" && !q.IsTranslatedD("three", "a"), "only the domains of the original are there")
}

// C16_Default: lookups without a domain go to the same one.
func C16_Default() {
	place, lang := "p", "ll"
	if sym.Choose("empty", 2) == 1 {
		place, lang = "", ""
	}
	l := gotext.NewLocale(place, lang)
	doms := []string{"one", "two", "missing"}
	loaded := sym.Choose("loaded", 3)
	for i := 0; i < loaded; i++ {
		po := newPo(rules[1])
		po.Set("id", "t"+doms[i])
		po.SetN("id", "ids", 5, "n"+doms[i])
		po.SetC("id", "c", "c"+doms[i])
		po.SetNC("id", "ids", "c", 5, "nc"+doms[i])
		l.AddTranslator(doms[i], po)
	}
	k := sym.Choose("default", 4)
	if k < 3 {
		l.SetDomain(doms[k])
	}
	b, _ := l.MarshalBinary()
	q := &gotext.Locale{}
	switch sym.Choose("new", 3) {
	case 1:
		q = gotext.NewLocale("other", "oo")
	case 2: // a locale that was in use
		q = gotext.NewLocale("other", "oo")
		for _, d := range []string{"two", "old", "missing"} {
			po := newPo(rules[2])
			po.Set("id", "old"+d)
			po.SetNC("id", "ids", "c", 5, "oldnc"+d)
			q.AddTranslator(d, po)
		}
		q.SetDomain("old")
		q.Get("id")
	}
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	n := int(sym.Uint32("n"))
	sym.Assert(q.Get("id") == l.Get("id"), "Get is the same after a binary round trip")
	sym.Assert(q.GetN("id", "ids", n) == l.GetN("id", "ids", n), "GetN is the same after a binary round trip")
	sym.Assert(q.GetC("id", "c") == l.GetC("id", "c"), "GetC is the same after a binary round trip")
	sym.Assert(q.GetNC("id", "ids", n, "c") == l.GetNC("id", "ids", n, "c"), "GetNC is the same after a binary round trip")
	sym.Assert(q.IsTranslated("id") == l.IsTranslated("id") && q.IsTranslatedNC("id", n, "c") == l.IsTranslatedNC("id", n, "c"), "IsTranslated is the same after a binary round trip")
	for _, d := range append(doms, "old") {
		sym.Assert(q.GetD(d, "id") == l.GetD(d, "id") && q.IsTranslatedND(d, "id", n) == l.IsTranslatedND(d, "id", n), "the domains are the same after a binary round trip")
	}
	sym.Assert(q.GetLanguage() == lang && q.GetDomain() == l.GetDomain(), "language and default domain survive")
	// As the storage of the package functions it answers the same.
	gotext.SetStorage(q)
	sym.Assert(gotext.Get("id") == l.Get("id") && gotext.GetLanguage() == lang && gotext.GetLibrary() == place, "the copy can be used as storage")
	sym.Reach("end")
}

// C16_Files: a restored locale loads further domains from the same place.
func C16_Files() {
	root := sym.VfsRoot()
	lang := []string{"ll", "ll_CC"}[sym.Choose("lang", 2)]
	sym.VfsPut(root+"/ll/LC_MESSAGES/more.po", "msgid \"id\"\nmsgstr \"more\"\n")
	l := gotext.NewLocale(root, lang)
	b, _ := l.MarshalBinary()
	q := gotext.NewLocale("", "")
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	q.AddDomain("more")
	sym.Assert(q.GetD("more", "id") == "more" && q.Get("id") == "more", "a restored locale loads domains from the same path")
	sym.Reach("end")
}
