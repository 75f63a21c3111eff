package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// fill stores an arbitrary small history in a catalogue.
func fill(po *gotext.Po, m *model) {
	ops := 1
	if sym.Tier() == 1 {
		ops = 2
	}
	history(po, m, ops, func(k int) string { return sym.String("text", sym.Choose("textlen", 2)) })
}

// sameMeta compares what a catalogue says about itself.
func sameMeta(a, b *gotext.Domain, lang, pl string, hs gotext.HeaderMap) {
	sym.Assert(b.Language == a.Language && lang == a.Language, "the language survives a binary round trip")
	sym.Assert(b.PluralForms == a.PluralForms && pl == a.PluralForms, "the plural rule survives a binary round trip")
	sym.Assert(len(b.Headers) == len(a.Headers) && len(hs) == len(a.Headers), "headers survive a binary round trip")
	for k, vs := range a.Headers {
		ws, xs := b.Headers[k], hs[k]
		sym.Assert(len(ws) == len(vs) && len(xs) == len(vs), "headers survive a binary round trip")
		for i := range vs {
			sym.Assert(ws[i] == vs[i] && xs[i] == vs[i], "headers survive a binary round trip")
		}
	}
}

// C15_Set: a catalogue built by Set calls is the same after a binary round trip.
func C15_Set() {
	r := rules[[]int{0, 1, 3, 4}[sym.Choose("rule", 4)]]
	po := newPo(r)
	m := &model{rule: r.form}
	fill(po, m)
	b, err := po.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	var v view
	used := []byte("# old\n" + poHeader(rules[2]) + "#: o.go:1\nmsgid \"a\"\nmsgstr \"old\"\n\nmsgctxt \"b\"\nmsgid \"a\"\nmsgstr \"old\"\n\nmsgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[1] \"old\"\n")
	usedMo := buildMo([]moEntry{moHeader(rules[2]), {"a", "old"}, {"b\x04a", "old"}, {"b\x00bs", "old\x00old"}}, false, 0, false)
	switch sym.Choose("into", 6) {
	case 0:
		q := gotext.NewPo()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("Po copy", q)
		sameMeta(po.GetDomain(), q.GetDomain(), q.Language, q.PluralForms, q.Headers)
	case 1:
		q := gotext.NewMo()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("Mo copy", q)
		sameMeta(po.GetDomain(), q.GetDomain(), q.Language, q.PluralForms, q.Headers)
	case 2:
		q := gotext.NewDomain()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("Domain copy", q)
		sameMeta(po.GetDomain(), q, q.Language, q.PluralForms, q.Headers)
	case 3: // what was there before is replaced
		q := gotext.NewPo()
		q.Parse(used)
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("overwritten Po", q)
		sameMeta(po.GetDomain(), q.GetDomain(), q.Language, q.PluralForms, q.Headers)
	case 4:
		q := gotext.NewMo()
		q.Parse(usedMo)
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("overwritten Mo", q)
		sameMeta(po.GetDomain(), q.GetDomain(), q.Language, q.PluralForms, q.Headers)
	case 5:
		p := gotext.NewPo()
		p.Parse(used)
		q := p.GetDomain()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		v = viewOf("overwritten Domain", q)
		sameMeta(po.GetDomain(), q, q.Language, q.PluralForms, q.Headers)
	}
	ask(v, m)
}

// C15_File: a catalogue read from PO or MO keeps headers, references, plural
// forms and lists.
func C15_File() {
	r := rules[sym.Choose("rule", len(rules)-1+sym.Tier())]
	e, f := kinds[sym.Choose("a", len(kinds))], kinds[sym.Choose("b", len(kinds))]
	sym.Assume(!sameKey(e, f))
	var tr gotext.Translator
	if sym.Choose("mo", 2) == 1 {
		mo := gotext.NewMo()
		mo.Parse(buildMo([]moEntry{moHeader(r), e.mo(), f.mo()}, false, 0, false))
		tr = mo
	} else {
		po := gotext.NewPo()
		po.Parse([]byte(poHeader(r) + "#: a.go:1 b.go:2\n" + e.write(0, 0, "\n") + f.write(0, 0, "\n")))
		tr = po
	}
	b, err := tr.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	q := gotext.NewPo()
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	d, c := tr.GetDomain(), q.GetDomain()
	sym.Assert(c.Language == d.Language && c.PluralForms == d.PluralForms && c.Headers.Get("Language") == "xx" && len(c.Headers) == len(d.Headers), "headers survive a binary round trip")
	sym.Assert(q.Language == d.Language && q.PluralForms == d.PluralForms && q.Headers.Get("Language") == "xx", "headers survive a binary round trip")
	x, y := viewOf("original", tr.(lookups)), viewOf("copy", q)
	for _, k := range []poEntry{e, f} {
		if k.plural == "" {
			k.plural = "ps"
		}
		n := int(sym.Uint32("n"))
		sym.Assert(x.get(k.id) == y.get(k.id), "Get is the same after a binary round trip")
		sym.Assert(x.getN(k.id, k.plural, n) == y.getN(k.id, k.plural, n), "GetN is the same after a binary round trip")
		sym.Assert(x.getC(k.id, "y") == y.getC(k.id, "y"), "GetC is the same after a binary round trip")
		sym.Assert(x.getNC(k.id, k.plural, n, k.ctx) == y.getNC(k.id, k.plural, n, k.ctx), "GetNC is the same after a binary round trip")
	}
	sameTr("copy", d.GetTranslations(), c.GetTranslations())
	sameCtx("copy", d.GetCtxTranslations(), c.GetCtxTranslations())
	for _, k := range []poEntry{e, f} {
		if k.ctx == "" {
			r1, r2 := d.GetRefs(k.id), c.GetRefs(k.id)
			sym.Assert(len(r1) == len(r2) && (len(r1) == 0 || r1[0] == r2[0]), "references survive a binary round trip")
		}
	}
	// The copy is a working catalogue.
	q.Set("new", "neu")
	q.SetNC("new", "news", "nc", 1, "neu")
	sym.Assert(q.Get("new") == "neu" && q.GetNC("new", "news", 1, "nc") == "neu", "the copy takes new translations")
	t1, _ := d.MarshalText()
	sym.Assert(len(t1) > 0 && tr.GetDomain().Get("new") == "new", "the original is not affected by the copy")
	sym.Reach("end")
}

// C15_Empty: an empty catalogue survives too.
func C15_Empty() {
	tr := []gotext.Translator{gotext.NewPo(), gotext.NewMo()}[sym.Choose("kind", 2)]
	b, err := tr.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	q := gotext.NewPo()
	if sym.Choose("used", 2) == 1 {
		q = newPo(rules[4])
		q.Set("a", "A")
		q.SetC("a", "c", "A")
	}
	from := tr.GetDomain()
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	sameMeta(from, q.GetDomain(), q.Language, q.PluralForms, q.Headers)
	id := sym.String("id", 1)
	n := int(sym.Uint32("n"))
	want := "p"
	if n == 1 {
		want = id
	}
	sym.Assert(q.Get(id) == id && q.GetC(id, "c") == id && q.GetN(id, "p", n) == want && q.GetNC(id, "p", n, "c") == want, "the copy of an empty catalogue is empty")
	sym.Assert(len(q.GetDomain().GetTranslations()) == 0 && len(q.GetDomain().GetCtxTranslations()) == 0, "the copy of an empty catalogue is empty")
	q.Set("x", "X")
	q.SetC("x", "c", "XC")
	q.SetRefs("x", []string{"f:1"})
	q.Parse([]byte("msgid \"\"\nmsgstr \"\"\n\"Language: yy\\n\"\n\nmsgctxt \"c\"\nmsgid \"y\"\nmsgid_plural \"ys\"\nmsgstr[0] \"Y\"\n"))
	sym.Assert(q.Get("x") == "X" && q.GetC("x", "c") == "XC" && q.GetNC("y", "ys", 1, "c") == "Y" && q.Language == "yy", "the copy of an empty catalogue can be used")
	if _, err := q.MarshalText(); err != nil {
		sym.Fail("the copy can be written")
	}
	sym.Reach("end")
}

// C15_Twice: a copy of a copy is the same.
func C15_Twice() {
	r := rules[1+sym.Choose("rule", 3)]
	po := newPo(r)
	m := &model{rule: r.form}
	fill(po, m)
	for i := 0; i < 2; i++ {
		b, _ := po.MarshalBinary()
		po = gotext.NewPo()
		sym.Assert(po.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	}
	ask(viewOf("second copy", po), m)
}

// C15_Bad: data that cannot be decoded is reported and changes nothing.
func C15_Bad() {
	po := newPo(rules[1])
	po.Set("a", "A")
	bad := []byte("not gob at all")
	if sym.Choose("empty", 2) == 1 {
		bad = nil
	}
	sym.Assert(po.UnmarshalBinary(bad) != nil, "bad data is reported")
	sym.Assert(po.Get("a") == "A" && po.Language == "xx", "a failed decoding leaves the catalogue alone")
	l := gotext.NewLocale("p", "ll")
	l.AddTranslator("d", po)
	sym.Assert(l.UnmarshalBinary(bad) != nil, "bad data is reported")
	sym.Assert(l.Get("a") == "A" && l.GetLanguage() == "ll", "a failed decoding leaves the locale alone")
	sym.Reach("end")
}
