package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C12_Same: the PO file and the MO file msgfmt makes of it give the same
// catalogue.
func C12_Same() {
	r := rules[[]int{0, 1, 3, 4}[sym.Choose("rule", 4)]]
	k := 1
	if sym.Tier() == 1 {
		k = 2
	}
	e := poEntry{id: "i" + poText("id", k), strs: []string{poText("t0", 1)}}
	shape := sym.Choose("shape", 4)
	if shape&1 != 0 {
		e.ctx = "c" + poText("ctx", k-1)
	}
	if shape&2 != 0 {
		e.plural = "p" + poText("plural", k-1)
		for i := 1; i < r.forms; i++ {
			e.strs = append(e.strs, []string{"", "f", "g"}[(i+sym.Choose("f", 2))%3])
		}
	}
	sym.Assume(e.ctx == "" || e.ctx[0] != 4)
	for i := 0; i < len(e.id); i++ {
		sym.Assume(e.id[i] != 4)
	}
	for i := 0; i < len(e.ctx); i++ {
		sym.Assume(e.ctx[i] != 4)
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	alt := sym.Choose("layout", 2)
	po.Parse([]byte(poHeader(r) + e.write(alt, 0, "\n")))
	mo.Parse(buildMo([]moEntry{moHeader(r), e.mo()}, alt == 1, 0, false))
	same(viewOf("po", po), viewOf("mo", mo), e)
	sym.Assert(po.Language == mo.Language && po.PluralForms == mo.PluralForms, "PO and MO give the same headers")
	sym.Assert(po.Headers.Get("Language") == mo.Headers.Get("Language"), "PO and MO give the same headers")
	sym.Reach("end")
}

// same asserts that two catalogues answer every lookup alike: for the entry,
// for one with another id, with and without context.
func same(a, b view, e poEntry) {
	id, ctx, pl := e.id, e.ctx, e.plural
	switch sym.Choose("other", 3) {
	case 1:
		id = sym.String("oid", 1)
	case 2:
		ctx = sym.String("octx", 1)
	}
	if pl == "" {
		pl = "some"
	}
	n := int(sym.Uint32("n"))
	var x, y string
	var p, q bool
	switch sym.Choose("query", 4) {
	case 0:
		x, y, p, q = a.get(id), b.get(id), a.is(id), b.is(id)
	case 1:
		x, y, p, q = a.getN(id, pl, n), b.getN(id, pl, n), a.isN(id, n), b.isN(id, n)
	case 2:
		x, y, p, q = a.getC(id, ctx), b.getC(id, ctx), a.isC(id, ctx), b.isC(id, ctx)
	case 3:
		x, y, p, q = a.getNC(id, pl, n, ctx), b.getNC(id, pl, n, ctx), a.isNC(id, n, ctx), b.isNC(id, n, ctx)
	}
	sym.Observe("x", x)
	sym.Assert(x == y, a.name+" and "+b.name+" return the same text")
	sym.Assert(p == q, a.name+" and "+b.name+" agree on what is translated")
}

// sameTr asserts that two catalogues list the same translations.
func sameTr(what string, a, b map[string]*gotext.Translation) {
	n := 0
	for id, t := range a {
		if id == "" {
			continue
		}
		n++
		u := b[id]
		if u == nil {
			sym.Fail(what + ": every translation is there")
			return
		}
		sym.Assert(t.ID == u.ID && t.PluralID == u.PluralID, what+": ids and plurals are the same")
		sym.Assert(len(t.Trs) == len(u.Trs), what+": texts are the same")
		for f, s := range t.Trs {
			sym.Assert(s == u.Trs[f], what+": texts are the same")
		}
		for f, s := range u.Trs {
			sym.Assert(s == t.Trs[f], what+": texts are the same")
		}
	}
	m := 0
	for id := range b {
		if id != "" {
			m++
		}
	}
	sym.Assert(n == m, what+": there are no other translations")
}

func sameCtx(what string, a, b map[string]map[string]*gotext.Translation) {
	for c, m := range a {
		sameTr(what, m, b[c])
	}
	for c, m := range b {
		sameTr(what, m, a[c])
	}
}

// C12_List: the two formats list the same translations.
func C12_List() {
	es := []poEntry{kinds[sym.Choose("a", len(kinds))], kinds[sym.Choose("b", len(kinds))]}
	sym.Assume(!sameKey(es[0], es[1]))
	src, ms := poHeader(rules[1]), []moEntry{moHeader(rules[1])}
	for i, e := range es {
		t := plain("t")
		strs := make([]string, len(e.strs))
		for f := range strs {
			strs[f] = e.strs[f] + t
			if i == 0 && f == len(strs)-1 && sym.Choose("empty", 2) == 1 {
				strs[f] = ""
			}
		}
		e.strs = strs
		src += e.write(sym.Choose("layout", 2), 0, "\n") + "\n"
		ms = append(ms, e.mo())
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	po.Parse([]byte(src))
	mo.Parse(buildMo(ms, false, 0, false))
	sameTr("PO and MO", po.GetDomain().GetTranslations(), mo.GetDomain().GetTranslations())
	sameCtx("PO and MO", po.GetDomain().GetCtxTranslations(), mo.GetDomain().GetCtxTranslations())
	sym.Reach("end")
}

// C12_Text: a text of several characters is the same from both formats,
// whichever field holds it.
func C12_Text() {
	text := poText("text", 3)
	for i := 0; i < len(text); i++ {
		sym.Assume(text[i] != 4)
	}
	e := poEntry{id: "a", plural: "p", strs: []string{"A", "B"}}
	switch sym.Choose("field", 6) {
	case 0:
		e.strs[0] = text
	case 1:
		e.strs[1] = text
	case 2:
		e.id = text
	case 3:
		e.plural = text
	case 4:
		e.ctx = text
	case 5:
		e = poEntry{id: "a", ctx: "c", strs: []string{text}}
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	po.Parse([]byte(poHeader(rules[1]) + e.write(0, 0, "\n")))
	mo.Parse(buildMo([]moEntry{moHeader(rules[1]), e.mo()}, false, 0, false))
	deep("PO and MO", po.GetDomain(), mo.GetDomain())
	sym.Reach("end")
}

// C12_Few: files with no entry at all, with the header only, with a header
// that says nothing, with one entry and no header.
func C12_Few() {
	r := rules[sym.Choose("rule", len(rules))]
	src, ms := "", []moEntry(nil)
	lang := plain("lang")
	switch sym.Choose("header", 4) {
	case 1:
		src, ms = "msgid \"\"\nmsgstr \"\"\n", nil
	case 2:
		src = "msgid \"\"\nmsgstr \"\"\n\"Language: " + lang + "\\n\"\n"
		ms = []moEntry{{"", "Language: " + lang + "\n"}}
	case 3:
		src = poHeader(r)
		ms = []moEntry{moHeader(r)}
	}
	e := poEntry{id: "i" + lang, plural: "is", strs: []string{"t", "f", "g"}}
	e.strs = e.strs[:min(3, r.forms)]
	if sym.Choose("entry", 2) == 1 {
		src += "\n" + e.write(sym.Choose("layout", 2), 0, "\n")
		ms = append(ms, e.mo())
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	po.Parse([]byte(src))
	mo.Parse(buildMo(ms, sym.Choose("big", 2) == 1, 0, false))
	sym.Observe("lang", po.Language)
	sym.Assert(po.Language == mo.Language && po.PluralForms == mo.PluralForms, "PO and MO give the same headers")
	a, b := po.GetDomain(), mo.GetDomain()
	sym.Assert(a.Language == b.Language && a.PluralForms == b.PluralForms, "PO and MO give the same headers")
	sym.Assert(len(po.Headers) == len(mo.Headers) && po.Headers.Get("Language") == mo.Headers.Get("Language") && po.Headers.Get("Plural-Forms") == mo.Headers.Get("Plural-Forms"), "PO and MO give the same headers")
	n := int(sym.Uint32("n"))
	if sym.Choose("later", 2) == 1 {
		// The rule is in force for what is stored later.
		for i := 0; i < 3; i++ {
			a.SetN("new", "news", i, "w"+digit(i))
			b.SetN("new", "news", i, "w"+digit(i))
		}
		sym.Assert(po.GetN("new", "news", n) == mo.GetN("new", "news", n), "PO and MO select the same form")
	} else {
		sym.Assert(po.GetN(e.id, "is", n) == mo.GetN(e.id, "is", n) && po.IsTranslatedN(e.id, n) == mo.IsTranslatedN(e.id, n), "PO and MO return the same text")
		sym.Assert(po.GetN("none", "nones", n) == mo.GetN("none", "nones", n), "PO and MO fall back alike")
	}
	sym.Reach("end")
}
