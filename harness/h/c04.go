package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// Formulas as they appear in the Plural-Forms header of real catalogues.
var headerFormulas = []struct {
	n    int
	text string
}{
	{1, "0"},
	{2, "n != 1"},
	{2, "(n != 1)"},
	{2, "n>1"},
	{2, "(n > 1)"},
	{2, "n%10!=1 || n%100==11"},
	{3, "n==1 ? 0 : n==2 ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2"},
	{3, "n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2"},
	{3, "n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{3, "(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2"},
	{3, "n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2"},
	{4, "n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3"},
	{6, "n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5"},
	{3, "n == 0 ? 2 : n == 1 ? 0 : 1"},
	{2, "n==0 ? 1 : 0"},
	{5, "n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4"},
}

var headerShapes = []string{
	"nplurals=N; plural=F;",
	"nplurals=N; plural=F",
	" nplurals = N ;  plural = F ;",
	"nplurals=N;plural=F;",
	"plural=F; nplurals=N;",
	"plural=F;",
	"nplurals=1; plural=F;",
	"nplurals=9; plural=F;",
	"nplurals=N; plural=F; other=x;",
	"nplurals=N;\tplural=F;",
}

// headerOf fills in the number of forms and the formula.
func headerOf(shape string, n int, f string) string {
	out := ""
	for i := 0; i < len(shape); i++ {
		switch shape[i] {
		case 'N':
			out += digit(n)
		case 'F':
			out += f
		default:
			out += shape[i : i+1]
		}
	}
	return out
}

func digit(i int) string { return string(rune('0' + i)) }

// catalogue builds a PO or MO object with a plural entry in the given formula,
// with and without context, and a plural entry lacking its last form.
func pluralCatalogue(mo bool, header string, nforms int, texts []string) gotext.Translator {
	if mo {
		str, part := "", ""
		for i := 0; i < nforms; i++ {
			if i > 0 {
				str += "\x00"
				part += "\x00"
			}
			str += texts[i]
			if i < nforms-1 {
				part += texts[i]
			}
		}
		es := []moEntry{{"", "Language: xx\nPlural-Forms: " + header + "\nX-Last: y\n"}, {"c\x04id\x00ids", str}, {"id\x00ids", str}, {"part\x00parts", part}}
		m := gotext.NewMo()
		m.Parse(buildMo(es, false, 0, false))
		return m
	}
	src := "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"Plural-Forms: " + header + "\\n\"\n\"X-Last: y\\n\"\n"
	for _, e := range []string{"\nmsgctxt \"c\"\nmsgid \"id\"\nmsgid_plural \"ids\"\n", "\nmsgid \"id\"\nmsgid_plural \"ids\"\n", "\nmsgid \"part\"\nmsgid_plural \"parts\"\n"} {
		src += e
		for i := 0; i < nforms; i++ {
			t := texts[i]
			if i == nforms-1 && e[8] == 'p' {
				t = ""
			}
			src += "msgstr[" + digit(i) + "] \"" + t + "\"\n"
		}
	}
	p := gotext.NewPo()
	p.Parse([]byte(src))
	return p
}

func plain(name string) string {
	s := sym.String(name, 1)
	sym.Assume(sym.And(s[0] >= '0', s[0] <= 'z'))
	sym.Assume(s[0] != '\\')
	return s
}

// C04_Header: for every count the form chosen is the one the header formula
// yields, and a missing form is never blank.
func C04_Header() {
	f := headerFormulas[sym.Choose("formula", len(headerFormulas))]
	sh := headerShapes[sym.Choose("shape", len(headerShapes))]
	header := headerOf(sh, f.n, f.text)
	texts := make([]string, f.n)
	for i := range texts {
		texts[i] = plain("t") + digit(i)
	}
	tr := pluralCatalogue(sym.Choose("mo", 2) == 1, header, f.n, texts)
	n := sym.Uint32("n")
	k, ok := CEval(f.text, n)
	sym.Assert(ok && k < f.n, "the reference formula is well formed")
	v := layer(tr, 0)
	var got, want string
	switch sym.Choose("query", 3) {
	case 0:
		got, want = v.getN("id", "ids", int(n)), texts[k]
	case 1:
		got, want = v.getNC("id", "ids", int(n), "c"), texts[k]
	case 2:
		got, want = v.getN("part", "parts", int(n)), texts[k]
		if k == f.n-1 {
			want = "parts"
			if k == 0 {
				want = "part"
			}
		}
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "the plural form is the one selected by the Plural-Forms header")
	sym.Reach("end")
}

// C04_Fallback: whatever is stored or missing, a lookup gives the id or the
// plural it was asked for, never a blank text.
func C04_Fallback() {
	r := rules[sym.Choose("rule", len(rules)-1+sym.Tier())]
	po := newPo(r)
	id := sym.String("id", 1)
	pl := sym.String("plural", 1)
	blank := ""
	switch sym.Choose("stored", 6) {
	case 1:
		po.Set("s", blank)
	case 2:
		po.SetN("s", pl, 1, blank)
	case 3:
		po.SetC("s", "c", blank)
	case 4:
		po.SetNC("s", pl, "c", 5, blank)
	case 5:
		po.Set("s", "text")
	}
	n := r.count("n")
	v := chooseView(po)
	kind := sym.Choose("kind", 4)
	got := v.lookup(kind, id, pl, n)
	sym.Observe("got", got)
	want := id
	if kind == 1 || kind == 3 {
		if r.form(n) != 0 {
			want = pl
		}
	}
	ok := got == want
	if id == "s" {
		ok = ok || got == "text"
	}
	sym.Assert(ok, v.name+": an untranslated lookup returns the id, or the plural when the rule selects a plural form")
	sym.Reach("end")
}

// C04_Missing: a domain or locale that is not there selects by n == 1.
func C04_Missing() {
	l := gotext.NewLocale("", "xx")
	if sym.Choose("loaded", 2) == 1 {
		l.AddTranslator("other", gotext.NewPo())
		l.SetDomain("dom")
	}
	id := sym.String("id", 2)
	pl := sym.String("plural", 2)
	n := sym.Int("n")
	want := pl
	if n == 1 {
		want = id
	}
	switch sym.Choose("kind", 8) {
	case 0:
		sym.Assert(l.Get(id) == id, "Get returns the id")
	case 1:
		sym.Assert(l.GetN(id, pl, n) == want, "GetN returns the id or the plural")
	case 2:
		sym.Assert(l.GetD("dom", id) == id, "GetD returns the id")
	case 3:
		sym.Assert(l.GetND("dom", id, pl, n) == want, "GetND returns the id or the plural")
	case 4:
		sym.Assert(l.GetC(id, "c") == id, "GetC returns the id")
	case 5:
		sym.Assert(l.GetNC(id, pl, n, "c") == want, "GetNC returns the id or the plural")
	case 6:
		sym.Assert(l.GetDC("dom", id, "c") == id, "GetDC returns the id")
	case 7:
		sym.Assert(l.GetNDC("dom", id, pl, n, "c") == want, "GetNDC returns the id or the plural")
	}
	sym.Reach("end")
}

// C04_Resolver: without a formula, a custom resolver selects the form.
func C04_Resolver() {
	po := gotext.NewPo()
	other := sym.Choose("form", 4)
	f := func(n int) int {
		if n < 5 {
			return 0
		}
		return other
	}
	var d *gotext.Domain = po.GetDomain()
	if sym.Choose("api", 2) == 0 {
		po.SetPluralResolver(f)
	} else {
		d.SetPluralResolver(f)
	}
	withHeader := sym.Choose("header", 2) == 1
	if withHeader {
		po.Parse([]byte(poHeader(rules[1])))
	}
	m := &model{rule: f, wide: !withHeader}
	if withHeader {
		m.rule = rules[1].form
	}
	history(po, m, 1, func(k int) string { return sym.String("text", 1) })
	ask(viewOf("catalogue", po), m)
}
