package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

var allLangs = []string{"aa", "bb_BB", "cc"}

// chain configures up to three languages, each of which may have nothing, the
// domain without the entry, an empty entry or a translated one, from objects
// or from files.
func chain(dom string, n int, files bool, states int) (names []string, has []int) {
	var ls []*gotext.Locale
	lang := ""
	for i := 0; i < n; i++ {
		lg := allLangs[i]
		names = append(names, lg)
		h := sym.Choose("has", states)
		if states == 2 {
			h *= 3
		}
		has = append(has, h)
		src := poHeader(rules[1]) + "msgid \"other\"\nmsgstr \"o\"\n"
		t0, t1 := "", ""
		if h == 3 {
			t0, t1 = lg+"0", lg+"1"
		}
		if h >= 2 {
			for _, c := range []string{"", "msgctxt \"c\"\n"} {
				src += "\n" + c + "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"" + t0 + "\"\nmsgstr[1] \"" + t1 + "\"\n"
			}
		}
		if files {
			if h > 0 {
				sym.VfsPut(sym.VfsRoot()+"/"+lg[:2]+"/LC_MESSAGES/"+dom+".po", src)
			}
			if i > 0 {
				lang += ":"
			}
			lang += lg
		} else {
			l := gotext.NewLocale("", lg)
			if h > 0 {
				po := gotext.NewPo()
				po.Parse([]byte(src))
				l.AddTranslator(dom, po)
			} else {
				l.SetDomain(dom)
			}
			ls = append(ls, l)
		}
	}
	if files {
		gotext.Configure(sym.VfsRoot(), lang, dom)
	} else {
		gotext.SetLocales(ls)
	}
	return
}

// C21_Chain: lookups go through the languages in order and take the first
// translation; IsTranslated tells whether there is one.
func C21_Chain() {
	dom := "d"
	names, has := chain(dom, 1+sym.Choose("languages", 3), sym.Choose("files", 2) == 1, 4)
	win := -1
	for i, h := range has {
		if h == 3 && win < 0 {
			win = i
		}
	}
	n := int(sym.Uint32("n"))
	f := rules[1].form(n)
	kind := sym.Choose("kind", 8)
	var got string
	var is bool
	switch kind {
	case 0:
		got, is = gotext.Get("id"), gotext.IsTranslated("id")
	case 1:
		got, is = gotext.GetN("id", "ids", n), gotext.IsTranslatedN("id", n)
	case 2:
		got, is = gotext.GetC("id", "c"), gotext.IsTranslatedC("id", "c")
	case 3:
		got, is = gotext.GetNC("id", "ids", n, "c"), gotext.IsTranslatedNC("id", n, "c")
	case 4:
		got, is = gotext.GetD(dom, "id"), gotext.IsTranslatedD(dom, "id")
	case 5:
		got, is = gotext.GetND(dom, "id", "ids", n), gotext.IsTranslatedND(dom, "id", n)
	case 6:
		got, is = gotext.GetDC(dom, "id", "c"), gotext.IsTranslatedDC(dom, "id", "c")
	case 7:
		got, is = gotext.GetNDC(dom, "id", "ids", n, "c"), gotext.IsTranslatedNDC(dom, "id", n, "c")
	}
	plural := kind&1 == 1
	want := "id"
	if win >= 0 {
		want = names[win] + "0"
		if plural {
			want = names[win] + digit(f)
		}
	} else if plural {
		// The last language decides: by its rule if it has the domain.
		if has[len(has)-1] == 0 {
			f = rules[0].form(n)
		}
		if f != 0 {
			want = "ids"
		}
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "the first language with a translation answers, or the text is returned as it is")
	sym.Assert(is == (win >= 0), "IsTranslated tells whether some language has a translation")
	sym.Reach("end")
}

// C21_Langs: IsTranslated restricted to languages looks in those only.
func C21_Langs() {
	dom := "d"
	n := int(sym.Uint32("n"))
	names, has := chain(dom, 1+sym.Choose("languages", 2+sym.Tier()), false, 2)
	var ask []string
	want := false
	m := 1 + sym.Choose("asked", 2)
	for i := 0; i < m; i++ {
		k := sym.Choose("ask", 5)
		switch k {
		case 3:
			ask = append(ask, "zz")
		case 4:
			ask = append(ask, "cc.UTF-8@x")
			k = 2
		default:
			ask = append(ask, allLangs[k])
		}
		if k < len(names) && has[k] == 3 {
			want = true
		}
	}
	var is bool
	switch sym.Choose("kind", 8) {
	case 0:
		is = gotext.IsTranslated("id", ask...)
	case 1:
		is = gotext.IsTranslatedN("id", n, ask...)
	case 2:
		is = gotext.IsTranslatedC("id", "c", ask...)
	case 3:
		is = gotext.IsTranslatedNC("id", n, "c", ask...)
	case 4:
		is = gotext.IsTranslatedD(dom, "id", ask...)
	case 5:
		is = gotext.IsTranslatedND(dom, "id", n, ask...)
	case 6:
		is = gotext.IsTranslatedDC(dom, "id", "c", ask...)
	case 7:
		is = gotext.IsTranslatedNDC(dom, "id", n, "c", ask...)
	}
	sym.Assert(is == want, "IsTranslated with languages looks in those languages")
	sym.Reach("end")
}

// formLang is a language that has some of the forms of a plural entry, with
// its own plural rule.
type formLang struct {
	r    rule
	text [3]string // by form; empty when missing
}

func (l formLang) form(n int) string {
	if f := l.r.form(n); f < 3 {
		return l.text[f]
	}
	return ""
}

// C21_Form: the language is chosen by the form that is asked for, in the
// context that is asked for, each language with its own rule.
func C21_Form() {
	var ls []*gotext.Locale
	var ctx, other [3]formLang
	langs := 2
	where := sym.Choose("context", 2) == 1
	for i := 0; i < langs; i++ {
		r := rules[[]int{1, 4, 0}[sym.Choose("rule", 3)]]
		po := newPo(r)
		ctx[i].r, other[i].r = r, r
		for f := 0; f < r.forms; f++ {
			// n is a count that selects form f.
			n := 0
			for k := 0; k < 3; k++ {
				if r.form(k) == f {
					n = k
				}
			}
			if sym.Choose("has", 2) == 1 {
				t := sym.String("t", 1)
				ctx[i].text[f] = t
				if where {
					po.SetNC("id", "ids", "c", n, t)
				} else {
					po.SetN("id", "ids", n, t)
				}
			}
		}
		// The same id elsewhere must not matter.
		if sym.Choose("elsewhere", 2) == 1 {
			for n := 0; n < 3; n++ {
				if where {
					po.SetN("id", "ids", n, "wrong")
				} else {
					po.SetNC("id", "ids", "c", n, "wrong")
				}
			}
		}
		l := gotext.NewLocale("", allLangs[i])
		l.AddTranslator("d", po)
		ls = append(ls, l)
	}
	gotext.SetLocales(ls)
	n := int(sym.Uint32("n"))
	want, one := "", ""
	for i := 0; i < langs; i++ {
		if want == "" {
			want = ctx[i].form(n)
		}
		if one == "" {
			one = ctx[i].text[0]
		}
	}
	is, is1 := want != "", one != ""
	if !is {
		// The last language decides between the id and the plural.
		want = "ids"
		if ctx[langs-1].r.form(n) == 0 {
			want = "id"
		}
	}
	if !is1 {
		one = "id"
	}
	var got, got1 string
	var tr, tr1 bool
	switch sym.Choose("api", 2) {
	case 0:
		got, tr = gotext.GetN("id", "ids", n), gotext.IsTranslatedN("id", n)
		got1, tr1 = gotext.Get("id"), gotext.IsTranslated("id")
		if where {
			got, tr = gotext.GetNC("id", "ids", n, "c"), gotext.IsTranslatedNC("id", n, "c")
			got1, tr1 = gotext.GetC("id", "c"), gotext.IsTranslatedC("id", "c")
		}
	case 1:
		got, tr = gotext.GetND("d", "id", "ids", n), gotext.IsTranslatedND("d", "id", n)
		got1, tr1 = gotext.GetD("d", "id"), gotext.IsTranslatedD("d", "id")
		if where {
			got, tr = gotext.GetNDC("d", "id", "ids", n, "c"), gotext.IsTranslatedNDC("d", "id", n, "c")
			got1, tr1 = gotext.GetDC("d", "id", "c"), gotext.IsTranslatedDC("d", "id", "c")
		}
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "a plural lookup goes on to the next language when the form is missing")
	sym.Assert(tr == is, "IsTranslatedN tells whether some language has the form")
	sym.Assert(got1 == one, "a singular lookup goes on to the next language when there is no text")
	sym.Assert(tr1 == is1, "IsTranslated tells whether some language has the text")
	sym.Reach("end")
}

// C21_OnDemand: a domain that was not configured is loaded when it is used.
func C21_OnDemand() {
	root := sym.VfsRoot()
	t := plain("t")
	k := sym.Choose("where", 3)
	if k < 2 {
		sym.VfsPut(root+"/"+[]string{"aa", "cc"}[k]+"/LC_MESSAGES/extra.po", poHeader(rules[1])+"msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \""+t+"\"\nmsgstr[1] \""+t+"s\"\n\nmsgctxt \"c\"\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \""+t+"\"\nmsgstr[1] \""+t+"s\"\n")
	}
	gotext.Configure(root, "aa:cc", "main")
	n := int(sym.Uint32("n"))
	one, many, is := "id", "id", false
	if k < 2 {
		one, many, is = t, t, true
		if rules[1].form(n) == 1 {
			many = t + "s"
		}
	} else if n != 1 {
		many = "ids"
	}
	switch sym.Choose("kind", 8) {
	case 0:
		sym.Assert(gotext.GetD("extra", "id") == one, "GetD loads the domain")
	case 1:
		sym.Assert(gotext.GetND("extra", "id", "ids", n) == many, "GetND loads the domain")
	case 2:
		sym.Assert(gotext.GetDC("extra", "id", "c") == one, "GetDC loads the domain")
	case 3:
		sym.Assert(gotext.GetNDC("extra", "id", "ids", n, "c") == many, "GetNDC loads the domain")
	case 4:
		sym.Assert(gotext.IsTranslatedD("extra", "id") == is, "IsTranslatedD loads the domain")
	case 5:
		sym.Assert(gotext.IsTranslatedND("extra", "id", n) == is, "IsTranslatedND loads the domain")
	case 6:
		sym.Assert(gotext.IsTranslatedDC("extra", "id", "c") == is, "IsTranslatedDC loads the domain")
	case 7:
		sym.Assert(gotext.IsTranslatedNDC("extra", "id", n, "c") == is, "IsTranslatedNDC loads the domain")
	}
	sym.Assert(gotext.GetDomain() == "main", "loading a domain does not change the default one")
	sym.Reach("end")
}

// C21_Same: several locales may have the same language; a language may be named
// by the territory or by the directory its files are in.
func C21_Same() {
	const dom = "d"
	type one struct {
		lang, actual string
		has          int
	}
	var ls []*gotext.Locale
	var all []one
	n := 2 + sym.Choose("locales", 2)
	for i := 0; i < n; i++ {
		o := one{lang: []string{"aa", "bb_BB"}[sym.Choose("lang", 2)], has: sym.Choose("has", 3)}
		root := sym.VfsRoot() + "/" + digit(i)
		var l *gotext.Locale
		src := "msgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"" + digit(i) + "\"\nmsgstr[1] \"" + digit(i) + "s\"\n"
		if o.has == 1 {
			src = "msgid \"other\"\nmsgstr \"x\"\n"
		}
		switch k := sym.Choose("source", 2); {
		case k == 0 && o.has > 0:
			o.actual = o.lang[:2]
			sym.VfsPut(root+"/"+o.actual+"/"+dom+".po", src)
			fallthrough
		case k == 0:
			l = gotext.NewLocale(root, o.lang)
		default:
			l = gotext.NewLocale("", o.lang)
			if o.has > 0 {
				po := gotext.NewPo()
				po.Parse([]byte(src))
				l.AddTranslator(dom, po)
			}
		}
		ls = append(ls, l)
		all = append(all, o)
	}
	gotext.SetLocales(ls)
	c := int(sym.Uint32("n"))
	var ask []string
	k := sym.Choose("ask", 5)
	if k > 0 {
		ask = [][]string{{"aa"}, {"bb"}, {"bb_BB"}, {"zz", "bb"}}[k-1]
	}
	is := false
	want := "id"
	for _, o := range all {
		in := k == 0 && (o.lang == "aa" || o.lang == "bb_BB")
		for _, a := range ask {
			in = in || a == o.lang || a == o.actual
		}
		is = is || in && o.has == 2
	}
	for i := n - 1; i >= 0; i-- {
		if all[i].has == 2 {
			want = digit(i)
		}
	}
	sym.Assert(gotext.GetD(dom, "id") == want, "the first locale with a translation answers, whatever the languages are")
	sym.Assert(gotext.IsTranslatedD(dom, "id", ask...) == is, "IsTranslated looks in all locales of the languages asked for")
	sym.Assert(gotext.IsTranslatedND(dom, "id", c, ask...) == is, "IsTranslatedN looks in all locales of the languages asked for")
	sym.Assert(!gotext.IsTranslatedDC(dom, "id", "c", ask...) && !gotext.IsTranslatedNDC(dom, "id", c, "c", ask...), "a text without context is not one with a context")
	sym.Reach("end")
}
