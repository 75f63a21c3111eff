package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// domained is a catalogue whose texts name it.
func domained(name string) *gotext.Po {
	po := newPo(rules[1])
	po.Set("id", name)
	po.SetN("pl", "pls", 0, name+"0")
	po.SetN("pl", "pls", 2, name+"1")
	po.SetC("id", "c", name+"c")
	po.SetNC("pl", "pls", "c", 0, name+"c0")
	po.SetNC("pl", "pls", "c", 2, name+"c1")
	po.Set("only"+name, "o"+name)
	return po
}

// C20_Route: any sequence of adding domains, loading them from files, loading
// them again and choosing the default, then any lookup: it is answered by the
// domain asked for, or by the default one, which is the first added unless
// chosen.
func C20_Route() {
	root := sym.VfsRoot()
	sym.VfsPut(root+"/xx/LC_MESSAGES/b.po", domainFile("bf"))
	l := gotext.NewLocale(root, "xx")
	doms := []string{"a", "b", ""}
	var have [3]string
	def := ""
	ops := 3
	if sym.Tier() == 1 {
		ops = 4
	}
	for k := 0; k < ops; k++ {
		switch op := sym.Choose("op", 8); op {
		case 0, 1, 2:
			have[op] = doms[op] + "v" + digit(k)
			l.AddTranslator(doms[op], domained(have[op]))
			if def == "" {
				def = doms[op]
			}
		case 3, 4, 5:
			l.SetDomain(doms[op-3])
			def = doms[op-3]
		case 6: // there is no file for it
			l.AddDomain("a")
		case 7:
			have[1] = "bf"
			l.AddDomain("b")
			if def == "" {
				def = "b"
			}
		}
	}
	sym.Assert(l.GetDomain() == def, "the default domain is the one chosen, or the first added")
	q := sym.Choose("query", 4)
	d := def
	if q < 3 {
		d = doms[q]
	}
	name := ""
	for i := range doms {
		if doms[i] == d {
			name = have[i]
		}
	}
	n := int(sym.Uint32("n"))
	f := rules[1].form(n)
	w := []string{name, name + digit(f), name + "c", name + "c" + digit(f)}
	is := true
	if name == "" {
		is = false
		w = []string{"id", "pls", "id", "pls"}
		if n == 1 {
			w[1], w[3] = "pl", "pl"
		}
	}
	k := sym.Choose("kind", 4)
	var got string
	var tr bool
	switch k {
	case 0:
		got, tr = l.GetD(d, "id"), l.IsTranslatedD(d, "id")
		if q == 3 {
			got, tr = l.Get("id"), l.IsTranslated("id")
		}
	case 1:
		got, tr = l.GetND(d, "pl", "pls", n), l.IsTranslatedND(d, "pl", n)
		if q == 3 {
			got, tr = l.GetN("pl", "pls", n), l.IsTranslatedN("pl", n)
		}
	case 2:
		got, tr = l.GetDC(d, "id", "c"), l.IsTranslatedDC(d, "id", "c")
		if q == 3 {
			got, tr = l.GetC("id", "c"), l.IsTranslatedC("id", "c")
		}
	case 3:
		got, tr = l.GetNDC(d, "pl", "pls", n, "c"), l.IsTranslatedNDC(d, "pl", n, "c")
		if q == 3 {
			got, tr = l.GetNC("pl", "pls", n, "c"), l.IsTranslatedNC("pl", n, "c")
		}
	}
	sym.Observe("got", got)
	sym.Assert(got == w[k], "a lookup is answered by the domain asked for")
	sym.Assert(tr == is, "IsTranslated looks in the domain asked for")
	sym.Reach("end")
}

// domainFile is the file of domained(name).
func domainFile(name string) string {
	s := poHeader(rules[1])
	for _, c := range []string{"", "c"} {
		ctx := ""
		if c != "" {
			ctx = "msgctxt \"c\"\n"
		}
		s += ctx + "msgid \"id\"\nmsgstr \"" + name + c + "\"\n\n"
		s += ctx + "msgid \"pl\"\nmsgid_plural \"pls\"\nmsgstr[0] \"" + name + c + "0\"\nmsgstr[1] \"" + name + c + "1\"\n\n"
	}
	return s + "msgid \"only" + name + "\"\nmsgstr \"o" + name + "\"\n"
}

// C20_All: GetTranslations lists every translation of every domain, whatever
// order the domains are walked in and whichever is the default.
func C20_All() {
	l := gotext.NewLocale("", "xx")
	doms := []string{"a", "b", "c"}
	n := sym.Choose("n", 4)
	for i := 0; i < n; i++ {
		po := gotext.NewPo()
		po.Set("only"+doms[i], "o"+doms[i])
		po.SetN("pl", "pls", 2, "p"+doms[i])
		po.SetC("ctx"+doms[i], "c", "x")
		if i == 0 {
			po.SetRefs("ref", []string{"f.go:1"})
		}
		l.AddTranslator(doms[i], po)
	}
	if k := sym.Choose("default", 4); k > 0 {
		l.SetDomain(doms[k-1])
	}
	sym.MapOrder(true)
	all := l.GetTranslations()
	sym.MapOrder(false)
	for i := 0; i < n; i++ {
		d := doms[i]
		sym.Assert(all["only"+d] != nil && all["only"+d].Get() == "o"+d, "GetTranslations lists the translations of every domain")
		sym.Assert(all["ref"] != nil, "GetTranslations lists the entries that have no text yet")
	}
	if n > 0 {
		sym.Assert(all["pl"] != nil && all["pl"].PluralID == "pls", "GetTranslations lists the translations of every domain")
	}
	cnt := 0
	for id := range all {
		if id != "" {
			cnt++
		}
	}
	sym.Assert(cnt == []int{0, 3, 4, 5}[n], "GetTranslations lists nothing else")
	sym.Reach("end")
}
