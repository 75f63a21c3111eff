package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func printable(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] > ' ', s[i] < 0x7f))
	}
	return s
}

// headered reads headers from PO or MO.
func headered(mo bool, lines []string) gotext.Translator {
	if mo {
		h := ""
		for _, l := range lines {
			h += l + "\n"
		}
		m := gotext.NewMo()
		m.Parse(buildMo([]moEntry{{"", h}, {"a", "b"}}, false, 0, false))
		return m
	}
	src := "msgid \"\"\nmsgstr \"\"\n"
	for _, l := range lines {
		src += "\"" + esc(l, 0) + "\\n\"\n"
	}
	p := gotext.NewPo()
	p.Parse([]byte(src + "\nmsgid \"a\"\nmsgstr \"b\"\n"))
	return p
}

// C24_Lines: any header is found under its name with its value.
func C24_Lines() {
	k := 3
	if sym.Tier() == 1 {
		k = 5
	}
	// Blanks may be anywhere in the name but at its start.
	key := "X" + sym.String("key", 1+sym.Choose("keylen", 2))
	for i := 0; i < len(key); i++ {
		sym.Assume(sym.Or(sym.And(key[i] >= ' ', key[i] < 0x7f), key[i] == '\t'))
		sym.Assume(key[i] != ':')
	}
	// Blanks may be anywhere but at the ends.
	val := sym.String("val", 1+sym.Choose("vallen", k))
	for i := 0; i < len(val); i++ {
		sym.Assume(sym.Or(sym.And(val[i] >= ' ', val[i] < 0x7f), val[i] == '\t'))
	}
	for _, c := range []byte{val[0], val[len(val)-1]} {
		sym.Assume(sym.And(c != ' ', c != '\t'))
	}
	sp := []string{" ", "", "  \t"}[sym.Choose("space", 3)]
	tr := headered(sym.Choose("mo", 2) == 1, []string{"Language: xx", key + ":" + sp + val, "no header here", "Last: l"})
	h := tr.GetDomain().Headers
	sym.Observe("val", h.Get(key))
	sym.Assert(h.Get(key) == val, "a header is found under its name with its value")
	sym.Assert(h.Get("Language") == "xx" && h.Get("Last") == "l" && tr.GetDomain().Language == "xx", "the other headers are found too")
	sym.Assert(len(h) == 3, "there are no other headers")
	sym.Assert(tr.Get("a") == "b", "headers are not translations")
	sym.Reach("end")
}

// C24_Case: the language and the plural rule are found whatever the case of
// the header names.
func C24_Case() {
	lk := []string{"Language", "language", "LANGUAGE", "lAnGuAgE"}[sym.Choose("lk", 4)]
	pk := []string{"Plural-Forms", "plural-forms", "PLURAL-FORMS", "Plural-forms"}[sym.Choose("pk", 4)]
	v := plain("v")
	ls, ps := []string{" ", "", "\t "}[sym.Choose("lspace", 3)], []string{" ", ""}[sym.Choose("pspace", 2)]
	lines := []string{lk + ":" + ls + v, pk + ":" + ps + "nplurals=2; plural=(n > 1);"}
	if sym.Choose("swap", 2) == 1 {
		lines[0], lines[1] = lines[1], lines[0]
	}
	if sym.Choose("decoy", 2) == 1 {
		lines = append([]string{"Language-Team: team", "X-Plural-Forms: nplurals=1; plural=0;"}, lines...)
	}
	tr := headered(sym.Choose("mo", 2) == 1, lines)
	d := tr.GetDomain()
	sym.Assert(d.Language == v && d.PluralForms == "nplurals=2; plural=(n > 1);", "the language and the plural rule are found in any case")
	n := int(sym.Uint32("n"))
	sym.Assert(tr.GetN("x", "xs", n) == []string{"x", "xs"}[rules[1].form(n)], "the plural rule of the header is used")
	switch t := tr.(type) {
	case *gotext.Po:
		sym.Assert(t.Language == v && t.PluralForms == d.PluralForms && t.Headers.Get(lk) == v, "the fields of Po are set")
	case *gotext.Mo:
		sym.Assert(t.Language == v && t.PluralForms == d.PluralForms && t.Headers.Get(lk) == v, "the fields of Mo are set")
	}
	sym.Reach("end")
}

// C24_Repeat: a header given more than once keeps all its values in order, the
// first one counts.
func C24_Repeat() {
	n := 2 + sym.Tier()
	names := []string{"X-A", "Language", "Plural-Forms"}
	k := names[sym.Choose("name", 3)]
	var lines, vals []string
	for i := 0; i < n; i++ {
		v := ""
		switch {
		case k == "Plural-Forms":
			v = rules[1+i].header
		case sym.Choose("empty", 2) == 0:
			v = plain("v")
		}
		vals = append(vals, v)
		lines = append(lines, k+":"+[]string{" ", ""}[sym.Choose("space", 2)]+v)
		if sym.Choose("between", 2) == 1 {
			lines = append(lines, "Last-Translator: l")
		}
	}
	tr := headered(sym.Choose("mo", 2) == 1, lines)
	d := tr.GetDomain()
	sym.Assert(len(d.Headers[k]) == n && len(d.Headers.Values(k)) == n, "every value of a repeated header is kept")
	for i := range vals {
		sym.Assert(d.Headers[k][i] == vals[i], "the values of a repeated header are in order")
	}
	sym.Assert(d.Headers.Get(k) == vals[0], "the first value of a repeated header counts")
	if k == "Language" {
		sym.Assert(d.Language == vals[0], "the first language counts")
	}
	if k == "Plural-Forms" {
		c := int(sym.Uint32("n"))
		sym.Assert(d.PluralForms == vals[0] && tr.GetN("x", "xs", c) == []string{"x", "xs"}[rules[1].form(c)], "the first plural rule counts")
	}
	sym.Reach("end")
}

// C24_Map: the header map behaves as a map of lists.
func C24_Map() {
	m := gotext.HeaderMap{}
	var keys []string
	var vals []string
	for i := 0; i < 3; i++ {
		k := sym.String("k", 1)
		v := sym.String("v", 1)
		switch sym.Choose("op", 3) {
		case 0:
			m.Add(k, v)
			keys, vals = append(keys, k), append(vals, v)
		case 1:
			m.Set(k, v)
			keys, vals = without(keys, vals, k)
			keys, vals = append(keys, k), append(vals, v)
		case 2:
			m.Del(k)
			keys, vals = without(keys, vals, k)
		}
	}
	q := sym.String("q", 1)
	var want []string
	for i := range keys {
		if keys[i] == q {
			want = append(want, vals[i])
		}
	}
	got := m.Values(q)
	sym.Assert(len(got) == len(want), "Values returns the values of the key")
	for i := range got {
		sym.Assert(got[i] == want[i], "Values returns the values of the key in order")
	}
	if len(want) == 0 {
		sym.Assert(m.Get(q) == "", "Get returns nothing for a missing key")
	} else {
		sym.Assert(m.Get(q) == want[0], "Get returns the first value of the key")
	}
	var none gotext.HeaderMap
	sym.Assert(none.Get(q) == "" && none.Values(q) == nil, "an empty map has no values")
	sym.Reach("end")
}

func without(keys, vals []string, k string) (ks, vs []string) {
	for i := range keys {
		if keys[i] != k {
			ks, vs = append(ks, keys[i]), append(vs, vals[i])
		}
	}
	return
}
