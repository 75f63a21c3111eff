package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func reparse(d *gotext.Domain) *gotext.Po {
	b, err := d.MarshalText()
	sym.Assert(err == nil, "MarshalText succeeds")
	po := gotext.NewPo()
	po.Parse(b)
	return po
}

// C13_Text: any text set in any place survives being written and read.
func C13_Text() {
	k := 3
	if sym.Tier() == 1 {
		k = 4
	}
	text := poText("text", sym.Choose("len", k+1))
	po := newPo(rules[1])
	q := poEntry{ctx: "c", id: "id", plural: "ids"}
	switch sym.Choose("where", 8) {
	case 0:
		po.Set("id", text)
	case 1:
		sym.Assume(text != "")
		po.Set(text, "tr")
		q.id = text
	case 2:
		po.SetN("id", "ids", 5, text)
	case 3:
		sym.Assume(text != "")
		po.SetN("id", text, 1, "tr")
		q.plural = text
	case 4:
		sym.Assume(text != "")
		po.SetN(text, "ids", 1, "tr")
		q.id = text
	case 5:
		po.SetC("id", "c", text)
	case 6:
		sym.Assume(text != "")
		po.SetC("id", text, "tr")
		q.ctx = text
	case 7:
		sym.Assume(text != "")
		po.SetNC(text, "ids", "c", 7, text)
		q.id = text
	}
	back := reparse(po.GetDomain())
	same(viewOf("catalogue", po), viewOf("copy", back), q)
	sym.Reach("end")
}

// C13_History: any sequence of stores gives a file that reads back the same.
func C13_History() {
	r := rules[[]int{0, 1}[sym.Choose("rule", 2)]]
	po := newPo(r)
	m := &model{rule: r.form}
	ops := 2
	if sym.Tier() == 1 {
		ops = 3
	}
	for k := 0; k < ops; k++ {
		id := []string{"a", "b"}[sym.Choose("id", 2)]
		str := []string{"", "x", "y\n\"z"}[sym.Choose("text", 3)]
		switch sym.Choose("op", 5) {
		case 0:
			po.Set(id, str)
			m.set(false, "", id, 0, str)
		case 1:
			n := int(sym.Uint32("n"))
			po.SetN(id, pluralOf(id), n, str)
			m.set(false, "", id, r.form(n), str)
		case 2:
			po.SetC(id, "c", str)
			m.set(true, "c", id, 0, str)
		case 3:
			n := int(sym.Uint32("n"))
			po.SetNC(id, pluralOf(id), "c", n, str)
			m.set(true, "c", id, r.form(n), str)
		case 4:
			po.SetRefs(id, []string{"f.go:" + digit(k)})
		}
	}
	back := reparse(po.GetDomain())
	v := viewOf("copy", back)
	id := []string{"a", "b"}[sym.Choose("qid", 2)]
	n := int(sym.Uint32("qn"))
	sym.Assert(v.get(id) == m.get(false, "", id), "Get on the copy returns the stored text or the id")
	sym.Assert(v.getN(id, pluralOf(id), n) == m.getN(false, "", id, pluralOf(id), n), "GetN on the copy returns the text of the selected form")
	sym.Assert(v.getC(id, "c") == m.get(true, "c", id), "GetC on the copy returns the stored text or the id")
	sym.Assert(v.getNC(id, pluralOf(id), n, "c") == m.getN(true, "c", id, pluralOf(id), n), "GetNC on the copy returns the text of the selected form")
	// Writing again changes nothing.
	b1, _ := back.MarshalText()
	b2, _ := reparse(back.GetDomain()).MarshalText()
	sym.Assert(string(b1) == string(b2), "writing, reading and writing gives the same file")
	sym.Reach("end")
}

// C13_File: reading a file and writing it keeps entries, headers, comments and
// references.
func C13_File() {
	k := 1
	if sym.Tier() == 1 {
		k = 2
	}
	h := sym.String("h", k)
	for i := 0; i < len(h); i++ {
		sym.Assume(sym.And(h[i] > ' ', h[i] < 0x7f))
	}
	key := []string{"X-Custom", "language", "Last-Translator", "MIME-Version"}[sym.Choose("key", 4)]
	head := []string{"", "# first\n#\n# third\n"}[sym.Choose("comment", 2)]
	src := head + "msgid \"\"\nmsgstr \"\"\n\"" + key + ": " + esc(h, 0) + "\\n\"\n\"Plural-Forms: nplurals=2; plural=(n > 1);\\n\"\n\n"
	ref := ""
	switch sym.Choose("refs", 4) {
	case 1:
		ref = "#: a.go:1\n"
	case 2:
		ref = "#: a.go:1 b.go:22\n"
	case 3:
		ref = "#: a.go:1\n#: b.go:22 c.go\n"
	}
	e, f := kinds[sym.Choose("a", len(kinds))], kinds[sym.Choose("b", len(kinds))]
	sym.Assume(!sameKey(e, f))
	if sym.Choose("which", 2) == 0 {
		src += ref + e.write(0, 0, "\n") + "\n" + f.write(0, 0, "\n")
	} else {
		src += e.write(0, 0, "\n") + "\n" + ref + f.write(0, 0, "\n")
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	back := reparse(po.GetDomain())
	sym.Assert(back.Headers.Get(key) == h && len(back.Headers.Values(key)) == 1, "headers survive writing and reading")
	sym.Assert(po.Headers.Get(key) == h, "headers are read as written")
	sym.Assert(back.PluralForms == po.PluralForms && back.Language == po.Language && len(back.Headers) == len(po.Headers), "headers survive writing and reading")
	a, b := po.GetDomain(), back.GetDomain()
	sameTr("copy", a.GetTranslations(), b.GetTranslations())
	sameCtx("copy", a.GetCtxTranslations(), b.GetCtxTranslations())
	for _, x := range []poEntry{e, f} {
		r1, r2 := a.GetTranslations()[x.id], b.GetTranslations()[x.id]
		if x.ctx != "" {
			r1, r2 = a.GetCtxTranslations()[x.ctx][x.id], b.GetCtxTranslations()[x.ctx][x.id]
		}
		sym.Assert(len(r1.Refs) == len(r2.Refs), "references survive writing and reading")
		for i := range r1.Refs {
			sym.Assert(r1.Refs[i] == r2.Refs[i], "references survive writing and reading")
		}
	}
	t1, _ := po.MarshalText()
	t2, _ := back.MarshalText()
	sym.Assert(string(t1) == string(t2), "writing, reading and writing gives the same file")
	if head != "" {
		sym.Assert(len(t1) > len(head) && string(t1[:len(head)]) == head, "the comments at the head of the file stay")
	}
	sym.Reach("end")
}

// C13_Forms: plural entries with any set of filled and empty forms.
func C13_Forms() {
	r := rules[[]int{1, 2, 4}[sym.Choose("rule", 3)]]
	po := newPo(r)
	inCtx := sym.Choose("ctx", 2) == 1
	e := poEntry{id: "id", plural: "ids"}
	if inCtx {
		e.ctx = "c"
	}
	for f := 0; f < r.forms; f++ {
		if sym.Choose("set", 2) == 0 {
			continue
		}
		n := []int{1, 2, 0}[f]
		if r.forms == 3 && r.form(0) == 0 {
			n = []int{0, 1, 2}[f]
		}
		t := []string{"", plain("t")}[sym.Choose("blank", 2)]
		if inCtx {
			po.SetNC("id", "ids", "c", n, t)
		} else {
			po.SetN("id", "ids", n, t)
		}
	}
	back := reparse(po.GetDomain())
	same(viewOf("catalogue", po), viewOf("copy", back), e)
	sym.Reach("end")
}

// C13_Comments: the comment lines at the head of a file stay as they are.
func C13_Comments() {
	lines := 3
	k := 2
	if sym.Tier() == 1 {
		lines, k = 4, 3
	}
	head := ""
	for i := 0; i < lines; i++ {
		t := sym.String("comment", sym.Choose("len", k+1))
		for j := 0; j < len(t); j++ {
			sym.Assume(sym.And(t[j] >= ' ', t[j] < 0x7f))
		}
		if len(t) > 0 { // other than blanks at the end of a line
			sym.Assume(t[len(t)-1] != ' ')
		}
		head += "#" + t + "\n"
	}
	src := head + "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n"
	switch sym.Choose("entry", 3) {
	case 1:
		src += "#: f.go:1\n"
		fallthrough
	case 2:
		src += "msgid \"a\"\nmsgstr \"A\"\n"
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	t1, err := po.MarshalText()
	sym.Assert(err == nil, "MarshalText succeeds")
	rest := "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\""
	sym.Observe("text", string(t1))
	sym.Assert(len(t1) >= len(head)+len(rest) && string(t1[:len(head)+len(rest)]) == head+rest, "the comments at the head of the file stay")
	t2, _ := reparse(po.GetDomain()).MarshalText()
	sym.Assert(string(t1) == string(t2), "writing, reading and writing gives the same file")
	sym.Reach("end")
}

// C13_Headers: any list of headers, also with repeated and empty ones, reads
// back the same.
func C13_Headers() {
	n := 2
	if sym.Tier() == 1 {
		n = 3
	}
	names := []string{"Language", "language", "X-A", "x-a", "Last-Translator"}
	src := "msgid \"\"\nmsgstr \"\"\n"
	for i := 0; i < n; i++ {
		v := sym.String("value", sym.Choose("len", 3))
		for j := 0; j < len(v); j++ {
			sym.Assume(sym.And(v[j] >= ' ', v[j] < 0x7f))
		}
		if len(v) > 0 {
			sym.Assume(v[0] != ' ')
			sym.Assume(v[len(v)-1] != ' ')
		}
		src += "\"" + names[sym.Choose("name", len(names))] + ": " + esc(v, 0) + "\\n\"\n"
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	back := reparse(po.GetDomain())
	sym.Assert(len(po.Headers) == len(back.Headers), "headers survive writing and reading")
	for _, k := range names {
		a, b := po.Headers[k], back.Headers[k]
		sym.Assert(len(a) == len(b), "headers survive writing and reading")
		for i := range a {
			sym.Assert(a[i] == b[i], "headers survive writing and reading")
		}
		sym.Assert(po.Headers.Get(k) == back.Headers.Get(k), "headers survive writing and reading")
	}
	sym.Reach("end")
}

// C13_HeaderNames: header names of arbitrary characters survive too.
func C13_HeaderNames() {
	name, v := sym.String("name", 2), sym.String("value", 1)
	for i := 0; i < len(name); i++ {
		sym.Assume(sym.And(name[i] >= ' ', name[i] < 0x7f))
		sym.Assume(name[i] != ':')
	}
	sym.Assume(sym.And(v[0] > ' ', v[0] < 0x7f))
	po := gotext.NewPo()
	line := "\"" + esc(name, 0) + ": " + esc(v, 0) + "\\n\"\n"
	other := "\"Language: xx\\n\"\n"
	if sym.Choose("order", 2) == 1 {
		line, other = other, line
	}
	po.Parse([]byte("msgid \"\"\nmsgstr \"\"\n" + line + other))
	back := reparse(po.GetDomain())
	for _, p := range []*gotext.Po{po, back} {
		sym.Assert(len(p.Headers) == 2 && len(p.Headers[name]) == 1, "headers survive writing and reading")
		sym.Assert(p.Headers.Get(name) == v && p.Headers.Get("Language") == "xx" && p.Language == "xx", "headers survive writing and reading")
	}
	sym.Reach("end")
}
