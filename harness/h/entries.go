package h

import (
	"strconv"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// anyEntry is an entry of any shape: with or without a context, which may be
// the id; with or without a plural, which may be the id; with texts that are
// empty, arbitrary or the id.
func anyEntry(id string) poEntry {
	e := poEntry{ctx: []string{"", "c", id}[sym.Choose("ctx", 3)], id: id}
	e.plural = []string{"", id, id + "s"}[sym.Choose("plural", 3)]
	forms := 1
	if e.plural != "" {
		forms = 2
	}
	t := plain("t")
	for f := 0; f < forms; f++ {
		e.strs = append(e.strs, []string{"", t, id}[sym.Choose("str", 3)])
	}
	return e
}

func anyRefs() (string, []string) {
	switch sym.Choose("refs", 4) {
	case 1:
		return "#: a.go:1\n", []string{"a.go:1"}
	case 2:
		return "#: a.go:1 b.go:22\n", []string{"a.go:1", "b.go:22"}
	case 3:
		return "#: a.go:1\n#: a.go:1\n", []string{"a.go:1", "a.go:1"}
	}
	return "", nil
}

// listed is the entry as a catalogue lists it.
func (e poEntry) listed(d *gotext.Domain) *gotext.Translation {
	if e.ctx == "" {
		return d.GetTranslations()[e.id]
	}
	return d.GetCtxTranslations()[e.ctx][e.id]
}

// whole asserts that a catalogue lists the entry with everything it has.
func (e poEntry) whole(d *gotext.Domain, refs []string, what string) {
	t := e.listed(d)
	if t == nil {
		sym.Fail(what)
		return
	}
	sym.Assert(t.ID == e.id && t.PluralID == e.plural, what)
	sym.Assert(len(t.Trs) == len(e.strs), what)
	for f, s := range e.strs {
		got, ok := t.Trs[f]
		sym.Assert(ok && got == s, what)
	}
	sameList(t.Refs, refs, what)
}

func sameList(a, b []string, what string) {
	sym.Assert(len(a) == len(b), what)
	for i := range a {
		sym.Assert(a[i] == b[i], what)
	}
}

// deep asserts that two catalogues list the same entries, with everything
// they have.  The header entry may be missing unless it is an entry of its own.
func deep(what string, a, b *gotext.Domain) {
	one := func(x, y map[string]*gotext.Translation, strict bool) {
		for id, t := range x {
			if id == "" && !strict {
				continue
			}
			u := y[id]
			if u == nil {
				sym.Fail(what + ": every entry is there")
				return
			}
			sym.Assert(t.ID == u.ID && t.PluralID == u.PluralID && len(t.Trs) == len(u.Trs), what+": entries are the same")
			for f, s := range t.Trs {
				got, ok := u.Trs[f]
				sym.Assert(ok && got == s, what+": texts are the same")
			}
			sameList(t.Refs, u.Refs, what+": references are the same")
		}
	}
	strict := a.Get("") != "" && len(a.Headers) == 0
	one(a.GetTranslations(), b.GetTranslations(), strict)
	one(b.GetTranslations(), a.GetTranslations(), strict)
	x, y := a.GetCtxTranslations(), b.GetCtxTranslations()
	for c := range x {
		one(x[c], y[c], true)
	}
	for c := range y {
		one(y[c], x[c], true)
	}
}

// C08_Entry: an entry of any shape is listed as the file has it, whichever
// entry stands before or after it.
func C08_Entry() {
	e := anyEntry("a")
	lead, refs := anyRefs()
	src := "msgid \"\"\nmsgstr \"\"\n\n"
	other := []poEntry{{"", "z", "zs", []string{"Z0", "Z1"}}, {"c", "z", "", []string{"Z"}}}[sym.Choose("other", 2)]
	blank := []string{"\n", ""}[sym.Choose("blank", 2)]
	body := lead + e.write(0, 0, "\n")
	if sym.Choose("first", 2) == 1 {
		src += body + blank + other.write(0, 0, "\n")
	} else {
		src += "#: z.go:9\n" + other.write(0, 0, "\n") + blank + body
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e.whole(po.GetDomain(), refs, "an entry is listed with its ids, texts and references")
	other.whole(po.GetDomain(), map[bool][]string{true: {"z.go:9"}}[src[10:] != "" && indexFrom(src, "z.go:9", 0) >= 0], "an entry is listed with its ids, texts and references")
	sym.Reach("end")
}

// C08_NoContext: a context that is written but empty takes nothing away from
// the entry.
func C08_NoContext() {
	e := anyEntry("a")
	sym.Assume(e.ctx == "")
	lead, refs := anyRefs()
	src := "msgid \"\"\nmsgstr \"\"\n\n"
	if sym.Choose("before", 2) == 1 {
		src += "#: z.go:9\nmsgctxt \"c\"\nmsgid \"z\"\nmsgstr \"Z\"\n\n"
	}
	src += lead + []string{"msgctxt \"\"\n", "msgctxt \"\"\n\"\"\n"}[sym.Choose("empty", 2)] + e.write(0, 0, "\n")
	po := gotext.NewPo()
	po.Parse([]byte(src))
	d := po.GetDomain()
	t := d.GetTranslations()["a"]
	if t == nil {
		t = d.GetCtxTranslations()[""]["a"]
	}
	if t == nil {
		sym.Fail("an entry with an empty context is read")
		return
	}
	sym.Assert(t.ID == "a" && t.PluralID == e.plural && len(t.Trs) == len(e.strs), "an entry with an empty context has its ids and texts")
	for f, s := range e.strs {
		sym.Assert(t.Trs[f] == s, "an entry with an empty context has its ids and texts")
	}
	sameList(t.Refs, refs, "an entry with an empty context has its references")
	sym.Reach("end")
}

// C10_Entry: the same for MO files.
func C10_Entry() {
	e := anyEntry("a")
	other := []poEntry{{"", "z", "zs", []string{"Z0", "Z1"}}, {"c", "z", "", []string{"Z"}}}[sym.Choose("other", 2)]
	es := []moEntry{moHeader(rules[1]), e.mo(), other.mo()}
	mo := gotext.NewMo()
	mo.Parse(buildMo(es, sym.Choose("big", 2) == 1, 0, sym.Choose("swap", 2) == 1))
	e.whole(mo.GetDomain(), nil, "an entry is listed with its ids and texts")
	other.whole(mo.GetDomain(), nil, "an entry is listed with its ids and texts")
	sym.Reach("end")
}

// C12_Entry: an entry of any shape is listed alike from both formats.
func C12_Entry() {
	e := anyEntry("a")
	f := kinds[4+sym.Choose("other", 4)]
	if sym.Choose("order", 2) == 1 {
		e, f = f, e
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	po.Parse([]byte(poHeader(rules[1]) + e.write(0, 0, "\n") + "\n" + f.write(0, 0, "\n")))
	mo.Parse(buildMo([]moEntry{moHeader(rules[1]), e.mo(), f.mo()}, false, 0, false))
	deep("PO and MO", po.GetDomain(), mo.GetDomain())
	sym.Reach("end")
}

// anyCatalogue holds entries of any shape from a file or from setters.
func anyCatalogue(ids int) *gotext.Po {
	e := anyEntry([]string{"a", ""}[sym.Choose("id", ids)])
	if e.id == "" || sym.Choose("set", 2) == 1 {
		po := gotext.NewPo()
		if e.id != "" {
			po = newPo(rules[1])
		}
		for f, s := range e.strs {
			switch {
			case e.plural == "" && e.ctx == "":
				po.Set(e.id, s)
			case e.plural == "":
				po.SetC(e.id, e.ctx, s)
			case e.ctx == "":
				po.SetN(e.id, e.plural, 1+f, s)
			default:
				po.SetNC(e.id, e.plural, e.ctx, 1+f, s)
			}
		}
		_, refs := anyRefs()
		if e.ctx == "" {
			po.SetRefs(e.id, refs)
		}
		po.SetNC("z", "zs", "k", 2, "Z")
		return po
	}
	lead, _ := anyRefs()
	po := gotext.NewPo()
	po.Parse([]byte(poHeader(rules[1]) + lead + e.write(0, 0, "\n") + "\n" + kinds[5].write(0, 0, "\n")))
	return po
}

// C13_Entry: an entry of any shape survives being written and read.
func C13_Entry() {
	po := anyCatalogue(1) // the empty id is the header of a file
	deep("copy", po.GetDomain(), reparse(po.GetDomain()).GetDomain())
	sym.Reach("end")
}

// C15_Entry: an entry of any shape survives a binary round trip.
func C15_Entry() {
	po := anyCatalogue(2)
	b, err := po.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	var d *gotext.Domain
	switch sym.Choose("into", 3) {
	case 0:
		q := gotext.NewPo()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		d = q.GetDomain()
	case 1:
		q := gotext.NewMo()
		sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
		d = q.GetDomain()
	default:
		d = gotext.NewDomain()
		sym.Assert(d.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	}
	deep("copy", po.GetDomain(), d)
	sym.Reach("end")
}

// C16_Entry: and the round trip of a locale.
func C16_Entry() {
	po := anyCatalogue(2)
	l := gotext.NewLocale("p", "xx")
	l.AddTranslator("one", po)
	if sym.Choose("two", 2) == 1 {
		other := gotext.NewMo()
		other.Parse(buildMo([]moEntry{moHeader(rules[2]), {"a\x00a", "x\x00y\x00z"}}, false, 0, false))
		l.AddTranslator("two", other)
	}
	b, err := l.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	var q gotext.Locale
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	sym.Assert(len(q.Domains) == len(l.Domains), "every domain survives a binary round trip")
	for name, tr := range l.Domains {
		if q.Domains[name] == nil {
			sym.Fail("every domain survives a binary round trip")
			return
		}
		deep("copy", tr.GetDomain(), q.Domains[name].GetDomain())
	}
	sym.Reach("end")
}

// C26_Empty: empty ids, contexts and texts are entries like any other.
func C26_Empty() {
	po := gotext.NewPo()
	if sym.Choose("file", 2) == 1 {
		po.Parse([]byte("msgid \"f\"\nmsgstr \"F\"\n\nmsgctxt \"c\"\nmsgid \"f\"\nmsgstr \"F\"\n"))
	}
	type key struct {
		in      bool
		ctx, id string
	}
	want := map[key]string{}
	refd := map[string]bool{}
	for k := 0; k < 2+sym.Tier(); k++ {
		id := []string{"", "a", "f"}[sym.Choose("id", 3)]
		t := []string{"", "t" + digit(k)}[sym.Choose("text", 2)]
		switch sym.Choose("op", 3) {
		case 0:
			po.Set(id, t)
			want[key{false, "", id}] = t
		case 1:
			ctx := []string{"", "c"}[sym.Choose("ctx", 2)]
			po.SetC(id, ctx, t)
			want[key{true, ctx, id}] = t
		case 2:
			po.SetRefs(id, []string{"r:1"})
			if _, ok := want[key{false, "", id}]; !ok {
				want[key{false, "", id}] = map[bool]string{true: "F"}[id == "f" && po.IsTranslated("f")]
			}
			refd[id] = true
		}
	}
	po.DropStaleTranslations()
	n := 0
	for k, t := range want {
		var tr *gotext.Translation
		if !k.in {
			tr = po.GetDomain().GetTranslations()[k.id]
			n++
		} else {
			tr = po.GetDomain().GetCtxTranslations()[k.ctx][k.id]
		}
		if tr == nil {
			sym.Fail("a translation that was set survives")
			return
		}
		sym.Assert(tr.ID == k.id && tr.Trs[0] == t, "a translation that was set survives with its text")
		sym.Assert((len(tr.Refs) > 0) == (!k.in && refd[k.id]), "a translation that was set survives with its references")
	}
	sym.Assert(len(po.GetDomain().GetTranslations()) == n, "exactly the translations that were set survive")
	m := 0
	for _, c := range po.GetDomain().GetCtxTranslations() {
		m += len(c)
	}
	sym.Assert(m == len(want)-n, "exactly the translations that were set survive")
	sym.Reach("end")
}

// C06_Empty: ids, plurals, contexts and texts that are empty.
func C06_Empty() {
	po := newPo(rules[1])
	kind := sym.Choose("query", 4)
	n := int(sym.Uint32("n"))
	at := []string{"", "a"}[sym.Choose("id", 2)]
	switch sym.Choose("stored", 4) {
	case 0:
	case 1:
		store(po, kind, at, "p", 1+sym.Choose("form", 2), "")
	case 2:
		store(po, kind, at, "", 1+sym.Choose("form", 2), "t%%")
	default:
		store(po, 3-kind, at, "", 2, "t%%")
	}
	var a appender = po
	pre := []byte{}
	switch sym.Choose("how", 3) {
	case 1:
		pre = nil
	case 2:
		a = po.GetDomain()
	}
	id := []string{"", "a"}[sym.Choose("qid", 2)]
	var vars []interface{}
	switch sym.Choose("vars", 3) {
	case 1:
		vars = []interface{}{}
	case 2:
		vars = []interface{}{nil}
	}
	pl, ctx := "", ""
	if kind&1 == 1 {
		pl = []string{"", "p"}[sym.Choose("qplural", 2)]
	}
	if kind >= 2 {
		ctx = []string{"", "c"}[sym.Choose("qctx", 2)]
	}
	var got []byte
	var want string
	switch kind {
	case 0:
		got, want = a.Append(pre, id, vars...), a.Get(id, vars...)
	case 1:
		got, want = a.AppendN(pre, id, pl, n, vars...), a.GetN(id, pl, n, vars...)
	case 2:
		got, want = a.AppendC(pre, id, ctx, vars...), a.GetC(id, ctx, vars...)
	case 3:
		got, want = a.AppendNC(pre, id, pl, n, ctx, vars...), a.GetNC(id, pl, n, ctx, vars...)
	}
	sym.Assert(string(got) == want, "the result is the buffer followed by what the lookup returns")
	sym.Reach("end")
}

// C08_Refs: the references of an entry, whatever blanks and lines separate
// them.
func C08_Refs() {
	blank := func(name string, min int) string {
		s := sym.String(name, min+sym.Choose(name+".len", 3-min))
		for i := 0; i < len(s); i++ {
			sym.Assume(sym.Or(s[i] == ' ', s[i] == '\t'))
		}
		return s
	}
	c := sym.String("ref", 1)
	sym.Assume(sym.And(c[0] > ' ', c[0] < 0x7f))
	refs := []string{"a.go:1", "b" + c + ".go:22", c + "c"}
	nl := []string{"\n", "\r\n"}[sym.Choose("nl", 2)]
	src := "msgid \"\"\nmsgstr \"\"\n\n#:" + blank("lead", 0) + refs[0]
	if sym.Choose("line", 2) == 1 {
		src += nl + "#:" + blank("lead2", 0)
	} else {
		src += blank("mid", 1)
	}
	src += refs[1]
	src += blank("mid2", 1) + refs[2] + blank("tail", 0) + nl
	e := kinds[sym.Choose("kind", 4)]
	src += e.write(0, 0, nl) + "\n#: z:1\nmsgid \"z\"\nmsgstr \"Z\"\n"
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e.whole(po.GetDomain(), refs, "the references of an entry are read, in order, whatever blanks separate them")
	poEntry{"", "z", "", []string{"Z"}}.whole(po.GetDomain(), []string{"z:1"}, "the next entry has its own references")
	sym.Reach("end")
}

// C10_ManyForms: an entry of many forms, as some languages need.
func C10_ManyForms() {
	n := []int{1, 2, 5, 6, 7, 10, 11, 33}[sym.Choose("forms", 8)]
	e := poEntry{"", "id", "ids", nil}
	if sym.Choose("ctx", 2) == 1 {
		e.ctx = "c"
	}
	m := moText("mark", 1)
	for i := 0; i < n; i++ {
		e.strs = append(e.strs, m+string(rune('a'+i)))
	}
	var tr gotext.Translator
	if sym.Choose("po", 2) == 1 {
		sym.Assume(sym.And(m[0] > ' ', m[0] < 0x7f))
		sym.Assume(sym.And(m[0] != '"', m[0] != '\\'))
		src := poHeader(rules[0])
		if e.ctx != "" {
			src += "msgctxt \"c\"\n"
		}
		src += "msgid \"id\"\nmsgid_plural \"ids\"\n"
		for i, s := range e.strs {
			src += "msgstr[" + strconv.Itoa(i) + "] \"" + s + "\"\n"
		}
		po := gotext.NewPo()
		po.SetPluralResolver(func(n int) int { return n })
		po.Parse([]byte(src))
		tr = po
	} else {
		mo := gotext.NewMo()
		mo.Parse(buildMo([]moEntry{moHeader(rules[0]), e.mo()}, sym.Choose("big", 2) == 1, 0, false))
		mo.GetDomain().SetPluralResolver(func(n int) int { return n })
		tr = mo
	}
	k := sym.Choose("form", n+1)
	want := "ids"
	if k < n {
		want = e.strs[k]
	} else if k == 0 {
		want = "id"
	}
	v := layer(tr, sym.Choose("view", 3))
	got := ""
	if e.ctx == "" {
		got = v.getN("id", "ids", k)
	} else {
		got = v.getNC("id", "ids", k, "c")
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "every form of an entry is read, however many there are")
	sym.Assert(len(e.listed(tr.GetDomain()).Trs) == n, "an entry has the forms of the file and no others")
	sym.Reach("end")
}

// C20_Replace: a domain added again is the one that answers, whatever kind of
// catalogue it and its predecessor are.
func C20_Replace() {
	root := sym.VfsRoot()
	l := gotext.NewLocale(root, "xx")
	name, last := []string{"d", "e", ""}[sym.Choose("dom", 3)], ""
	sym.VfsMkdir(root + "/xx/LC_MESSAGES")
	var prev gotext.Translator
	for k := 0; k < 3; k++ {
		text := "v" + digit(k)
		raw := buildMo([]moEntry{moHeader(rules[1]), {"id", text}}, false, 0, false)
		switch sym.Choose("kind", 5) {
		case 0:
			prev = domained(text)
			l.AddTranslator(name, prev)
			last = text
		case 1:
			mo := gotext.NewMo()
			mo.Parse(raw)
			prev = mo
			l.AddTranslator(name, mo)
			last = text
		case 2:
			sym.VfsPut(root+"/xx/LC_MESSAGES/"+name+".po", domainFile(text))
			l.AddDomain(name)
			last, prev = text, nil
		case 3:
			sym.VfsDel(root + "/xx/LC_MESSAGES/" + name + ".po")
			sym.VfsPut(root+"/xx/LC_MESSAGES/"+name+".mo", string(raw))
			l.AddDomain(name)
			last, prev = text, nil
		case 4: // the same object again, with another text
			if po, ok := prev.(*gotext.Po); ok {
				po.Set("id", text)
				l.AddTranslator(name, po)
				last = text
			}
		}
		want := last
		if want == "" {
			want = "id"
		}
		got := l.GetD(name, "id")
		sym.Observe("got", got)
		sym.Assert(got == want, "the catalogue added last is the one that answers")
		sym.Assert(l.Get("id") == want, "the first domain added is the default")
	}
	sym.Reach("end")
}
