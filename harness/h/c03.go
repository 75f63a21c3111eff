package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// model is what a catalogue should answer: every text stored under exactly its
// context, id and plural form.
type mEntry struct {
	inCtx   bool
	ctx, id string
	plural  string
	form    []int
	text    []string
}

type model struct {
	entries []*mEntry
	rule    func(int) int
	wide    bool // no formula: counts are not limited to 32 bits
}

// count is any count the rule of the catalogue is defined for.
func (m *model) count(name string) int {
	if m.wide {
		return sym.Int(name)
	}
	return int(sym.Uint32(name))
}

func (m *model) find(inCtx bool, ctx, id string) *mEntry {
	for _, e := range m.entries {
		if e.inCtx == inCtx && e.id == id && (!inCtx || e.ctx == ctx) {
			return e
		}
	}
	return nil
}

func (m *model) set(inCtx bool, ctx, id string, form int, text string) *mEntry {
	e := m.find(inCtx, ctx, id)
	if e == nil {
		e = &mEntry{inCtx: inCtx, ctx: ctx, id: id}
		m.entries = append(m.entries, e)
	}
	for i, f := range e.form {
		if f == form {
			e.text[i] = text
			return e
		}
	}
	e.form = append(e.form, form)
	e.text = append(e.text, text)
	return e
}

func (m *model) stored(inCtx bool, ctx, id string, form int) string {
	if e := m.find(inCtx, ctx, id); e != nil {
		for i, f := range e.form {
			if f == form {
				return e.text[i]
			}
		}
	}
	return ""
}

// get is the answer to a singular lookup.
func (m *model) get(inCtx bool, ctx, id string) string {
	if s := m.stored(inCtx, ctx, id, 0); s != "" {
		return s
	}
	return id
}

// getN is the answer to a plural lookup; plural is the plural text of id.
func (m *model) getN(inCtx bool, ctx, id, plural string, n int) string {
	f := m.rule(n)
	if s := m.stored(inCtx, ctx, id, f); s != "" {
		return s
	}
	if f == 0 {
		return id
	}
	return plural
}

func (m *model) isN(inCtx bool, ctx, id string, n int) bool {
	return m.stored(inCtx, ctx, id, m.rule(n)) != ""
}

// pluralOf is the plural text that goes with an id.
// pluralOf is the plural text that goes with an id: for some ids the id itself.
var pluralOf = func(id string) string {
	if id == "=" {
		return id
	}
	return id + "s"
}

// idTail ends the ids of a history.
var idTail = ""

// short is an id or a context of one byte, or of none as well.
func short(name string) string {
	if orEmpty {
		return sym.String(name, sym.Choose(name+".len", 2))
	}
	return sym.String(name, 1)
}

var orEmpty = false

// setters are the operations that store translations.
type setters interface {
	Set(id, str string)
	SetN(id, plural string, n int, str string)
	SetC(id, ctx, str string)
	SetNC(id, plural, ctx string, n int, str string)
}

func history(st setters, m *model, ops int, text func(k int) string) {
	for k := 0; k < ops; k++ {
		id := short("id") + idTail
		str := text(k)
		switch sym.Choose("op", 4) {
		case 0:
			st.Set(id, str)
			m.set(false, "", id, 0, str)
		case 1:
			n := m.count("n")
			st.SetN(id, pluralOf(id), n, str)
			m.set(false, "", id, m.rule(n), str)
		case 2:
			ctx := short("ctx")
			st.SetC(id, ctx, str)
			m.set(true, ctx, id, 0, str)
		case 3:
			ctx := short("ctx")
			n := m.count("n")
			st.SetNC(id, pluralOf(id), ctx, n, str)
			m.set(true, ctx, id, m.rule(n), str)
		}
	}
}

// ask compares one lookup of every kind with the model.
func ask(v view, m *model) {
	id := short("qid")
	switch sym.Choose("query", 4) {
	case 0:
		got := v.get(id)
		sym.Observe("get", got)
		sym.Assert(got == m.get(false, "", id), v.name+": Get returns the stored text or the id")
		sym.Assert(v.is(id) == (m.stored(false, "", id, 0) != ""), v.name+": IsTranslated tells whether Get finds a text")
	case 1:
		n := m.count("qn")
		got := v.getN(id, pluralOf(id), n)
		sym.Observe("getn", got)
		sym.Assert(got == m.getN(false, "", id, pluralOf(id), n), v.name+": GetN returns the text of the selected form or the id or the plural")
		sym.Assert(v.isN(id, n) == m.isN(false, "", id, n), v.name+": IsTranslatedN tells whether GetN finds a text")
	case 2:
		ctx := short("qctx")
		got := v.getC(id, ctx)
		sym.Observe("getc", got)
		sym.Assert(got == m.get(true, ctx, id), v.name+": GetC returns the text stored in that context or the id")
		sym.Assert(v.isC(id, ctx) == (m.stored(true, ctx, id, 0) != ""), v.name+": IsTranslatedC tells whether GetC finds a text")
	case 3:
		ctx := short("qctx")
		n := m.count("qn")
		got := v.getNC(id, pluralOf(id), n, ctx)
		sym.Observe("getnc", got)
		sym.Assert(got == m.getN(true, ctx, id, pluralOf(id), n), v.name+": GetNC returns the text of the selected form in that context or the id or the plural")
		sym.Assert(v.isNC(id, n, ctx) == m.isN(true, ctx, id, n), v.name+": IsTranslatedNC tells whether GetNC finds a text")
	}
	sym.Reach(v.name)
}

// C03_History: any sequence of stores, then any lookup.
func C03_History() {
	ops := 2
	if sym.Tier() == 1 {
		ops = 3
	}
	r := rules[sym.Choose("rule", 2)]
	po := newPo(r)
	m := &model{rule: r.form, wide: r.header == ""}
	var st setters = po
	if sym.Choose("target", 2) == 1 {
		st = po.GetDomain()
	}
	history(st, m, ops, func(k int) string { return sym.String("text", sym.Choose("textlen", 2)) })
	ask(viewOf("catalogue", po), m)
}

// C03_Empty: also with empty ids and contexts; an empty context is not the
// same as none.
func C03_Empty() {
	orEmpty = true
	defer func() { orEmpty = false }()
	po := gotext.NewPo()
	m := &model{rule: rules[0].form, wide: true}
	history(po, m, 2, func(k int) string { return "text" + digit(k) })
	ask(viewOf("catalogue", po), m)
}

// C03_Layers: the catalogue, a locale and the package functions all answer the
// same for the same stored translations, whatever the plural rule.
func C03_Layers() {
	r := rules[sym.Choose("rule", len(rules))]
	po := newPo(r)
	m := &model{rule: r.form, wide: r.header == ""}
	ops := 1
	if sym.Tier() == 1 {
		ops = 2
	}
	history(po, m, ops, func(k int) string { return sym.String("text", 1) })
	ask(chooseView(po), m)
}

// C03_Overwrite: a text is replaced by the next one stored for the same
// context, id and form and by nothing else.
func C03_Overwrite() {
	r := rules[sym.Choose("rule", len(rules))]
	po := newPo(r)
	m := &model{rule: r.form, wide: r.header == ""}
	inCtx := sym.Choose("inctx", 2) == 1
	for k := 0; k < 3; k++ {
		str := sym.String("text", 1)
		n := int(sym.Uint32("n"))
		if inCtx {
			po.SetNC("id", "ids", "c", n, str)
			m.set(true, "c", "id", r.form(n), str)
		} else {
			po.SetN("id", "ids", n, str)
			m.set(false, "", "id", r.form(n), str)
		}
	}
	n := int(sym.Uint32("qn"))
	var got, want, other, otherWant string
	if inCtx {
		got, want = po.GetNC("id", "ids", n, "c"), m.getN(true, "c", "id", "ids", n)
		other, otherWant = po.GetN("id", "ids", n), m.getN(false, "", "id", "ids", n)
	} else {
		got, want = po.GetN("id", "ids", n), m.getN(false, "", "id", "ids", n)
		other, otherWant = po.GetNC("id", "ids", n, "c"), m.getN(true, "c", "id", "ids", n)
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "the last text stored for the selected form is returned")
	sym.Assert(other == otherWant, "entries with and without context are independent")
	sym.Reach("end")
}

// C03_File: stores into a catalogue that was read from a file in which entries
// share ids, plural ids and texts.
func C03_File() {
	was := pluralOf
	pluralOf = func(id string) string { return "as" }
	defer func() { pluralOf = was }()
	r := rules[sym.Choose("rule", 2)]
	m := &model{rule: r.form, wide: r.header == ""}
	src := poHeader(r)
	all := []mEntry{
		{false, "", "a", "as", []int{0, 1}, []string{"A0", "A1"}},
		{true, "x", "a", "as", []int{0, 1}, []string{"A0", "XA1"}},
		{false, "", "b", "as", []int{0, 1}, []string{"B0", "A1"}},
		{true, "y", "b", "", []int{0}, []string{"B0"}},
		{false, "", "c", "", []int{0}, []string{"A0"}},
	}
	for _, e := range all {
		pe := poEntry{e.ctx, e.id, e.plural, e.text}
		src += pe.write(0, 0, "\n") + "\n"
		for i, f := range e.form {
			m.set(e.inCtx, e.ctx, e.id, f, e.text[i])
		}
	}
	var tr gotext.Translator
	var st setters
	if sym.Choose("kind", 2) == 0 {
		po := gotext.NewPo()
		po.Parse([]byte(src))
		tr, st = po, po
	} else {
		es := []moEntry{moHeader(r)}
		for _, e := range all {
			es = append(es, poEntry{e.ctx, e.id, e.plural, e.text}.mo())
		}
		mo := gotext.NewMo()
		mo.Parse(buildMo(es, false, 0, false))
		tr, st = mo, mo.GetDomain()
	}
	ops := 1
	if sym.Tier() == 1 {
		ops = 2
	}
	history(st, m, ops, func(k int) string { return sym.String("text", sym.Choose("textlen", 2)) })
	ask(layer(tr, sym.Choose("view", 2)), m)
}

// C03_Long: ids and contexts of different lengths, holding any bytes, also
// those that separate the parts of an entry in files.
func C03_Long() {
	po := gotext.NewPo()
	m := &model{rule: rules[0].form, wide: true}
	ops := 1 + sym.Tier()
	idLen := []int{1, 3}
	for k := 0; k < ops; k++ {
		id := sym.String("id", idLen[sym.Choose("idlen", 2)])
		str := sym.String("text", 1)
		if sym.Choose("op", 2) == 0 {
			n := sym.Int("n")
			po.SetN(id, pluralOf(id), n, str)
			m.set(false, "", id, m.rule(n), str)
		} else {
			ctx := sym.String("ctx", sym.Choose("ctxlen", 2))
			n := sym.Int("n")
			po.SetNC(id, pluralOf(id), ctx, n, str)
			m.set(true, ctx, id, m.rule(n), str)
		}
	}
	v := layer(po, 2*sym.Choose("view", 3))
	id := sym.String("qid", idLen[sym.Choose("qidlen", 2)])
	n := sym.Int("qn")
	if sym.Choose("qctx", 2) == 0 {
		sym.Assert(v.get(id) == m.get(false, "", id), v.name+": Get returns the stored text or the id")
		sym.Assert(v.getN(id, pluralOf(id), n) == m.getN(false, "", id, pluralOf(id), n), v.name+": GetN returns the text of the selected form or the id or the plural")
	} else {
		ctx := sym.String("qctx", sym.Choose("qctxlen", 3))
		sym.Assert(v.getC(id, ctx) == m.get(true, ctx, id), v.name+": GetC returns the text stored in that context or the id")
		sym.Assert(v.getNC(id, pluralOf(id), n, ctx) == m.getN(true, ctx, id, pluralOf(id), n), v.name+": GetNC returns the text of the selected form in that context or the id or the plural")
	}
	sym.Reach("end")
}

// C03_Translation: a translation on its own, as the lists hold them.
func C03_Translation() {
	orEmpty = true
	defer func() { orEmpty = false }()
	refs := []string{"a.go:1"}
	t := gotext.NewTranslation()
	if sym.Choose("refs", 2) == 1 {
		t = gotext.NewTranslationWithRefs(refs)
		sym.Assert(len(t.Refs) == 1 && t.Refs[0] == "a.go:1", "the references are those given")
	}
	t.ID, t.PluralID = short("id"), short("plural")
	sym.Assert(t.IsStale(), "a new translation is stale")
	m := map[int]string{}
	touched := false
	for k := 0; k < 2+sym.Tier(); k++ {
		switch sym.Choose("op", 4) {
		case 0:
		case 1:
			s := short("text")
			t.Set(s)
			m[0] = s
			touched = true
		case 2:
			n, s := sym.Int("n"), short("text")
			t.SetN(n, s)
			m[n] = s
			touched = true
		case 3:
			t.SetRefs([]string{"b.go:2"})
			touched = true
			sym.Assert(t.Refs[0] == "b.go:2" && refs[0] == "a.go:1", "the references are replaced")
		}
	}
	sym.Assert(t.IsStale() == !touched, "a translation is stale until it is set")
	want := m[0]
	if want == "" {
		want = t.ID
	}
	sym.Observe("got", t.Get())
	sym.Assert(t.Get() == want && t.GetN(0) == want && t.IsTranslated() == (m[0] != "") && t.IsTranslatedN(0) == (m[0] != ""), "Get returns the text or the id")
	q := sym.Int("q")
	sym.Assume(q != 0)
	want = m[q]
	if want == "" {
		want = t.PluralID
	}
	sym.Assert(t.GetN(q) == want && t.IsTranslatedN(q) == (m[q] != ""), "GetN returns the text of the form or the plural")
	sym.Reach("end")
}

// C03_Merge: a further file read into a catalogue replaces the entries it has
// and leaves the other ones, whatever was stored in between.
func C03_Merge() {
	was := pluralOf
	pluralOf = func(id string) string { return id + "s" }
	defer func() { pluralOf = was }()
	r := rules[1]
	m := &model{rule: r.form}
	mo := sym.Choose("mo", 2) == 1
	pool := []poEntry{{"", "a", "as", nil}, {"", "b", "", nil}, {"c", "a", "", nil}, {"c", "b", "bs", nil}}
	var tr gotext.Translator
	var st setters
	if mo {
		t := gotext.NewMo()
		tr, st = t, t.GetDomain()
	} else {
		t := gotext.NewPo()
		tr, st = t, t
	}
	header := sym.Choose("header", 2) // of the first file only, or of both
	read := func(k int, es []poEntry) {
		src, ms := "", []moEntry(nil)
		if k == 0 || header == 1 {
			src, ms = poHeader(r), []moEntry{moHeader(r)}
		}
		for _, e := range es {
			src += e.write(k, 0, "\n") + "\n"
			ms = append(ms, e.mo())
			// All forms of the entry are those of the file.
			if old := m.find(e.ctx != "", e.ctx, e.id); old != nil {
				old.form, old.text = nil, nil
			}
			for f, s := range e.strs {
				m.set(e.ctx != "", e.ctx, e.id, f, s)
			}
		}
		if mo {
			tr.Parse(buildMo(ms, k == 1, 0, false))
		} else {
			tr.Parse([]byte(src))
		}
	}
	empty := sym.Choose("empty", 5) // an entry whose text is empty
	for k := 0; k < 2; k++ {
		var es []poEntry
		for i, e := range pool {
			if k == 1 && sym.Choose("has", 2) == 0 {
				continue
			}
			// Which entries are plural differs between the files.
			if (i+k)%2 == 0 {
				e.plural = e.id + "s"
			} else {
				e.plural = ""
			}
			if k == 0 {
				e.strs = []string{"0" + e.ctx + e.id, "0" + e.ctx + e.id + "s"}
			} else {
				e.strs = []string{"1" + e.ctx + e.id, "1" + e.ctx + e.id + "s"}
			}
			if k == 1 && i == empty {
				e.strs[0] = ""
			}
			if e.plural == "" {
				e.strs = e.strs[:1]
			}
			es = append(es, e)
		}
		read(k, es)
		if k == 0 && sym.Choose("store", 2) == 1 {
			st.SetN("a", "as", 2, "set")
			m.set(false, "", "a", 1, "set")
			st.SetC("a", "c", "set")
			m.set(true, "c", "a", 0, "set")
			st.Set("n", "new")
			m.set(false, "", "n", 0, "new")
		}
	}
	v := layer(tr, 0)
	n := int(sym.Uint32("n"))
	for _, id := range []string{"a", "b", "n"} {
		sym.Assert(v.get(id) == m.get(false, "", id) && v.getC(id, "c") == m.get(true, "c", id), "after a further file every lookup returns what was last stored")
		sym.Assert(v.getN(id, id+"s", n) == m.getN(false, "", id, id+"s", n) && v.getNC(id, id+"s", n, "c") == m.getN(true, "c", id, id+"s", n), "after a further file every plural lookup returns what was last stored")
		sym.Assert(v.isN(id, n) == m.isN(false, "", id, n) && v.isNC(id, n, "c") == m.isN(true, "c", id, n), "after a further file IsTranslated tells what was last stored")
	}
	sym.Reach("end")
}
