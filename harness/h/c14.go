package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// stores are independent operations on a catalogue.
func stores(po *gotext.Po) []func() {
	return []func(){
		func() { po.Set("a", "A") },
		func() { po.SetN("b", "bs", 1, "B0"); po.SetN("b", "bs", 2, "B1") },
		func() { po.SetC("a", "x", "XA"); po.SetRefs("d", []string{"m.go:10"}) },
		func() { po.SetNC("c", "cs", "x", 3, "XC") },
		func() { po.SetC("a", "w", "WA"); po.SetRefs("a", []string{"m.go:9", "a.go:1"}) },
	}
}

// C14_Order: the text does not depend on the order of the operations or on the
// order in which maps are walked.
func C14_Order() {
	n := 4
	if sym.Tier() == 1 {
		n = 5
	}
	ref := newPo(rules[1])
	for _, f := range stores(ref)[:n] {
		f()
	}
	want, _ := ref.MarshalText()
	po := newPo(rules[1])
	fs := stores(po)[:n]
	for k := n; k > 0; k-- {
		i := sym.Choose("next", k)
		fs[i]()
		fs = append(append([]func(){}, fs[:i]...), fs[i+1:]...)
	}
	got, err := po.MarshalText()
	sym.Observe("got", string(got))
	sym.Assert(err == nil && string(got) == string(want), "the text depends only on the content")
	sym.Reach("end")
}

// C14_MapOrder: the same whatever order maps are walked in.
func C14_MapOrder() {
	po := newPo(rules[1])
	k := sym.Choose("set", 4)
	switch k {
	case 0:
		po.Set("b", "B")
		po.Set("a", "A")
		po.SetC("a", "x", "XA")
	case 1:
		po.SetN("b", "bs", 1, "B0")
		po.SetN("b", "bs", 2, "B1")
		po.SetNC("b", "bs", "c", 1, "CB0")
	case 2:
		po.SetC("a", "y", "YA")
		po.SetC("a", "x", "XA")
		po.SetC("b", "x", "XB")
	case 3:
		po.Set("b", "B")
		po.SetRefs("b", []string{"f.go:2"})
		po.Set("a", "A")
		po.SetRefs("a", []string{"f.go:10"})
		po.Set("c", "C")
		po.SetRefs("c", []string{"e.go:7"})
	}
	want, _ := po.MarshalText()
	sym.MapOrder(true)
	got, err := po.MarshalText()
	sym.MapOrder(false)
	sym.Observe("got", string(got))
	sym.Assert(err == nil && string(got) == string(want), "the text does not depend on map order")
	// Entries are ordered by reference, then context, then id.
	order := [][]string{
		{"msgid \"a\"", "msgid \"b\"", "msgctxt \"x\"\nmsgid \"a\""},
		{"msgid \"b\"\nmsgid_plural \"bs\"\nmsgstr[0] \"B0\"\nmsgstr[1] \"B1\"", "msgctxt \"c\"\nmsgid \"b\""},
		{"msgctxt \"x\"\nmsgid \"a\"", "msgctxt \"x\"\nmsgid \"b\"", "msgctxt \"y\"\nmsgid \"a\""},
		{"msgid \"c\"", "msgid \"b\"", "msgid \"a\""},
	}[k]
	at := 0
	for _, w := range order {
		i := indexFrom(string(got), "\n"+w, at)
		sym.Assert(i >= 0, "entries are ordered by reference, context and id")
		at = i + 1
	}
	sym.Reach("end")
}

func indexFrom(s, sub string, at int) int {
	for i := at; i+len(sub) <= len(s); i++ {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// C14_Headers: headers come in the order of xgettext, others by name.
func C14_Headers() {
	names := []string{"Project-Id-Version", "POT-Creation-Date", "Language", "Content-Type", "Plural-Forms", "X-B", "X-A", "Language-Team", "x-a", "language"}
	n := 3
	if sym.Tier() == 1 {
		n = 4
	}
	po := gotext.NewPo()
	src := "msgid \"\"\nmsgstr \"\"\n"
	used := map[int]bool{}
	var seq []int
	for i := 0; i < n; i++ {
		k := sym.Choose("header", len(names))
		if used[k] {
			sym.Assume(false)
		}
		used[k] = true
		seq = append(seq, k)
		src += "\"" + names[k] + ": v" + digit(i) + "\\n\"\n"
	}
	po.Parse([]byte(src))
	sym.MapOrder(true)
	got, _ := po.MarshalText()
	sym.MapOrder(false)
	rank := []int{0, 2, 6, 9, 11, 8, 8, 5, 8, 6}
	want := "msgid \"\"\nmsgstr \"\""
	for r := 0; r < 12; r++ {
		for _, k := range []int{0, 1, 2, 3, 4, 6, 5, 7, 8, 9} {
			if used[k] && rank[k] == r {
				for i, s := range seq {
					if s == k {
						want += "\n\"" + names[k] + ": v" + digit(i) + "\\n\""
					}
				}
			}
		}
	}
	sym.Observe("got", string(got))
	sym.Assert(string(got) == want, "headers are written in the order of xgettext")
	sym.Reach("end")
}

// sortEntry is an entry as the order of a file sees it.
type sortEntry struct {
	path string
	line int
	ctx  string
	id   string
}

func (e sortEntry) before(f sortEntry) bool {
	if e.path != f.path {
		return e.path < f.path
	}
	if e.line != f.line {
		return e.line < f.line
	}
	if e.ctx != f.ctx {
		return e.ctx < f.ctx
	}
	return e.id < f.id
}

// C14_Entries: entries with arbitrary references, contexts and ids come in the
// order of their first reference, then context, then id, whatever order maps
// are walked in.
func C14_Entries() {
	n := 2
	if sym.Tier() == 1 {
		n = 3
	}
	var es []sortEntry
	src := "msgid \"\"\nmsgstr \"\"\n\n"
	for i := 0; i < n; i++ {
		e := sortEntry{id: plain("id")}
		shape := sym.Choose("ref", 4)
		ref := ""
		if shape > 0 {
			ref = plain("path")
			sym.Assume(ref != ":")
			e.path = ref
		}
		if shape > 1 {
			ref += ":"
			for k := 1; k < shape; k++ {
				d := sym.String("line", 1)
				sym.Assume(sym.And(d[0] >= '0', d[0] <= '9'))
				ref += d
				e.line = e.line*10 + int(d[0]-'0')
			}
		}
		if ref != "" {
			src += "#: " + ref + "\n"
		}
		if sym.Choose("ctx", 2) == 1 {
			e.ctx = plain("ctx")
			src += "msgctxt \"" + e.ctx + "\"\n"
		}
		src += "msgid \"" + e.id + "\"\nmsgstr \"" + digit(i) + "\"\n\n"
		for _, f := range es {
			sym.Assume(e.id != f.id || e.ctx != f.ctx)
		}
		es = append(es, e)
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	sym.MapOrder(true)
	got, err := po.MarshalText()
	sym.MapOrder(false)
	sym.Observe("got", string(got))
	sym.Assert(err == nil, "MarshalText succeeds")
	var at []int
	for i := range es {
		at = append(at, indexFrom(string(got), "\nmsgstr \""+digit(i)+"\"", 0))
		sym.Assert(at[i] > 0, "every entry is written")
	}
	for i := range es {
		for k := 0; k < i; k++ {
			sym.Assert(es[k].before(es[i]) == (at[k] < at[i]), "entries are ordered by first reference, context and id")
		}
	}
	sym.Reach("end")
}

// C14_Refs: references come by path, then by line number.
func C14_Refs() {
	// Any two references: by path, then by line number.
	mk := func(nm string) (string, string, int) {
		p := []string{"a.go", "b.go", "a/c.go"}[sym.Choose(nm+".path", 3)]
		d := sym.String(nm+".line", []int{1, 2, 5, 7, 10}[sym.Choose(nm+".digits", 5)])
		l := 0
		for i := 0; i < len(d); i++ {
			sym.Assume(sym.And(d[i] >= '0', d[i] <= '9'))
			if i == 0 {
				sym.Assume(d[i] != '0')
			} else if i < len(d)-1 {
				sym.Assume(d[i] == '0')
			}
			l = l*10 + int(d[i]-'0')
		}
		return p + ":" + d, p, l
	}
	r1, p1, l1 := mk("x")
	r2, p2, l2 := mk("y")
	po := gotext.NewPo()
	po.Set("x", "X")
	po.SetRefs("x", []string{r1})
	po.Set("y", "Y")
	po.SetRefs("y", []string{r2})
	got, _ := po.MarshalText()
	yFirst := p2 < p1 || p1 == p2 && l2 < l1
	ix, iy := indexFrom(string(got), "msgid \"x\"", 0), indexFrom(string(got), "msgid \"y\"", 0)
	sym.Assert(ix > 0 && iy > 0 && (iy < ix) == yFirst, "entries are ordered by the path and line of their first reference")
	sym.Reach("end")
}
