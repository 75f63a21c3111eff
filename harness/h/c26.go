package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C26_Stale: after a file was read and any sequence of setters ran, dropping
// the stale translations keeps exactly those that a setter touched.
func C26_Stale() {
	po := gotext.NewPo()
	src := poHeader(rules[1])
	ids := []string{"a", "b"}
	ctxs := []string{"", "c", "d"}
	filerefs := sym.Choose("filerefs", 3)
	for _, c := range ctxs[:2] {
		for _, id := range ids {
			if c != "" {
				src += "msgctxt \"" + c + "\"\n"
			}
			if c == "" && id == "a" {
				src += []string{"", "#: x:1\n", "#: x:1 y:2\n"}[filerefs]
			}
			src += "msgid \"" + id + "\"\nmsgid_plural \"" + id + "s\"\nmsgstr[0] \"f" + c + id + "0\"\nmsgstr[1] \"f" + c + id + "1\"\n\n"
		}
	}
	po.Parse([]byte(src))
	type key struct{ c, id string }
	live := map[key][2]string{}
	old := func(k key) [2]string {
		if v, ok := live[k]; ok {
			return v
		}
		if k.c == "d" || k.id == "n" {
			return [2]string{}
		}
		return [2]string{"f" + k.c + k.id + "0", "f" + k.c + k.id + "1"}
	}
	ids = append(ids, "n")
	refd := map[string]int{"a": filerefs}
	ops := 2 + sym.Tier()
	for i := 0; i < ops; i++ {
		c, id := ctxs[sym.Choose("ctx", 3)], ids[sym.Choose("id", 3)]
		k := key{c, id}
		v := old(k)
		t := "t" + digit(i)
		same := sym.Choose("same", 2) == 1 // the text it has
		switch sym.Choose("op", 3) {
		case 0:
			if same {
				t = v[0]
			}
			v[0] = t
			if c == "" {
				po.Set(id, t)
			} else {
				po.SetC(id, c, t)
			}
		case 1:
			n := int(sym.Uint32("n"))
			f := rules[1].form(n)
			if same {
				t = v[f]
			}
			v[f] = t
			if c == "" {
				po.SetN(id, id+"s", n, t)
			} else {
				po.SetNC(id, id+"s", c, n, t)
			}
		case 2:
			if c != "" {
				return
			}
			r := [][]string{{"x:1"}, {"x:1", "z:3"}, nil}[sym.Choose("refs", 3)]
			po.SetRefs(id, r)
			refd[id] = len(r)
		}
		live[k] = v
	}
	var d interface{ DropStaleTranslations() } = po
	if sym.Choose("via", 2) == 1 {
		d = po.GetDomain()
	}
	d.DropStaleTranslations()
	for _, c := range ctxs {
		for _, id := range ids {
			v, ok := live[key{c, id}]
			pl := "?"
			var g0, g1 string
			var i0, i1 bool
			if c == "" {
				g0, g1 = po.GetN(id, pl, 1), po.GetN(id, pl, 2)
				i0, i1 = po.IsTranslatedN(id, 1), po.IsTranslatedN(id, 2)
			} else {
				g0, g1 = po.GetNC(id, pl, 1, c), po.GetNC(id, pl, 2, c)
				i0, i1 = po.IsTranslatedNC(id, 1, c), po.IsTranslatedNC(id, 2, c)
			}
			sym.Assert(i0 == (ok && v[0] != "") && i1 == (ok && v[1] != ""), "exactly the translations that were set survive")
			if ok && v[0] != "" {
				sym.Assert(g0 == v[0], "a surviving translation keeps its texts")
			} else {
				sym.Assert(g0 == id, "a dropped translation falls back")
			}
			if ok && v[1] != "" {
				sym.Assert(g1 == v[1], "a surviving translation keeps its texts")
			} else if !ok {
				sym.Assert(g1 == pl, "a dropped translation falls back")
			}
			if c == "" {
				_, in := po.GetDomain().GetTranslations()[id]
				sym.Assert(in == ok, "exactly the translations that were set are listed")
				sym.Assert(!ok || len(po.GetRefs(id)) == refd[id], "references survive with their translation")
			} else {
				_, in := po.GetDomain().GetCtxTranslations()[c][id]
				sym.Assert(in == ok, "exactly the translations that were set are listed")
			}
		}
	}
	// Dropping again changes nothing.
	n := len(po.GetDomain().GetTranslations())
	d.DropStaleTranslations()
	sym.Assert(len(po.GetDomain().GetTranslations()) == n, "dropping twice is dropping once")
	sym.Reach("end")
}

// C26_Refs: SetRefs and GetRefs over any history, also through a file.
func C26_Refs() {
	po := gotext.NewPo()
	want := map[string][]string{"a": nil, "b": nil}
	if sym.Choose("file", 2) == 1 {
		r := sym.String("ref", 2)
		for i := 0; i < 2; i++ {
			sym.Assume(sym.And(r[i] > ' ', r[i] < 0x7f))
		}
		po.Parse([]byte(poHeader(rules[1]) + "#: " + r + " y:2\nmsgid \"a\"\nmsgstr \"ta\"\n\nmsgid \"b\"\nmsgstr \"tb\"\n"))
		want["a"] = []string{r, "y:2"}
	} else if sym.Choose("set", 2) == 1 {
		po.Set("a", "ta")
		po.Set("b", "tb")
	}
	translated := po.IsTranslated("a")
	for i := 0; i < 3; i++ {
		id := []string{"a", "b"}[sym.Choose("id", 2)]
		switch sym.Choose("op", 3) {
		case 0:
			refs := []string{"f" + digit(i) + ":1", "g:2"}[:1+sym.Choose("n", 2)]
			po.SetRefs(id, refs)
			want[id] = refs
		case 1:
			po.SetRefs(id, nil)
			want[id] = nil
		case 2:
			po.Set(id, po.Get(id)) // setting a text keeps the references
			if id == "a" {
				translated = true
			}
		}
	}
	for id, w := range want {
		g := po.GetRefs(id)
		sym.Assert(len(g) == len(w), "GetRefs returns the references of the translation")
		for i := range g {
			sym.Assert(g[i] == w[i], "GetRefs returns the references of the translation")
		}
		if tr, ok := po.GetDomain().GetTranslations()[id]; ok {
			sym.Assert(len(tr.Refs) == len(w), "copies carry the references")
		}
	}
	sym.Assert(po.IsTranslated("a") == translated, "setting references does not change whether a text is translated")
	sym.Assert(po.GetRefs("nope") == nil, "an unknown translation has no references")
	sym.Reach("end")
}

// C26_Copies: GetTranslations and GetCtxTranslations list everything, and
// changing what they return does not change the catalogue.
func C26_Copies() {
	po := newPo(rules[1])
	t := sym.String("t", sym.Choose("len", 2))
	po.SetN("a", "as", 1, t)
	po.SetN("a", "as", 2, "p")
	po.SetRefs("a", []string{"x:1"})
	po.Set("b", "tb")
	po.SetNC("a", "cas", "c", 2, t)
	po.SetC("k", "d", "dk")
	lay := sym.Choose("layer", 2)
	var all map[string]*gotext.Translation
	if lay == 0 {
		all = po.GetDomain().GetTranslations()
	} else {
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("one", po)
		other := gotext.NewPo()
		other.Set("o", "to")
		l.AddTranslator("two", other)
		all = l.GetTranslations()
		o := all["o"]
		sym.Assert(o != nil && o.Get() == "to", "the translations of every domain are listed")
		delete(all, "o")
	}
	want := map[string]bool{"a": true, "b": true}
	for id, tr := range all {
		if id == "" && tr.Get() != "x" { // the header entry of a parsed file may be listed
			continue
		}
		sym.Assert(want[id], "only what is in the catalogue is listed")
		delete(want, id)
	}
	sym.Assert(len(want) == 0, "everything in the catalogue is listed")
	a := all["a"]
	sym.Assert(a.ID == "a" && a.PluralID == "as" && len(a.Refs) == 1 && a.Refs[0] == "x:1", "a copy has the ids and the references")
	w := t
	if w == "" {
		w = "a"
	}
	sym.Assert(a.Get() == w && a.GetN(0) == w && a.GetN(1) == "p" && a.GetN(5) == "as", "a copy has the texts")
	sym.Assert(a.IsTranslated() == (t != "") && a.IsTranslatedN(1) && !a.IsTranslatedN(2), "a copy is translated when the original is")
	ctx := po.GetDomain().GetCtxTranslations()
	sym.Assert(len(ctx) == 2 && len(ctx["c"]) == 1 && len(ctx["d"]) == 1, "every context is listed")
	ca := ctx["c"]["a"]
	wc := t
	if wc == "" {
		wc = "cas"
	}
	sym.Assert(ca.ID == "a" && ca.PluralID == "cas" && ca.GetN(1) == wc && ca.Get() == "a", "a copy of a context entry has the ids and the texts")
	sym.Assert(ctx["d"]["k"].Get() == "dk", "a copy of a context entry has the texts")

	// Scribble over the copies.
	a.Set("changed")
	a.SetN(1, "changed")
	a.Refs[0] = "changed"
	a.ID = "changed"
	all["b"].Set("changed")
	delete(all, "b")
	ca.SetN(1, "changed")
	ctx["d"]["k"].Set("changed")
	delete(ctx, "c")
	sym.Assert(po.Get("a") == w && po.GetN("a", "q", 2) == "p" && po.Get("b") == "tb" && po.GetRefs("a")[0] == "x:1", "changing a copy does not change the catalogue")
	sym.Assert(po.GetNC("a", "q", 2, "c") == wc && po.GetC("k", "d") == "dk", "changing a copy does not change the catalogue")
	sym.Reach("end")
}

// C26_Deep: the copies of entries of every shape share nothing with the
// catalogue.
func C26_Deep() {
	shapes := []string{
		"msgid \"a\"\n",
		"msgid \"a\"\nmsgstr \"\"\n",
		"msgid \"a\"\nmsgstr \"T\"\n",
		"msgid \"a\"\nmsgid_plural \"as\"\n",
		"msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"\"\nmsgstr[1] \"T\"\n",
		"#: x:1 y:2\nmsgid \"a\"\nmsgstr \"T\"\n",
		"#: x:1\nmsgid \"a\"\n",
	}
	sh := shapes[sym.Choose("shape", len(shapes))]
	t := sym.String("t", 1)
	sym.Assume(sym.And(t[0] >= '0', t[0] <= 'z'))
	sym.Assume(t[0] != '\\')
	for i := 0; i < len(sh); i++ {
		if sh[i] == 'T' {
			sh = sh[:i] + t + sh[i+1:]
		}
	}
	at := indexFrom(sh, "msgid", 0)
	po := newPo(rules[1])
	po.Parse([]byte(sh + "\n" + sh[:at] + "msgctxt \"c\"\n" + sh[at:]))
	d := po.GetDomain()
	l := gotext.NewLocale("", "xx")
	l.AddTranslator("one", po)
	lists := func() []map[string]*gotext.Translation {
		return []map[string]*gotext.Translation{d.GetTranslations(), l.GetTranslations(), d.GetCtxTranslations()["c"]}
	}
	before, other := lists(), lists()
	text, _ := po.MarshalText()
	for k, m := range other {
		for _, tr := range m {
			switch sym.Choose("how", 3) {
			case 0:
				tr.Trs[0], tr.Trs[1], tr.Trs[7] = "new", "new", "new"
			case 1:
				for i := range tr.Refs {
					tr.Refs[i] = "new:1"
				}
				tr.Refs = append(tr.Refs[:0], "new:2")
			case 2:
				tr.Set("new")
				tr.SetN(1, "new")
			}
		}
		m["n"+digit(k)] = gotext.NewTranslation()
		delete(m, "a")
	}
	after := lists()
	for k := range before {
		sym.Assert(len(before[k]) == len(after[k]), "changing a list does not change the catalogue")
		x, y := before[k]["a"], after[k]["a"]
		sym.Assert(x != nil && y != nil && x != y, "every list has its own copies")
		sym.Assert(x.ID == y.ID && x.PluralID == y.PluralID && len(x.Trs) == len(y.Trs) && len(x.Refs) == len(y.Refs), "changing a copy does not change the catalogue")
		for f, s := range x.Trs {
			sym.Assert(y.Trs[f] == s, "changing a copy does not change the catalogue")
		}
		for i, r := range x.Refs {
			sym.Assert(y.Refs[i] == r, "changing a copy does not change the catalogue")
		}
	}
	again, _ := po.MarshalText()
	sym.Assert(string(again) == string(text), "changing a copy does not change the catalogue")
	sym.Reach("end")
}
