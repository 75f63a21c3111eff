package h

import (
	"fmt"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// lookup performs one of the four kinds of lookup for id, in context "c" and
// with count n where those apply.
func (v view) lookup(kind int, id, plural string, n int, vars ...interface{}) string {
	switch kind {
	case 0:
		return v.get(id, vars...)
	case 1:
		return v.getN(id, plural, n, vars...)
	case 2:
		return v.getC(id, "c", vars...)
	default:
		return v.getNC(id, plural, n, "c", vars...)
	}
}

// store puts text where a lookup of that kind with count n finds it.
func store(st setters, kind int, id, plural string, n int, text string) {
	switch kind {
	case 0:
		st.Set(id, text)
	case 1:
		st.SetN(id, plural, n, text)
	case 2:
		st.SetC(id, "c", text)
	default:
		st.SetNC(id, plural, "c", n, text)
	}
}

// C05_Verbatim: without arguments the text comes back byte for byte.
func C05_Verbatim() {
	po := gotext.NewPo()
	kind := sym.Choose("kind", 4)
	k := 4
	if sym.Tier() == 1 {
		k = 6
	}
	text := sym.String("text", k)
	n := 1 + sym.Choose("n", 2)
	v := chooseView(po)
	var none []interface{}
	if sym.Choose("list", 2) == 1 { // a list of no arguments
		none = []interface{}{}
	}
	switch sym.Choose("where", 3) {
	case 0: // a translation
		store(po, kind, "id", "ids", n, text)
		got := v.lookup(kind, "id", "ids", n, none...)
		sym.Observe("got", got)
		sym.Assert(got == text, v.name+": a lookup without arguments returns the translation unchanged")
	case 1: // an untranslated id
		id, pl := text, text+"s"
		want := id
		if n != 1 && (kind == 1 || kind == 3) {
			want = pl
		}
		got := v.lookup(kind, id, pl, n, none...)
		sym.Observe("got", got)
		sym.Assert(got == want, v.name+": a lookup without arguments returns the untranslated text unchanged")
	case 2: // a domain or context that does not exist
		id, pl := text, text+"s"
		want := id
		if n != 1 && (kind == 1 || kind == 3) {
			want = pl
		}
		l := gotext.NewLocale("", "xx")
		var got string
		switch kind {
		case 0:
			got = l.GetD("none", id, none...)
		case 1:
			got = l.GetND("none", id, pl, n, none...)
		case 2:
			got = l.GetDC("none", id, "c", none...)
		case 3:
			got = l.GetNDC("none", id, pl, n, "c", none...)
		}
		sym.Assert(got == want, "a lookup in a missing domain returns the untranslated text unchanged")
	}
	sym.Reach("end")
}

func fmtText(name string, n int) string { return sym.String(name, n) }

// C05_Args: with arguments the text is a fmt format.
func C05_Args() {
	po := gotext.NewPo()
	kind := sym.Choose("kind", 4)
	k := 2
	if sym.Tier() == 1 {
		k = 4
	}
	text := "<" + fmtText("text", k) + "%s"
	n := 1 + sym.Choose("n", 2)
	arg := sym.String("arg", 1)
	v := layer(po, []int{0, 2, 5}[sym.Choose("view", 3)])
	id, pl := "id", "ids"
	if sym.Choose("where", 2) == 0 {
		store(po, kind, "id", "ids", n, text)
	} else {
		id, pl = text, text+"s"
		if n != 1 && (kind == 1 || kind == 3) {
			id, pl = "x", text
		}
	}
	want := fmt.Sprintf(text, arg, 7)
	got := v.lookup(kind, id, pl, n, arg, 7)
	sym.Observe("got", got)
	sym.Assert(got == want, v.name+": a lookup with arguments formats the text with them")
	sym.Reach("end")
}

// C05_Missing: formatting in a domain that is not loaded.
func C05_Missing() {
	kind := sym.Choose("kind", 4)
	text := sym.String("text", 1) + "%[2]d" + sym.String("tail", 1)
	arg := sym.String("arg", 1)
	n := 1 + sym.Choose("n", 2)
	id, pl := text, "x"
	if n != 1 && (kind == 1 || kind == 3) {
		id, pl = "x", text
	}
	l := gotext.NewLocale("", "xx")
	var got string
	switch kind {
	case 0:
		got = l.GetD("none", id, arg, 7)
	case 1:
		got = l.GetND("none", id, pl, n, arg, 7)
	case 2:
		got = l.GetDC("none", id, "c", arg, 7)
	case 3:
		got = l.GetNDC("none", id, pl, n, "c", arg, 7)
	}
	sym.Assert(got == fmt.Sprintf(text, arg, 7), "a lookup in a missing domain formats the untranslated text")
	sym.Reach("end")
}

// C05_Helpers: the exported formatting helpers follow the same rule.
func C05_Helpers() {
	text := fmtText("text", 3)
	arg := sym.String("arg", 1)
	sym.Assert(gotext.FormatString(text) == text, "FormatString without arguments returns the text")
	pre := []byte(sym.String("pre", 1))
	sym.Assert(string(gotext.Appendf(pre, text)) == string(pre)+text, "Appendf without arguments appends the text")
	empty := []interface{}{}
	sym.Assert(gotext.FormatString(text, empty...) == text && string(gotext.Appendf(pre, text, empty...)) == string(pre)+text, "an empty list of arguments is none")
	sym.Assert(gotext.FormatStringWithArgs(text, nil) == fmt.Sprintf(text), "FormatStringWithArgs formats with fmt")
	want := fmt.Sprintf(text, arg)
	sym.Assert(gotext.FormatString(text, arg) == want, "FormatString formats with fmt")
	sym.Assert(gotext.FormatStringWithArgs(text, []interface{}{arg}) == want, "FormatStringWithArgs formats with fmt")
	sym.Assert(string(gotext.Appendf(pre, text, arg)) == string(pre)+want, "Appendf appends what FormatString returns")
	sym.Reach("end")
}

// argLists are lists of arguments, also fewer and more than a text has verbs
// for.
func argLists(k int) []interface{} {
	switch k {
	case 0:
		return []interface{}{nil}
	case 1:
		return []interface{}{"%s"}
	case 2:
		return []interface{}{-7, nil}
	case 3:
		return []interface{}{sym.String("arg", 1), true, 7}
	case 4:
		return []interface{}{"", []byte("x")}
	case 5: // one argument that is itself a list
		return []interface{}{[]interface{}{1, "x"}}
	case 6:
		return []interface{}{[]interface{}{sym.String("arg", 1)}}
	case 7:
		return []interface{}{[]string{"a", "b"}, map[string]int{"k": 2, "j": 1}}
	default:
		return []interface{}{pairOf{1, sym.String("arg", 1)}, &pairOf{2, "b"}, fmt.Errorf("e%d", 3)}
	}
}

type pairOf struct {
	N int
	s string
}

// C05_Kinds: arguments of any number and kind for texts with and without verbs.
func C05_Kinds() {
	var text string
	switch sym.Choose("text", 6) {
	case 4:
		text = "%T %+v"
	case 5:
		text = "%q|%#v"
	case 0:
		text = sym.String("plain", 2)
		sym.Assume(sym.And(text[0] != '%', text[1] != '%'))
	case 1:
		text = "%v"
	case 2:
		text = sym.String("plain", 1) + "%[2]v%%"
		sym.Assume(text[0] != '%')
	case 3:
		text = "%d%s"
	}
	args := argLists(sym.Choose("args", 9))
	want := fmt.Sprintf(text, args...)
	kind := sym.Choose("kind", 4)
	n := 1 + sym.Choose("n", 2)
	var got string
	k := sym.Choose("view", nViews+2)
	switch {
	case k < nViews:
		po := gotext.NewPo()
		store(po, kind, "id", "ids", n, text)
		got = layer(po, k).lookup(kind, "id", "ids", n, args...)
	case k == nViews:
		got = layer(gotext.NewPo(), 0).lookup(kind, text, text, n, args...)
	default:
		got = missing(gotext.NewLocale("", "xx"), kind, text, text, n, args...)
	}
	sym.Observe("got", got)
	sym.Assert(got == want, "a lookup with arguments formats the text with them")
	sym.Reach("end")
}

// missing looks up a text in a domain that is not loaded.
func missing(l *gotext.Locale, kind int, id, pl string, n int, args ...interface{}) string {
	switch kind {
	case 0:
		return l.GetD("none", id, args...)
	case 1:
		return l.GetND("none", id, pl, n, args...)
	case 2:
		return l.GetDC("none", id, "c", args...)
	default:
		return l.GetNDC("none", id, pl, n, "c", args...)
	}
}
