package h

import (
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// ---- a reference writer of PO files ----

// poText is arbitrary text in the bound of the PO properties: n characters,
// each any ASCII byte but NUL.
func poText(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < len(s); i++ {
		sym.Assume(sym.And(s[i] >= 1, s[i] < 0x80))
	}
	return s
}

// esc writes text between quotes.  style 0 escapes only what must be, style 1
// writes every control character as an escape sequence, style 2 in octal.
func esc(s string, style int) string {
	out := ""
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			out += "\\\""
		case c == '\\':
			out += "\\\\"
		case c == '\n':
			out += "\\n"
		case style == 0:
			out += s[i : i+1]
		case c == '\t':
			out += "\\t"
		case c == '\r':
			out += "\\r"
		case c == 7:
			out += "\\a"
		case c == 8:
			out += "\\b"
		case c == 11:
			out += "\\v"
		case c == 12:
			out += "\\f"
		case c < ' ':
			out += "\\0" + string(rune('0'+c>>3&7)) + string(rune('0'+c&7))
		default:
			out += s[i : i+1]
		}
	}
	return out
}

// field writes a keyword and its text in one of the layouts PO files use.
func field(kw, text string, layout, style int, nl string) string {
	switch layout {
	case 0: // on one line
		return kw + " \"" + esc(text, style) + "\"" + nl
	case 1: // empty first line, then the text
		return kw + " \"\"" + nl + "\"" + esc(text, style) + "\"" + nl
	case 2: // one line per character
		out := kw + " \"\"" + nl
		for i := 0; i < len(text); i++ {
			out += "\"" + esc(text[i:i+1], style) + "\"" + nl
		}
		return out
	case 3: // continued after the first character
		if len(text) == 0 {
			return kw + " \"\"" + nl
		}
		return kw + " \"" + esc(text[:1], style) + "\"" + nl + "\"" + esc(text[1:], style) + "\"" + nl
	case 6: // no space between keyword and text
		return kw + "\"" + esc(text, style) + "\"" + nl
	case 5: // lines indented and ended by any white space
		return "\f" + kw + " \"\"" + "\v" + nl + "\t\v\"" + esc(text, style) + "\" \f" + nl
	default: // odd spacing
		return "  " + kw + "\t \"" + esc(text, style) + "\" " + nl
	}
}

type poEntry struct {
	ctx, id, plural string
	strs            []string
}

func (e poEntry) write(layout, style int, nl string) string {
	out := ""
	if e.ctx != "" {
		out += field("msgctxt", e.ctx, layout, style, nl)
	}
	out += field("msgid", e.id, layout, style, nl)
	if e.plural == "" {
		return out + field("msgstr", e.strs[0], layout, style, nl)
	}
	out += field("msgid_plural", e.plural, layout, style, nl)
	for i, s := range e.strs {
		out += field("msgstr["+digit(i)+"]", s, layout, style, nl)
	}
	return out
}

// holds asserts that a catalogue answers what the entry says.
func (e poEntry) holds(v view, forms int) {
	for f := 0; f < forms; f++ {
		n := []int{1, 2}[f]
		want := ""
		if f < len(e.strs) {
			want = e.strs[f]
		}
		if want == "" {
			want = e.id
			if f > 0 {
				want = e.plural
			}
		}
		var got string
		if e.plural == "" {
			if e.ctx == "" {
				got = v.get(e.id)
			} else {
				got = v.getC(e.id, e.ctx)
			}
		} else if e.ctx == "" {
			got = v.getN(e.id, e.plural, n)
		} else {
			got = v.getNC(e.id, e.plural, n, e.ctx)
		}
		sym.Observe("text", got)
		sym.Assert(got == want, "every entry of a well-formed PO file is returned exactly as written")
	}
}

// C08_Text: any text in any field, in any layout.
func C08_Text() {
	e := poEntry{ctx: "", id: "id", plural: "", strs: []string{"tr"}}
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	text := poText("text", k)
	switch sym.Choose("field", 5) {
	case 0:
		e.strs[0] = text
	case 1:
		e.id = text
	case 2:
		e.ctx = text
	case 3:
		e.plural = text
		e.strs = []string{"one", "two"}
	case 4:
		e.plural = "ids"
		e.strs = []string{"one", text}
	}
	src := e.write(sym.Choose("layout", 6), sym.Choose("style", 2), []string{"\n", "\r\n"}[sym.Choose("nl", 2)])
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e.holds(viewOf("po", po), 2-b2i(e.plural == ""))
	sym.Reach("end")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C08_End: every layout of a line, the last one of the file ended in any way.
func C08_End() {
	t := poText("t", 1)
	e := poEntry{id: "a" + t, strs: []string{t + "A"}}
	if sym.Choose("ctx", 2) == 1 {
		e.ctx = t + "c"
	}
	if sym.Choose("plural", 2) == 1 {
		e.plural = t + "p"
		e.strs = append(e.strs, "B"+t)
	}
	layout := []int{0, 1, 4, 5, 6}[sym.Choose("layout", 5)]
	nl := []string{"\n", "\r\n"}[sym.Choose("nl", 2)]
	src := ""
	if sym.Choose("before", 2) == 1 {
		src = "msgid \"\"\nmsgstr \"\"\n\nmsgctxt \"z\"\nmsgid \"z\"\nmsgstr \"Z\"\n\n"
	}
	src += e.write(layout, 0, nl)
	src = src[:len(src)-len(nl)] + []string{"", nl, nl + nl, " ", "\t" + nl, nl + "  ", nl + "#", nl + "#~ msgid \"a\""}[sym.Choose("end", 8)]
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e.holds(viewOf("po", po), 2-b2i(e.plural == ""))
	e.whole(po.GetDomain(), nil, "the last entry of a file is read whatever ends the file")
	sym.Reach("end")
}

// C08_Unicode: text outside ASCII, raw and in escapes.
func C08_Unicode() {
	text := []string{"é", "日本", "😀x", "ß\u00a0", "\u2028", "\ufeff", "a\u0301"}[sym.Choose("text", 7)] + poText("t", 1)
	e := poEntry{ctx: text, id: text + "i", plural: text + "p", strs: []string{text + "0", text + "1"}}
	src := e.write([]int{0, 1, 5}[sym.Choose("layout", 3)], 0, "\n")
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e.holds(viewOf("po", po), 2)
	sym.Reach("end")
}

var kinds = []poEntry{
	{"", "a", "", []string{"A"}},
	{"", "a", "as", []string{"A0", "A1"}},
	{"x", "a", "", []string{"XA"}},
	{"x", "a", "as", []string{"XA0", "XA1"}},
	{"", "b", "", []string{"B"}},
	{"y", "b", "bs", []string{"YB0", "YB1"}},
	{"", "u", "", []string{""}},
	{"y", "u", "us", []string{"", ""}},
}

func sameKey(a, b poEntry) bool { return a.ctx == b.ctx && a.id == b.id }

// C08_Structure: several entries with arbitrary comments around them.
func C08_Structure() {
	nl := []string{"\n", "\r\n"}[sym.Choose("nl", 2)]
	layout := []int{0, 1, 2, 3, 5}[sym.Choose("layout", 5)]
	// A comment line with arbitrary content.
	c := sym.String("comment", 2)
	for i := 0; i < len(c); i++ {
		sym.Assume(c[i] != '\n')
	}
	comment := "#" + c + nl
	if layout == 5 {
		comment = "\f " + comment
	}
	a, b := kinds[sym.Choose("a", len(kinds))], kinds[sym.Choose("b", len(kinds))]
	sym.Assume(!sameKey(a, b))
	src := ""
	if sym.Choose("header", 2) == 1 {
		src = "# head" + nl + "msgid \"\"" + nl + "msgstr \"\"" + nl + "\"Language: xx\\n\"" + nl + nl
	}
	switch sym.Choose("where", 3) {
	case 0:
		src += comment + a.write(layout, 0, nl) + nl + b.write(layout, 0, nl)
	case 1:
		src += a.write(layout, 0, nl) + comment + b.write(layout, 0, nl)
	case 2:
		src += a.write(layout, 0, nl) + nl + nl + comment + comment + nl + b.write(layout, 0, nl) + nl + comment
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	v := viewOf("po", po)
	a.holds(v, 2-b2i(a.plural == ""))
	b.holds(v, 2-b2i(b.plural == ""))
	// Nothing else appeared.
	sym.Assert(v.get("other") == "other" && v.getC("other", "x") == "other", "an id that is not in the file is returned as it is")
	for _, e := range []poEntry{a, b} {
		twin := poEntry{"z", e.id, "", nil}
		sym.Assert(v.getC(twin.id, "z") == twin.id, "an entry belongs to its own context only")
		if e.ctx != "" && !(a.ctx == "" && a.id == e.id) && !(b.ctx == "" && b.id == e.id) {
			sym.Assert(v.get(e.id) == e.id, "an entry with a context is not found without it")
		}
		if e.ctx == "" {
			for _, ctx := range []string{"x", "y"} {
				if !(a.ctx == ctx && a.id == e.id) && !(b.ctx == ctx && b.id == e.id) {
					sym.Assert(v.getC(e.id, ctx) == e.id, "an entry without a context is not found in one")
				}
			}
		}
	}
	n := 0
	for id := range po.GetDomain().GetTranslations() {
		if id != "" {
			n++
		}
	}
	for _, es := range po.GetDomain().GetCtxTranslations() {
		n += len(es)
	}
	sym.Assert(n == 2, "the catalogue holds the entries of the file and no others")
	sym.Reach("end")
}

// C08_Obsolete: obsolete and previous-id lines are comments.
func C08_Obsolete() {
	k := kinds[sym.Choose("k", 4)]
	pre := []string{"#~ ", "#| ", "#~| ", "#, fuzzy\n#~ ", "#. "}[sym.Choose("pre", 5)]
	body := ""
	line := ""
	for i, w := 0, (poEntry{k.ctx, "old", k.plural, k.strs}).write(sym.Choose("layout", 4), 0, "\n"); i < len(w); i++ {
		line += w[i : i+1]
		if w[i] == '\n' {
			body += pre + line
			line = ""
		}
	}
	src := ""
	switch sym.Choose("where", 3) {
	case 0:
		src = "msgid \"\"\nmsgstr \"\"\n\n" + body + "\n" + k.write(0, 0, "\n")
	case 1:
		src = "msgid \"\"\nmsgstr \"\"\n\n" + body + k.write(0, 0, "\n")
	case 2:
		src = k.write(0, 0, "\n") + "\n" + body
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	v := viewOf("po", po)
	k.holds(v, 2-b2i(k.plural == ""))
	sym.Assert(!v.is("old") && !v.isC("old", "x"), "obsolete entries are not translations")
	sym.Reach("end")
}

// C08_Many: entries keep their texts whatever stands before and after them.
func C08_Many() {
	n := 3
	if sym.Tier() == 1 {
		n = 4
	}
	var es []poEntry
	src := ""
	layout := sym.Choose("layout", 2)
	for i := 0; i < n; i++ {
		e := kinds[sym.Choose("kind", 4)]
		// Distinct ids, one of them arbitrary.
		id := digit(i)
		if i == 1 {
			id = unescaped("id")
			for j := 0; j < n; j++ {
				sym.Assume(id != digit(j))
			}
		}
		t := unescaped("t")
		strs := make([]string, len(e.strs))
		for f := range strs {
			strs[f] = t + digit(f)
		}
		e = poEntry{e.ctx, id, e.plural, strs}
		es = append(es, e)
		src += e.write(layout, 0, "\n") + []string{"", "\n"}[sym.Choose("sep", 2)]
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	v := viewOf("po", po)
	for _, e := range es {
		e.holds(v, 2-b2i(e.plural == ""))
	}
	sym.Reach("end")
}

// C08_Comments: comments of any kind around the references of an entry.
func C08_Comments() {
	nl := []string{"\n", "\r\n"}[sym.Choose("nl", 2)]
	c := sym.String("comment", 2)
	for i := 0; i < len(c); i++ {
		sym.Assume(c[i] != '\n')
	}
	sym.Assume(c[0] != ':')
	tail := []string{"", "msgid \"old\"", "x.go:9", ", fuzzy"}[sym.Choose("tail", 4)]
	comment := "#" + c + tail + nl
	k, other := kinds[sym.Choose("k", 4)], poEntry{"", "z", "", []string{"Z"}}
	src := ""
	if sym.Choose("header", 2) == 1 {
		src = "msgid \"\"" + nl + "msgstr \"\"" + nl + "\"Language: xx\\n\"" + nl + nl
	} else {
		src = other.write(0, 0, nl)
	}
	switch sym.Choose("where", 4) {
	case 0:
		src += comment + "#: a.go:1 b.go:2" + nl + k.write(0, 0, nl)
	case 1:
		src += "#: a.go:1 b.go:2" + nl + comment + k.write(0, 0, nl)
	case 2:
		src += "#: a.go:1" + nl + comment + "#: b.go:2" + nl + k.write(0, 0, nl)
	case 3:
		src += "#: a.go:1" + nl + "#: b.go:2" + nl + k.write(0, 0, nl) + comment + nl + "#: c.go:3" + nl + poEntry{"", "y", "", []string{"Y"}}.write(0, 0, nl)
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	k.holds(viewOf("po", po), 2-b2i(k.plural == ""))
	var refs []string
	if k.ctx == "" {
		refs = po.GetRefs(k.id)
	} else if t := po.GetDomain().GetCtxTranslations()[k.ctx][k.id]; t != nil {
		refs = t.Refs
	}
	sym.ObserveInt("refs", len(refs))
	sym.Assert(len(refs) == 2 && refs[0] == "a.go:1" && refs[1] == "b.go:2", "the references of an entry are read, in order, whatever comments stand around them")
	sym.Reach("end")
}

// C08_Forms: an entry may have any plural forms, in any order.
func C08_Forms() {
	idx := func() (string, int) {
		s := sym.String("i", 1+sym.Choose("digits", 2))
		n := 0
		for j := 0; j < len(s); j++ {
			sym.Assume(sym.And(s[j] >= '0', s[j] <= '9'))
			n = n*10 + int(s[j]-'0')
		}
		return s, n
	}
	s1, n1 := idx()
	s2, n2 := idx()
	sym.Assume(n1 != n2)
	ctx := sym.Choose("ctx", 2)
	src := "msgid \"\"\nmsgstr \"\"\n\n"
	if ctx == 1 {
		src += "msgctxt \"c\"\n"
	}
	src += "msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[" + s1 + "] \"first\"\n"
	more, third := "", 0
	switch sym.Choose("cont", 4) {
	case 1:
		src += "msgstr[" + s2 + "] \"\"\n\"sec\"\n\"ond\"\n"
	case 2: // a third form, the second continued
		s3, n3 := idx()
		sym.Assume(sym.And(n3 != n1, n3 != n2))
		src += "msgstr[" + s2 + "] \"sec\"\n\"ond\"\nmsgstr[" + s3 + "] \"th\"\n\"ird\"\n"
		more, third = "third", n3
	case 3: // a third form, no form continued
		s3, n3 := idx()
		sym.Assume(sym.And(n3 != n1, n3 != n2))
		src += "msgstr[" + s3 + "] \"third\"\nmsgstr[" + s2 + "] \"second\"\n"
		more, third = "third", n3
	default:
		src += "msgstr[" + s2 + "] \"second\"\n"
	}
	po := gotext.NewPo()
	po.SetPluralResolver(func(n int) int { return n })
	po.Parse([]byte(src))
	get := func(n int) string {
		if ctx == 1 {
			return po.GetNC("a", "as", n, "c")
		}
		return po.GetN("a", "as", n)
	}
	sym.Observe("first", get(n1))
	sym.Assert(get(n1) == "first" && get(n2) == "second", "every plural form is read under its index")
	n3 := int(sym.Byte("n3"))
	sym.Assume(sym.And(n3 != n1, n3 != n2))
	if more != "" {
		sym.Assert(get(third) == more, "every plural form is read under its index")
		sym.Assume(n3 != third)
	}
	sym.Assert(get(n3) == map[bool]string{true: "a", false: "as"}[n3 == 0], "a form that is not in the file falls back")
	sym.Reach("end")
}

// unescaped is one character that needs no escape.
func unescaped(name string) string {
	s := sym.String(name, 1)
	sym.Assume(sym.And(sym.And(s[0] > ' ', s[0] < 0x7f), sym.And(s[0] != '"', s[0] != '\\')))
	return s
}

// C08_Long: however long a text and its line.
func C08_Long() {
	l := []int{60, 1100, 5000, 70000}[sym.Choose("len", 4)]
	text := unescaped("a") + strings.Repeat("x", l/2) + unescaped("b") + strings.Repeat("y", l-l/2) + unescaped("c")
	kw := sym.Choose("where", 4)
	broken := sym.Choose("broken", 2) == 1
	e := poEntry{id: "id", strs: []string{"tr"}}
	put := func(k string, at int, short string) string {
		if at != kw {
			return k + " \"" + short + "\"\n"
		}
		if !broken {
			return k + " \"" + text + "\"\n"
		}
		return k + " \"\"\n\"" + text[:l/3] + "\"\n\"" + text[l/3:] + "\"\n"
	}
	out := "msgid \"\"\nmsgstr \"\"\n\n#. " + strings.Repeat("z", l) + "\n"
	switch kw {
	case 0:
		e.id = text
	case 1:
		e.strs[0] = text
	case 2:
		e.ctx = text
		out += put("msgctxt", 2, "")
	default:
		e.plural = text
	}
	out += put("msgid", 0, "id")
	if kw == 3 {
		out += put("msgid_plural", 3, "") + "msgstr[0] \"tr\"\n"
	} else {
		out += put("msgstr", 1, "tr")
	}
	po := gotext.NewPo()
	po.Parse([]byte(out + "\nmsgid \"after\"\nmsgstr \"A\"\n"))
	v := viewOf("po", po)
	if kw == 3 {
		e.holds(v, 2)
	} else {
		e.holds(v, 1)
	}
	sym.Assert(v.get("after") == "A", "the entry after a long one is read")
	sym.Reach("end")
}

// C08_Large: however many entries, and however many forms one of them has.
func C08_Large() {
	n := []int{12, 70, 300, 1100}[sym.Choose("count", 3+sym.Tier())]
	mark := unescaped("mark")
	kind := sym.Choose("kind", 3)
	out := "msgid \"\"\nmsgstr \"\"\n\n"
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		switch kind {
		case 1:
			out += "msgctxt \"c" + d + "\"\n"
		case 2:
			out += "msgctxt \"c" + d[:1] + "\"\n"
		}
		out += "msgid \"i" + d + "\"\n"
		if i%3 == 1 {
			out += "msgid_plural \"p" + d + "\"\nmsgstr[0] \"o" + mark + d + "\"\nmsgstr[1] \"m" + mark + d + "\"\n\n"
		} else {
			out += "msgstr \"o" + mark + d + "\"\n\n"
		}
	}
	po := gotext.NewPo()
	po.Parse([]byte(out))
	v := viewOf("po", po)
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		ctx := []string{"", "c" + d, "c" + d[:1]}[kind]
		e := poEntry{ctx: ctx, id: "i" + d, strs: []string{"o" + mark + d}}
		if i%3 == 1 {
			e.plural, e.strs = "p"+d, []string{"o" + mark + d, "m" + mark + d}
		}
		e.holds(v, len(e.strs))
	}
	sym.Reach("end")
}

// C08_LargeEntry: however many reference lines, pieces of text or forms an
// entry has.
func C08_LargeEntry() {
	n := []int{9, 33, 70, 300, 1100}[sym.Choose("count", 4+sym.Tier())]
	mark := unescaped("mark")
	what := sym.Choose("what", 4)
	per := 1 + sym.Choose("per", 2)*9
	ctx := []string{"", "c"}[sym.Choose("ctx", 2)]
	out := "msgid \"\"\nmsgstr \"\"\n\n"
	var refs []string
	if what == 0 {
		for i := 0; i < n; i++ {
			if i%per == 0 {
				out += "\n#:"
			}
			refs = append(refs, "f"+mark+".go:"+strconv.Itoa(i))
			out += " " + refs[i]
		}
		out += "\n"
	} else {
		out += "#: a.go:1\n"
		refs = []string{"a.go:1"}
	}
	pieces := func(k, s string) (string, string) {
		if what != 1 && what != 2 {
			return k + " \"" + s + "\"\n", s
		}
		o, t := k+" \"\"\n", ""
		for i := 0; i < n; i++ {
			o += "\"" + s + strconv.Itoa(i) + "\"\n"
			t += s + strconv.Itoa(i)
		}
		return o, t
	}
	e := poEntry{ctx: ctx}
	if ctx != "" {
		out += "msgctxt \"" + ctx + "\"\n"
	}
	o, s := "msgid \"a\"\n", "a"
	if what == 1 {
		o, s = pieces("msgid", "i"+mark)
	}
	out += o
	e.id = s
	if what == 3 {
		out += "msgid_plural \"as\"\n"
		for i := 0; i < n; i++ {
			out += "msgstr[" + strconv.Itoa(i) + "] \"t" + mark + strconv.Itoa(i) + "\"\n"
		}
	} else {
		o, s = pieces("msgstr", "t"+mark)
		out += o
		e.strs = []string{s}
	}
	po := gotext.NewPo()
	if what == 3 {
		po.SetPluralResolver(func(n int) int { return n })
	}
	po.Parse([]byte(out + "\nmsgid \"after\"\nmsgstr \"A\"\n"))
	if what == 3 {
		for _, i := range []int{0, 1, n / 2, n - 1} {
			got := ""
			if ctx != "" {
				got = po.GetNC("a", "as", i, ctx)
			} else {
				got = po.GetN("a", "as", i)
			}
			sym.Assert(got == "t"+mark+strconv.Itoa(i), "every form of a long entry is read")
		}
	} else {
		e.holds(viewOf("po", po), 1)
	}
	var got []string
	if ctx == "" {
		got = po.GetRefs(e.id)
	} else if t := po.GetDomain().GetCtxTranslations()[ctx][e.id]; t != nil {
		got = t.Refs
	}
	sym.ObserveInt("refs", len(got))
	same := len(got) == len(refs)
	for i := 0; same && i < len(refs); i++ {
		same = got[i] == refs[i]
	}
	sym.Assert(same, "every reference of a long entry is read, in order")
	sym.Assert(po.Get("after") == "A", "the entry after a long one is read")
	sym.Reach("end")
}
