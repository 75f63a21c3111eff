package h

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// The harnesses of this file run inputs of a size that others do not reach:
// most of each is fixed, some bytes and the counts are arbitrary.

// sizes gives the number of things of a large input.
func sizes(all ...int) int { return all[sym.Choose("size", len(all)-1+sym.Tier())] }

// C01_Long: formulas with many tests, many results or many parentheses.
func C01_Long() {
	k := sizes(7, 20, 36, 60)
	d := dig("d")
	f := ""
	switch sym.Choose("shape", 6) {
	case 0: // a long disjunction or conjunction
		op := "||"
		if sym.Choose("and", 2) == 1 {
			op = "&&"
		}
		for i := 0; i < k; i++ {
			if i > 0 {
				f += op
			}
			f += []string{"n!=", "n%10!=", "n>", "n<"}[i%4] + strconv.Itoa(i%4/2*50+i%10)
		}
		f += op + "n==" + d
	case 1: // a long chain of conditionals
		for i := 0; i < k; i++ {
			f += "n==" + strconv.Itoa(3*i+1) + " ? " + strconv.Itoa(i) + " : "
		}
		f += d
	case 2: // tests in many parentheses
		f = strings.Repeat("(", k) + "n==" + d + strings.Repeat(")", k) + " ? 1 : 0"
	case 3: // and the whole of it
		f = strings.Repeat("( ", k) + "n>" + d + "||n==0" + strings.Repeat(" )", k)
	case 4: // parentheses nested to the right
		f = "n==0"
		for i := 1; i < k; i++ {
			f = "n==" + strconv.Itoa(2*i) + "||(" + f + ")"
		}
		f += "||n==" + d
	case 5: // many blanks
		f = strings.Repeat(" ", k) + "n" + strings.Repeat(" ", k) + "==" + strings.Repeat(" ", k) + d + strings.Repeat(" ", k)
	}
	checkFormula(f, true)
}

// entryNr is the i-th entry of a large catalogue.
func entryNr(i, ctxs int, mark string) poEntry {
	d := strconv.Itoa(i)
	e := poEntry{id: "i" + d, strs: []string{"o" + mark + d}}
	if i%3 == 1 {
		e.plural, e.strs = "p"+d, []string{"o" + mark + d, "m" + mark + d}
	}
	if ctxs > 0 && i%2 == 1 {
		e.ctx = "c" + strconv.Itoa(i%ctxs)
	}
	return e
}

func largePo(n, ctxs int, mark string) *gotext.Po {
	po := newPo(rules[1])
	for i := 0; i < n; i++ {
		e := entryNr(i, ctxs, mark)
		for f, s := range e.strs {
			switch {
			case e.plural == "" && e.ctx == "":
				po.Set(e.id, s)
			case e.plural == "":
				po.SetC(e.id, e.ctx, s)
			case e.ctx == "":
				po.SetN(e.id, e.plural, 1+f, s)
			default:
				po.SetNC(e.id, e.plural, e.ctx, 1+f, s)
			}
		}
	}
	return po
}

func holdsLarge(v view, n, ctxs int, mark string) {
	for i := 0; i < n; i++ {
		e := entryNr(i, ctxs, mark)
		e.holds(v, len(e.strs))
	}
}

// C03_Large: many entries and contexts keep apart.
func C03_Large() {
	n, ctxs := sizes(12, 70, 300, 1100), []int{0, 2, 70}[sym.Choose("contexts", 3)]
	mark := unescaped("mark")
	po := largePo(n, ctxs, mark)
	k := sym.Choose("again", 2) * (n - 1)
	e := entryNr(k, ctxs, mark)
	switch {
	case e.plural == "" && e.ctx == "":
		po.Set(e.id, "again")
	case e.plural == "":
		po.SetC(e.id, e.ctx, "again")
	case e.ctx == "":
		po.SetN(e.id, e.plural, 1, "again")
	default:
		po.SetNC(e.id, e.plural, e.ctx, 1, "again")
	}
	v := viewOf("po", po)
	for i := 0; i < n; i++ {
		x := entryNr(i, ctxs, mark)
		if i == k {
			x.strs[0] = "again"
		}
		x.holds(v, len(x.strs))
	}
	sym.Reach("end")
}

// C04_Large: rules with many forms.
func C04_Large() {
	forms := sizes(9, 11, 13, 40)
	f := ""
	src := "msgid \"id\"\nmsgid_plural \"ids\"\n"
	hole := sym.Choose("hole", 3) * (forms/2 - 1) // no text for this one
	for i := 0; i < forms; i++ {
		if i < forms-1 {
			f += "n==" + strconv.Itoa(i*7) + " ? " + strconv.Itoa(i) + " : "
		}
		if i != hole {
			src += "msgstr[" + strconv.Itoa(i) + "] \"t" + strconv.Itoa(i) + "\"\n"
		}
	}
	f += strconv.Itoa(forms - 1)
	head := "nplurals=" + strconv.Itoa(forms) + "; plural=" + f + ";"
	po := gotext.NewPo()
	po.Parse([]byte("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: " + head + "\\n\"\n\n" + src))
	v := layer(po, 5*sym.Choose("view", 2))
	n := int(sym.Uint32("n"))
	form, _ := CEval(f, uint32(n))
	got := v.getN("id", "ids", n)
	for i := 0; i < forms; i++ {
		if form == i {
			want := "t" + strconv.Itoa(i)
			if i == hole {
				want = "ids"
				if i == 0 {
					want = "id"
				}
			}
			sym.Assert(got == want, "a lookup returns the form of the rule, or falls back")
			sym.Assert(v.isN("id", n) == (i != hole), "a form without a text is not translated")
		}
	}
	sym.Reach("end")
}

// C05_Large: many arguments and long texts.
func C05_Large() {
	k := sizes(5, 17, 70, 300)
	x := sym.String("x", 1)
	format, want := strings.Repeat("f", 50*k), strings.Repeat("f", 50*k)
	var vars []interface{}
	for i := 0; i < k; i++ {
		format += "%d-%s,"
		vars = append(vars, i, x)
		want += strconv.Itoa(i) + "-" + x + ","
	}
	po := newPo(rules[1])
	po.Set("id", format)
	po.SetNC("id", "ids", "c", 2, format)
	v := chooseView(po)
	sym.Assert(v.get("id", vars...) == want && v.getNC("id", "ids", 2, "c", vars...) == want, "the arguments are formatted as by fmt")
	sym.Assert(v.get(format, vars...) == want && v.get("id") == format, "the arguments are formatted as by fmt, and only when given")
	b := make([]byte, 3*k, 3*k+8)
	copy(b[k:], x)
	out := po.AppendNC(b, "id", "ids", 2, "c", vars...)
	sym.Assert(string(out[:3*k]) == string(b) && string(out[3*k:]) == want, "a long text is appended")
	sym.Reach("end")
}

// C06_Large: appending long texts to long buffers, many times.
func C06_Large() {
	k := sizes(30, 200, 1500, 70000)
	x := unescaped("x")
	text := strings.Repeat("t", k) + x
	po := newPo(rules[1])
	po.Set("id", text)
	po.SetC("id", "c", text)
	po.SetN("pl", "pls", 1, text)
	po.SetNC("pl", "pls", "c", 2, text)
	pre := strings.Repeat("b", sym.Choose("buffer", 2)*k)
	b := append(make([]byte, 0, len(pre)+[]int{0, 5, k, 3 * k}[sym.Choose("room", 4)]), pre...)
	keep := b
	var a appender = po
	if sym.Choose("domain", 2) == 1 {
		a = po.GetDomain()
	}
	b = a.AppendC(a.Append(b, "id"), "id", "c")
	b = a.AppendNC(a.AppendN(b, "pl", "pls", 1), "pl", "pls", 2, "c")
	sym.Assert(string(b) == pre+text+text+text+text && string(keep) == pre, "the result is the buffer followed by what the lookups return")
	sym.Reach("end")
}

// C10_Large: many entries, and entries of any size.
func C10_Large() {
	n := sizes(12, 70, 300, 1100)
	mark := unescaped("mark")
	long := []int{1, 300, 70000}[sym.Choose("long", 3)]
	big := sym.Choose("big", 2) == 1
	ms := []moEntry{moHeader(rules[1])}
	for i := 0; i < n; i++ {
		ms = append(ms, entryNr(i, 5, mark).mo())
	}
	l := poEntry{id: strings.Repeat("l", long) + mark, strs: []string{mark + strings.Repeat("L", long)}}
	ms = append(ms, l.mo(), moEntry{"zz", "last"})
	mo := gotext.NewMo()
	mo.Parse(buildMo(ms, big, 0, false))
	v := viewOf("mo", mo)
	holdsLarge(v, n, 5, mark)
	l.holds(v, 1)
	sym.Assert(v.get("zz") == "last" && mo.Language == "xx", "every string of the file is read")
	sym.Reach("end")
}

// C12_Large: the same from PO and from MO.
func C12_Large() {
	n := sizes(12, 70, 300, 1100)
	mark := unescaped("mark")
	src := poHeader(rules[1])
	ms := []moEntry{moHeader(rules[1])}
	for i := 0; i < n; i++ {
		e := entryNr(i, 5, mark)
		src += e.write(0, 0, "\n") + "\n"
		ms = append(ms, e.mo())
	}
	po, mo := gotext.NewPo(), gotext.NewMo()
	po.Parse([]byte(src))
	mo.Parse(buildMo(ms, false, 0, false))
	sameTr("mo", po.GetDomain().GetTranslations(), mo.GetDomain().GetTranslations())
	sameCtx("mo", po.GetDomain().GetCtxTranslations(), mo.GetDomain().GetCtxTranslations())
	sym.Reach("end")
}

// C13_Large: a large catalogue with long texts, many headers and references.
func C13_Large() {
	n := sizes(12, 40, 150, 600)
	mark := unescaped("mark")
	src := "msgid \"\"\nmsgstr \"\"\n"
	for i := 0; i < n; i++ {
		src += "\"X-H" + strconv.Itoa(i) + ": v" + strconv.Itoa(i) + strings.Repeat("w", i) + "\\n\"\n"
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	e := largePo(n, 7, mark)
	// The entries one by one, on top of the headers.
	b, _ := e.MarshalText()
	po.Parse(b)
	long := strings.Repeat("word ", n) + mark + "\n" + strings.Repeat("x", 40*n)
	po.Set("long", long)
	po.SetN(long, "longs"+long, 1, "l"+long)
	var refs []string
	for i := 0; i < n; i++ {
		refs = append(refs, "dir/f"+strconv.Itoa(i%10)+".go:"+strconv.Itoa(n-i))
	}
	po.SetRefs("long", refs)
	back := reparse(po.GetDomain())
	v := viewOf("copy", back)
	holdsLarge(v, n, 7, mark)
	sym.Assert(v.get("long") == long && v.getN(long, "longs"+long, 1) == "l"+long, "long texts survive writing and reading")
	got := back.GetRefs("long")
	sym.Assert(len(got) == n, "references survive writing and reading")
	for i := range refs {
		found := false
		for _, r := range got {
			found = found || r == refs[i]
		}
		sym.Assert(found, "references survive writing and reading")
	}
	sym.Assert(len(back.Headers) == len(po.Headers), "headers survive writing and reading")
	for k := range po.Headers {
		sym.Assert(back.Headers.Get(k) == po.Headers.Get(k), "headers survive writing and reading")
	}
	t1, _ := po.MarshalText()
	t2, _ := back.MarshalText()
	sym.Assert(string(t1) == string(t2), "writing, reading and writing gives the same file")
	sym.Reach("end")
}

// C14_Large: many entries in the order of their references, lines, contexts
// and ids.
func C14_Large() {
	n := sizes(14, 30, 60, 200)
	kind := sym.Choose("kind", 4)
	perm := func(i int) int { return (i*7 + 3) % n }
	if n%7 == 0 {
		perm = func(i int) int { return (i*5 + 3) % n }
	}
	key := func(i int) (ref, ctx, id string) {
		d := strconv.Itoa(1000 + i)
		switch kind {
		case 0: // the same place: by id
			return "f.go:5", "", "i" + d
		case 1: // by context
			return "f.go:5", "c" + d, "i"
		case 2: // by line, as a number
			return "f.go:" + strconv.Itoa(i+1), "", "z" + strconv.Itoa(2000-i)
		default: // by file
			return "d" + strconv.Itoa(100+i/4) + ".go:" + strconv.Itoa(9+i%4), "", "z" + strconv.Itoa(2000-i)
		}
	}
	write := func(order func(int) int) string {
		src := "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n"
		for i := 0; i < n; i++ {
			ref, ctx, id := key(order(i))
			src += "#: " + ref + "\n"
			if ctx != "" {
				src += "msgctxt \"" + ctx + "\"\n"
			}
			src += "msgid \"" + id + "\"\nmsgstr \"t\"\n\n"
		}
		return src
	}
	po := gotext.NewPo()
	po.Parse([]byte(write(perm)))
	got, err := po.MarshalText()
	at := 0
	for i := 0; i < n; i++ {
		_, ctx, id := key(i)
		w := "\nmsgid \"" + id + "\"\n"
		if ctx != "" {
			w = "\nmsgctxt \"" + ctx + "\"" + w
		}
		k := strings.Index(string(got[at:]), w)
		sym.Assert(err == nil && k >= 0, "entries are ordered by reference, context and id")
		at += k + 1
	}
	po = gotext.NewPo()
	po.Parse([]byte(write(func(i int) int { return i })))
	again, _ := po.MarshalText()
	sym.Assert(string(again) == string(got), "the text depends only on the content")
	sym.Reach("end")
}

// C15_Large: a large catalogue in a binary round trip.
func C15_Large() {
	n := sizes(12, 70, 300, 1100)
	mark := unescaped("mark")
	po := largePo(n, 7, mark)
	long := strings.Repeat("x", 300*n) + mark
	po.Set("long", long)
	var refs []string
	for i := 0; i < n; i++ {
		refs = append(refs, "f.go:"+strconv.Itoa(i))
	}
	po.SetRefs("i0", refs)
	b, err := po.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	q := gotext.NewPo()
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	v := viewOf("copy", q)
	holdsLarge(v, n, 7, mark)
	sym.Assert(v.get("long") == long, "long texts survive a binary round trip")
	got := q.GetRefs("i0")
	sym.Assert(len(got) == n && got[0] == refs[0] && got[n-1] == refs[n-1], "references survive a binary round trip")
	sym.Reach("end")
}

// C16_Large: a locale with many domains.
func C16_Large() {
	n := sizes(5, 17, 40, 150)
	mark := unescaped("mark")
	l := gotext.NewLocale("p", "xx")
	for i := 0; i < n; i++ {
		l.AddTranslator("d"+strconv.Itoa(i), domained(mark+strconv.Itoa(i)))
	}
	def := sym.Choose("default", 2) * (n - 1)
	if def > 0 {
		l.SetDomain("d" + strconv.Itoa(def))
	}
	b, err := l.MarshalBinary()
	sym.Assert(err == nil, "MarshalBinary succeeds")
	q := gotext.NewLocale("", "")
	sym.Assert(q.UnmarshalBinary(b) == nil, "UnmarshalBinary succeeds")
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		sym.Assert(q.GetD("d"+d, "id") == mark+d && q.GetNDC("d"+d, "pl", "pls", 2, "c") == mark+d+"c1", "every domain survives a binary round trip")
	}
	sym.Assert(q.Get("id") == mark+strconv.Itoa(def), "the default domain survives a binary round trip")
	sym.Reach("end")
}

// C20_Large: a locale with many domains routes every lookup to its own.
func C20_Large() {
	n := sizes(5, 17, 40, 150)
	mark := unescaped("mark")
	l := gotext.NewLocale("p", "xx")
	for i := 0; i < n; i++ {
		l.AddTranslator("d"+strconv.Itoa(i), domained(mark+strconv.Itoa(i)))
	}
	for i := 0; i < n; i++ {
		d := strconv.Itoa(i)
		sym.Assert(l.GetD("d"+d, "id") == mark+d && l.GetNDC("d"+d, "pl", "pls", 2, "c") == mark+d+"c1" && l.IsTranslatedD("d"+d, "only"+mark+d), "a lookup is answered by the domain asked for")
	}
	sym.Assert(l.Get("id") == mark+"0" && l.GetDomain() == "d0", "the default domain is the first added")
	sym.Reach("end")
}

// C21_Large: many languages are tried in their order.
func C21_Large() {
	n := sizes(5, 17, 40, 150)
	mark := unescaped("mark")
	has := []int{0, n / 2, n - 1, n}[sym.Choose("has", 4)]
	files := sym.Choose("files", 2) == 1
	var ls []*gotext.Locale
	langs := ""
	for i := 0; i < n; i++ {
		name := "l" + string(rune('a'+i/26)) + string(rune('a'+i%26))
		src := "msgid \"\"\nmsgstr \"\"\n\nmsgid \"other\"\nmsgstr \"o\"\n"
		if i >= has {
			src += "\nmsgid \"id\"\nmsgstr \"" + mark + strconv.Itoa(i) + "\"\n"
			src += "\nmsgctxt \"c\"\nmsgid \"id\"\nmsgid_plural \"ids\"\nmsgstr[0] \"" + mark + strconv.Itoa(i) + "\"\n"
		}
		if files {
			sym.VfsPut(sym.VfsRoot()+"/"+name+"/LC_MESSAGES/d.po", src)
			if i > 0 {
				langs += ":"
			}
			langs += name
		} else {
			po := gotext.NewPo()
			po.Parse([]byte(src))
			l := gotext.NewLocale("", name)
			l.AddTranslator("d", po)
			ls = append(ls, l)
		}
	}
	if files {
		gotext.Configure(sym.VfsRoot(), langs, "d")
	} else {
		gotext.SetLocales(ls)
	}
	want := "id"
	if has < n {
		want = mark + strconv.Itoa(has)
	}
	sym.Observe("got", gotext.Get("id"))
	sym.Assert(gotext.Get("id") == want && gotext.GetNC("id", "ids", 1, "c") == want && gotext.GetD("d", "id") == want, "the first language with a translation answers")
	sym.Assert(gotext.IsTranslated("id") == (has < n), "IsTranslated asks the languages too")
	sym.Reach("end")
}

// C23_Large: long names.
func C23_Large() {
	k := sizes(20, 100, 1000, 5000)
	x, y := plain("x"), plain("y")
	sym.Assume(sym.And(sym.And(x != ":", x != "@"), sym.And(y != ":", y != "@")))
	base := x + strings.Repeat("b", k) + y
	pad := strings.Repeat(" \t", k)
	tail := []string{"", ".", "@", ":"}[sym.Choose("sep", 4)]
	if tail != "" {
		tail += strings.Repeat("t.", k)
	}
	sym.Assert(gotext.SimplifiedLocale(pad+base+pad+tail) == base, "SimplifiedLocale keeps the language and country")
	sym.Assert(gotext.SimplifiedLocale(pad+base+tail+pad) == base, "SimplifiedLocale keeps the language and country")
	sym.Reach("end")
}

// C24_Large: many headers with long values, and one repeated often.
func C24_Large() {
	n := sizes(5, 40, 150, 600)
	mark := unescaped("mark")
	var lines []string
	for i := 0; i < n; i++ {
		lines = append(lines, "X-"+strconv.Itoa(i)+": "+mark+strings.Repeat("v", 10*i)+"e", "X-Many: m"+strconv.Itoa(i))
	}
	lines = append(lines, "Language: yy", "Plural-Forms: nplurals=2; plural=(n > 1);")
	tr := headered(sym.Choose("mo", 2) == 1, lines)
	h := tr.GetDomain().Headers
	for i := 0; i < n; i++ {
		sym.Assert(h.Get("X-"+strconv.Itoa(i)) == mark+strings.Repeat("v", 10*i)+"e", "a header is found under its name with its value")
		sym.Assert(len(h.Values("X-Many")) == n && h.Values("X-Many")[i] == "m"+strconv.Itoa(i), "a repeated header keeps all its values in order")
	}
	sym.Assert(len(h) == n+3 && tr.GetDomain().Language == "yy" && tr.GetN("x", "xs", 0) == "x", "the special headers are found after many others")
	sym.Reach("end")
}

// C25_Large: formats with many named verbs.
func C25_Large() {
	n := sizes(8, 20, 70, 300)
	x := sym.String("x", 1)
	params := map[string]interface{}{}
	format, want := "", ""
	for i := 0; i < n; i++ {
		nm := "p" + strings.Repeat("_", i%40) + strconv.Itoa(i)
		params[nm] = x + strconv.Itoa(i)
		format += "%(" + nm + ")s" + "%%" + "%(p0)5v"
		want += x + strconv.Itoa(i) + "%" + fmt.Sprintf("%5v", params["p0"])
	}
	sym.Assert(gotext.Sprintf(format, params) == want, "every named verb prints its own parameter and the rest is kept")
	sym.Reach("end")
}

// C26_Large: many stale and live translations.
func C26_Large() {
	n := sizes(12, 70, 300, 1100)
	mark := unescaped("mark")
	step := []int{1, 2, 5, n}[sym.Choose("live", 4)]
	src := poHeader(rules[1])
	for i := 0; i < n; i++ {
		src += entryNr(i, 5, mark).write(0, 0, "\n") + "\n"
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	live := 0
	for i := 0; i < n; i += step {
		e := entryNr(i, 5, mark)
		if e.ctx == "" {
			po.SetN(e.id, e.plural, 1, "new")
		} else {
			po.SetNC(e.id, e.plural, e.ctx, 1, "new")
		}
		live++
	}
	po.DropStaleTranslations()
	v := viewOf("po", po)
	for i := 0; i < n; i++ {
		e := entryNr(i, 5, mark)
		is := v.is(e.id)
		if e.ctx != "" {
			is = v.isC(e.id, e.ctx)
		}
		sym.Assert(is == (i%step == 0), "dropping stale translations keeps exactly those a setter touched")
	}
	c := len(po.GetDomain().GetTranslations())
	for _, m := range po.GetDomain().GetCtxTranslations() {
		c += len(m)
	}
	sym.Assert(c == live || c == live+1, "stale translations are removed")
	sym.Reach("end")
}

// C02_Long: long broken formulas.
func C02_Long() {
	k := sizes(7, 20, 36, 60)
	x := sym.String("x", 1)
	f := ""
	switch sym.Choose("shape", 7) {
	case 0:
		f = strings.Repeat("(", k) + x + "n" + strings.Repeat(")", k-1)
	case 1:
		f = "n" + strings.Repeat("==1||n", k) + x
	case 2:
		f = strings.Repeat("n==1?", k) + x
	case 3:
		f = "n==1" + strings.Repeat("?0:1", k) + x
	case 4:
		f = strings.Repeat("!", k) + x
	case 5:
		f = strings.Repeat("n%0 ", k) + x
	case 6:
		f = strings.Repeat("(n", k) + x + strings.Repeat(")?0:1", k)
	}
	totality(f)
}

// C09_Large: a long piece of anything between entries.
func C09_Large() {
	k := sizes(40, 1000, 5000, 70000)
	x := sym.String("x", 2)
	junk := ""
	switch sym.Choose("junk", 6) {
	case 0:
		junk = strings.Repeat("?", k) + x
	case 1:
		junk = "\"" + strings.Repeat("\\", k) + x
	case 2:
		junk = strings.Repeat("\n", k) + x
	case 3:
		junk = "msgid \"" + strings.Repeat("q", k) + x
	case 4:
		junk = "msgstr[" + strings.Repeat("9", k) + "] " + x
	case 5:
		junk = strings.Repeat("\"\n", k/2) + x
	}
	for i := range x {
		sym.Assume(x[i] != '\n')
	}
	po := gotext.NewPo()
	po.Parse([]byte("msgid \"\"\nmsgstr \"\"\n\nmsgid \"a\"\nmsgstr \"A\"\n\n" + junk + "\n\nmsgid \"b\"\nmsgstr \"B\"\n"))
	sym.Assert(po.Get("b") == "B", "the entries after a broken part are read")
	sym.Reach("end")
}
