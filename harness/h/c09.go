package h

import (
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// usable checks that a catalogue still works after being given any input: its
// locks are free, lookups return, it can be written, changed and read again.
func usable(po *gotext.Po) {
	v := viewOf("po", po)
	v.get("q")
	v.getN("q", "qs", 3)
	v.getC("q", "c")
	v.getNC("q", "qs", 1, "c")
	v.isNC("q", 1, "c")
	if _, err := po.MarshalText(); err != nil {
		sym.Fail("MarshalText succeeds")
	}
	po.Set("new", "neu")
	sym.Assert(po.Get("new") == "neu", "the catalogue takes new translations")
	po.DropStaleTranslations()
	sym.Assert(po.Get("new") == "neu", "the catalogue keeps what was set")
	po.Parse([]byte("msgid \"zz\"\nmsgstr \"ZZ\"\n"))
	sym.Assert(po.Get("zz") == "ZZ", "the catalogue can be loaded again")
	sym.Reach("usable")
}

// C09_Bytes: any bytes at all.
func C09_Bytes() {
	max := 4
	if sym.Tier() == 1 {
		max = 6
	}
	po := gotext.NewPo()
	po.Parse(sym.Bytes("file", sym.Choose("len", max+1)))
	usable(po)
}

var poLeads = []string{"msgid ", "msgid_plural ", "msgctxt ", "msgstr ", "msgstr[", "msgstr[1", "\"", "#", "msgid\"", "msgstr", "x", ""}

// C09_Lines: any short sequence of damaged lines.
func C09_Lines() {
	n, k := 2, 1
	if sym.Tier() == 1 {
		n, k = 2, 2
	}
	src := ""
	for i := 0; i < n; i++ {
		src += poLeads[sym.Choose("lead", len(poLeads))] + sym.String("rest", k) + []string{"\n", "\"\n"}[sym.Choose("end", 2)]
	}
	po := gotext.NewPo()
	po.Parse([]byte(src))
	usable(po)
}

// C09_Index: any index of a plural form.
func C09_Index() {
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	idx := sym.String("index", 1+sym.Choose("len", k))
	po := gotext.NewPo()
	if k := sym.Choose("forms", 3); k > 0 {
		// the rule of the catalogue has fewer forms, or more
		po.Parse([]byte("msgid \"\"\nmsgstr \"Plural-Forms: " + []string{"", "nplurals=1; plural=0;", "nplurals=3; plural=n==1?0:n==2?1:2;"}[k] + "\\n\"\n\n"))
	}
	po.Parse([]byte("msgid \"a\"\nmsgid_plural \"as\"\nmsgstr[" + idx + "] \"A\"\n\"B\"\nmsgstr[0] \"C\"\n"))
	sym.Assert(po.GetN("a", "as", 1) == "C", "a bad index does not disturb the other forms")
	usable(po)
}

// C09_Truncated: a file cut anywhere, then anything.
func C09_Truncated() {
	src := "# c\nmsgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"Plural-Forms: nplurals=2; plural=n!=1;\\n\"\n\n#: a.go:1\nmsgctxt \"c\"\nmsgid \"i\"\nmsgid_plural \"is\"\nmsgstr[0] \"I\"\nmsgstr[1] \"\"\n\"J\"\n"
	cut := sym.Choose("cut", len(src)+1)
	k := 1
	if sym.Tier() == 1 {
		k = 2
	}
	po := gotext.NewPo()
	po.Parse([]byte(src[:cut] + sym.String("tail", k)))
	usable(po)
}

// C09_Header: any Plural-Forms header.
func C09_Header() {
	k := 2
	if sym.Tier() == 1 {
		k = 3
	}
	h := sym.String("header", k)
	for i := 0; i < k; i++ {
		sym.Assume(sym.And(h[i] != '"', sym.And(h[i] != '\\', h[i] != '\n')))
	}
	pre := []string{"", "nplurals=", "nplurals=2; plural=", "nplurals=2; plural=n", "nplurals=2; plural=(n", "nplurals=2;plural=n%"}[sym.Choose("pre", 6)]
	post := []string{"", ";", " ? 1 : 0;"}[sym.Choose("post", 3)]
	po := gotext.NewPo()
	po.Parse([]byte("msgid \"\"\nmsgstr \"\"\n\"Plural-Forms: " + pre + h + post + "\\n\"\n\nmsgid \"a\"\nmsgid_plural \"as\"\nmsgstr[0] \"A\"\nmsgstr[1] \"B\"\n"))
	n := []int{0, 3}[sym.Choose("n", 2)]
	got := po.GetN("a", "as", n)
	sym.Assert(got != "", "a plural lookup is never blank")
	if pre != "nplurals=2; plural=" && !strings.HasPrefix(pre, "nplurals=2; plural=") {
		sym.Reach("no formula")
	}
	usable(po)
}

// C09_Junk: lines that are no PO syntax are skipped.
func C09_Junk() {
	k := 3
	if sym.Tier() == 1 {
		k = 4
	}
	j := sym.String("junk", k)
	for i := 0; i < k; i++ {
		sym.Assume(sym.And(j[i] != '\n', j[i] != '"'))
		sym.Assume(j[i] < 0x80)
	}
	sym.Assume(j[0] > ' ')
	e := kinds[sym.Choose("kind", 6)]
	w := e.write(sym.Choose("layout", 2), 0, "\n")
	at := []int{}
	for i := 0; i < len(w); i++ {
		if i == 0 || w[i-1] == '\n' {
			at = append(at, i)
		}
	}
	at = append(at, len(w))
	p := at[sym.Choose("at", len(at))]
	po := gotext.NewPo()
	po.Parse([]byte(w[:p] + j + "\n" + w[p:]))
	e.holds(viewOf("po", po), 2-b2i(e.plural == ""))
	usable(po)
}
