package h

import (
	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// view is one way of looking up the translations of a catalogue: the catalogue
// itself, a locale holding it, the package functions configured with it.
type view struct {
	name  string
	get   func(id string, vars ...interface{}) string
	getN  func(id, pl string, n int, vars ...interface{}) string
	getC  func(id, ctx string, vars ...interface{}) string
	getNC func(id, pl string, n int, ctx string, vars ...interface{}) string
	is    func(id string) bool
	isN   func(id string, n int) bool
	isC   func(id, ctx string) bool
	isNC  func(id string, n int, ctx string) bool
}

type lookups interface {
	Get(str string, vars ...interface{}) string
	GetN(str, plural string, n int, vars ...interface{}) string
	GetC(str, ctx string, vars ...interface{}) string
	GetNC(str, plural string, n int, ctx string, vars ...interface{}) string
	IsTranslated(str string) bool
	IsTranslatedN(str string, n int) bool
	IsTranslatedC(str, ctx string) bool
	IsTranslatedNC(str string, n int, ctx string) bool
}

func viewOf(name string, l lookups) view {
	return view{name, l.Get, l.GetN, l.GetC, l.GetNC, l.IsTranslated, l.IsTranslatedN, l.IsTranslatedC, l.IsTranslatedNC}
}

const nViews = 6

// chooseView wraps a catalogue in one of the layers of the library.
func chooseView(tr gotext.Translator) view {
	return layer(tr, sym.Choose("view", nViews))
}

func layer(tr gotext.Translator, k int) view {
	switch k {
	case 0:
		return viewOf("catalogue", tr.(lookups))
	case 1:
		return viewOf("domain", tr.GetDomain())
	case 2:
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("dom", tr)
		return viewOf("locale", l)
	case 3:
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("other", gotext.NewPo())
		l.AddTranslator("dom", tr)
		return view{"locale domain",
			func(id string, vars ...interface{}) string { return l.GetD("dom", id, vars...) },
			func(id, pl string, n int, vars ...interface{}) string { return l.GetND("dom", id, pl, n, vars...) },
			func(id, ctx string, vars ...interface{}) string { return l.GetDC("dom", id, ctx, vars...) },
			func(id, pl string, n int, ctx string, vars ...interface{}) string {
				return l.GetNDC("dom", id, pl, n, ctx, vars...)
			},
			func(id string) bool { return l.IsTranslatedD("dom", id) },
			func(id string, n int) bool { return l.IsTranslatedND("dom", id, n) },
			func(id, ctx string) bool { return l.IsTranslatedDC("dom", id, ctx) },
			func(id string, n int, ctx string) bool { return l.IsTranslatedNDC("dom", id, n, ctx) },
		}
	case 4:
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("dom", tr)
		gotext.SetLocales([]*gotext.Locale{l})
		return view{"package",
			gotext.Get, gotext.GetN, gotext.GetC, gotext.GetNC,
			func(id string) bool { return gotext.IsTranslated(id) },
			func(id string, n int) bool { return gotext.IsTranslatedN(id, n) },
			func(id, ctx string) bool { return gotext.IsTranslatedC(id, ctx) },
			func(id string, n int, ctx string) bool { return gotext.IsTranslatedNC(id, n, ctx) },
		}
	default:
		l := gotext.NewLocale("", "xx")
		l.AddTranslator("other", gotext.NewPo())
		l.AddTranslator("dom", tr)
		gotext.SetLocales([]*gotext.Locale{l})
		return view{"package domain",
			func(id string, vars ...interface{}) string { return gotext.GetD("dom", id, vars...) },
			func(id, pl string, n int, vars ...interface{}) string { return gotext.GetND("dom", id, pl, n, vars...) },
			func(id, ctx string, vars ...interface{}) string { return gotext.GetDC("dom", id, ctx, vars...) },
			func(id, pl string, n int, ctx string, vars ...interface{}) string {
				return gotext.GetNDC("dom", id, pl, n, ctx, vars...)
			},
			func(id string) bool { return gotext.IsTranslatedD("dom", id) },
			func(id string, n int) bool { return gotext.IsTranslatedND("dom", id, n) },
			func(id, ctx string) bool { return gotext.IsTranslatedDC("dom", id, ctx) },
			func(id string, n int, ctx string) bool { return gotext.IsTranslatedNDC("dom", id, n, ctx) },
		}
	}
}

// rule is a plural rule together with what it means.
type rule struct {
	header string
	form   func(n int) int
	forms  int
}

// count is any count the rule is defined for.
func (r rule) count(name string) int {
	if r.header == "" {
		return sym.Int(name)
	}
	return int(sym.Uint32(name))
}

var rules = []rule{
	{"", func(n int) int { // no header: Germanic
		if n == 1 {
			return 0
		}
		return 1
	}, 2},
	{"nplurals=2; plural=(n > 1);", func(n int) int {
		if uint32(n) > 1 {
			return 1
		}
		return 0
	}, 2},
	{"nplurals=3; plural=(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2);", func(n int) int {
		u := uint32(n)
		if u%10 == 1 && u%100 != 11 {
			return 0
		}
		if u != 0 {
			return 1
		}
		return 2
	}, 3},
	{"nplurals=1; plural=0;", func(n int) int { return 0 }, 1},
	{"nplurals=3; plural=n==0 ? 0 : n==1 ? 1 : 2;", func(n int) int {
		if uint32(n) == 0 {
			return 0
		}
		if uint32(n) == 1 {
			return 1
		}
		return 2
	}, 3},
	{"nplurals=6; plural=n==0?0:n==1?1:n==2?2:n<7?3:n<99?4:5;", func(n int) int {
		u := uint32(n)
		switch {
		case u < 3:
			return int(u)
		case u < 7:
			return 3
		case u < 99:
			return 4
		}
		return 5
	}, 6},
}

func poHeader(r rule) string {
	if r.header == "" {
		return "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\n"
	}
	return "msgid \"\"\nmsgstr \"\"\n\"Language: xx\\n\"\n\"Plural-Forms: " + r.header + "\\n\"\n\n"
}

func newPo(r rule) *gotext.Po {
	po := gotext.NewPo()
	if r.header != "" {
		po.Parse([]byte(poHeader(r)))
	}
	return po
}

// moEntry is one string pair of an MO file, as msgfmt writes it.
type moEntry struct{ id, str string }

func put32(b []byte, at int, v uint32, big bool) {
	for i := 0; i < 4; i++ {
		sh := uint(8 * i)
		if big {
			sh = uint(24 - 8*i)
		}
		b[at+i] = byte(v >> sh)
	}
}

// buildMo lays out an MO file.  gap bytes separate the parts; swap puts the
// translation table and strings before the original ones.
func buildMo(es []moEntry, big bool, gap int, swap bool) []byte {
	n := len(es)
	t1 := 28 + gap
	t2 := t1 + 8*n + gap
	if swap {
		t1, t2 = t2, t1
	}
	pos := 28 + gap + 8*n + gap + 8*n + gap
	b := make([]byte, pos)
	put32(b, 0, 0x950412de, big)
	put32(b, 8, uint32(n), big)
	put32(b, 12, uint32(t1), big)
	put32(b, 16, uint32(t2), big)
	put32(b, 24, uint32(pos), big)
	for pass := 0; pass < 2; pass++ {
		ids := (pass == 0) != swap
		for i, e := range es {
			s, t := e.id, t1
			if !ids {
				s, t = e.str, t2
			}
			put32(b, t+8*i, uint32(len(s)), big)
			put32(b, t+8*i+4, uint32(len(b)), big)
			b = append(b, s...)
			b = append(b, 0)
		}
	}
	return b
}

func moHeader(r rule) moEntry {
	if r.header == "" {
		return moEntry{"", "Language: xx\n"}
	}
	return moEntry{"", "Language: xx\nPlural-Forms: " + r.header + "\n"}
}
