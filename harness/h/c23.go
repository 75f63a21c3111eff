package h

import (
	"strings"

	"github.com/leonelquinteros/gotext"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// C23_Simplified: the encoding, the modifier and further languages are cut off
// and the space around is removed, nothing else.
func C23_Simplified() {
	max := 4
	if sym.Tier() == 1 {
		max = 6
	}
	s := sym.String("lang", sym.Choose("len", max+1))
	end := len(s)
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ':' || s[i] == '@' || s[i] == '.' {
			end = i
		}
	}
	want := strings.TrimSpace(s[:end])
	got := gotext.SimplifiedLocale(s)
	sym.Observe("got", got)
	sym.Assert(got == want, "SimplifiedLocale keeps the language and country")
	sym.Assert(gotext.SimplifiedLocale(got) == got, "a simple locale stays as it is")
	sym.Assert(gotext.NewLocale("p", s).GetLanguage() == want, "a locale has the simple form of its language")
	sym.Reach("end")
}

// C23_Real: real locale names with any suffix.
func C23_Real() {
	base := []string{"en", "en_US", "zh_CN", "fil_PH", "zh-Hant-TW", "el_GR"}[sym.Choose("base", 6)]
	tail := sym.String("tail", 3)
	sep := []string{".", "@", ":"}[sym.Choose("sep", 3)]
	pad := []string{"", " ", "\t"}[sym.Choose("pad", 3)]
	sym.Assert(gotext.SimplifiedLocale(pad+base+sep+tail) == base, "SimplifiedLocale keeps the language and country")
	sym.Assert(gotext.SimplifiedLocale(pad+base+pad) == base, "SimplifiedLocale keeps the language and country")
	sym.Reach("end")
}

// C23_Shape: a name of letters, digits, underscores and hyphens stays as it is,
// whatever it looks like.
func C23_Shape() {
	n := sym.Choose("len", 9+4*sym.Tier())
	s := sym.String("name", n)
	for i := 0; i < n; i++ {
		c := s[i]
		sym.Assume(sym.Or(sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')), sym.Or(sym.And(c >= '0', c <= '9'), sym.Or(c == '_', c == '-'))))
	}
	tail := []string{"", ".UTF-8", "@euro", ":de", " "}[sym.Choose("tail", 5)]
	got := gotext.SimplifiedLocale(s + tail)
	sym.Observe("got", got)
	sym.Assert(got == s, "SimplifiedLocale keeps the language and country")
	sym.Reach("end")
}
