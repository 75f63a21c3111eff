package h

import (
	"github.com/leonelquinteros/gotext/plurals"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

func totality(f string) {
	e, err := plurals.Compile(f)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	sym.Assert(e != nil, "Compile returns an expression or an error")
	n := sym.Uint32("n")
	r := e.Eval(n)
	sym.ObserveInt("r", r)
	sym.Assert(r >= 0, "Eval returns a plural form index")
	sym.Reach("accepted")
}

// C02_Bytes: every byte string of the bounded length.
func C02_Bytes() {
	max := 3
	if sym.Tier() == 1 {
		max = 4
	}
	totality(sym.String("f", sym.Choose("len", max+1)))
}

// C02_Tokens: every string over the characters of the formula language.
func C02_Tokens() {
	max := 4
	if sym.Tier() == 1 {
		max = 6
	}
	s := sym.String("f", 3+sym.Choose("len", max-2))
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok := sym.Or(sym.And(c >= '(', c <= ')'), sym.Or(c == '0', c == '1'))
		ok = sym.Or(ok, sym.Or(c == 'n', c == '%'))
		ok = sym.Or(ok, sym.Or(sym.And(c >= '<', c <= '?'), c == ':'))
		ok = sym.Or(ok, sym.Or(sym.Or(c == '&', c == '|'), sym.Or(c == ' ', c == '!')))
		sym.Assume(ok)
	}
	totality(s)
}

// C02_Ternary: a conditional whose three parts are arbitrary short strings.
func C02_Ternary() {
	k := 1
	if sym.Tier() == 1 {
		k = 2
	}
	p := func(nm string, lead string) string {
		return lead + sym.String(nm, sym.Choose(nm+".len", k+1))
	}
	switch sym.Choose("shape", 5) {
	case 0:
		totality("n==1?" + p("a", "") + ":" + p("b", ""))
	case 1:
		totality(p("a", "n") + "?0:1")
	case 2:
		totality("n%" + p("a", "") + "==1")
	case 3:
		totality("n==1||" + p("a", "n") + "?0:n>2&&" + p("b", "n") + "?1:2")
	case 4:
		totality("(n==1" + p("a", "") + "(n==2" + p("b", "") + ")")
	}
}

// C02_Numbers: numbers of any size, wherever a number may stand.
func C02_Numbers() {
	ln := []int{1, 2, 9, 10, 11, 18, 19, 20, 21, 40}[sym.Choose("len", 10)]
	num := ""
	rest := []string{"0", "9"}[sym.Choose("rest", 2)]
	for i := 0; i < ln; i++ {
		if i < 2 || i == ln-1 {
			d := sym.String("d", 1)
			sym.Assume(sym.And(d[0] >= '0', d[0] <= '9'))
			num += d
		} else {
			num += rest
		}
	}
	switch sym.Choose("where", 7) {
	case 0:
		totality("n==1?" + num + ":0")
	case 1:
		totality("n==1?0:" + num)
	case 2:
		totality("n==" + num)
	case 3:
		totality(num + "<n?0:1")
	case 4:
		totality("n%" + num + "==1?0:1")
	case 5:
		totality("n%10>" + num + "?0:1")
	case 6:
		totality(num)
	}
}

// C02_Powers: numbers next to the limits of the integer types.
func C02_Powers() {
	c := around("c")
	totality([]string{"n==" + c, "n%" + c + "==1", "n%" + c, "n==1 ? " + c + " : 0", c + "<=n ? 0 : 1", "n%" + c + ">1 && n%" + c + "<4 ? 1 : 0"}[sym.Choose("where", 6)])
}
