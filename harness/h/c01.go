package h

import (
	"strings"

	"github.com/leonelquinteros/gotext/plurals"
	"github.com/leonelquinteros/gotext/zzverif/sym"
)

// ---- reference evaluator: C expressions over n (unsigned) ----

type cParser struct {
	s   string
	pos int
	n   uint32
	bad bool
	alt bool // read a test "n % m" as gotext does, see checkFormula
}

func (p *cParser) ws() {
	for p.pos < len(p.s) && p.s[p.pos] == ' ' {
		p.pos++
	}
}

func (p *cParser) op(o string) bool {
	p.ws()
	if len(p.s)-p.pos < len(o) || p.s[p.pos:p.pos+len(o)] != o {
		return false
	}
	// '<' must not swallow '<='
	if (o == "<" || o == ">") && p.pos+1 < len(p.s) && p.s[p.pos+1] == '=' {
		return false
	}
	p.pos += len(o)
	return true
}

// cval is a C value: an unsigned number, or the 0/1 result of a test.
type cval struct {
	isBool bool
	b      bool
	v      uint32
	mod    bool // it is a modulus, which is a test for zero in the other reading
}

func (v cval) truth() bool {
	if v.mod {
		return v.v == 0
	}
	if v.isBool {
		return v.b
	}
	return v.v != 0
}

func (v cval) num() uint32 {
	if v.isBool {
		if v.b {
			return 1
		}
		return 0
	}
	return v.v
}

func boolv(b bool) cval { return cval{isBool: true, b: b} }

func (p *cParser) ternary() cval {
	c := p.or()
	if !p.op("?") {
		return c
	}
	a := p.ternary()
	if !p.op(":") {
		p.bad = true
		return a
	}
	b := p.ternary()
	if c.truth() {
		return a
	}
	return b
}

func (p *cParser) or() cval {
	v := p.and()
	for p.op("||") {
		w := p.and()
		v = boolv(sym.Or(v.truth(), w.truth()))
	}
	return v
}

func (p *cParser) and() cval {
	v := p.eq()
	for p.op("&&") {
		w := p.eq()
		v = boolv(sym.And(v.truth(), w.truth()))
	}
	return v
}

func (p *cParser) eq() cval {
	v := p.rel()
	for {
		switch {
		case p.op("=="):
			v = boolv(v.num() == p.rel().num())
		case p.op("!="):
			v = boolv(v.num() != p.rel().num())
		default:
			return v
		}
	}
}

func (p *cParser) rel() cval {
	v := p.mul()
	for {
		switch {
		case p.op("<="):
			v = boolv(v.num() <= p.mul().num())
		case p.op(">="):
			v = boolv(v.num() >= p.mul().num())
		case p.op("<"):
			v = boolv(v.num() < p.mul().num())
		case p.op(">"):
			v = boolv(v.num() > p.mul().num())
		default:
			return v
		}
	}
}

func (p *cParser) mul() cval {
	v := p.prim()
	for p.op("%") {
		w := p.prim().num()
		if w == 0 {
			p.bad = true
			return v
		}
		v = cval{v: v.num() % w, mod: p.alt}
	}
	return v
}

func (p *cParser) prim() cval {
	p.ws()
	if p.op("(") {
		v := p.ternary()
		if !p.op(")") {
			p.bad = true
		}
		return v
	}
	if p.op("n") {
		return cval{v: p.n}
	}
	if p.pos >= len(p.s) || p.s[p.pos] < '0' || p.s[p.pos] > '9' {
		p.bad = true
		return cval{}
	}
	k := uint32(0)
	for p.pos < len(p.s) && p.s[p.pos] >= '0' && p.s[p.pos] <= '9' {
		k = k*10 + uint32(p.s[p.pos]-'0')
		p.pos++
	}
	return cval{v: k}
}

// CEval evaluates formula at n as C does; ok is false for malformed input.
func CEval(formula string, n uint32) (r int, ok bool) {
	p := &cParser{s: formula, n: n}
	v := p.ternary()
	p.ws()
	return int(v.num()), !p.bad && p.pos == len(p.s)
}

// asTest evaluates a formula as gotext does where it departs from C: a modulus
// or n itself, which C reads as a number, is a test, and the modulus is one for
// zero (the existing tests have it so).
func asTest(formula string, n uint32) int {
	p := &cParser{s: formula, n: n, alt: true}
	v := p.ternary()
	if !v.isBool && !strings.Contains(formula, "?") && strings.Contains(formula, "n") {
		v = boolv(v.truth())
	}
	return int(v.num())
}

func checkFormula(f string, mustCompile bool) {
	n := sym.Uint32("n")
	e, err := plurals.Compile(f)
	if err != nil {
		sym.Assert(!mustCompile, "a well-formed plural formula is accepted")
		sym.Reach("rejected")
		return
	}
	sym.Assert(e != nil, "Compile returns an expression when it reports no error")
	got := e.Eval(n)
	want, ok := CEval(f, n)
	if !ok {
		sym.Reach("not-C")
		return
	}
	sym.ObserveInt("r", got)
	if got != want && got == asTest(f, n) {
		sym.Note("known:number-as-test")
	}
	sym.Assert(got == want, "a plural formula evaluates as in C")
	sym.Reach("end")
}

// C01_Real: the formulas of the gettext manual and of common catalogues.
var realFormulas = []string{
	"0", "n != 1", "n>1", "(n > 1)", "(n != 1)", " 0 ", "(0)", "n==1 ? 0 : 1", "(n==1)||(n==2)", "n ? 1 : 0", "n%10==1",
	"n==1 ? 0 : n==2 ? 1 : 2",
	"n==1 ? 0 : (n==0 || (n%100 > 0 && n%100 < 20)) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"(n%10==1 && n%100!=11 ? 0 : n%10>=2 && n%10<=4 && (n%100<12 || n%100>14) ? 1 : 2)",
	"(n==1) ? 0 : (n>=2 && n<=4) ? 1 : 2",
	"n==1 ? 0 : n%10>=2 && n%10<=4 && (n%100<10 || n%100>=20) ? 1 : 2",
	"n%100==1 ? 0 : n%100==2 ? 1 : n%100==3 || n%100==4 ? 2 : 3",
	"n==0 ? 0 : n==1 ? 1 : n==2 ? 2 : n%100>=3 && n%100<=10 ? 3 : n%100>=11 ? 4 : 5",
	"(n==1 ? 0 : n==2 ? 1 : n<7 ? 2 : n<11 ? 3 : 4)",
	"(n==1 || n==11) ? 0 : (n==2 || n==12) ? 1 : (n > 2 && n < 20) ? 2 : 3",
	"n==1 ? 0 : n==0 || ( n%100>1 && n%100<11) ? 1 : (n%100>10 && n%100<20 ) ? 2 : 3",
	"(n%10==1 && n%100!=11 ? 0 : n != 0 ? 1 : 2)",
	"(n == 0 || n == 1) ? 0 : n != 0 && n % 1000000 == 0 ? 1 : 2",
	"n==1 || n%10==1 ? 0 : 1",
	"(n%10==1 && n%100!=11 && n%100!=71 && n%100!=91 ? 0 : n%10==2 && n%100!=12 ? 1 : (n%10==3 || n%10==4 || n%10==9) ? 2 : n != 0 && n%1000000==0 ? 3 : 4)",
	"(n==1) ? 0 : (n==2 ? 1 : 2)",
	"((n==1) ? (0) : ((n==2) ? (1) : (2)))",
	"n<=1 ? 0 : n<5 ? 1 : n<100 ? 2 : 3",
	"(n < 2) ? 0 : 1",
	"1 < n ? 1 : 0",
	"n > 4294967294 ? 1 : 0",
	"n==4294967295",
}

func C01_Real() {
	checkFormula(realFormulas[sym.Choose("formula", len(realFormulas))], true)
}

var cmpOps = []string{"==", "!=", "<", ">", "<=", ">="}

// digits returns a decimal constant: one or two arbitrary digits, or one of
// the constants found in the code under test.
func constant(name string) string {
	k := sym.Choose(name+".kind", 3)
	switch k {
	case 0:
		d := sym.String(name+".d", 1)
		sym.Assume(sym.And(d[0] >= '0', d[0] <= '9'))
		return d
	case 1:
		d := sym.String(name+".dd", 2)
		sym.Assume(sym.And(d[0] >= '1', d[0] <= '9'))
		sym.Assume(sym.And(d[1] >= '0', d[1] <= '9'))
		return d
	}
	return []string{"100", "101", "1000", "65536", "4294967295"}[sym.Choose(name+".big", 5)]
}

// C01_Atoms: every comparison n OP c, n%m OP c and their mirror images.
func C01_Atoms() {
	lhs := "n"
	if m := sym.Choose("mod", 9); m > 0 {
		lhs = "n%" + []string{"1", "2", "3", "7", "10", "100", "1000", "1000000"}[m-1]
	}
	op := cmpOps[sym.Choose("op", len(cmpOps))]
	sp := []string{"", " "}[sym.Choose("sp", 2)]
	c := constant("c")
	f := lhs + sp + op + sp + c
	if sym.Choose("flip", 2) == 1 {
		f = c + sp + op + sp + lhs
	}
	checkFormula(f, true)
}

// around is a number next to a power of two, where a narrower type would wrap.
func around(name string) string {
	v := uint64(1) << []uint{7, 8, 15, 16, 17, 24, 31, 32}[sym.Choose(name+".bits", 8)]
	v += uint64(sym.Choose(name+".delta", 3)) - 1
	out := ""
	for ; v > 0; v /= 10 {
		out = digit(int(v%10)) + out
	}
	return out
}

// C01_Powers: constants, moduli and results next to the limits of the integer
// types; what does not fit in 32 bits may be rejected.
func C01_Powers() {
	c := around("c")
	op := cmpOps[sym.Choose("op", len(cmpOps))]
	f := ""
	switch sym.Choose("where", 4) {
	case 0:
		f = "n " + op + " " + c
	case 1:
		f = "n%" + c + op + "1"
	case 2:
		f = "n%1000000000" + op + c + " ? 0 : 1"
	case 3:
		f = c + op + "n ? 0 : 1"
	}
	checkFormula(f, len(c) < 10)
}

func atom(name string, wide bool) string {
	i := sym.Choose(name, 4)
	switch i {
	case 0:
		return "n==" + dig(name)
	case 1:
		return "n%10>=" + dig(name)
	case 2:
		return "n!=" + dig(name)
	}
	return "n%100<1" + dig(name)
}

func dig(name string) string {
	d := sym.String(name+".d", 1)
	sym.Assume(sym.And(d[0] >= '0', d[0] <= '9'))
	return d
}

// C01_Logic: all ways to combine up to three tests with && and ||, with and
// without parentheses.
func C01_Logic() {
	a, b := atom("a", true), atom("b", true)
	o1 := []string{"&&", "||"}[sym.Choose("o1", 2)]
	var f string
	switch sym.Choose("shape", 7) {
	case 0:
		f = a + o1 + b
	case 1:
		f = "(" + a + ")" + o1 + "(" + b + ")"
	case 2:
		f = "((" + a + " " + o1 + " " + b + "))"
	default:
		c := dig("c")
		o2 := []string{"&&", "||"}[sym.Choose("o2", 2)]
		switch sym.Choose("shape3", 4) {
		case 0:
			f = a + o1 + b + o2 + "n<" + c
		case 1:
			f = "(" + a + o1 + b + ")" + o2 + "n<" + c
		case 2:
			f = a + o1 + "(" + b + o2 + "n<" + c + ")"
		case 3:
			f = "(" + a + ")" + o1 + "(" + b + o2 + "(n<" + c + "))"
		}
	}
	checkFormula(f, true)
}

// C01_Ternary: chains of conditionals with arbitrary thresholds and results.
func C01_Ternary() {
	a, b, c := dig("a"), dig("b"), dig("c")
	r0, r1, r2 := dig("r0"), dig("r1"), dig("r2")
	var f string
	switch sym.Choose("shape", 8) {
	case 0:
		f = "n==" + a + "?" + r0 + ":" + r1
	case 1:
		f = "n<" + a + " ? " + r0 + " : n%10==" + b + " ? " + r1 + " : " + r2
	case 2:
		f = "(n<" + a + ") ? " + r0 + " : (n%10==" + b + " ? " + r1 + " : " + r2 + ")"
	case 3:
		f = "(n==" + a + " ? " + r0 + " : (n>" + b + "&&n<" + c + ") ? " + r1 + " : " + r2 + ")"
	case 4:
		f = "(n>" + a + ") ? (n<" + b + " ? " + r0 + " : " + r1 + ") : " + r2
	case 5:
		f = "n ? " + r0 + " : " + r1
	case 6:
		f = "n==" + a + " ? " + r0 + " : n==" + b + " ? " + r1 + " : n==" + c + " ? " + r2 + " : 1" + r2
	case 7:
		f = "(n<" + a + "||n>" + b + ") ? (" + r0 + ") : (" + r1 + ")"
	}
	checkFormula(f, true)
}

// leaf is an operand: n, a number or a modulus.
func leaf(name string, at, kinds int) string {
	c := string(rune('2' + at))
	return []string{"n", c, "n%" + c, "(n%" + c + ")", "1"}[sym.Choose(name, kinds)]
}

var anyOps = []string{"==", "!=", "<", ">", "<=", ">=", "&&", "||", "%"}

// C01_Any: every way to combine up to three operands with the operators of the
// language.  Compile may reject what it does not support, but what it accepts
// means the same as in C.
func C01_Any() {
	op := func(name string) string { return anyOps[sym.Choose(name, len(anyOps))] }
	shape := sym.Choose("shape", 6)
	kinds := 4 + sym.Tier()
	if shape >= 2 && shape <= 4 {
		kinds--
	}
	a := leaf("a", 0, kinds)
	f := a
	switch shape {
	case 0:
	case 1:
		f = a + op("o1") + leaf("b", 1, kinds)
	case 2:
		f = a + op("o1") + leaf("b", 1, kinds) + op("o2") + leaf("c", 2, kinds)
	case 3:
		f = "(" + a + op("o1") + leaf("b", 1, kinds) + ")" + op("o2") + leaf("c", 2, kinds)
	case 4:
		f = a + op("o1") + "(" + leaf("b", 1, kinds) + op("o2") + leaf("c", 2, kinds) + ")"
	case 5:
		f = a + " ? " + leaf("b", 1, kinds) + " : " + leaf("c", 2, kinds)
	}
	in := 5
	if shape >= 2 && shape <= 4 && sym.Tier() == 0 {
		in = 2
	}
	switch sym.Choose("in", in) {
	case 1:
		f = f + " ? 4 : 5"
	case 2:
		f = "(" + f + ")"
	case 3:
		f = "n==6 ? 4 : " + f
	case 4:
		f = "n<6 ? " + f + " : 5"
	}
	checkFormula(f, false)
}
