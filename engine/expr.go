package main

// Bit-vector / boolean expression DAG with hash-consing and local
// simplification.  Width 0 means boolean.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OTrunc // low w bits
	OIte
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OIte: "ite",
}

type Expr struct {
	op   Op
	w    uint8 // result width; 0 = bool
	id   int32
	val  uint64 // constant value
	name string // variable
	a    *Expr
	b    *Expr
	c    *Expr
	sv   *Expr // the single variable this depends on (nil if none or several)
	nv   uint8 // 0, 1, 2(=many)
	size int32 // tree size, saturating
	vidx int32 // variable index
}

type ekey struct {
	op      Op
	w       uint8
	a, b, c int32
	val     uint64
}

type Ctx struct {
	tab  map[ekey]*Expr
	vars map[string]*Expr
	vl   []*Expr
	next int32
	T, F *Expr

	// evaluation memo
	memo  []uint64
	stamp []int32
	cur   int32
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[ekey]*Expr{}, vars: map[string]*Expr{}}
	c.T = c.mk(OConst, 0, nil, nil, nil, 1)
	c.F = c.mk(OConst, 0, nil, nil, nil, 0)
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, val uint64) *Expr {
	k := ekey{op: op, w: w, val: val, a: -1, b: -1, c: -1}
	if a != nil {
		k.a = a.id
	}
	if b != nil {
		k.b = b.id
	}
	if d != nil {
		k.c = d.id
	}
	if e, ok := c.tab[k]; ok {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: d, val: val, id: c.next, size: 1}
	c.next++
	for _, x := range [3]*Expr{a, b, d} {
		if x == nil {
			continue
		}
		e.size += x.size
		if e.size > 1<<20 {
			e.size = 1 << 20
		}
		switch x.nv {
		case 1:
			if e.nv == 0 {
				e.nv, e.sv = 1, x.sv
			} else if e.nv == 1 && e.sv != x.sv {
				e.nv, e.sv = 2, nil
			}
		case 2:
			e.nv, e.sv = 2, nil
		}
	}
	c.tab[k] = e
	return e
}

func (c *Ctx) Const(w uint8, v uint64) *Expr { return c.mk(OConst, w, nil, nil, nil, v&mask(w)) }
func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.T
	}
	return c.F
}

func (c *Ctx) Var(name string, w uint8) *Expr {
	key := fmt.Sprintf("%s|%d", name, w)
	if e, ok := c.vars[key]; ok {
		return e
	}
	e := &Expr{op: OVar, w: w, name: name, id: c.next, size: 1, nv: 1, vidx: int32(len(c.vl))}
	e.sv = e
	c.next++
	c.vars[key] = e
	c.vl = append(c.vl, e)
	return e
}

func (e *Expr) isConst() bool { return e.op == OConst }
func (e *Expr) isTrue() bool  { return e.op == OConst && e.w == 0 && e.val == 1 }
func (e *Expr) isFalse() bool { return e.op == OConst && e.w == 0 && e.val == 0 }

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (c *Ctx) Not(a *Expr) *Expr {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	switch a.op {
	case ONot:
		return a.a
	case OUlt:
		return c.mk(OUle, 0, a.b, a.a, nil, 0)
	case OUle:
		return c.mk(OUlt, 0, a.b, a.a, nil, 0)
	case OSlt:
		return c.mk(OSle, 0, a.b, a.a, nil, 0)
	case OSle:
		return c.mk(OSlt, 0, a.b, a.a, nil, 0)
	}
	return c.mk(ONot, 0, a, nil, nil, 0)
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0)
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a.isConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.T
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OEq, 0, a, b, nil, 0)
	}
	if b.isConst() {
		switch a.op {
		case OIte:
			if a.b.isConst() || a.c.isConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case OZext:
			if b.val > mask(a.a.w) {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, b.val))
		case OSext:
			t := b.val & mask(a.a.w)
			if uint64(sx(t, a.a.w))&mask(a.w) != b.val {
				return c.F
			}
			return c.Eq(a.a, c.Const(a.a.w, t))
		case OAdd:
			if a.b.isConst() {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		}
	} else {
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, 0, a, b, nil, 0)
}

func (c *Ctx) Ite(cond, a, b *Expr) *Expr {
	if cond.isConst() {
		if cond.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == ONot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if b.op == OIte && b.a == cond {
		b = b.c
	}
	if a.op == OIte && a.a == cond {
		a = a.b
	}
	if a == b {
		return a
	}
	return c.mk(OIte, a.w, cond, a, b, 0)
}

func (c *Ctx) cmp(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return c.Bool(a.val < b.val)
		case OUle:
			return c.Bool(a.val <= b.val)
		case OSlt:
			return c.Bool(sx(a.val, w) < sx(b.val, w))
		default:
			return c.Bool(sx(a.val, w) <= sx(b.val, w))
		}
	}
	if a == b {
		return c.Bool(op == OUle || op == OSle)
	}
	// zero-extended operands
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.cmp(map[Op]Op{OUlt: OUlt, OSlt: OUlt, OUle: OUle, OSle: OUle}[op], a.a, b.a)
	}
	if a.op == OZext && b.isConst() {
		signed := op == OSlt || op == OSle
		strict := op == OUlt || op == OSlt
		if signed && sx(b.val, w) < 0 {
			return c.F
		}
		m := mask(a.a.w)
		if b.val > m || (!strict && b.val == m) {
			return c.T
		}
		o := OUle
		if strict {
			o = OUlt
		}
		return c.cmp(o, a.a, c.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.isConst() {
		signed := op == OSlt || op == OSle
		strict := op == OUlt || op == OSlt
		if signed && sx(a.val, w) < 0 {
			return c.T
		}
		m := mask(b.a.w)
		if a.val > m || (strict && a.val == m) {
			return c.F
		}
		o := OUle
		if strict {
			o = OUlt
		}
		return c.cmp(o, c.Const(b.a.w, a.val), b.a)
	}
	switch op {
	case OUlt:
		if b.isConst() && b.val == 0 {
			return c.F
		}
		if b.isConst() && b.val == 1 {
			return c.Eq(a, c.Const(w, 0))
		}
		if a.isConst() && a.val == mask(w) {
			return c.F
		}
		if a.isConst() && a.val == 0 {
			return c.Not(c.Eq(b, a))
		}
	case OUle:
		if a.isConst() && a.val == 0 {
			return c.T
		}
		if b.isConst() && b.val == mask(w) {
			return c.T
		}
		if b.isConst() && b.val == 0 {
			return c.Eq(a, b)
		}
	}
	if a.op == OIte && b.isConst() && (a.b.isConst() || a.c.isConst()) {
		return c.Ite(a.a, c.cmp(op, a.b, b), c.cmp(op, a.c, b))
	}
	if b.op == OIte && a.isConst() && (b.b.isConst() || b.c.isConst()) {
		return c.Ite(b.a, c.cmp(op, a, b.b), c.cmp(op, a, b.c))
	}
	return c.mk(op, 0, a, b, nil, 0)
}

func (c *Ctx) Ult(a, b *Expr) *Expr { return c.cmp(OUlt, a, b) }
func (c *Ctx) Ule(a, b *Expr) *Expr { return c.cmp(OUle, a, b) }
func (c *Ctx) Slt(a, b *Expr) *Expr { return c.cmp(OSlt, a, b) }
func (c *Ctx) Sle(a, b *Expr) *Expr { return c.cmp(OSle, a, b) }

func foldBin(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (a + b) & m
	case OSub:
		return (a - b) & m
	case OMul:
		return (a * b) & m
	case OUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OURem:
		if b == 0 {
			return a
		}
		return a % b
	case OSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OBAnd:
		return a & b
	case OBOr:
		return a | b
	case OBXor:
		return a ^ b
	case OShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OAshr:
		x := sx(a, w)
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(x>>b) & m
	}
	panic("foldBin")
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d op %s", a.w, b.w, opNames[op]))
	}
	if a.isConst() && b.isConst() {
		return c.Const(w, foldBin(op, w, a.val, b.val))
	}
	zero := func(e *Expr) bool { return e.isConst() && e.val == 0 }
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if b.isConst() && a.op == OAdd && a.b.isConst() {
			return c.Bin(OAdd, a.a, c.Const(w, a.b.val+b.val))
		}
		if b.isConst() && a.op == OIte && a.b.isConst() && a.c.isConst() {
			return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
		}
		if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
	case OSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.Const(w, -b.val))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if b.isConst() && b.val == 1 {
			return a
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return b
		}
		if b.isConst() && b.val == mask(w) {
			return a
		}
		if a == b {
			return a
		}
		if b.isConst() && a.op == OZext && b.val&mask(a.a.w) == mask(a.a.w) {
			return a
		}
	case OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if zero(b) {
			return a
		}
		if a == b {
			if op == OBOr {
				return a
			}
			return c.Const(w, 0)
		}
	case OShl, OLshr:
		if zero(b) {
			return a
		}
		if b.isConst() && b.val >= uint64(w) {
			return c.Const(w, 0)
		}
		if op == OLshr && b.isConst() && a.op == OZext && b.val >= uint64(a.a.w) {
			return c.Const(w, 0)
		}
	case OAshr:
		if zero(b) {
			return a
		}
	case OUDiv:
		if b.isConst() && b.val == 1 {
			return a
		}
		if b.isConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OLshr, a, c.Const(w, uint64(bits.TrailingZeros64(b.val))))
		}
	case OURem:
		if b.isConst() && b.val == 1 {
			return c.Const(w, 0)
		}
		if b.isConst() && b.val != 0 && bits.OnesCount64(b.val) == 1 {
			return c.Bin(OBAnd, a, c.Const(w, b.val-1))
		}
		if b.isConst() && b.val > 1 {
			return c.uremConst(a, b.val)
		}
	case OSDiv, OSRem:
		if a.op == OZext && a.a.w < w && b.isConst() && b.val != 0 && b.val < 1<<(w-1) {
			if op == OSDiv {
				return c.Bin(OUDiv, a, b)
			}
			return c.Bin(OURem, a, b)
		}
	}
	return c.mk(op, w, a, b, nil, 0)
}

// uremConst keeps remainders narrow, and expresses the moduli that divide
// 10^6 through one another ((x mod 10^6) mod k = x mod k), so that a formula
// mentioning several of them contains one wide division only.
func (c *Ctx) uremConst(a *Expr, k uint64) *Expr {
	w := a.w
	if a.op == OZext && a.a.w < w {
		if k > mask(a.a.w) {
			return a
		}
		return c.Zext(c.Bin(OURem, a.a, c.Const(a.a.w, k)), w)
	}
	raw := func(x *Expr, k uint64) *Expr {
		r := c.mk(OURem, x.w, x, c.Const(x.w, k), nil, 0)
		n := uint8(bits.Len64(k - 1))
		if n < x.w {
			return c.mk(OTrunc, n, r, nil, nil, 0)
		}
		return r
	}
	if w > 20 && 1000000%k == 0 {
		r := raw(a, 1000000)
		if k < 1000000 && 1000%k != 0 {
			r = raw(r, k)
		} else if k < 1000000 {
			if 100%k == 0 {
				r = raw(r, 100)
				if k < 100 {
					r = raw(r, k)
				}
			} else {
				r = raw(r, k)
			}
		}
		return c.Zext(r, w)
	}
	return c.Zext(raw(a, k), w)
}

func (c *Ctx) Zext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OIte && a.b.isConst() && a.c.isConst() {
		return c.Ite(a.a, c.Zext(a.b, w), c.Zext(a.c, w))
	}
	return c.mk(OZext, w, a, nil, nil, 0)
}

func (c *Ctx) Sext(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	return c.mk(OSext, w, a, nil, nil, 0)
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isConst() {
		return c.Const(w, a.val)
	}
	switch a.op {
	case OZext, OSext:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OZext {
			return c.Zext(a.a, w)
		}
		return c.Sext(a.a, w)
	case OTrunc:
		return c.Trunc(a.a, w)
	case OIte:
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor:
		if a.size < 64 {
			return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
		}
	}
	return c.mk(OTrunc, w, a, nil, nil, 0)
}

// ---------- evaluation under a model ----------

type Model map[int32]uint64 // variable index -> value; absent = 0

func (m Model) clone() Model {
	n := make(Model, len(m)+1)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (c *Ctx) newEval() {
	if int32(len(c.memo)) < c.next+64 {
		nm := make([]uint64, int(c.next)*2+1024)
		ns := make([]int32, len(nm))
		copy(nm, c.memo)
		copy(ns, c.stamp)
		c.memo, c.stamp = nm, ns
	}
	c.cur++
}

func (c *Ctx) Eval(e *Expr, m Model) uint64 {
	c.newEval()
	return c.eval(e, m, -1, 0)
}

// EvalWith evaluates e with variable vi set to v and all others from m.
func (c *Ctx) EvalWith(e *Expr, m Model, vi int32, v uint64) uint64 {
	c.newEval()
	return c.eval(e, m, vi, v)
}

func (c *Ctx) eval(e *Expr, m Model, vi int32, vv uint64) uint64 {
	switch e.op {
	case OConst:
		return e.val
	case OVar:
		if e.vidx == vi {
			return vv
		}
		return m[e.vidx]
	}
	if c.stamp[e.id] == c.cur {
		return c.memo[e.id]
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case ONot:
		r = 1 - c.eval(e.a, m, vi, vv)
	case OAnd:
		r = c.eval(e.a, m, vi, vv)
		if r == 1 {
			r = c.eval(e.b, m, vi, vv)
		}
	case OOr:
		r = c.eval(e.a, m, vi, vv)
		if r == 0 {
			r = c.eval(e.b, m, vi, vv)
		}
	case OIte:
		if c.eval(e.a, m, vi, vv) == 1 {
			r = c.eval(e.b, m, vi, vv)
		} else {
			r = c.eval(e.c, m, vi, vv)
		}
	case OEq:
		r = b2u(c.eval(e.a, m, vi, vv) == c.eval(e.b, m, vi, vv))
	case OUlt:
		r = b2u(c.eval(e.a, m, vi, vv) < c.eval(e.b, m, vi, vv))
	case OUle:
		r = b2u(c.eval(e.a, m, vi, vv) <= c.eval(e.b, m, vi, vv))
	case OSlt:
		r = b2u(sx(c.eval(e.a, m, vi, vv), e.a.w) < sx(c.eval(e.b, m, vi, vv), e.a.w))
	case OSle:
		r = b2u(sx(c.eval(e.a, m, vi, vv), e.a.w) <= sx(c.eval(e.b, m, vi, vv), e.a.w))
	case OZext:
		r = c.eval(e.a, m, vi, vv)
	case OSext:
		r = uint64(sx(c.eval(e.a, m, vi, vv), e.a.w)) & mask(e.w)
	case OTrunc:
		r = c.eval(e.a, m, vi, vv) & mask(e.w)
	default:
		r = foldBin(e.op, e.w, c.eval(e.a, m, vi, vv), c.eval(e.b, m, vi, vv))
	}
	c.stamp[e.id] = c.cur
	c.memo[e.id] = r
	return r
}

// collectVars appends to out the variables of e not yet in seen.
func collectVars(e *Expr, seen map[int32]bool, vars map[int32]*Expr) {
	if e == nil || e.nv == 0 || seen[e.id] {
		return
	}
	seen[e.id] = true
	if e.op == OVar {
		vars[e.vidx] = e
		return
	}
	collectVars(e.a, seen, vars)
	collectVars(e.b, seen, vars)
	collectVars(e.c, seen, vars)
}

// ---------- printing ----------

func smtVar(e *Expr) string { return fmt.Sprintf("v%d_%d", e.vidx, e.w) }

func (e *Expr) constStr() string {
	if e.w == 0 {
		if e.val == 1 {
			return "true"
		}
		return "false"
	}
	if e.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(e.w/4), e.val)
	}
	return fmt.Sprintf("#b%0*b", int(e.w), e.val)
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// human-readable rendering, for reports
func (e *Expr) String() string {
	if e.size > 400 {
		return fmt.Sprintf("<expr#%d size %d>", e.id, e.size)
	}
	switch e.op {
	case OConst:
		if e.w == 0 {
			return e.constStr()
		}
		return fmt.Sprintf("%d", e.val)
	case OVar:
		return e.name
	case ONot:
		return "!(" + e.a.String() + ")"
	case OZext:
		return fmt.Sprintf("zx%d(%s)", e.w, e.a)
	case OSext:
		return fmt.Sprintf("sx%d(%s)", e.w, e.a)
	case OTrunc:
		return fmt.Sprintf("tr%d(%s)", e.w, e.a)
	}
	var sb strings.Builder
	sb.WriteString("(" + opNames[e.op])
	for _, x := range [3]*Expr{e.a, e.b, e.c} {
		if x != nil {
			sb.WriteString(" " + x.String())
		}
	}
	sb.WriteString(")")
	return sb.String()
}
