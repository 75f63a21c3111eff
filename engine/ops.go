package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func fromEx(e *Expr) value {
	if e.isConst() {
		if e.w == 0 {
			return e.val == 1
		}
		return e.val
	}
	return e
}

func (m *M) toE(v value, w uint8) *Expr {
	switch x := v.(type) {
	case uint64:
		return m.ctx.Const(w, x)
	case bool:
		return m.ctx.Bool(x)
	case *Expr:
		return x
	}
	m.unsupported("not an integer: %T", v)
	return nil
}

func (m *M) notV(v value) value {
	switch x := v.(type) {
	case bool:
		return !x
	case *Expr:
		return fromEx(m.ctx.Not(x))
	}
	panic(fmt.Sprintf("notV %T", v))
}

func (m *M) andV(a, b value) value {
	if x, ok := a.(bool); ok {
		if !x {
			return false
		}
		return b
	}
	if y, ok := b.(bool); ok {
		if !y {
			return false
		}
		return a
	}
	return fromEx(m.ctx.And(a.(*Expr), b.(*Expr)))
}

func (m *M) orV(a, b value) value { return m.notV(m.andV(m.notV(a), m.notV(b))) }

// symArith: binary integer operation with at least one symbolic operand.
func (m *M) symArith(tk token.Token, xv, yv value, w uint8, sg bool) value {
	x, y := m.toE(xv, w), m.toE(yv, w)
	c := m.ctx
	switch tk {
	case token.ADD:
		return fromEx(c.Bin(OAdd, x, y))
	case token.SUB:
		return fromEx(c.Bin(OSub, x, y))
	case token.MUL:
		return fromEx(c.Bin(OMul, x, y))
	case token.AND:
		return fromEx(c.Bin(OBAnd, x, y))
	case token.OR:
		return fromEx(c.Bin(OBOr, x, y))
	case token.XOR:
		return fromEx(c.Bin(OBXor, x, y))
	case token.AND_NOT:
		return fromEx(c.Bin(OBAnd, x, c.Bin(OBXor, y, c.Const(w, mask(w)))))
	case token.EQL:
		return fromEx(c.Eq(x, y))
	case token.NEQ:
		return fromEx(c.Not(c.Eq(x, y)))
	case token.LSS:
		if sg {
			return fromEx(c.Slt(x, y))
		}
		return fromEx(c.Ult(x, y))
	case token.LEQ:
		if sg {
			return fromEx(c.Sle(x, y))
		}
		return fromEx(c.Ule(x, y))
	case token.GTR:
		return m.symArith(token.LSS, yv, xv, w, sg)
	case token.GEQ:
		return m.symArith(token.LEQ, yv, xv, w, sg)
	}
	panic("symArith " + tk.String())
}

func (m *M) divide(tk token.Token, xv, yv value, w uint8, sg bool) value {
	switch y := yv.(type) {
	case uint64:
		if y == 0 {
			m.rtPanic("integer divide by zero")
		}
	case *Expr:
		if m.decide(m.ctx.Eq(y, m.ctx.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
	}
	var o Op
	switch {
	case tk == token.QUO && sg:
		o = OSDiv
	case tk == token.QUO:
		o = OUDiv
	case sg:
		o = OSRem
	default:
		o = OURem
	}
	if x, ok := xv.(uint64); ok {
		if y, ok := yv.(uint64); ok {
			return foldBin(o, w, x, y)
		}
	}
	return fromEx(m.ctx.Bin(o, m.toE(xv, w), m.toE(yv, w)))
}

func (m *M) shift(tk token.Token, xv value, w uint8, sg bool, yv value, yw uint8, ysg bool) value {
	y, ok := yv.(uint64)
	if !ok {
		ye := yv.(*Expr)
		if ysg && m.decide(m.ctx.Slt(ye, m.ctx.Const(yw, 0))) {
			m.rtPanic("negative shift amount")
		}
		// symbolic shift amount: widths unified, saturating
		x := m.toE(xv, w)
		var amt *Expr
		if yw > w {
			big := m.ctx.Not(m.ctx.Ult(ye, m.ctx.Const(yw, uint64(w))))
			amt = m.ctx.Ite(big, m.ctx.Const(w, uint64(w)&mask(w)), m.ctx.Trunc(ye, w))
		} else {
			amt = m.ctx.Zext(ye, w)
		}
		o := OShl
		if tk == token.SHR {
			o = OLshr
			if sg {
				o = OAshr
			}
		}
		return fromEx(m.ctx.Bin(o, x, amt))
	}
	if ysg && sx(y, yw) < 0 {
		m.rtPanic("negative shift amount")
	}
	o := OShl
	if tk == token.SHR {
		o = OLshr
		if sg {
			o = OAshr
		}
	}
	if y > uint64(w) {
		y = uint64(w)
	}
	if x, ok := xv.(uint64); ok {
		return foldBin(o, w, x, y)
	}
	if y >= uint64(w) {
		if o == OAshr {
			y = uint64(w) - 1
		} else {
			return uint64(0)
		}
	}
	return fromEx(m.ctx.Bin(o, xv.(*Expr), m.ctx.Const(w, y)))
}

func (m *M) convert(v value, from, to types.Type) value {
	uf, ut := from.Underlying(), to.Underlying()
	if fw, fsg, ok := intKind(uf); ok {
		if tw, _, ok := intKind(ut); ok {
			switch x := v.(type) {
			case uint64:
				if fsg {
					return uint64(sx(x, fw)) & mask(tw)
				}
				return x & mask(tw)
			case *Expr:
				if tw <= fw {
					return fromEx(m.ctx.Trunc(x, tw))
				}
				if fsg {
					return fromEx(m.ctx.Sext(x, tw))
				}
				return fromEx(m.ctx.Zext(x, tw))
			}
			return v
		}
		if b, ok := ut.(*types.Basic); ok {
			if b.Info()&types.IsString != 0 {
				if x, ok := v.(*Expr); ok {
					if m.decide(m.ctx.Ult(m.ctx.Zext(m.ctx.Trunc(x, fw), 64), m.ctx.Const(64, 0x80))) {
						return mkStr([]value{fromEx(m.ctx.Trunc(x, 8))})
					}
					return m.encodeRune(x, fsg)
				}
				r := sx(v.(uint64), fw)
				if r < 0 || r > utf8.MaxRune {
					return string(utf8.RuneError)
				}
				return string(rune(r))
			}
			if b.Info()&types.IsFloat != 0 {
				u := m.concInt(v)
				var f float64
				if fsg {
					f = float64(sx(u, fw))
				} else {
					f = float64(u)
				}
				if b.Kind() == types.Float32 {
					f = float64(float32(f))
				}
				return f
			}
			if b.Kind() == types.UnsafePointer {
				if v == uint64(0) {
					return (*value)(nil)
				}
				return &opaque{"uintptr", v}
			}
		}
	}
	if b, ok := uf.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsString != 0:
			if s, ok := ut.(*types.Slice); ok {
				eb, _ := s.Elem().Underlying().(*types.Basic)
				if eb != nil && eb.Kind() == types.Uint8 {
					b := strBytes(v)
					if b == nil {
						b = []value{}
					}
					return b
				}
				// []rune
				out := []value{}
				i := 0
				for i < strLen(v) {
					r, n := m.decodeRune(v, i)
					out = append(out, r)
					i += n
				}
				return out
			}
			return v
		case b.Info()&types.IsFloat != 0:
			if tw, tsg, ok := intKind(ut); ok {
				f := v.(float64)
				if tsg {
					return uint64(int64(f)) & mask(tw)
				}
				if f >= math.MaxInt64 {
					return uint64(f)
				}
				return uint64(int64(f)) & mask(tw)
			}
			if tb, ok := ut.(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
				if tb.Kind() == types.Float32 {
					return float64(float32(v.(float64)))
				}
				return v
			}
		case b.Info()&types.IsComplex != 0:
			return v
		case b.Kind() == types.UnsafePointer:
			if p, ok := v.(*opaque); ok && p.kind == "uintptr" {
				return p.v
			}
			if _, _, ok := intKind(ut); ok {
				if v == (*value)(nil) {
					return uint64(0)
				}
				return &opaque{"ptrint", v}
			}
			return v
		}
	}
	if s, ok := uf.(*types.Slice); ok {
		if tb, ok := ut.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			eb, _ := s.Elem().Underlying().(*types.Basic)
			xs, _ := v.([]value)
			if eb.Kind() == types.Uint8 {
				if m.tr != nil {
					for i := range xs {
						m.tr.access(m, &xs[i], false)
					}
				}
				return mkStr(append([]value(nil), xs...))
			}
			var out value = ""
			for _, r := range xs {
				out = strCat(out, m.convert(r, types.Typ[types.Int32], types.Typ[types.String]))
			}
			return out
		}
	}
	return v
}

// encodeRune is the UTF-8 form of a symbolic code point of 0x80 or more.
func (m *M) encodeRune(x *Expr, signed bool) value {
	c := m.ctx
	if x.w < 64 {
		if signed {
			x = c.Sext(x, 64)
		} else {
			x = c.Zext(x, 64)
		}
	}
	k := func(v uint64) *Expr { return c.Const(64, v) }
	part := func(shift, mask, lead uint64) value {
		return fromEx(c.Trunc(c.Bin(OBOr, c.Bin(OBAnd, c.Bin(OLshr, x, k(shift)), k(mask)), k(lead)), 8))
	}
	switch {
	case m.decide(c.Ult(x, k(0x800))):
		return mkStr([]value{part(6, 0x1f, 0xc0), part(0, 0x3f, 0x80)})
	case m.decide(c.Ult(x, k(0x10000))):
		if m.decide(c.And(c.Not(c.Ult(x, k(0xd800))), c.Ult(x, k(0xe000)))) {
			return string(utf8.RuneError)
		}
		return mkStr([]value{part(12, 0xf, 0xe0), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	case m.decide(c.Ult(x, k(0x110000))):
		return mkStr([]value{part(18, 7, 0xf0), part(12, 0x3f, 0x80), part(6, 0x3f, 0x80), part(0, 0x3f, 0x80)})
	}
	return string(utf8.RuneError)
}

// decodeRune decodes one rune at position i.
func (m *M) decodeRune(s value, i int) (value, int) {
	b0 := strAt(s, i)
	if u, ok := b0.(uint64); ok {
		if u < 0x80 {
			return u, 1
		}
	} else if m.decide(m.ctx.Ult(b0.(*Expr), m.ctx.Const(8, 0x80))) {
		return fromEx(m.ctx.Zext(b0.(*Expr), 32)), 1
	}
	// non-ASCII: decode exactly, by cases on the encoding structure
	n := strLen(s)
	c := m.ctx
	e := func(k int) *Expr { return m.toE(strAt(s, i+k), 8) }
	in := func(x *Expr, lo, hi uint64) bool {
		return m.decide(c.And(c.Ule(c.Const(8, lo), x), c.Ule(x, c.Const(8, hi))))
	}
	bad := func() (value, int) { return uint64(utf8.RuneError), 1 }
	x0 := e(0)
	z := func(x *Expr, k uint64) *Expr { return c.Zext(c.Bin(OBAnd, x, c.Const(8, k)), 32) }
	sh := func(x *Expr, k uint64) *Expr { return c.Bin(OShl, x, c.Const(32, k)) }
	if in(x0, 0xC2, 0xDF) {
		if i+1 >= n || !in(e(1), 0x80, 0xBF) {
			return bad()
		}
		return fromEx(c.Bin(OBOr, sh(z(x0, 0x1F), 6), z(e(1), 0x3F))), 2
	}
	if in(x0, 0xE0, 0xEF) {
		if i+1 >= n {
			return bad()
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(x0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(x0, 0xED, 0xED) {
			hi = 0x9F
		}
		if !in(e(1), lo, hi) || i+2 >= n || !in(e(2), 0x80, 0xBF) {
			return bad()
		}
		return fromEx(c.Bin(OBOr, c.Bin(OBOr, sh(z(x0, 0x0F), 12), sh(z(e(1), 0x3F), 6)), z(e(2), 0x3F))), 3
	}
	if in(x0, 0xF0, 0xF4) {
		if i+1 >= n {
			return bad()
		}
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(x0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(x0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if !in(e(1), lo, hi) || i+2 >= n || !in(e(2), 0x80, 0xBF) || i+3 >= n || !in(e(3), 0x80, 0xBF) {
			return bad()
		}
		return fromEx(c.Bin(OBOr, c.Bin(OBOr, sh(z(x0, 0x07), 18), sh(z(e(1), 0x3F), 12)), c.Bin(OBOr, sh(z(e(2), 0x3F), 6), z(e(3), 0x3F)))), 4
	}
	return bad()
}

// ---- equality / ordering ----

func (m *M) strEq(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	// quick concrete mismatch
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		xu, ok1 := x.(uint64)
		yu, ok2 := y.(uint64)
		if ok1 && ok2 && xu != yu {
			return false
		}
	}
	r := m.ctx.T
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		r = m.ctx.And(r, m.ctx.Eq(m.toE(x, 8), m.toE(y, 8)))
		if r.isFalse() {
			return false
		}
	}
	return fromEx(r)
}

func (m *M) strLess(a, b value) value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	na, nb := strLen(a), strLen(b)
	n := na
	if nb < n {
		n = nb
	}
	r := m.ctx.Bool(na < nb)
	for i := n - 1; i >= 0; i-- {
		x, y := m.toE(strAt(a, i), 8), m.toE(strAt(b, i), 8)
		r = m.ctx.Ite(m.ctx.Eq(x, y), r, m.ctx.Ult(x, y))
	}
	return fromEx(r)
}

func (m *M) equals(t types.Type, a, b value) value {
	switch x := a.(type) {
	case bool, *Expr:
		if ae, ok := a.(bool); ok {
			if be, ok := b.(bool); ok {
				return ae == be
			}
		}
		w := uint8(0)
		if e, ok := a.(*Expr); ok {
			w = e.w
		} else if e, ok := b.(*Expr); ok {
			w = e.w
		}
		return fromEx(m.ctx.Eq(m.toE(a, w), m.toE(b, w)))
	case uint64:
		if y, ok := b.(uint64); ok {
			return x == y
		}
		if y, ok := b.(*Expr); ok {
			return fromEx(m.ctx.Eq(m.toE(a, y.w), y))
		}
		return false
	case float64:
		return x == b.(float64)
	case complex128:
		return x == b.(complex128)
	case string, *SymStr:
		return m.strEq(a, b)
	case *value:
		y, ok := b.(*value)
		return ok && x == y
	case *symPtr:
		m.unsupported("comparison of symbolic pointers")
	case *mapV:
		y, ok := b.(*mapV)
		return ok && x == y
	case *chanV:
		y, ok := b.(*chanV)
		return ok && x == y
	case []value:
		y, _ := b.([]value)
		return x == nil && y == nil
	case *ssa.Function, *closure, *nativeFn:
		return isNilVal(a) && isNilVal(b)
	case ifaceV:
		y, ok := b.(ifaceV)
		if !ok {
			return false
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !identical(x.t, y.t) {
			return false
		}
		switch x.t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Signature:
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.equals(x.t, x.v, y.v)
	case structV:
		y := b.(structV)
		var r value = true
		st, _ := t.Underlying().(*types.Struct)
		for i := range x {
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
				if st.Field(i).Name() == "_" {
					continue
				}
			}
			r = m.andV(r, m.equals(ft, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case arrayV:
		y := b.(arrayV)
		var r value = true
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := range x {
			r = m.andV(r, m.equals(et, x[i], y[i]))
			if r == false {
				return false
			}
		}
		return r
	case *opaque:
		y, ok := b.(*opaque)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.kind == "rtype" && y.kind == "rtype" {
			return identical(x.v.(types.Type), y.v.(types.Type))
		}
		return false
	case dataPtr:
		return false
	case nil:
		return b == nil || isNilVal(b)
	}
	m.unsupported("equals %T", a)
	return nil
}

// ---- symbolic indexing ----

func (m *M) boundsCheck(i *Expr, it types.Type, n int) *Expr {
	w, sg, _ := intKind(it)
	c := m.ctx
	// widen to 64 bits
	var e *Expr
	if sg {
		e = c.Sext(i, 64)
	} else {
		e = c.Zext(i, 64)
	}
	_ = w
	ok := c.Ult(e, c.Const(64, uint64(n)))
	if !m.decide(ok) {
		m.rtPanic(fmt.Sprintf("index out of range [sym] with length %d", n))
	}
	return e
}

// selectCells builds the value cells[idx] for an in-range idx.
func (m *M) selectCells(cells []value, idx *Expr, t types.Type) (value, bool) {
	if len(cells) == 0 {
		return nil, false
	}
	var w uint8
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, false
	}
	if bt.Info()&types.IsBoolean == 0 {
		w, _, ok = intKind(t)
		if !ok {
			return nil, false
		}
	}
	c := m.ctx
	// use the narrowest known index expression for cheap comparisons
	ie := idx
	if ie.op == OZext {
		ie = ie.a
	}
	lim := uint64(len(cells))
	if ie.w < 64 && mask(ie.w)+1 < lim {
		lim = mask(ie.w) + 1
	}
	type run struct {
		start uint64
		e     *Expr
	}
	var runs []run
	for i := uint64(0); i < lim; i++ {
		e := m.toE(cells[i], w)
		if len(runs) == 0 || runs[len(runs)-1].e != e {
			runs = append(runs, run{i, e})
		}
	}
	r := runs[len(runs)-1].e
	for i := len(runs) - 2; i >= 0; i-- {
		cond := c.Ult(ie, c.Const(ie.w, runs[i+1].start))
		r = c.Ite(cond, runs[i].e, r)
	}
	return fromEx(r), true
}

func (m *M) indexCells(cells []value, iv value, it, et types.Type) value {
	if u, ok := iv.(uint64); ok {
		w, sg, _ := intKind(it)
		if sg && sx(u, w) < 0 || u >= uint64(len(cells)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", sx(u, w), len(cells)))
		}
		return copyVal(cells[u])
	}
	e := m.boundsCheck(iv.(*Expr), it, len(cells))
	if e.isConst() {
		return copyVal(cells[e.val])
	}
	return m.loadSym(&symPtr{cells, e, et})
}

func (m *M) loadSym(p *symPtr) value {
	if m.tr != nil {
		for i := range p.cells {
			m.tr.access(m, &p.cells[i], false)
		}
	}
	// aggregate cells: select per field
	if v, ok := m.selectTyped(p.cells, p.idx, p.t); ok {
		return v
	}
	if i, ok := m.groupCells(p); ok {
		return copyVal(p.cells[i])
	}
	return m.load(m.concPtr(p))
}

// sameRef tells whether two reference values are the same object.
func sameRef(a, b value) (same, known bool) {
	switch x := a.(type) {
	case nil:
		return b == nil, true
	case []value:
		y, ok := b.([]value)
		if !ok {
			return false, true
		}
		if x == nil || y == nil || len(x) != len(y) {
			return x == nil && y == nil, true
		}
		return len(x) > 0 && &x[0] == &y[0], true
	case *value:
		y, ok := b.(*value)
		return ok && x == y, true
	case string:
		y, ok := b.(string)
		return ok && x == y, true
	case *mapV:
		y, ok := b.(*mapV)
		return ok && x == y, true
	}
	return false, false
}

// groupCells forks over the distinct references an index can select instead of
// over the index itself.
func (m *M) groupCells(p *symPtr) (int, bool) {
	c := m.ctx
	ie := p.idx
	if ie.op == OZext {
		ie = ie.a
	}
	lim := len(p.cells)
	if ie.w < 32 && int(mask(ie.w))+1 < lim {
		lim = int(mask(ie.w)) + 1
	}
	var reps []int
	gr := make([]int, lim)
	for i := 0; i < lim; i++ {
		g := -1
		for k := len(reps) - 1; k >= 0; k-- {
			same, known := sameRef(p.cells[reps[k]], p.cells[i])
			if !known {
				return 0, false
			}
			if same {
				g = k
				break
			}
		}
		if g < 0 {
			if len(reps) > 40 {
				return 0, false
			}
			g = len(reps)
			reps = append(reps, i)
		}
		gr[i] = g
	}
	for g := range reps {
		if g == len(reps)-1 {
			return reps[g], true
		}
		cond := c.Bool(false)
		for i := 0; i < lim; i++ {
			if gr[i] != g {
				continue
			}
			j := i
			for j+1 < lim && gr[j+1] == g {
				j++
			}
			in := c.Eq(ie, c.Const(ie.w, uint64(i)))
			if j > i {
				in = c.And(c.Ule(c.Const(ie.w, uint64(i)), ie), c.Ule(ie, c.Const(ie.w, uint64(j))))
			}
			cond = c.Or(cond, in)
			i = j
		}
		if m.decide(cond) {
			return reps[g], true
		}
	}
	return 0, false
}

func (m *M) selectTyped(cells []value, idx *Expr, t types.Type) (value, bool) {
	switch x := cells[0].(type) {
	case structV:
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		out := make(structV, len(x))
		for f := range x {
			col := make([]value, len(cells))
			for i := range cells {
				col[i] = cells[i].(structV)[f]
			}
			v, ok := m.selectTyped(col, idx, st.Field(f).Type())
			if !ok {
				return nil, false
			}
			out[f] = v
		}
		return out, true
	}
	return m.selectCells(cells, idx, t)
}

func (m *M) concPtr(p *symPtr) *value {
	i := m.concretize(p.idx)
	return &p.cells[i]
}

func (m *M) strIndex(s value, iv value, it types.Type) value {
	n := strLen(s)
	if u, ok := iv.(uint64); ok {
		w, sg, _ := intKind(it)
		if sg && sx(u, w) < 0 || u >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", sx(u, w), n))
		}
		return strAt(s, int(u))
	}
	e := m.boundsCheck(iv.(*Expr), it, n)
	v, ok := m.selectCells(strBytes(s), e, types.Typ[types.Uint8])
	if !ok {
		m.unsupported("strIndex")
	}
	return v
}

// concInt returns a concrete value of an integer, forking if symbolic.
func (m *M) concInt(v value) uint64 {
	switch x := v.(type) {
	case uint64:
		return x
	case *Expr:
		return m.concretize(x)
	}
	m.unsupported("concInt %T", v)
	return 0
}

func (m *M) concBool(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Expr:
		return m.decide(x)
	}
	panic("concBool")
}

// concStr forces a string to be concrete.
func (m *M) concStr(v value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(m.concInt(s.b[i]))
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

// ---- slices ----

const maxConcreteAlloc = 1 << 22

func (m *M) makeSlice(lv value, lt types.Type, cv value, ct types.Type, z value, et types.Type) value {
	lw, lsg, _ := intKind(lt)
	if e, ok := lv.(*Expr); ok {
		c := m.ctx
		var l64 *Expr
		if lsg {
			l64 = c.Sext(e, 64)
		} else {
			l64 = c.Zext(e, 64)
		}
		if lsg && m.decide(c.Slt(l64, c.Const(64, 0))) {
			m.rtPanic("makeslice: len out of range")
		}
		if m.decide(c.Ult(c.Const(64, uint64(m.ex_allocLimit())), l64)) {
			// prefer a counterexample whose allocation is impossible to miss
			for _, k := range []uint{30, 27, 24, 20} {
				big := c.Ult(c.Const(64, 1<<k), l64)
				if r, mod := m.sol.Check(m.pc, big, m.wantVars(big)); r == Sat {
					full := m.model.clone()
					for i, v := range mod {
						full[i] = v
					}
					m.model = full
					break
				}
			}
			panic(pathEnd{"alloc", fmt.Sprintf("allocation of unbounded size (%d-bit length field controlled by the input) in %s", lw, m.stack(m.cur))})
		}
	}
	n := int64(sx(m.concInt(lv), lw))
	cw, _, _ := intKind(ct)
	cp := int64(sx(m.concInt(cv), cw))
	if !lsg {
		n = int64(m.concInt(lv))
	}
	if n < 0 || n > 1<<40 {
		m.rtPanic("makeslice: len out of range")
	}
	if cp < n {
		m.rtPanic("makeslice: cap out of range")
	}
	if cp > maxConcreteAlloc {
		panic(pathEnd{"alloc", fmt.Sprintf("allocation of %d elements in %s", cp, m.stack(m.cur))})
	}
	s := make([]value, n, cp)
	full := s[:cp]
	for i := range full {
		full[i] = copyVal(z)
	}
	m.allocs += cp
	return s
}

func (m *M) ex_allocLimit() int { return 1 << 16 }

func (m *M) appendVals(s []value, xs []value, zt types.Type) value {
	n := len(s) + len(xs)
	if n <= cap(s) {
		r := s[:n]
		for i, x := range xs {
			if m.tr != nil {
				m.tr.access(m, &r[len(s)+i], true)
			}
			m.setCell(&r[len(s)+i], copyVal(x))
		}
		return r
	}
	if len(xs) == 0 {
		return s
	}
	if m.tr != nil {
		for i := range s {
			m.tr.access(m, &s[i], false)
		}
	}
	c := 2 * cap(s)
	if c < n {
		c = n
	}
	if c < 4 {
		c = 4
	}
	r := make([]value, n, c)
	copy(r, s)
	for i, x := range s {
		r[i] = copyVal(x)
		_ = x
	}
	for i, x := range xs {
		r[len(s)+i] = copyVal(x)
	}
	if zt != nil && c > n {
		full := r[:c]
		z := zero(zt)
		for i := n; i < c; i++ {
			full[i] = copyVal(z)
		}
	}
	return r
}

// ---- maps ----

func (m *M) newMap(kt types.Type) *mapV {
	m.seq++
	return &mapV{idx: map[interface{}]*mapEntry{}, kt: kt, seq: m.seq, stamp: m.mapStamp}
}

type ifKey struct {
	t int
	k interface{}
}

// hashKey returns a comparable Go key when v is fully concrete.
func (m *M) hashKey(v value) (interface{}, bool) {
	switch x := v.(type) {
	case bool, uint64, float64, string, complex128:
		return x, true
	case *Expr, *SymStr:
		return nil, false
	case *value:
		return x, true
	case *chanV:
		return x, true
	case *opaque:
		if x.kind == "rtype" {
			return ifKey{-2, typeID(x.v.(types.Type))}, true
		}
		return x, true
	case ifaceV:
		if x.t == nil {
			return ifKey{-1, nil}, true
		}
		switch x.t.Underlying().(type) {
		case *types.Map, *types.Slice, *types.Signature:
			m.rtPanic("hash of unhashable type " + x.t.String())
		}
		k, ok := m.hashKey(x.v)
		if !ok {
			return nil, false
		}
		return ifKey{typeID(x.t), k}, true
	case structV:
		s := ""
		var parts [8]interface{}
		if len(x) > 8 {
			m.unsupported("map key struct too large")
		}
		for i := range x {
			k, ok := m.hashKey(x[i])
			if !ok {
				return nil, false
			}
			parts[i] = k
		}
		_ = s
		return parts, true
	case arrayV:
		var parts [8]interface{}
		if len(x) > 8 {
			m.unsupported("map key array too large")
		}
		for i := range x {
			k, ok := m.hashKey(x[i])
			if !ok {
				return nil, false
			}
			parts[i] = k
		}
		return parts, true
	}
	m.unsupported("map key %T", v)
	return nil, false
}

func (m *M) traceMap(mp *mapV, write bool) {
	if m.tr != nil && mp != nil {
		m.tr.access(m, &mp.cell, write)
	}
}

func (m *M) mapFind(mp *mapV, k value, forWrite bool) *mapEntry {
	if mp == nil {
		return nil
	}
	if !forWrite {
		m.traceMap(mp, false)
	}
	hk, conc := m.hashKey(k)
	if conc && mp.nsym == 0 {
		return mp.idx[hk]
	}
	if conc {
		if e := mp.idx[hk]; e != nil {
			return e
		}
	}
	for _, e := range mp.ents {
		if !e.live {
			continue
		}
		if conc && e.ck != nil {
			continue // different concrete key
		}
		r := m.equals(mp.kt, e.k, k)
		if b, ok := r.(bool); ok {
			if b {
				return e
			}
			continue
		}
		if m.decide(r.(*Expr)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mp *mapV, k, v value) {
	m.traceMap(mp, true)
	if e := m.mapFind(mp, k, true); e != nil {
		if m.logging {
			old := e.v
			m.onUndo(func() { e.v = old })
		}
		e.v = v
		return
	}
	hk, conc := m.hashKey(k)
	e := &mapEntry{k: copyVal(k), v: v, live: true}
	if conc {
		e.ck = hk
	}
	m.mapAdd(mp, e)
}

// mapInsert puts a copy of e into mp, which has no such key.
func (m *M) mapInsert(mp *mapV, e *mapEntry) {
	m.mapAdd(mp, &mapEntry{k: copyVal(e.k), v: copyVal(e.v), live: true, ck: e.ck})
}

func (m *M) mapAdd(mp *mapV, e *mapEntry) {
	mp.ents = append(mp.ents, e)
	mp.n++
	if e.ck != nil {
		mp.idx[e.ck] = e
	} else {
		mp.nsym++
	}
	if m.logging {
		m.onUndo(func() { mp.drop(e) })
	}
}

func (mp *mapV) drop(e *mapEntry) {
	if !e.live {
		return
	}
	e.live = false
	mp.n--
	if e.ck != nil {
		delete(mp.idx, e.ck)
	} else {
		mp.nsym--
	}
	for i, x := range mp.ents {
		if x == e {
			ne := make([]*mapEntry, 0, len(mp.ents)-1)
			ne = append(ne, mp.ents[:i]...)
			mp.ents = append(ne, mp.ents[i+1:]...)
			break
		}
	}
}

func (m *M) mapDelete(mp *mapV, k value) {
	if mp == nil {
		return
	}
	m.traceMap(mp, true)
	e := m.mapFind(mp, k, true)
	if e == nil {
		return
	}
	ents := mp.ents
	mp.drop(e)
	if m.logging {
		m.onUndo(func() {
			e.live = true
			mp.n++
			if e.ck != nil {
				mp.idx[e.ck] = e
			} else {
				mp.nsym++
			}
			mp.ents = ents
		})
	}
}

// ---- range ----

type iterV struct {
	mp   *mapV
	rest []*mapEntry
	str  value
	pos  int
}

func (m *M) rangeIter(v value) value {
	switch x := v.(type) {
	case *mapV:
		it := &iterV{mp: x}
		if x != nil {
			it.rest = append(it.rest, x.ents...)
		}
		return it
	case string, *SymStr:
		return &iterV{str: x}
	}
	m.unsupported("range over %T", v)
	return nil
}

func (m *M) next(fr *frame, dst int, itv value, isStr bool, tt *types.Tuple) {
	it := itv.(*iterV)
	if isStr {
		if it.pos >= strLen(it.str) {
			fr.regs[dst] = tupleV{false, uint64(0), uint64(0)}
			return
		}
		p := it.pos
		r, n := m.decodeRune(it.str, p)
		it.pos += n
		fr.regs[dst] = tupleV{true, uint64(p), r}
		return
	}
	zeroT := func(i int) value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	if it.mp != nil {
		m.traceMap(it.mp, false)
	}
	live := it.rest[:0:0]
	for _, e := range it.rest {
		if e.live {
			live = append(live, e)
		}
	}
	it.rest = live
	if len(live) == 0 {
		fr.regs[dst] = tupleV{false, zeroT(1), zeroT(2)}
		return
	}
	k := 0
	if m.mapOrder && len(live) > 1 && len(live) <= 5 && fr.fi.cov {
		k = m.choose(len(live))
	}
	e := live[k]
	nr := make([]*mapEntry, 0, len(live)-1)
	nr = append(nr, live[:k]...)
	it.rest = append(nr, live[k+1:]...)
	fr.regs[dst] = tupleV{true, copyVal(e.k), copyVal(e.v)}
}

// ---- channels ----

// liveSel gives the first waiting case of another goroutine.
func liveSel(q *[]*waiter, g *gor) *waiter {
	for len(*q) > 0 && (*q)[0].grp.done {
		*q = (*q)[1:]
	}
	for _, e := range *q {
		if !e.grp.done && e.g != g {
			return e
		}
	}
	return nil
}

func (m *M) canRecv(ch *chanV, g *gor) bool {
	return len(ch.buf) > 0 || len(ch.sendq) > 0 || ch.closed || (ch.capn == 0 && liveSel(&ch.selSend, g) != nil)
}
func (m *M) canSend(ch *chanV, g *gor) bool {
	return len(ch.buf) < ch.capn || (ch.capn == 0 && (len(ch.recvq) > len(ch.sendq) || liveSel(&ch.selRecv, g) != nil))
}

func (m *M) doRecv(ch *chanV, g *gor) (value, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]value(nil), ch.buf[1:]...)
		if len(ch.sendq) > 0 {
			w := ch.sendq[0]
			ch.sendq = append([]*waiter(nil), ch.sendq[1:]...)
			w.done = true
			ch.buf = append(ch.buf, w.v)
		}
		return v, true
	}
	if len(ch.sendq) > 0 {
		w := ch.sendq[0]
		ch.sendq = append([]*waiter(nil), ch.sendq[1:]...)
		w.done = true
		return w.v, true
	}
	if ch.capn == 0 && !ch.closed {
		if e := liveSel(&ch.selSend, g); e != nil {
			e.grp.done, e.grp.idx = true, e.sel
			return e.v, true
		}
	}
	return nil, false
}

func (m *M) doSend(ch *chanV, v value, g *gor) {
	if ch.closed {
		panic(goPanic{ifaceV{t: m.L.rtErrType, v: "send on closed channel"}})
	}
	if len(ch.buf) < ch.capn {
		ch.buf = append(append([]value(nil), ch.buf...), v)
		return
	}
	if len(ch.recvq) <= len(ch.sendq) {
		e := liveSel(&ch.selRecv, g)
		e.grp.done, e.grp.idx, e.grp.v, e.grp.ok = true, e.sel, v, true
		return
	}
	ch.sendq = append(append([]*waiter(nil), ch.sendq...), &waiter{v: v, done: false})
}

func (m *M) chanSend(fr *frame, ch *chanV, v value) {
	if ch == nil {
		m.block(fr, "send on nil channel", func() bool { return false })
		return
	}
	g := m.cur
	if w := g.pend(); w != nil {
		g.setPend(nil)
		if !w.done && ch.closed {
			panic(goPanic{ifaceV{t: m.L.rtErrType, v: "send on closed channel"}})
		}
		return
	}
	if !ch.closed && ch.capn == 0 && len(ch.recvq) <= len(ch.sendq) {
		if e := liveSel(&ch.selRecv, g); e != nil {
			e.grp.done, e.grp.idx, e.grp.v, e.grp.ok = true, e.sel, v, true
			return
		}
	}
	if ch.closed {
		panic(goPanic{ifaceV{t: m.L.rtErrType, v: "send on closed channel"}})
	}
	if len(ch.buf) < ch.capn {
		ch.buf = append(append([]value(nil), ch.buf...), v)
		return
	}
	w := &waiter{g: g, v: v}
	ch.sendq = append(append([]*waiter(nil), ch.sendq...), w)
	g.setPend(w)
	m.block(fr, "chan send", func() bool { return w.done || ch.closed })
}

var pendTab = struct{}{}

func (g *gor) pend() *waiter     { return g.pw }
func (g *gor) setPend(w *waiter) { g.pw = w }

func (m *M) chanRecv(fr *frame, dst int, ch *chanV, commaOk bool, et types.Type) {
	if ch == nil {
		m.block(fr, "receive on nil channel", func() bool { return false })
		return
	}
	g := m.cur
	if !m.canRecv(ch, g) {
		w := &waiter{g: g}
		ch.recvq = append(append([]*waiter(nil), ch.recvq...), w)
		m.block(fr, "chan receive", func() bool {
			if m.canRecv(ch, g) {
				var nq []*waiter
				for _, x := range ch.recvq {
					if x != w {
						nq = append(nq, x)
					}
				}
				ch.recvq = nq
				return true
			}
			return false
		})
		return
	}
	v, ok := m.doRecv(ch, g)
	if v == nil {
		v = zero(et)
	}
	if commaOk {
		fr.regs[dst] = tupleV{v, ok}
	} else {
		fr.regs[dst] = v
	}
}

// ---- builtins ----

func (m *M) builtin(b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SymStr:
			return uint64(strLen(x))
		case []value:
			return uint64(len(x))
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayV)))
		case *mapV:
			if x == nil {
				return uint64(0)
			}
			m.traceMap(x, false)
			return uint64(x.n)
		case *chanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return uint64(cap(x))
		case arrayV:
			return uint64(len(x))
		case *value:
			return uint64(len((*x).(arrayV)))
		case *chanV:
			if x == nil {
				return uint64(0)
			}
			return uint64(x.capn)
		}
	case "append":
		s, _ := args[0].([]value)
		if len(args) == 1 {
			return s
		}
		var et types.Type
		if call != nil {
			et = call.Args[0].Type().Underlying().(*types.Slice).Elem()
		}
		switch y := args[1].(type) {
		case string, *SymStr:
			return m.appendVals(s, strBytes(y), et)
		case []value:
			if m.tr != nil {
				for i := range y {
					m.tr.access(m, &y[i], false)
				}
			}
			return m.appendVals(s, y, et)
		}
	case "copy":
		dst, _ := args[0].([]value)
		var src []value
		switch y := args[1].(type) {
		case string, *SymStr:
			src = strBytes(y)
		case []value:
			src = y
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
			if m.tr != nil {
				if _, isStr := args[1].([]value); isStr {
					m.tr.access(m, &src[i], false)
				}
			}
		}
		for i := 0; i < n; i++ {
			if m.tr != nil {
				m.tr.access(m, &dst[i], true)
			}
			m.setCell(&dst[i], tmp[i])
		}
		return uint64(n)
	case "delete":
		mp, _ := args[0].(*mapV)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				for _, e := range append([]*mapEntry(nil), x.ents...) {
					m.mapDelete(x, e.k)
				}
			}
		case []value:
			z := zero(call.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := range x {
				m.setCell(&x[i], copyVal(z))
			}
		}
		return nil
	case "close":
		ch, _ := args[0].(*chanV)
		if ch == nil {
			m.rtPanic("close of nil channel")
		}
		if ch.closed {
			panic(goPanic{ifaceV{t: m.L.rtErrType, v: "close of closed channel"}})
		}
		ch.closed = true
		return nil
	case "panic":
		v := args[0].(ifaceV)
		panic(goPanic{v})
	case "recover":
		fr := m.cur.top
		if fr.deferOf != nil && fr.deferOf.pan != nil && !fr.deferOf.pan.recovered {
			fr.deferOf.pan.recovered = true
			return fr.deferOf.pan.v
		}
		return ifaceV{}
	case "print", "println":
		return nil
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			less := m.lessV(a, r, call.Args[0].Type())
			if b.Name() == "max" {
				less = m.lessV(r, a, call.Args[0].Type())
			}
			if bv, ok := less.(bool); ok {
				if bv {
					r = a
				}
			} else {
				le := less.(*Expr)
				w, _, ok := intKind(call.Args[0].Type())
				if ok {
					r = fromEx(m.ctx.Ite(le, m.toE(a, w), m.toE(r, w)))
				} else if m.decide(le) {
					r = a
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].([]value)
		return dataPtr{s: s}
	case "StringData":
		return dataPtr{str: args[0]}
	case "String":
		n := int(m.concInt(args[1]))
		switch d := args[0].(type) {
		case dataPtr:
			if d.str != nil {
				return strSlice(d.str, 0, n)
			}
			return mkStr(append([]value(nil), d.s[:n]...))
		case *value:
			if n == 0 {
				return ""
			}
			if n == 1 {
				return mkStr([]value{*d})
			}
		}
		m.unsupported("unsafe.String of %T", args[0])
	case "Slice":
		n := int(m.concInt(args[1]))
		switch d := args[0].(type) {
		case dataPtr:
			if d.str != nil {
				return strBytes(strSlice(d.str, 0, n))
			}
			return d.s[:n:n]
		}
		m.unsupported("unsafe.Slice of %T", args[0])
	}
	m.unsupported("builtin %s(%T)", b.Name(), args)
	return nil
}

func (m *M) lessV(a, b value, t types.Type) value {
	switch x := a.(type) {
	case string, *SymStr:
		return m.strLess(a, b)
	case float64:
		return x < b.(float64)
	}
	w, sg, _ := intKind(t)
	xu, ok1 := a.(uint64)
	yu, ok2 := b.(uint64)
	if ok1 && ok2 {
		if sg {
			return sx(xu, w) < sx(yu, w)
		}
		return xu < yu
	}
	return m.symArith(token.LSS, a, b, w, sg)
}
