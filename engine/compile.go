package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type invokeInfo struct {
	meth *types.Func
}

func constVal(c *ssa.Const) value {
	t := c.Type()
	if c.Value == nil {
		return zero(t)
	}
	if tp, ok := t.(*types.TypeParam); ok {
		panic("const of type param " + tp.String())
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return zero(t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		w, _, _ := intKind(t)
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return u & mask(w)
		}
		i, _ := constant.Int64Val(v)
		return uint64(i) & mask(w)
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return f
	case b.Info()&types.IsComplex != 0:
		re, _ := constant.Float64Val(constant.Real(c.Value))
		im, _ := constant.Float64Val(constant.Imag(c.Value))
		return complex(re, im)
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	}
	return zero(t)
}

type compiler struct {
	L   *Loader
	fi  *fnInfo
	reg map[ssa.Value]int
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, glob: -1, val: constVal(x)}
	case *ssa.Global:
		return opnd{reg: -1, glob: c.L.globalIDLocked(x)}
	case *ssa.Function:
		return opnd{reg: -1, glob: -1, val: x}
	case *ssa.Builtin:
		return opnd{reg: -1, glob: -1, val: x}
	}
	r, ok := c.reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, c.fi.fn))
	}
	return opnd{reg: r, glob: -1}
}

func (L *Loader) compile(fi *fnInfo) {
	fn := fi.fn
	c := &compiler{L: L, fi: fi, reg: map[ssa.Value]int{}}
	n := 0
	add := func(v ssa.Value) int {
		c.reg[v] = n
		n++
		return n - 1
	}
	for _, p := range fn.Params {
		fi.params = append(fi.params, add(p))
	}
	for _, p := range fn.FreeVars {
		fi.frees = append(fi.frees, add(p))
	}
	blks := make([]*blkInfo, len(fn.Blocks))
	for i, b := range fn.Blocks {
		blks[i] = &blkInfo{idx: i, fi: fi, b: b}
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
		}
	}
	for i, b := range fn.Blocks {
		for _, s := range b.Succs {
			blks[i].succs = append(blks[i].succs, blks[s.Index])
		}
		for _, ins := range b.Instrs {
			if p, ok := ins.(*ssa.Phi); ok {
				pi := phiInfo{dst: c.reg[p]}
				for _, e := range p.Edges {
					pi.edges = append(pi.edges, c.opnd(e))
				}
				blks[i].phis = append(blks[i].phis, pi)
			}
		}
	}
	fi.nregs = n
	fi.blocks = blks
	for _, b := range blks {
		b.pure = true
		for _, ins := range b.b.Instrs {
			switch x := ins.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				continue
			case *ssa.If:
				o := c.opnd(x.Cond)
				b.ifCond = &o
				b.code = append(b.code, c.compileIf(b, o))
				continue
			case *ssa.Jump:
				b.code = append(b.code, c.compileJump(b))
				continue
			}
			if isPureIns(ins) {
				b.npure++
			} else {
				b.pure = false
			}
			b.code = append(b.code, c.instr(ins))
		}
		if b.npure > 12 {
			b.pure = false
		}
		if len(b.phis) > 0 {
			// treated separately
		}
	}
	// synthetic recovery block
	rb := &blkInfo{idx: -1, fi: fi}
	rb.code = append(rb.code, runDefersOp)
	if fn.Recover != nil {
		target := blks[fn.Recover.Index]
		rb.code = append(rb.code, func(m *M, fr *frame) { fr.blk = target; fr.pc = 0 })
	} else {
		res := fn.Signature.Results()
		rb.code = append(rb.code, func(m *M, fr *frame) {
			var v value
			if res.Len() == 1 {
				v = zero(res.At(0).Type())
			} else if res.Len() > 1 {
				v = zero(res)
			}
			m.doReturn(fr, v)
		})
	}
	fi.recovB = rb
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0
}

// isPureIns: side-effect-free, cannot panic, scalar.
func isPureIns(ins ssa.Instruction) bool {
	switch x := ins.(type) {
	case *ssa.BinOp:
		if !isScalar(x.X.Type()) || !isScalar(x.Type()) {
			return false
		}
		switch x.Op {
		case token.QUO, token.REM, token.SHL, token.SHR:
			return false
		}
		return true
	case *ssa.UnOp:
		switch x.Op {
		case token.NOT, token.SUB, token.XOR:
			return isScalar(x.X.Type())
		}
		return false
	case *ssa.Convert:
		return isScalar(x.X.Type()) && isScalar(x.Type())
	case *ssa.ChangeType:
		return isScalar(x.Type())
	}
	return false
}

func runDefersOp(m *M, fr *frame) {
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.pc--
		m.startDeferred(fr, d)
	}
}

func predIndex(from *ssa.BasicBlock, to *ssa.BasicBlock, nth int) int {
	// nth successor edge of from that goes to `to`
	k := 0
	for i := 0; i < nth; i++ {
		if from.Succs[i] == to {
			k++
		}
	}
	for i, p := range to.Preds {
		if p == from {
			if k == 0 {
				return i
			}
			k--
		}
	}
	panic("predIndex")
}

func (m *M) enter(fr *frame, to *blkInfo, edge int) {
	if n := len(to.phis); n > 0 {
		if n == 1 {
			fr.regs[to.phis[0].dst] = to.phis[0].edges[edge].get(m, fr)
		} else {
			var tmp [8]value
			var t []value
			if n <= 8 {
				t = tmp[:n]
			} else {
				t = make([]value, n)
			}
			for i := range to.phis {
				t[i] = to.phis[i].edges[edge].get(m, fr)
			}
			for i := range to.phis {
				fr.regs[to.phis[i].dst] = t[i]
			}
		}
	}
	fr.blk = to
	fr.pc = 0
}

func (c *compiler) compileJump(b *blkInfo) op {
	to := b.succs[0]
	e := predIndex(b.b, to.b, 0)
	return func(m *M, fr *frame) { m.enter(fr, to, e) }
}

func (c *compiler) compileIf(b *blkInfo, cond opnd) op {
	t, f := b.succs[0], b.succs[1]
	et, ef := predIndex(b.b, t.b, 0), predIndex(b.b, f.b, 1)
	return func(m *M, fr *frame) {
		v := cond.get(m, fr)
		if bv, ok := v.(bool); ok {
			if bv {
				m.enter(fr, t, et)
			} else {
				m.enter(fr, f, ef)
			}
			return
		}
		m.symIf(fr, b, v.(*Expr))
	}
}

func (c *compiler) instr(ins ssa.Instruction) op {
	dst := -1
	if v, ok := ins.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch x := ins.(type) {
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.Call:
		return c.callOp(&x.Call, dst)
	case *ssa.ChangeInterface:
		a := c.opnd(x.X)
		return func(m *M, fr *frame) { fr.regs[dst] = a.get(m, fr) }
	case *ssa.ChangeType:
		a := c.opnd(x.X)
		return func(m *M, fr *frame) { fr.regs[dst] = a.get(m, fr) }
	case *ssa.Convert:
		a := c.opnd(x.X)
		from, to := x.X.Type(), x.Type()
		return func(m *M, fr *frame) { fr.regs[dst] = m.convert(a.get(m, fr), from, to) }
	case *ssa.MultiConvert:
		a := c.opnd(x.X)
		from, to := x.X.Type(), x.Type()
		return func(m *M, fr *frame) { fr.regs[dst] = m.convert(a.get(m, fr), from, to) }
	case *ssa.SliceToArrayPointer:
		a := c.opnd(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(m *M, fr *frame) {
			s := a.get(m, fr).([]value)
			if int64(len(s)) < n {
				m.rtPanic("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[dst] = (*value)(nil)
				return
			}
			p := new(value)
			*p = arrayV(s[:n:n])
			fr.regs[dst] = p
		}
	case *ssa.MakeInterface:
		a := c.opnd(x.X)
		t := x.X.Type()
		return func(m *M, fr *frame) { fr.regs[dst] = ifaceV{t, copyVal(a.get(m, fr))} }
	case *ssa.Extract:
		a := c.opnd(x.Tuple)
		i := x.Index
		return func(m *M, fr *frame) { fr.regs[dst] = a.get(m, fr).(tupleV)[i] }
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(m *M, fr *frame) {
			p := new(value)
			*p = zero(t)
			fr.regs[dst] = p
		}
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		bs := make([]opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = c.opnd(b)
		}
		return func(m *M, fr *frame) {
			env := make([]value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(m, fr)
			}
			fr.regs[dst] = &closure{fn, env}
		}
	case *ssa.MakeSlice:
		ln, cp := c.opnd(x.Len), c.opnd(x.Cap)
		lt := x.Len.Type()
		ct := x.Cap.Type()
		et := x.Type().Underlying().(*types.Slice).Elem()
		z := zero(et)
		return func(m *M, fr *frame) {
			fr.regs[dst] = m.makeSlice(ln.get(m, fr), lt, cp.get(m, fr), ct, z, et)
		}
	case *ssa.MakeMap:
		kt := x.Type().Underlying().(*types.Map).Key()
		return func(m *M, fr *frame) { fr.regs[dst] = m.newMap(kt) }
	case *ssa.MakeChan:
		sz := c.opnd(x.Size)
		return func(m *M, fr *frame) {
			m.seq++
			fr.regs[dst] = &chanV{capn: int(m.concInt(sz.get(m, fr))), seq: m.seq}
		}
	case *ssa.Slice:
		return c.sliceOp(x, dst)
	case *ssa.FieldAddr:
		a := c.opnd(x.X)
		f := x.Field
		return func(m *M, fr *frame) {
			switch p := a.get(m, fr).(type) {
			case *value:
				if p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				s, ok := (*p).(structV)
				if !ok {
					m.unsupported("FieldAddr on %T", *p)
				}
				fr.regs[dst] = &s[f]
			case *symPtr:
				q := m.concPtr(p)
				fr.regs[dst] = &(*q).(structV)[f]
			default:
				m.unsupported("FieldAddr of %T", p)
			}
		}
	case *ssa.Field:
		a := c.opnd(x.X)
		f := x.Field
		return func(m *M, fr *frame) { fr.regs[dst] = copyVal(a.get(m, fr).(structV)[f]) }
	case *ssa.IndexAddr:
		a, i := c.opnd(x.X), c.opnd(x.Index)
		it := x.Index.Type()
		et := x.Type().Underlying().(*types.Pointer).Elem()
		return func(m *M, fr *frame) {
			var cells []value
			switch s := a.get(m, fr).(type) {
			case []value:
				cells = s
			case *value:
				if s == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				cells = (*s).(arrayV)
			case *symPtr:
				cells = (*m.concPtr(s)).(arrayV)
			default:
				m.unsupported("IndexAddr of %T", s)
			}
			iv := i.get(m, fr)
			if u, ok := iv.(uint64); ok {
				w, sg, _ := intKind(it)
				if sg && sx(u, w) < 0 || u >= uint64(len(cells)) {
					m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", sx(u, w), len(cells)))
				}
				fr.regs[dst] = &cells[u]
				return
			}
			e := m.boundsCheck(iv.(*Expr), it, len(cells))
			if e.isConst() {
				fr.regs[dst] = &cells[e.val]
				return
			}
			fr.regs[dst] = &symPtr{cells, e, et}
		}
	case *ssa.Index:
		a, i := c.opnd(x.X), c.opnd(x.Index)
		it := x.Index.Type()
		et := x.Type()
		return func(m *M, fr *frame) {
			av := a.get(m, fr)
			iv := i.get(m, fr)
			if s, ok := av.(arrayV); ok {
				fr.regs[dst] = m.indexCells(s, iv, it, et)
				return
			}
			fr.regs[dst] = m.strIndex(av, iv, it)
		}
	case *ssa.Lookup:
		a, i := c.opnd(x.X), c.opnd(x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			it := x.Index.Type()
			return func(m *M, fr *frame) { fr.regs[dst] = m.strIndex(a.get(m, fr), i.get(m, fr), it) }
		}
		mt := x.X.Type().Underlying().(*types.Map)
		commaOk := x.CommaOk
		return func(m *M, fr *frame) {
			mp := a.get(m, fr).(*mapV)
			e := m.mapFind(mp, i.get(m, fr), false)
			var v value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = zero(mt.Elem())
			}
			if commaOk {
				fr.regs[dst] = tupleV{v, e != nil}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		mp, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		return func(m *M, fr *frame) {
			mm := mp.get(m, fr).(*mapV)
			if mm == nil {
				panic(goPanic{ifaceV{t: m.L.rtErrType, v: "assignment to entry in nil map"}})
			}
			m.mapSet(mm, k.get(m, fr), copyVal(v.get(m, fr)))
		}
	case *ssa.Range:
		a := c.opnd(x.X)
		return func(m *M, fr *frame) { fr.regs[dst] = m.rangeIter(a.get(m, fr)) }
	case *ssa.Next:
		a := c.opnd(x.Iter)
		isStr := x.IsString
		tt := x.Type().(*types.Tuple)
		return func(m *M, fr *frame) { m.next(fr, dst, a.get(m, fr), isStr, tt) }
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	case *ssa.Store:
		a, v := c.opnd(x.Addr), c.opnd(x.Val)
		return func(m *M, fr *frame) {
			val := copyVal(v.get(m, fr))
			switch p := a.get(m, fr).(type) {
			case *value:
				if p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				m.store(p, val)
			case *symPtr:
				m.store(m.concPtr(p), val)
			default:
				m.unsupported("store through %T", p)
			}
		}
	case *ssa.Return:
		rs := make([]opnd, len(x.Results))
		for i, r := range x.Results {
			rs[i] = c.opnd(r)
		}
		switch len(rs) {
		case 0:
			return func(m *M, fr *frame) { m.doReturn(fr, nil) }
		case 1:
			return func(m *M, fr *frame) { m.doReturn(fr, rs[0].get(m, fr)) }
		}
		return func(m *M, fr *frame) {
			t := make(tupleV, len(rs))
			for i := range rs {
				t[i] = rs[i].get(m, fr)
			}
			m.doReturn(fr, t)
		}
	case *ssa.RunDefers:
		return runDefersOp
	case *ssa.Panic:
		a := c.opnd(x.X)
		return func(m *M, fr *frame) {
			v := a.get(m, fr).(ifaceV)
			if v.t == nil {
				v = ifaceV{t: m.L.rtErrType, v: "panic called with nil argument"}
			}
			panic(goPanic{v})
		}
	case *ssa.Defer:
		fnO, args, inv := c.callParts(&x.Call)
		return func(m *M, fr *frame) {
			d := deferred{inv: inv}
			if inv == nil {
				d.fn = fnO.get(m, fr)
			} else {
				r := fnO.get(m, fr)
				d.args = append(d.args, r)
			}
			for i := range args {
				d.args = append(d.args, copyVal(args[i].get(m, fr)))
			}
			fr.defers = append(fr.defers, d)
		}
	case *ssa.Go:
		fnO, args, inv := c.callParts(&x.Call)
		return func(m *M, fr *frame) {
			var as []value
			f := fnO.get(m, fr)
			if inv != nil {
				r := f.(ifaceV)
				if r.t == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				f = m.lookupMethod(r.t, inv.meth)
				as = append(as, r.v)
			}
			for i := range args {
				as = append(as, copyVal(args[i].get(m, fr)))
			}
			m.spawn(f, as, "go")
		}
	case *ssa.Send:
		ch, v := c.opnd(x.Chan), c.opnd(x.X)
		return func(m *M, fr *frame) { m.chanSend(fr, ch.get(m, fr).(*chanV), copyVal(v.get(m, fr))) }
	case *ssa.Select:
		return c.selectOp(x, dst)
	case *ssa.DebugRef:
		return func(m *M, fr *frame) {}
	}
	panic(fmt.Sprintf("unhandled instr %T", ins))
}

func (c *compiler) callParts(call *ssa.CallCommon) (opnd, []opnd, *invokeInfo) {
	args := make([]opnd, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.opnd(a)
	}
	if call.IsInvoke() {
		return c.opnd(call.Value), args, &invokeInfo{call.Method}
	}
	return c.opnd(call.Value), args, nil
}

func (c *compiler) callOp(call *ssa.CallCommon, dst int) op {
	fnO, args, inv := c.callParts(call)
	if inv != nil {
		meth := inv.meth
		return func(m *M, fr *frame) {
			recv := fnO.get(m, fr).(ifaceV)
			if recv.t == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			as := make([]value, 1+len(args))
			for i := range args {
				as[i+1] = copyVal(args[i].get(m, fr))
			}
			if recv.t == m.L.rtErrType {
				if meth.Name() == "Error" {
					fr.regs[dst] = recv.v
				}
				return
			}
			f := m.lookupMethod(recv.t, meth)
			if f == nil {
				if o, ok := recv.v.(*opaque); ok {
					fr.regs[dst] = m.opaqueCall(o, meth.Name(), as[1:])
					return
				}
				m.unsupported("method %s not found on %v", meth.Name(), recv.t)
			}
			as[0] = copyVal(recv.v)
			m.callFn(m.L.fn(f), as, nil, dst)
		}
	}
	if b, ok := call.Value.(*ssa.Builtin); ok {
		cc := call
		return func(m *M, fr *frame) {
			var buf [4]value
			as := buf[:0]
			for i := range args {
				as = append(as, args[i].get(m, fr))
			}
			r := m.builtin(b, as, cc)
			if dst >= 0 {
				fr.regs[dst] = r
			}
		}
	}
	if f, ok := call.Value.(*ssa.Function); ok {
		var fi *fnInfo
		return func(m *M, fr *frame) {
			if fi == nil {
				fi = m.L.fn(f)
			}
			as := make([]value, len(args))
			for i := range args {
				as[i] = copyVal(args[i].get(m, fr))
			}
			m.callFn(fi, as, nil, dst)
		}
	}
	return func(m *M, fr *frame) {
		f := fnO.get(m, fr)
		as := make([]value, len(args))
		for i := range args {
			as[i] = copyVal(args[i].get(m, fr))
		}
		m.call(f, as, dst)
	}
}

func (c *compiler) binop(x *ssa.BinOp, dst int) op {
	a, b := c.opnd(x.X), c.opnd(x.Y)
	t := x.X.Type()
	tk := x.Op
	if w, sg, ok := intKind(t); ok {
		switch tk {
		case token.SHL, token.SHR:
			yw, ysg, _ := intKind(x.Y.Type())
			return func(m *M, fr *frame) {
				fr.regs[dst] = m.shift(tk, a.get(m, fr), w, sg, b.get(m, fr), yw, ysg)
			}
		case token.QUO, token.REM:
			return func(m *M, fr *frame) {
				fr.regs[dst] = m.divide(tk, a.get(m, fr), b.get(m, fr), w, sg)
			}
		}
		mk := mask(w)
		slow := func(m *M, xv, yv value) value { return m.symArith(tk, xv, yv, w, sg) }
		get2 := func(m *M, fr *frame) (uint64, uint64, value, value, bool) {
			xv, yv := a.get(m, fr), b.get(m, fr)
			xu, ok1 := xv.(uint64)
			yu, ok2 := yv.(uint64)
			return xu, yu, xv, yv, ok1 && ok2
		}
		mkop := func(f func(x, y uint64) value) op {
			return func(m *M, fr *frame) {
				xu, yu, xv, yv, ok := get2(m, fr)
				if ok {
					fr.regs[dst] = f(xu, yu)
					return
				}
				fr.regs[dst] = slow(m, xv, yv)
			}
		}
		switch tk {
		case token.ADD:
			return mkop(func(x, y uint64) value { return (x + y) & mk })
		case token.SUB:
			return mkop(func(x, y uint64) value { return (x - y) & mk })
		case token.MUL:
			return mkop(func(x, y uint64) value { return (x * y) & mk })
		case token.AND:
			return mkop(func(x, y uint64) value { return x & y })
		case token.OR:
			return mkop(func(x, y uint64) value { return x | y })
		case token.XOR:
			return mkop(func(x, y uint64) value { return x ^ y })
		case token.AND_NOT:
			return mkop(func(x, y uint64) value { return x &^ y })
		case token.EQL:
			return mkop(func(x, y uint64) value { return x == y })
		case token.NEQ:
			return mkop(func(x, y uint64) value { return x != y })
		case token.LSS:
			if sg {
				return mkop(func(x, y uint64) value { return sx(x, w) < sx(y, w) })
			}
			return mkop(func(x, y uint64) value { return x < y })
		case token.LEQ:
			if sg {
				return mkop(func(x, y uint64) value { return sx(x, w) <= sx(y, w) })
			}
			return mkop(func(x, y uint64) value { return x <= y })
		case token.GTR:
			if sg {
				return mkop(func(x, y uint64) value { return sx(x, w) > sx(y, w) })
			}
			return mkop(func(x, y uint64) value { return x > y })
		case token.GEQ:
			if sg {
				return mkop(func(x, y uint64) value { return sx(x, w) >= sx(y, w) })
			}
			return mkop(func(x, y uint64) value { return x >= y })
		}
	}
	switch tk {
	case token.EQL:
		return func(m *M, fr *frame) { fr.regs[dst] = m.equals(t, a.get(m, fr), b.get(m, fr)) }
	case token.NEQ:
		return func(m *M, fr *frame) { fr.regs[dst] = m.notV(m.equals(t, a.get(m, fr), b.get(m, fr))) }
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt != nil && bt.Info()&types.IsString != 0 {
		return func(m *M, fr *frame) {
			xv, yv := a.get(m, fr), b.get(m, fr)
			switch tk {
			case token.ADD:
				fr.regs[dst] = strCat(xv, yv)
			case token.LSS:
				fr.regs[dst] = m.strLess(xv, yv)
			case token.GTR:
				fr.regs[dst] = m.strLess(yv, xv)
			case token.LEQ:
				fr.regs[dst] = m.notV(m.strLess(yv, xv))
			case token.GEQ:
				fr.regs[dst] = m.notV(m.strLess(xv, yv))
			}
		}
	}
	if bt != nil && bt.Info()&types.IsFloat != 0 {
		is32 := bt.Kind() == types.Float32
		return func(m *M, fr *frame) {
			xf, yf := a.get(m, fr).(float64), b.get(m, fr).(float64)
			var r float64
			switch tk {
			case token.ADD:
				r = xf + yf
			case token.SUB:
				r = xf - yf
			case token.MUL:
				r = xf * yf
			case token.QUO:
				r = xf / yf
			case token.LSS:
				fr.regs[dst] = xf < yf
				return
			case token.LEQ:
				fr.regs[dst] = xf <= yf
				return
			case token.GTR:
				fr.regs[dst] = xf > yf
				return
			case token.GEQ:
				fr.regs[dst] = xf >= yf
				return
			}
			if is32 {
				r = float64(float32(r))
			}
			fr.regs[dst] = r
		}
	}
	if bt != nil && bt.Info()&types.IsComplex != 0 {
		return func(m *M, fr *frame) {
			xf, yf := a.get(m, fr).(complex128), b.get(m, fr).(complex128)
			switch tk {
			case token.ADD:
				fr.regs[dst] = xf + yf
			case token.SUB:
				fr.regs[dst] = xf - yf
			case token.MUL:
				fr.regs[dst] = xf * yf
			case token.QUO:
				fr.regs[dst] = xf / yf
			}
		}
	}
	return func(m *M, fr *frame) { m.unsupported("binop %v on %v", tk, t) }
}

func (c *compiler) unop(x *ssa.UnOp, dst int) op {
	a := c.opnd(x.X)
	t := x.X.Type()
	switch x.Op {
	case token.MUL:
		return func(m *M, fr *frame) {
			switch p := a.get(m, fr).(type) {
			case *value:
				if p == nil {
					m.rtPanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[dst] = m.load(p)
			case *symPtr:
				fr.regs[dst] = m.loadSym(p)
			default:
				m.unsupported("load through %T", p)
			}
		}
	case token.NOT:
		return func(m *M, fr *frame) { fr.regs[dst] = m.notV(a.get(m, fr)) }
	case token.SUB:
		if w, _, ok := intKind(t); ok {
			return func(m *M, fr *frame) {
				switch v := a.get(m, fr).(type) {
				case uint64:
					fr.regs[dst] = (-v) & mask(w)
				case *Expr:
					fr.regs[dst] = fromEx(m.ctx.Bin(OSub, m.ctx.Const(w, 0), v))
				}
			}
		}
		return func(m *M, fr *frame) {
			switch v := a.get(m, fr).(type) {
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			}
		}
	case token.XOR:
		w, _, _ := intKind(t)
		return func(m *M, fr *frame) {
			switch v := a.get(m, fr).(type) {
			case uint64:
				fr.regs[dst] = (^v) & mask(w)
			case *Expr:
				fr.regs[dst] = fromEx(m.ctx.Bin(OBXor, v, m.ctx.Const(w, mask(w))))
			}
		}
	case token.ARROW:
		commaOk := x.CommaOk
		et := t.Underlying().(*types.Chan).Elem()
		return func(m *M, fr *frame) { m.chanRecv(fr, dst, a.get(m, fr).(*chanV), commaOk, et) }
	}
	panic("unop " + x.Op.String())
}

func (c *compiler) sliceOp(x *ssa.Slice, dst int) op {
	a := c.opnd(x.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.opnd(v)
		return &o
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	return func(m *M, fr *frame) {
		av := a.get(m, fr)
		ix := func(o *opnd, d int) int {
			if o == nil {
				return d
			}
			return int(int64(m.concInt(o.get(m, fr))))
		}
		switch s := av.(type) {
		case string, *SymStr:
			n := strLen(s)
			l, h := ix(lo, 0), ix(hi, n)
			if h < 0 || h > n {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = strSlice(s, l, h)
		case []value:
			l, h := ix(lo, 0), ix(hi, len(s))
			c := ix(mx, cap(s))
			if c < 0 || c > cap(s) || h < 0 || h > c {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, cap(s)))
			}
			if l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			if s == nil {
				fr.regs[dst] = []value(nil)
				return
			}
			fr.regs[dst] = s[l:h:c]
		case *value:
			if s == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			arr := []value((*s).(arrayV))
			l, h := ix(lo, 0), ix(hi, len(arr))
			c := ix(mx, len(arr))
			if c < 0 || c > len(arr) || h < 0 || h > c {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, len(arr)))
			}
			if l < 0 || l > h {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			fr.regs[dst] = arr[l:h:c]
		default:
			m.unsupported("slice of %T", av)
		}
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) op {
	a := c.opnd(x.X)
	t := x.AssertedType
	commaOk := x.CommaOk
	it, isIface := t.Underlying().(*types.Interface)
	return func(m *M, fr *frame) {
		v := a.get(m, fr).(ifaceV)
		ok := false
		var res value
		if v.t != nil {
			if isIface {
				ok = m.implements(v.t, it, t)
				res = v
			} else {
				ok = identical(v.t, t)
				res = v.v
			}
		}
		if commaOk {
			if !ok {
				res = zero(t)
			}
			fr.regs[dst] = tupleV{copyVal(res), ok}
			return
		}
		if !ok {
			m.rtPanicT(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, t))
		}
		fr.regs[dst] = copyVal(res)
	}
}

func (m *M) rtPanicT(msg string) { panic(goPanic{ifaceV{t: m.L.rtErrType, v: msg}}) }

func (c *compiler) selectOp(x *ssa.Select, dst int) op {
	type st struct {
		ch, v opnd
		send  bool
		et    types.Type
	}
	var sts []st
	nrecv := 0
	for _, s := range x.States {
		e := st{ch: c.opnd(s.Chan), send: s.Dir == types.SendOnly, et: s.Chan.Type().Underlying().(*types.Chan).Elem()}
		if e.send {
			e.v = c.opnd(s.Send)
		} else {
			nrecv++
		}
		sts = append(sts, e)
	}
	blocking := x.Blocking
	return func(m *M, fr *frame) {
		g := m.cur
		w := g.sw
		g.sw = nil
		i, v, ok := -1, value(nil), false
		if w != nil && w.done { // another goroutine took part in one of the cases
			i, v, ok = w.idx, w.v, w.ok
		} else {
			if w != nil {
				w.done = true // its entries are void
			}
			ready := func() int {
				for i := range sts {
					ch := sts[i].ch.get(m, fr).(*chanV)
					if ch == nil {
						continue
					}
					if sts[i].send {
						if ch.closed || m.canSend(ch, g) {
							return i
						}
					} else if m.canRecv(ch, g) {
						return i
					}
				}
				return -1
			}
			i = ready()
			if i < 0 && blocking {
				w := &selGroup{g: g}
				for k := range sts {
					ch := sts[k].ch.get(m, fr).(*chanV)
					if ch == nil {
						continue
					}
					e := &waiter{g: g, sel: k, grp: w}
					if sts[k].send {
						e.v = copyVal(sts[k].v.get(m, fr))
						ch.selSend = append(ch.selSend, e)
					} else {
						ch.selRecv = append(ch.selRecv, e)
					}
				}
				g.sw = w
				m.block(fr, "select", func() bool { return w.done || ready() >= 0 })
				return
			}
			if i >= 0 {
				ch := sts[i].ch.get(m, fr).(*chanV)
				if sts[i].send {
					m.doSend(ch, copyVal(sts[i].v.get(m, fr)), g)
				} else {
					v, ok = m.doRecv(ch, g)
				}
			}
		}
		res := make(tupleV, 2+nrecv)
		res[0], res[1] = uint64(i)&mask(64), ok
		k := 2
		for j := range sts {
			if !sts[j].send {
				res[k] = zero(sts[j].et)
				if j == i && v != nil {
					res[k] = v
				}
				k++
			}
		}
		fr.regs[dst] = res
	}
}

var _ = math.Abs
var _ = utf8.RuneError
