package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const symPkg = modPath + "/zzverif/sym"

type lockState struct {
	w       bool
	nr      int
	pend    int    // writers waiting: they keep new readers out
	queue   []*gor // readers waiting
	name    string
	waiting int
}

func (m *M) lockOf(p *value) *lockState {
	if m.held == nil {
		m.held = map[*value]*lockState{}
	}
	l := m.held[p]
	if l == nil {
		l = &lockState{}
		m.held[p] = l
	}
	return l
}

func (m *M) heldLocks() string {
	var s []string
	for _, l := range m.held {
		if l.w {
			s = append(s, "write lock")
		}
		if l.nr > 0 {
			s = append(s, fmt.Sprintf("%d read lock(s)", l.nr))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ", ")
}

func (m *M) traceAtomic(p *value, write bool) {
	if m.tr != nil {
		m.tr.atomicOp(m, p, write)
	}
}

func (m *M) nativeFrame() *frame { return m.cur.top }

// lockOp models sync.Mutex and sync.RWMutex: a waiting writer keeps new readers
// out, and the readers waiting when a writer unlocks go before the next writer.
func (m *M) lockOp(op string, pv value) value {
	p, ok := pv.(*value)
	if !ok || p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	l := m.lockOf(p)
	g := m.cur
	fr := m.nativeFrame()
	if m.par != nil && strings.HasSuffix(op, "Lock") && !strings.HasSuffix(op, "nlock") {
		if m.preempt(fr) {
			return false
		}
	}
	trace := func(acq, rd bool) {
		if m.tr != nil {
			m.tr.lock(m, acq, rd, strings.HasPrefix(op, "Try"), p)
		}
	}
	again := func() { g.retry = m.par != nil && g.par && g.nest == 0 && lockByRepo(fr) }
	switch op {
	case "Lock":
		if l.w || l.nr > 0 {
			if m.initing > 0 {
				panic(pathEnd{"deadlock", "goroutine would block on a lock it already holds at " + m.stack(g)})
			}
			if g.wpend != l {
				g.wpend = l
				l.pend++
			}
			m.block(fr, "Lock", func() bool { return !l.w && l.nr == 0 })
			again()
			return nil
		}
		if g.wpend == l {
			g.wpend = nil
			l.pend--
		}
		l.w = true
		trace(true, false)
	case "Unlock":
		if !l.w {
			panic(pathEnd{"panic", "fatal error: sync: unlock of unlocked mutex"})
		}
		trace(false, false)
		l.w = false
		for _, r := range l.queue {
			r.grant = l
			l.nr++
		}
		l.queue = nil
	case "RLock":
		if g.grant == l {
			g.grant = nil
			trace(true, true)
			return nil
		}
		if l.w || l.pend > 0 {
			if m.initing > 0 {
				panic(pathEnd{"deadlock", "goroutine would block on a lock it already holds at " + m.stack(g)})
			}
			l.queue = append(l.queue, g)
			m.block(fr, "RLock", func() bool { return g.grant == l })
			again()
			return nil
		}
		l.nr++
		trace(true, true)
	case "RUnlock":
		if l.nr == 0 {
			panic(pathEnd{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
		}
		trace(false, true)
		l.nr--
	case "TryLock":
		if l.w || l.nr > 0 || l.pend > 0 {
			return false
		}
		l.w = true
		trace(true, false)
		return true
	case "TryRLock":
		if l.w || l.pend > 0 {
			return false
		}
		l.nr++
		trace(true, true)
		return true
	}
	return nil
}

// ---- generic byte-sequence search used by strings/bytes natives ----

type bseq interface {
	n() int
	at(i int) value
}
type strSeq struct{ v value }
type sliSeq struct{ v []value }

func (s strSeq) n() int         { return strLen(s.v) }
func (s strSeq) at(i int) value { return strAt(s.v, i) }
func (s sliSeq) n() int         { return len(s.v) }
func (s sliSeq) at(i int) value { return s.v[i] }

func seqOf(v value) bseq {
	switch x := v.(type) {
	case string, *SymStr:
		return strSeq{x}
	case []value:
		return sliSeq{x}
	}
	panic(fmt.Sprintf("seqOf %T", v))
}

func (m *M) byteEq(a, b value) value {
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		return x == y
	}
	return fromEx(m.ctx.Eq(m.toE(a, 8), m.toE(b, 8)))
}

func (m *M) matchAt(s bseq, i int, sub bseq) value {
	var r value = true
	for k := 0; k < sub.n(); k++ {
		r = m.andV(r, m.byteEq(s.at(i+k), sub.at(k)))
		if r == false {
			return false
		}
	}
	return r
}

func (m *M) index(s, sub bseq) int {
	for i := 0; i+sub.n() <= s.n(); i++ {
		if m.concBool(m.matchAt(s, i, sub)) {
			return i
		}
	}
	return -1
}

func (m *M) lastIndex(s, sub bseq) int {
	for i := s.n() - sub.n(); i >= 0; i-- {
		if m.concBool(m.matchAt(s, i, sub)) {
			return i
		}
	}
	return -1
}

func (m *M) containsNF(s, sub bseq) value {
	var r value = false
	for i := 0; i+sub.n() <= s.n(); i++ {
		r = m.orV(r, m.matchAt(s, i, sub))
		if r == true {
			return true
		}
	}
	return r
}

func (m *M) countSeq(s, sub bseq) int {
	n := 0
	for i := 0; i+sub.n() <= s.n(); {
		if m.concBool(m.matchAt(s, i, sub)) {
			n++
			i += sub.n()
		} else {
			i++
		}
	}
	return n
}

func oneByte(v value) bseq { return sliSeq{[]value{v}} }

func i2v(i int) value { return uint64(i) }

func (m *M) mapASCII(v value, lo, hi byte, delta int) value {
	b := strBytes(v)
	out := make([]value, len(b))
	for i, c := range b {
		if u, ok := c.(uint64); ok {
			if u >= 0x80 {
				m.unsupported("case mapping of non-ASCII in a partly symbolic string")
			}
			if u >= uint64(lo) && u <= uint64(hi) {
				u = uint64(int(u) + delta)
			}
			out[i] = u
			continue
		}
		e := c.(*Expr)
		if !m.decide(m.ctx.Ult(e, m.ctx.Const(8, 0x80))) {
			m.unsupported("case mapping of symbolic non-ASCII")
		}
		in := m.ctx.And(m.ctx.Ule(m.ctx.Const(8, uint64(lo)), e), m.ctx.Ule(e, m.ctx.Const(8, uint64(hi))))
		out[i] = fromEx(m.ctx.Ite(in, m.ctx.Bin(OAdd, e, m.ctx.Const(8, uint64(delta)&0xff)), e))
	}
	return mkStr(out)
}

func bothStr(a, b value) (string, string, bool) {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	return x, y, ok1 && ok2
}

// typ finds a named type of a loaded package.
func (L *Loader) namedType(pkg, name string) types.Type {
	p := L.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func (m *M) mkError(msg string) value {
	t := m.L.namedType("errors", "errorString")
	if t == nil {
		return ifaceV{m.L.rtErrType, msg}
	}
	p := new(value)
	*p = structV{msg}
	return ifaceV{types.NewPointer(t), p}
}

var ptrCache = map[types.Type]types.Type{}

func (m *M) pkgVar(pkg, name string) value {
	p := m.L.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	g := p.Var(name)
	if g == nil {
		return nil
	}
	return *(m.global(m.L.globalID(g)).(*value))
}

func registerNatives(L *Loader) {
	N := L.natives
	// sync
	for _, t := range []string{"Mutex", "RWMutex"} {
		for _, op := range []string{"Lock", "Unlock", "RLock", "RUnlock", "TryLock", "TryRLock"} {
			op := op
			N["(*sync."+t+")."+op] = func(m *M, a []value) value { return m.lockOp(op, a[0]) }
			N["(*internal/sync."+t+")."+op] = N["(*sync."+t+")."+op]
		}
	}
	N["(*sync.Pool).Get"] = func(m *M, a []value) value {
		s := (*(a[0].(*value))).(structV)
		nf := s[len(s)-1]
		if isNilVal(nf) {
			return ifaceV{}
		}
		return m.callSync(nf, nil)
	}
	N["(*sync.Pool).Put"] = func(m *M, a []value) value { return nil }
	N["(*sync.WaitGroup).Add"] = func(m *M, a []value) value {
		l := m.lockOf(a[0].(*value))
		l.waiting += int(int64(m.concInt(a[1])))
		return nil
	}
	N["(*sync.WaitGroup).Done"] = func(m *M, a []value) value {
		m.lockOf(a[0].(*value)).waiting--
		return nil
	}
	N["(*sync.WaitGroup).Wait"] = func(m *M, a []value) value {
		l := m.lockOf(a[0].(*value))
		if l.waiting > 0 {
			m.block(m.nativeFrame(), "WaitGroup.Wait", func() bool { return l.waiting <= 0 })
		}
		return nil
	}
	syncMapNatives(N)
	N["(*internal/godebug.Setting).Value"] = func(m *M, a []value) value { return "" }
	N["(*internal/godebug.Setting).IncNonDefault"] = func(m *M, a []value) value { return nil }
	// sync/atomic: typed values are structs whose last field holds the value
	atomicField := func(p *value) *value {
		for {
			s, ok := (*p).(structV)
			if !ok {
				return p
			}
			p = &s[len(s)-1]
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer", "Value"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		pre := "(*sync/atomic." + t + ")."
		if t == "Pointer" {
			pre = "(*sync/atomic.Pointer[T])."
		}
		isBool := t == "Bool"
		dec := func(v value) value {
			if isBool {
				if u, ok := v.(uint64); ok {
					return u != 0
				}
			}
			return v
		}
		enc := func(v value) value {
			if isBool {
				if b, ok := v.(bool); ok {
					return b2u(b)
				}
			}
			return v
		}
		N[pre+"Load"] = func(m *M, a []value) value {
			c := atomicField(a[0].(*value))
			m.traceAtomic(c, false)
			return dec(*c)
		}
		N[pre+"Store"] = func(m *M, a []value) value {
			c := atomicField(a[0].(*value))
			m.traceAtomic(c, true)
			m.setCell(c, enc(a[1]))
			return nil
		}
		N[pre+"Swap"] = func(m *M, a []value) value {
			c := atomicField(a[0].(*value))
			m.traceAtomic(c, true)
			o := *c
			m.setCell(c, enc(a[1]))
			return dec(o)
		}
		N[pre+"Add"] = func(m *M, a []value) value {
			c := atomicField(a[0].(*value))
			m.traceAtomic(c, true)
			n := ((*c).(uint64) + a[1].(uint64)) & mask(w)
			m.setCell(c, n)
			return n
		}
		for op, f := range map[string]func(x, y uint64) uint64{
			"And": func(x, y uint64) uint64 { return x & y },
			"Or":  func(x, y uint64) uint64 { return x | y },
		} {
			f := f
			N[pre+op] = func(m *M, a []value) value {
				c := atomicField(a[0].(*value))
				m.traceAtomic(c, true)
				o := *c
				m.setCell(c, f(o.(uint64), a[1].(uint64))&mask(w))
				return o
			}
		}
		N[pre+"CompareAndSwap"] = func(m *M, a []value) value {
			c := atomicField(a[0].(*value))
			m.traceAtomic(c, true)
			if m.equals(types.Typ[types.Int], *c, enc(a[1])) == true {
				m.setCell(c, enc(a[2]))
				return true
			}
			return false
		}
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(t, "32") {
			w = 32
		}
		N["sync/atomic.Swap"+t] = func(m *M, a []value) value {
			c := a[0].(*value)
			m.traceAtomic(c, true)
			o := *c
			m.setCell(c, a[1])
			return o
		}
		for op, f := range map[string]func(x, y uint64) uint64{
			"And": func(x, y uint64) uint64 { return x & y },
			"Or":  func(x, y uint64) uint64 { return x | y },
		} {
			f := f
			N["sync/atomic."+op+t] = func(m *M, a []value) value {
				c := a[0].(*value)
				m.traceAtomic(c, true)
				o := *c
				m.setCell(c, f(o.(uint64), a[1].(uint64))&mask(w))
				return o
			}
		}
		N["sync/atomic.Load"+t] = func(m *M, a []value) value {
			m.traceAtomic(a[0].(*value), false)
			return *(a[0].(*value))
		}
		N["sync/atomic.Store"+t] = func(m *M, a []value) value {
			m.traceAtomic(a[0].(*value), true)
			m.setCell(a[0].(*value), a[1])
			return nil
		}
		N["sync/atomic.Add"+t] = func(m *M, a []value) value {
			c := a[0].(*value)
			m.traceAtomic(c, true)
			n := ((*c).(uint64) + a[1].(uint64)) & mask(w)
			m.setCell(c, n)
			return n
		}
		N["sync/atomic.CompareAndSwap"+t] = func(m *M, a []value) value {
			c := a[0].(*value)
			m.traceAtomic(c, true)
			if m.equals(types.Typ[types.Int], *c, a[1]) == true {
				m.setCell(c, a[2])
				return true
			}
			return false
		}
	}
	// strings / bytes
	N["strings.Index"] = func(m *M, a []value) value {
		if x, y, ok := bothStr(a[0], a[1]); ok {
			return i2v(strings.Index(x, y))
		}
		return i2v(m.index(seqOf(a[0]), seqOf(a[1])))
	}
	N["internal/stringslite.Index"] = N["strings.Index"]
	N["strings.LastIndex"] = func(m *M, a []value) value {
		if x, y, ok := bothStr(a[0], a[1]); ok {
			return i2v(strings.LastIndex(x, y))
		}
		return i2v(m.lastIndex(seqOf(a[0]), seqOf(a[1])))
	}
	N["strings.IndexByte"] = func(m *M, a []value) value {
		if x, ok := a[0].(string); ok {
			if u, ok := a[1].(uint64); ok {
				return i2v(strings.IndexByte(x, byte(u)))
			}
		}
		return i2v(m.index(seqOf(a[0]), oneByte(a[1])))
	}
	for _, n := range []string{"internal/stringslite.IndexByte", "internal/bytealg.IndexByteString", "internal/bytealg.IndexByte", "bytes.IndexByte"} {
		N[n] = func(m *M, a []value) value {
			if x, ok := a[0].(string); ok {
				if u, ok := a[1].(uint64); ok {
					return i2v(strings.IndexByte(x, byte(u)))
				}
			}
			return i2v(m.index(seqOf(a[0]), oneByte(a[1])))
		}
	}
	N["strings.LastIndexByte"] = func(m *M, a []value) value { return i2v(m.lastIndex(seqOf(a[0]), oneByte(a[1]))) }
	N["internal/bytealg.LastIndexByteString"] = N["strings.LastIndexByte"]
	N["internal/bytealg.LastIndexByte"] = N["strings.LastIndexByte"]
	N["bytes.LastIndexByte"] = N["strings.LastIndexByte"]
	N["internal/bytealg.Index"] = func(m *M, a []value) value { return i2v(m.index(seqOf(a[0]), seqOf(a[1]))) }
	N["internal/bytealg.IndexString"] = N["internal/bytealg.Index"]
	N["bytes.Index"] = N["internal/bytealg.Index"]
	N["bytes.LastIndex"] = func(m *M, a []value) value { return i2v(m.lastIndex(seqOf(a[0]), seqOf(a[1]))) }
	N["strings.Contains"] = func(m *M, a []value) value {
		if x, y, ok := bothStr(a[0], a[1]); ok {
			return strings.Contains(x, y)
		}
		return m.containsNF(seqOf(a[0]), seqOf(a[1]))
	}
	N["bytes.Contains"] = func(m *M, a []value) value { return m.containsNF(seqOf(a[0]), seqOf(a[1])) }
	N["internal/bytealg.CountString"] = func(m *M, a []value) value {
		return i2v(m.countSeq(seqOf(a[0]), oneByte(a[1])))
	}
	N["internal/bytealg.Count"] = N["internal/bytealg.CountString"]
	N["internal/bytealg.MakeNoZero"] = func(m *M, a []value) value {
		n := int(m.concInt(a[0]))
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return s
	}
	N["internal/bytealg.Equal"] = func(m *M, a []value) value {
		return m.strEq(mkStr(append([]value(nil), a[0].([]value)...)), mkStr(append([]value(nil), a[1].([]value)...)))
	}
	N["bytes.Equal"] = N["internal/bytealg.Equal"]
	cmp := func(m *M, a []value) value {
		x, y := a[0], a[1]
		if s, ok := x.([]value); ok {
			x = mkStr(append([]value(nil), s...))
		}
		if s, ok := y.([]value); ok {
			y = mkStr(append([]value(nil), s...))
		}
		if p, q, ok := bothStr(x, y); ok {
			return i2v(strings.Compare(p, q))
		}
		if m.concBool(m.strEq(x, y)) {
			return uint64(0)
		}
		if m.concBool(m.strLess(x, y)) {
			return mask(64)
		}
		return uint64(1)
	}
	N["internal/bytealg.Compare"] = cmp
	N["internal/bytealg.CompareString"] = cmp
	N["bytes.Compare"] = cmp
	N["strings.Compare"] = cmp
	N["runtime.cmpstring"] = cmp
	N["strings.ToLower"] = func(m *M, a []value) value {
		if s, ok := a[0].(string); ok {
			return strings.ToLower(s)
		}
		return m.mapASCII(a[0], 'A', 'Z', 32)
	}
	N["strings.ToUpper"] = func(m *M, a []value) value {
		if s, ok := a[0].(string); ok {
			return strings.ToUpper(s)
		}
		return m.mapASCII(a[0], 'a', 'z', -32)
	}
	N["(*strings.Builder).copyCheck"] = func(m *M, a []value) value { return nil }
	N["(*strings.Builder).String"] = func(m *M, a []value) value {
		s := (*(a[0].(*value))).(structV)
		b, _ := s[1].([]value)
		return mkStr(append([]value(nil), b...))
	}
	N["strings.Clone"] = func(m *M, a []value) value { return a[0] }
	N["internal/stringslite.Clone"] = N["strings.Clone"]
	N["internal/abi.NoEscape"] = func(m *M, a []value) value { return a[0] }
	N["internal/abi.Escape"] = func(m *M, a []value) value { return a[0] }
	for _, p := range []string{"unicode/utf8.DecodeRuneInString", "unicode/utf8.DecodeRune"} {
		N[p] = func(m *M, a []value) value {
			var s value = a[0]
			if b, ok := s.([]value); ok {
				if len(b) > 4 {
					b = b[:4]
				}
				s = mkStr(append([]value(nil), b...))
			} else if strLen(s) > 4 {
				s = strSlice(s, 0, 4)
			}
			if strLen(s) == 0 {
				return tupleV{uint64(0xFFFD), uint64(0)}
			}
			r, n := m.decodeRune(s, 0)
			return tupleV{r, i2v(n)}
		}
	}
	// math
	N["math.Float64bits"] = func(m *M, a []value) value { return math.Float64bits(a[0].(float64)) }
	N["math.Float64frombits"] = func(m *M, a []value) value { return math.Float64frombits(m.concInt(a[0])) }
	N["math.Float32bits"] = func(m *M, a []value) value { return uint64(math.Float32bits(float32(a[0].(float64)))) }
	N["math.Float32frombits"] = func(m *M, a []value) value { return float64(math.Float32frombits(uint32(m.concInt(a[0])))) }
	for n, f := range map[string]func(float64) float64{"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Log": math.Log, "Exp": math.Exp, "Log2": math.Log2} {
		f := f
		N["math."+n] = func(m *M, a []value) value { return f(a[0].(float64)) }
	}
	bit1 := func(name string, f func(uint64) int) {
		N["math/bits."+name] = func(m *M, a []value) value { return i2v(f(m.concInt(a[0]))) }
	}
	bit1("TrailingZeros64", bits.TrailingZeros64)
	bit1("TrailingZeros", bits.TrailingZeros64)
	bit1("LeadingZeros64", bits.LeadingZeros64)
	bit1("Len64", bits.Len64)
	bit1("Len", bits.Len64)
	bit1("OnesCount64", bits.OnesCount64)
	bit1("TrailingZeros32", func(x uint64) int { return bits.TrailingZeros32(uint32(x)) })
	bit1("Len32", func(x uint64) int { return bits.Len32(uint32(x)) })
	N["math/bits.Mul64"] = func(m *M, a []value) value {
		h, l := bits.Mul64(m.concInt(a[0]), m.concInt(a[1]))
		return tupleV{h, l}
	}
	// runtime & co
	nop := func(m *M, a []value) value { return nil }
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "log.Printf", "log.Println", "log.Print", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge",
		"internal/race.Enable", "internal/race.Disable", "internal/race.ReadRange", "internal/race.WriteRange", "encoding/gob.Register", "encoding/gob.RegisterName", "internal/race.Read", "internal/race.Write", "internal/msan.Read", "internal/asan.Read"} {
		N[n] = nop
	}
	N["time.runtimeNow"] = func(m *M, a []value) value {
		return tupleV{uint64(1700000000), uint64(0), uint64(1)}
	}
	N["time.runtimeNano"] = func(m *M, a []value) value { return uint64(1) }
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		N[n] = func(m *M, a []value) value { panic(pathEnd{"panic", "process exit"}) }
	}
	N["(*sync.copyChecker).check"] = nop
	for n, f := range map[string]string{"Printf": "Sprintf", "Println": "Sprintln", "Print": "Sprint"} {
		N["fmt."+n] = func(m *M, a []value) value {
			if !m.capture { // nobody looks
				return tupleV{uint64(0), ifaceV{}}
			}
			s := m.callSync(m.L.prog.ImportedPackage("fmt").Func(f), a)
			m.stdout = strCat(m.stdout, s)
			return tupleV{i2v(strLen(s)), ifaceV{}}
		}
	}
	N["sort.Slice"] = func(m *M, a []value) value { m.sortSlice(a[0].(ifaceV).v, a[1]); return nil }
	N["sort.SliceStable"] = N["sort.Slice"]
	N["maps.clone"] = func(m *M, a []value) value {
		i := a[0].(ifaceV)
		mp := i.v.(*mapV)
		if mp == nil {
			return i
		}
		m.traceMap(mp, false)
		n := m.newMap(mp.kt)
		for _, e := range mp.ents {
			if e.live {
				m.mapInsert(n, e)
			}
		}
		return ifaceV{i.t, n}
	}
	N["slices.overlaps"] = func(m *M, a []value) value { // never far apart within one array here
		x, y := a[0].([]value), a[1].([]value)
		if len(x) == 0 || len(y) == 0 {
			return false
		}
		in := func(p *value, s []value) bool {
			for i := range s {
				if &s[i] == p {
					return true
				}
			}
			return false
		}
		return in(&x[0], y) || in(&y[0], x)
	}
	for n, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Mod": math.Mod, "Pow": math.Pow} {
		f := f
		N["math."+n] = func(m *M, a []value) value {
			x, ok := a[0].(float64)
			y, ok2 := a[1].(float64)
			if !ok || !ok2 {
				m.unsupported("arithmetic on symbolic floats")
			}
			return f(x, y)
		}
	}
	for n, f := range map[string]func(x float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Sqrt": math.Sqrt, "Log2": math.Log2, "Log10": math.Log10, "Log": math.Log, "Exp": math.Exp} {
		f := f
		N["math."+n] = func(m *M, a []value) value {
			x, ok := a[0].(float64)
			if !ok {
				m.unsupported("arithmetic on symbolic floats")
			}
			return f(x)
		}
	}
	N["errors.As"] = func(m *M, a []value) value { return m.errorsAs(a[0].(ifaceV), a[1].(ifaceV)) }
	N["errors.Is"] = func(m *M, a []value) value { return m.errorsIs(a[0].(ifaceV), a[1].(ifaceV)) }
	N["reflect.TypeOf"] = func(m *M, a []value) value {
		i := a[0].(ifaceV)
		if i.t == nil {
			return ifaceV{}
		}
		return ifaceV{m.L.rtypeType(), &opaque{"rtype", i.t}}
	}
	N["internal/reflectlite.TypeOf"] = N["reflect.TypeOf"]
	registerSym(L)
	registerIO(L)
	registerReflect(L)
}

func (L *Loader) rtypeType() types.Type {
	L.mu.Lock()
	defer L.mu.Unlock()
	if L.rtT == nil {
		L.rtT = types.NewNamed(types.NewTypeName(0, nil, "rtype", nil), types.NewStruct(nil, nil), nil)
	}
	return L.rtT
}

var builtinName = regexp.MustCompile(`(^|[^.\w])(byte|rune|any|interface\{\})(\W|$)`)

// reflectName is the name reflection gives a type.
func reflectName(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	for {
		r := builtinName.ReplaceAllStringFunc(s, func(w string) string {
			x := builtinName.FindStringSubmatch(w)
			return x[1] + map[string]string{"byte": "uint8", "rune": "int32", "any": "interface {}", "interface{}": "interface {}"}[x[2]] + x[3]
		})
		if r == s {
			return s
		}
		s = r
	}
}

func (m *M) opaqueCall(o *opaque, name string, args []value) value {
	switch o.kind {
	case "rtype":
		t := o.v.(types.Type)
		switch name {
		case "Comparable":
			return types.Comparable(t)
		case "String", "Name":
			return reflectName(t)
		case "Kind":
			return uint64(rkind(t))
		case "Elem":
			switch u := t.Underlying().(type) {
			case interface{ Elem() types.Type }:
				return ifaceV{m.L.rtypeType(), &opaque{"rtype", u.Elem()}}
			}
		case "Key":
			if u, ok := t.Underlying().(*types.Map); ok {
				return ifaceV{m.L.rtypeType(), &opaque{"rtype", u.Key()}}
			}
		case "Len":
			if u, ok := t.Underlying().(*types.Array); ok {
				return uint64(u.Len())
			}
		case "NumField":
			if u, ok := t.Underlying().(*types.Struct); ok {
				return i2v(u.NumFields())
			}
		case "Field":
			u, ok := t.Underlying().(*types.Struct)
			i, ok2 := args[0].(uint64)
			if !ok || !ok2 || i >= uint64(u.NumFields()) {
				break
			}
			f := u.Field(int(i))
			pkg := ""
			if !f.Exported() && f.Pkg() != nil {
				pkg = f.Pkg().Path()
			}
			return structV{f.Name(), pkg, ifaceV{m.L.rtypeType(), &opaque{"rtype", f.Type()}}, u.Tag(int(i)), uint64(0), []value{i}, f.Embedded()}
		}
	case "finfo":
		n := o.v.(*vfsNode)
		switch name {
		case "IsDir":
			return n.dir
		case "Name":
			i := strings.LastIndexByte(n.path, '/')
			return n.path[i+1:]
		case "Size":
			return uint64(strLen(n.data))
		case "Mode":
			if n.dir {
				return uint64(1<<31 | 0o755)
			}
			return uint64(0o644)
		case "Type":
			if n.dir {
				return uint64(1 << 31)
			}
			return uint64(0)
		case "Info":
			return tupleV{ifaceV{m.L.rtypeType(), o}, ifaceV{}}
		}
	}
	m.unsupported("method %s of opaque %s", name, o.kind)
	return nil
}

func reflectKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

// sortSlice models sort.Slice by insertion sort (what the library does for
// up to 12 elements; for longer slices any comparison sort of a strict weak
// order yields the same result up to ties).
func (m *M) sortSlice(sv value, less value) {
	s, _ := sv.([]value)
	for i := 1; i < len(s); i++ {
		for j := i; j > 0; j-- {
			if !m.concBool(m.callSync(less, []value{i2v(j), i2v(j - 1)})) {
				break
			}
			a, b := copyVal(s[j]), copyVal(s[j-1])
			m.store(&s[j], b)
			m.store(&s[j-1], a)
		}
	}
}

func (m *M) findMethod(t types.Type, name string) *ssa.Function {
	m.L.mu.Lock()
	ms := m.L.prog.MethodSets.MethodSet(t)
	var f *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f = m.L.prog.MethodValue(ms.At(i))
			break
		}
	}
	m.L.mu.Unlock()
	return f
}

func (m *M) errorsAs(err, target ifaceV) value {
	p, _ := target.v.(*value)
	pt, ok := types.Type(nil), false
	if target.t != nil {
		var x *types.Pointer
		if x, ok = target.t.Underlying().(*types.Pointer); ok {
			pt = x.Elem()
		}
	}
	if !ok || p == nil {
		if err.t == nil {
			return false
		}
		panic(goPanic{ifaceV{t: m.L.rtErrType, v: "errors: target must be a non-nil pointer"}})
	}
	it, isIface := pt.Underlying().(*types.Interface)
	for n := 0; n < 20 && err.t != nil; n++ {
		if isIface && m.implements(err.t, it, pt) {
			m.setCell(p, err)
			return true
		}
		if !isIface && identical(err.t, pt) {
			m.setCell(p, copyVal(err.v))
			return true
		}
		if err.t == m.L.rtErrType {
			return false
		}
		if f := m.findMethod(err.t, "As"); f != nil {
			if m.concBool(m.callSync(f, []value{err.v, target})) {
				return true
			}
		}
		f := m.findMethod(err.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
			for _, e := range m.callSync(f, []value{err.v}).([]value) {
				if m.errorsAs(e.(ifaceV), target) == true {
					return true
				}
			}
			return false
		}
		err = m.callSync(f, []value{err.v}).(ifaceV)
	}
	return false
}

func (m *M) errorsIs(err, target ifaceV) value {
	for n := 0; n < 20; n++ {
		if err.t == nil {
			return target.t == nil
		}
		if target.t != nil && identical(err.t, target.t) && types.Comparable(err.t) {
			if m.concBool(m.equals(err.t, err.v, target.v)) {
				return true
			}
		}
		if err.t == m.L.rtErrType {
			return false
		}
		if f := m.findMethod(err.t, "Is"); f != nil {
			if m.concBool(m.callSync(f, []value{err.v, target})) {
				return true
			}
		}
		f := m.findMethod(err.t, "Unwrap")
		if f == nil || f.Signature.Results().Len() != 1 {
			return false
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Interface); !ok {
			r := m.callSync(f, []value{err.v}).([]value)
			for _, e := range r {
				if m.errorsIs(e.(ifaceV), target) == true {
					return true
				}
			}
			return false
		}
		err = m.callSync(f, []value{err.v}).(ifaceV)
	}
	return false
}

// ---- harness intrinsics ----

func (m *M) symName(v value) string {
	n := m.concStr(v)
	k := m.names[n]
	m.names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (m *M) newVar(name string, w uint8) *Expr {
	v := m.ctx.Var(name, w)
	m.inputs = append(m.inputs, inputRec{name: name, v: v, w: w})
	val, ok := m.pending[name]
	if !ok {
		switch {
		case w == 8:
			val = 'a'
		case w == 0:
			val = 0
		default:
			val = 1
		}
	}
	m.model[v.vidx] = val & mask1(w)
	return v
}

func mask1(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func (m *M) assertCond(cv value, msg string) {
	st := func(f func(s *AssertStat)) {
		m.ex.mu.Lock()
		s := m.ex.asserts[msg]
		if s == nil {
			s = &AssertStat{}
			m.ex.asserts[msg] = s
		}
		f(s)
		m.ex.mu.Unlock()
	}
	m.stats.Asserts++
	switch c := cv.(type) {
	case bool:
		if !c {
			st(func(s *AssertStat) { s.Sites++; s.Failed++ })
			// the path condition itself is the counterexample
			m.ex.violate(m, "assert", msg, m.model)
			panic(pathEnd{"violation", msg})
		}
		m.stats.AssertsTrivial++
		st(func(s *AssertStat) { s.Sites++; s.Concrete++ })
	case *Expr:
		if m.pidx < len(m.prefix) {
			// already examined on the path this one was forked from
			st(func(s *AssertStat) { s.Sites++ })
			return
		}
		neg := m.ctx.Not(c)
		r, mod := m.sol.Check(m.pc, neg, m.wantVars(neg))
		switch r {
		case Unsat:
			st(func(s *AssertStat) { s.Sites++; s.Proved++ })
		case Sat:
			st(func(s *AssertStat) { s.Sites++; s.Failed++ })
			full := m.model.clone()
			for k, v := range mod {
				full[k] = v
			}
			m.ex.violate(m, "assert", msg, full)
			// continue on the part where it holds
			if !m.decideAssume(c) {
				panic(pathEnd{"violation", msg})
			}
		default:
			st(func(s *AssertStat) { s.Sites++; s.Unknown++ })
			m.ex.noteUnknown(m)
		}
	}
}

// decideAssume restricts the path to c; returns false when infeasible.
func (m *M) decideAssume(c *Expr) bool {
	if m.ctx.Eval(c, m.model) == 1 {
		m.addPC(c)
		return true
	}
	r, mod, _ := m.feasible(c)
	if r != Sat {
		return false
	}
	m.model = mod
	m.addPC(c)
	return true
}

func registerSym(L *Loader) {
	N := L.natives
	P := symPkg + "."
	intIn := func(name string, w uint8) {
		N[P+name] = func(m *M, a []value) value { return m.newVar(m.symName(a[0]), w) }
	}
	intIn("Byte", 8)
	intIn("Bool", 0)
	intIn("Int", 64)
	intIn("Int64", 64)
	intIn("Int32", 32)
	intIn("Uint32", 32)
	intIn("Uint64", 64)
	intIn("Uint16", 16)
	N[P+"String"] = func(m *M, a []value) value {
		base := m.symName(a[0])
		n := int(m.concInt(a[1]))
		b := make([]value, n)
		for i := range b {
			b[i] = m.newVar(fmt.Sprintf("%s[%d]", base, i), 8)
		}
		return mkStr(b)
	}
	N[P+"Bytes"] = func(m *M, a []value) value {
		base := m.symName(a[0])
		n := int(m.concInt(a[1]))
		b := make([]value, n)
		for i := range b {
			b[i] = m.newVar(fmt.Sprintf("%s[%d]", base, i), 8)
		}
		return b
	}
	N[P+"Choose"] = func(m *M, a []value) value {
		n := int(m.concInt(a[1]))
		k := m.choose(n)
		nm := m.symName(a[0])
		m.inputs = append(m.inputs, inputRec{name: nm, const_: uint64(k), w: 64})
		return i2v(k)
	}
	N[P+"Assume"] = func(m *M, a []value) value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(pathEnd{"infeasible", ""})
			}
		case *Expr:
			if m.pidx < len(m.prefix) {
				m.addPC(c)
				return nil
			}
			if !m.decideAssume(c) {
				panic(pathEnd{"infeasible", ""})
			}
		}
		return nil
	}
	N[P+"Assert"] = func(m *M, a []value) value { m.assertCond(a[0], m.concStr(a[1])); return nil }
	N[P+"Fail"] = func(m *M, a []value) value { m.assertCond(false, m.concStr(a[0])); return nil }
	N[P+"Reach"] = func(m *M, a []value) value { m.reach[m.concStr(a[0])] = true; return nil }
	N[P+"Note"] = func(m *M, a []value) value { m.pathNotes = append(m.pathNotes, m.concStr(a[0])); return nil }
	N[P+"Observe"] = func(m *M, a []value) value {
		m.obs = append(m.obs, obsRec{m.concStr(a[0]), a[1]})
		return nil
	}
	N[P+"ObserveInt"] = N[P+"Observe"]
	N[P+"ObserveBool"] = N[P+"Observe"]
	N[P+"MapOrder"] = func(m *M, a []value) value { m.mapOrder = a[0].(bool); return nil }
	N[P+"Symbolic"] = func(m *M, a []value) value { return true }
	N[P+"And"] = func(m *M, a []value) value { return m.andV(a[0], a[1]) }
	N[P+"Or"] = func(m *M, a []value) value { return m.orV(a[0], a[1]) }
	N[P+"Implies"] = func(m *M, a []value) value { return m.orV(m.notV(a[0]), a[1]) }
	N[P+"Ite"] = func(m *M, a []value) value {
		if b, ok := a[0].(bool); ok {
			if b {
				return a[1]
			}
			return a[2]
		}
		return fromEx(m.ctx.Ite(a[0].(*Expr), m.toE(a[1], 64), m.toE(a[2], 64)))
	}
	N[P+"Concretize"] = func(m *M, a []value) value { return m.concStr(a[0]) }
	N[P+"VfsPut"] = func(m *M, a []value) value {
		m.vfsPut(m.concStr(a[0]), a[1])
		return nil
	}
	N[P+"VfsMkdir"] = func(m *M, a []value) value { m.vfsMkdir(m.concStr(a[0])); return nil }
	N[P+"VfsDel"] = func(m *M, a []value) value { delete(m.vfs, cleanPath(m.concStr(a[0]))); return nil }
	N[P+"VfsFull"] = func(m *M, a []value) value {
		p := cleanPath(m.concStr(a[0]))
		m.vfsPut(p, "")
		m.vfs[p].full = true
		return nil
	}
	N[P+"VfsRoot"] = func(m *M, a []value) value { return "/vroot" }
	N[P+"VfsGet"] = func(m *M, a []value) value {
		n := m.vfs[cleanPath(m.concStr(a[0]))]
		if n == nil || n.dir {
			return tupleV{"", false}
		}
		return tupleV{n.data, true}
	}
	N[P+"Printed"] = func(m *M, a []value) value {
		old, was := m.stdout, m.capture
		m.stdout, m.capture = "", true
		m.callSync(a[0], nil)
		s := m.stdout
		m.stdout, m.capture = old, was
		return s
	}
	N[P+"OpenFiles"] = func(m *M, a []value) value { return i2v(m.opened) }
	N[P+"Running"] = func(m *M, a []value) value { return i2v(m.running()) }
	N[P+"Tier"] = func(m *M, a []value) value { return i2v(L.tier) }
	N[P+"Consts"] = func(m *M, a []value) value {
		cs := L.harvest(int64(m.concInt(a[0])), int64(m.concInt(a[1])))
		out := make([]value, len(cs))
		for i, c := range cs {
			out[i] = uint64(c)
		}
		return out
	}
	registerConc(L)
}

var anyType = types.NewInterfaceType(nil, nil)

// syncMapNatives models sync.Map as a map whose operations are atomic.
func syncMapNatives(N map[string]func(m *M, a []value) value) {
	of := func(m *M, a value, write bool) *mapV {
		p, ok := a.(*value)
		if !ok || p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		s := (*p).(structV)
		c := &s[len(s)-1]
		mp, ok := (*c).(*mapV)
		if !ok {
			mp = m.newMap(anyType)
			m.setCell(c, mp)
		}
		m.traceAtomic(c, write)
		return mp
	}
	quiet := func(m *M, f func()) {
		tr := m.tr
		m.tr = nil
		f()
		m.tr = tr
	}
	find := func(m *M, mp *mapV, k value) (e *mapEntry) {
		quiet(m, func() { e = m.mapFind(mp, k, false) })
		return e
	}
	set := func(m *M, mp *mapV, k, v value) { quiet(m, func() { m.mapSet(mp, k, v) }) }
	del := func(m *M, mp *mapV, k value) { quiet(m, func() { m.mapDelete(mp, k) }) }
	got := func(e *mapEntry) value {
		if e == nil {
			return tupleV{ifaceV{}, false}
		}
		return tupleV{e.v, true}
	}
	const P = "(*sync.Map)."
	N[P+"Load"] = func(m *M, a []value) value { return got(find(m, of(m, a[0], false), a[1])) }
	N[P+"Store"] = func(m *M, a []value) value { set(m, of(m, a[0], true), a[1], a[2]); return nil }
	N[P+"LoadOrStore"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		if e := find(m, mp, a[1]); e != nil {
			return tupleV{e.v, true}
		}
		set(m, mp, a[1], a[2])
		return tupleV{a[2], false}
	}
	N[P+"Swap"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		r := got(find(m, mp, a[1]))
		set(m, mp, a[1], a[2])
		return r
	}
	N[P+"LoadAndDelete"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		r := got(find(m, mp, a[1]))
		del(m, mp, a[1])
		return r
	}
	N[P+"Delete"] = func(m *M, a []value) value { del(m, of(m, a[0], true), a[1]); return nil }
	cas := func(m *M, mp *mapV, k, old value) bool {
		e := find(m, mp, k)
		return e != nil && m.concBool(m.equals(types.NewInterfaceType(nil, nil), e.v, old))
	}
	N[P+"CompareAndSwap"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		if !cas(m, mp, a[1], a[2]) {
			return false
		}
		set(m, mp, a[1], a[3])
		return true
	}
	N[P+"CompareAndDelete"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		if !cas(m, mp, a[1], a[2]) {
			return false
		}
		del(m, mp, a[1])
		return true
	}
	N[P+"Clear"] = func(m *M, a []value) value {
		mp := of(m, a[0], true)
		for _, e := range append([]*mapEntry(nil), mp.ents...) {
			if e.live {
				del(m, mp, e.k)
			}
		}
		return nil
	}
	N[P+"Range"] = func(m *M, a []value) value {
		mp := of(m, a[0], false)
		for _, e := range append([]*mapEntry(nil), mp.ents...) {
			if !e.live {
				continue
			}
			if !m.concBool(m.callSync(a[1], []value{e.k, e.v})) {
				break
			}
		}
		return nil
	}
}
