package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

var debug = os.Getenv("GOSYM_DEBUG") != ""

func debugf(f string, a ...interface{}) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

// ---- control-flow signals (Go panics caught by the run loop) ----

type goPanic struct{ v ifaceV } // interpreted panic
type pathEnd struct {           // terminates the path
	kind string // "infeasible","unsupported","steps","deadlock","violation","done","alloc"
	msg  string
}

type deferred struct {
	fn   value
	args []value
	inv  *invokeInfo
}

type frame struct {
	fi      *fnInfo
	regs    []value
	blk     *blkInfo
	pc      int
	defers  []deferred
	caller  *frame
	dst     int // register in the caller receiving the result, -1 none
	pan     *panicRec
	deferOf *frame // this frame runs as a deferred call of that frame
	barrier bool   // callSync boundary
	result  value
	running bool // running deferred calls (RunDefers or panicking)
}

type panicRec struct {
	v         ifaceV
	recovered bool
}

type gor struct {
	id    int
	top   *frame
	wake  func() bool // nil when runnable
	dead  bool
	why   string
	vc    []int
	name  string
	onEnd func()
	pw    *waiter
	sw    *selGroup // the select statement it waits in
	par   bool      // thread of a concurrent section
	thr   int       // its number from 1; goroutines it starts inherit it
	retry bool      // the lock operation being re-executed was counted already
	nest  int       // depth of calls from natives
	wpend *lockState
	grant *lockState
}

type undoRec struct {
	p   *value
	old value
	f   func()
}

// M is one worker's abstract machine.
type M struct {
	L    *Loader
	ctx  *Ctx
	sol  *Solver
	ex   *Explorer
	wid  int
	glob []*value // by global id

	inited  map[*ssa.Package]bool
	initing int

	// per path
	undo      []undoRec
	logging   bool
	steps     int64
	limit     int64
	gs        []*gor
	cur       *gor
	pc        []*Expr
	model     Model
	prefix    []dec
	pidx      int
	trail     []dec
	dom       map[int32]*domain
	multi     map[int32]bool
	names     map[string]int
	inputs    []inputRec
	obs       []obsRec
	stdout    value // what fmt.Print* wrote, while capture is set
	capture   bool
	opened    int // files that are open
	reach     map[string]bool
	certs     []*Expr
	certDone  map[*Expr]bool
	domPC     map[int32]*Expr
	mapOrder  bool
	mapStamp  int64
	seq       int64
	frames    int
	vfs       map[string]*vfsNode
	blobs     []interface{}
	pathNotes []string
	tr        *tracer
	par       *parRun
	ctl       int
	deadline  time.Time
	allocs    int64
	onceInits []func()
	chooses   []int
	satCache  map[*Expr]*domain
	pending   map[string]uint64
	hook      value
	onceDone  map[*value]bool
	held      map[*value]*lockState

	implCache map[implKey]bool
	methCache map[methKey]*ssa.Function
	stats     MStats
}

type MStats struct {
	Steps, Paths, Forks, Forced, DomainDecided, Asserts, AssertsTrivial int64
	Merged                                                              int64
	Traces, RacePairs, RaceQueries                                      int64
	MaxSteps                                                            int64
}

type implKey struct {
	t types.Type
	i types.Type
}
type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type fnInfo struct {
	fn      *ssa.Function
	name    string
	nregs   int
	blocks  []*blkInfo
	params  []int
	frees   []int
	native  func(m *M, args []value) value
	recovB  *blkInfo
	cov     bool // function of the code under test
	harness bool
	gid     int
}

type blkInfo struct {
	idx   int
	fi    *fnInfo
	code  []op
	b     *ssa.BasicBlock
	phis  []phiInfo
	succs []*blkInfo
	// if-conversion
	ifCond *opnd
	pure   bool // only pure scalar ops then If/Jump
	npure  int
}

type phiInfo struct {
	dst   int
	edges []opnd
}

type op func(m *M, fr *frame)

type opnd struct {
	reg  int // >=0 register
	val  value
	glob int // >=0 global id
}

func (o *opnd) get(m *M, fr *frame) value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob >= 0 {
		return m.global(o.glob)
	}
	return o.val
}

const (
	ctlNone = iota
	ctlSwitch
	ctlYield
)

// ---- undo log ----

func (m *M) setCell(p *value, v value) {
	if m.logging {
		m.undo = append(m.undo, undoRec{p: p, old: *p})
	}
	*p = v
}

func (m *M) onUndo(f func()) {
	if m.logging {
		m.undo = append(m.undo, undoRec{f: f})
	}
}

func (m *M) rollback() {
	for i := len(m.undo) - 1; i >= 0; i-- {
		u := &m.undo[i]
		if u.f != nil {
			u.f()
		} else {
			*u.p = u.old
		}
	}
	m.undo = m.undo[:0]
}

// store writes v (already a private copy) in the cell, in place for
// aggregates so that interior pointers stay valid.
func (m *M) store(p *value, v value) {
	switch x := v.(type) {
	case structV:
		if d, ok := (*p).(structV); ok && len(d) == len(x) {
			for i := range x {
				m.store(&d[i], x[i])
			}
			return
		}
	case arrayV:
		if d, ok := (*p).(arrayV); ok && len(d) == len(x) {
			for i := range x {
				m.store(&d[i], x[i])
			}
			return
		}
	}
	if m.tr != nil {
		m.tr.access(m, p, true)
	}
	m.setCell(p, v)
}

func (m *M) load(p *value) value {
	v := *p
	switch v.(type) {
	case structV, arrayV:
		if m.tr != nil {
			m.traceLoad(v)
		}
		return copyVal(v)
	}
	if m.tr != nil {
		m.tr.access(m, p, false)
	}
	return v
}

func (m *M) traceLoad(v value) {
	switch x := v.(type) {
	case structV:
		for i := range x {
			switch x[i].(type) {
			case structV, arrayV:
				m.traceLoad(x[i])
			default:
				m.tr.access(m, &x[i], false)
			}
		}
	case arrayV:
		for i := range x {
			switch x[i].(type) {
			case structV, arrayV:
				m.traceLoad(x[i])
			default:
				m.tr.access(m, &x[i], false)
			}
		}
	}
}

// ---- globals and lazy package initialisation ----

func (m *M) global(id int) value {
	if id < len(m.glob) && m.glob[id] != nil {
		return m.glob[id]
	}
	return m.globalSlow(id)
}

func (m *M) globalSlow(id int) value {
	g := m.L.globalByID(id)
	m.ensureInit(g.Pkg)
	for id >= len(m.glob) {
		m.glob = append(m.glob, nil)
	}
	if m.glob[id] == nil {
		p := new(value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		m.glob[id] = p
		m.patchGlobal(g, p)
	}
	return m.glob[id]
}

var denyInit = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "reflect": true, "internal/reflectlite": true, "time": true,
	"net": true, "internal/poll": true, "internal/godebug": true, "internal/cpu": true, "encoding/gob": true,
	"internal/testlog": true, "internal/syscall/unix": true, "log": true, "testing": true, "math/rand": true, "log/internal": true,
	"internal/runtime/maps": true, "internal/godebugs": true, "crypto": true, "encoding/json": true, "os/exec": true,
}

func (m *M) ensureInit(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	path := p.Pkg.Path()
	if denyInit[path] || strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/") {
		return
	}
	m.L.buildPkg(p)
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	// allocate zeroed globals first
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			id := m.L.globalID(g)
			for id >= len(m.glob) {
				m.glob = append(m.glob, nil)
			}
			if m.glob[id] == nil {
				c := new(value)
				*c = zero(g.Type().Underlying().(*types.Pointer).Elem())
				m.glob[id] = c
				m.patchGlobal(g, c)
			}
		}
	}
	sl, st, lim, tr, mo := m.logging, m.steps, m.limit, m.tr, m.mapOrder
	m.logging = false
	m.steps, m.limit = 0, 200_000_000
	m.tr = nil
	m.mapOrder = false
	m.initing++
	func() {
		defer func() {
			if r := recover(); r != nil {
				if pe, ok := r.(pathEnd); ok {
					debugf("init of %s stopped: %s %s", path, pe.kind, pe.msg)
					m.L.noteOnce("package init of " + path + " not fully interpreted: " + pe.msg)
					return
				}
				if gp, ok := r.(goPanic); ok {
					debugf("init of %s panicked: %s", path, describe(gp.v, 0))
					return
				}
				panic(r)
			}
		}()
		m.callSync(f, nil)
	}()
	m.initing--
	m.logging, m.steps, m.limit, m.tr, m.mapOrder = sl, st, lim, tr, mo
}

func (m *M) patchGlobal(g *ssa.Global, p *value) {
	path := g.Pkg.Pkg.Path()
	switch path + "." + g.Name() {
	case "os.ErrNotExist", "os.ErrExist", "os.ErrPermission", "os.ErrInvalid", "os.ErrClosed":
		src := m.L.prog.ImportedPackage("internal/oserror")
		if src != nil {
			if o := src.Var(g.Name()); o != nil {
				*p = *(m.global(m.L.globalID(o)).(*value))
			}
		}
	}
}

// ---- interpreted panics ----

func (m *M) rtPanic(msg string) {
	panic(goPanic{ifaceV{t: m.L.rtErrType, v: "runtime error: " + msg}})
}

func (m *M) unsupported(f string, a ...interface{}) {
	what := fmt.Sprintf(f, a...)
	if m.cur != nil {
		what += " at " + m.stack(m.cur)
	}
	panic(pathEnd{"unsupported", what})
}

// ---- calls ----

func (m *M) pushFrame(fi *fnInfo, args []value, env []value, dst int) *frame {
	fr := &frame{fi: fi, regs: make([]value, fi.nregs), caller: m.cur.top, dst: dst}
	for i, r := range fi.params {
		fr.regs[r] = args[i]
	}
	for i, r := range fi.frees {
		fr.regs[r] = env[i]
	}
	fr.blk = fi.blocks[0]
	m.cur.top = fr
	m.frames++
	if m.frames > 6000 {
		m.frames = 0
		panic(pathEnd{"steps", "call depth exceeded in " + fi.name})
	}
	m.ctl = ctlSwitch
	return fr
}

// call invokes fn; the result goes to register dst of the current top frame.
func (m *M) call(fn value, args []value, dst int) {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.callFn(m.L.fn(f), args, nil, dst)
	case *closure:
		m.callFn(m.L.fn(f.fn), args, f.env, dst)
	case *nativeFn:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		top := m.cur.top
		r := f.f(m, args)
		if dst >= 0 {
			top.regs[dst] = r
		}
	case *ssa.Builtin:
		top := m.cur.top
		r := m.builtin(f, args, nil)
		if dst >= 0 {
			top.regs[dst] = r
		}
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	default:
		m.unsupported("call of %T", fn)
	}
}

func (m *M) callFn(fi *fnInfo, args, env []value, dst int) {
	if fi.native != nil {
		top := m.cur.top
		r := fi.native(m, args)
		if dst >= 0 {
			top.regs[dst] = r
		}
		return
	}
	if fi.blocks == nil {
		m.unsupported("no body: %s", fi.name)
	}
	m.pushFrame(fi, args, env, dst)
}

// callSync runs fn to completion (used by natives and package init).
func (m *M) callSync(fn value, args []value) value {
	if m.cur == nil {
		m.cur = &gor{}
	}
	g := m.cur
	saved := g.top
	savedCtl := m.ctl
	var out value
	base := &frame{caller: saved, barrier: true, regs: make([]value, 1), fi: barrierFn}
	g.top = base
	base.blk = barrierFn.blocks[0]
	m.ctl = ctlNone
	g.nest++
	defer func() {
		g.nest--
		if r := recover(); r != nil {
			if _, ok := r.(goPanic); ok {
				g.top = saved
				m.cur = g
				m.ctl = savedCtl
			}
			panic(r)
		}
	}()
	m.call(fn, args, 0)
	if g.top != base {
		m.run(g, base)
	}
	out = base.regs[0]
	g.top = saved
	m.ctl = savedCtl
	return out
}

var barrierFn = &fnInfo{name: "<native>", nregs: 1, blocks: []*blkInfo{{}}}

// run executes goroutine g until its top frame is stop (or it ends).
func (m *M) run(g *gor, stop *frame) {
	for {
		if m.runSome(g, stop) {
			return
		}
	}
}

// runSome returns true when done; false after an interpreted panic was
// converted into unwinding state.
func (m *M) runSome(g *gor, stop *frame) (done bool) {
	defer func() {
		if r := recover(); r != nil {
			gp, ok := r.(goPanic)
			if !ok {
				if re, ok2 := r.(error); ok2 && !debug {
					// internal engine failure: never a verdict
					where := ""
					if g.top != nil {
						where = m.stack(g)
					}
					panic(pathEnd{"unsupported", "engine: " + re.Error() + " at " + where})
				}
				panic(r)
			}
			// unwinding begins in the top frame, unless a barrier is there
			m.cur = g
			fr := g.top
			if fr == stop || fr == nil || fr.barrier {
				panic(r)
			}
			fr.pan = &panicRec{v: gp.v}
			m.unwind(g, stop, fr)
			done = false
		}
	}()
	for {
		fr := g.top
		if fr == stop {
			return true
		}
		if fr == nil {
			g.dead = true
			return true
		}
		code := fr.blk.code
		m.ctl = ctlNone
		n := int64(0)
		for m.ctl == ctlNone {
			o := code[fr.pc]
			fr.pc++
			o(m, fr)
			code = fr.blk.code
			n++
		}
		m.steps += n
		if m.steps > m.limit {
			panic(pathEnd{"steps", "step limit in " + m.stack(g)})
		}
		if m.ctl == ctlYield {
			if stop == nil || g.wake == nil && stop == nil {
				return true
			}
			if g.wake == nil { // voluntary yield inside a nested call: ignore
				continue
			}
			// blocked inside a nested call: let others run
			m.runOthersUntil(g)
			m.cur = g
		}
	}
}

func (m *M) stack(g *gor) string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 12; fr = fr.caller {
		if fr.fi != nil {
			if n > 0 {
				sb.WriteString(" < ")
			}
			sb.WriteString(fr.fi.name)
			n++
		}
	}
	return sb.String()
}

// unwind continues panicking in frame fr: runs its deferred calls, or pops it.
func (m *M) unwind(g *gor, stop *frame, fr *frame) {
	for {
		if len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			g.top = fr
			fr.running = true
			m.startDeferred(fr, d)
			if g.top == fr {
				// native deferred call finished already
				if fr.pan.recovered {
					m.finishRecovered(g, fr)
					return
				}
				continue
			}
			return // the deferred frame runs; its return resumes unwinding
		}
		rec := fr.pan
		// pop fr
		m.frames--
		parent := fr.caller
		if fr.deferOf != nil {
			// a deferred call panicked: the new panic replaces the old one
			p := fr.deferOf
			p.pan = rec
			g.top = p
			fr = p
			if p == stop {
				panic(goPanic{rec.v})
			}
			continue
		}
		g.top = parent
		if parent == nil {
			panic(pathEnd{"panic", panicText(m, rec.v)})
		}
		if parent == stop || parent.barrier {
			panic(goPanic{rec.v})
		}
		parent.pan = rec
		fr = parent
	}
}

func panicText(m *M, v ifaceV) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(string); ok {
		return s
	}
	return describe(v, 0)
}

func (m *M) startDeferred(fr *frame, d deferred) {
	fn, args := d.fn, d.args
	if d.inv != nil {
		recv := d.args[0].(ifaceV)
		f := m.lookupMethod(recv.t, d.inv.meth)
		fn = f
		args = append([]value{recv.v}, d.args[1:]...)
	}
	before := m.cur.top
	if b, ok := fn.(*ssa.Builtin); ok {
		if b.Name() == "recover" {
			// defer recover(): does not recover (called directly by defer is allowed)
			if fr.pan != nil && !fr.pan.recovered {
				fr.pan.recovered = true
			}
			return
		}
	}
	m.call(fn, args, -1)
	if m.cur.top != before {
		m.cur.top.deferOf = fr
	}
}

// finishRecovered: fr's panic was recovered; return from fr to its caller.
func (m *M) finishRecovered(g *gor, fr *frame) {
	fr.pan = nil
	fr.running = false
	g.top = fr
	fr.blk = fr.fi.recovB
	fr.pc = 0
	m.ctl = ctlSwitch
}

// doReturn pops fr delivering v.
func (m *M) doReturn(fr *frame, v value) {
	g := m.cur
	m.frames--
	m.ctl = ctlSwitch
	if p := fr.deferOf; p != nil {
		// back in p, which is either in RunDefers or panicking
		g.top = p
		if p.pan != nil {
			if p.pan.recovered {
				m.finishRecovered(g, p)
				return
			}
			m.unwind(g, nil, p)
			return
		}
		return // RunDefers re-executes
	}
	g.top = fr.caller
	if fr.caller == nil {
		g.dead = true
		m.ctl = ctlYield
		return
	}
	if fr.dst >= 0 {
		fr.caller.regs[fr.dst] = v
	}
}

// ---- goroutines ----

func (m *M) spawn(fn value, args []value, name string) *gor {
	g := &gor{id: len(m.gs), name: name}
	m.gs = append(m.gs, g)
	saved := m.cur
	if saved != nil {
		g.thr = saved.thr
	}
	sctl := m.ctl
	m.cur = g
	root := &frame{fi: barrierFn, regs: make([]value, 1), blk: barrierFn.blocks[0]}
	_ = root
	m.call(fn, args, -1)
	m.cur = saved
	m.ctl = sctl
	if g.top == nil {
		g.dead = true
	}
	return g
}

// runMain runs goroutine 0 until it ends, scheduling others cooperatively.
func (m *M) runMain(g0 *gor) {
	for !g0.dead {
		progressed := false
		for i := 0; i < len(m.gs); i++ {
			g := m.gs[i]
			if g.dead {
				continue
			}
			if g.wake != nil {
				if !g.wake() {
					continue
				}
				g.wake = nil
			}
			progressed = true
			m.cur = g
			m.run(g, nil)
			if g0.dead {
				return
			}
		}
		if !progressed {
			panic(pathEnd{"deadlock", m.blockedInfo()})
		}
	}
}

func (m *M) blockedInfo() string {
	var s []string
	for _, g := range m.gs {
		if !g.dead {
			s = append(s, fmt.Sprintf("g%d blocked in %s (%s)", g.id, g.why, m.stack(g)))
		}
	}
	sort.Strings(s)
	return "all goroutines are asleep: " + strings.Join(s, "; ")
}

// runOthersUntil lets other goroutines run until g can wake.
func (m *M) runOthersUntil(g *gor) {
	for {
		if g.wake() {
			g.wake = nil
			return
		}
		progressed := false
		for i := 0; i < len(m.gs); i++ {
			o := m.gs[i]
			if o == g || o.dead {
				continue
			}
			if o.wake != nil {
				if !o.wake() {
					continue
				}
				o.wake = nil
			}
			progressed = true
			m.cur = o
			m.run(o, nil)
			if g.wake() {
				break
			}
		}
		if !progressed && !g.wake() {
			panic(pathEnd{"deadlock", m.blockedInfo()})
		}
	}
}

// running lets the other goroutines run as long as they can, and gives the number
// of those that have not ended.
func (m *M) running() int {
	cur, ctl := m.cur, m.ctl
	for progressed := true; progressed; {
		progressed = false
		for i := 0; i < len(m.gs); i++ {
			o := m.gs[i]
			if o == cur || o.dead {
				continue
			}
			if o.wake != nil {
				if !o.wake() {
					continue
				}
				o.wake = nil
			}
			progressed = true
			m.cur = o
			m.run(o, nil)
		}
	}
	m.cur, m.ctl = cur, ctl
	n := 0
	for _, o := range m.gs {
		if o != cur && !o.dead {
			n++
		}
	}
	return n
}

// block suspends the current goroutine until cond holds, then re-executes
// the current instruction.
func (m *M) block(fr *frame, why string, cond func() bool) {
	fr.pc--
	m.cur.wake = cond
	m.cur.why = why
	m.ctl = ctlYield
}

// ---- method lookup ----

func (m *M) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Name(), nil}
	if !meth.Exported() {
		k.pkg = meth.Pkg()
	}
	if f, ok := m.methCache[k]; ok {
		return f
	}
	f := m.L.lookupMethod(t, meth)
	m.methCache[k] = f
	return f
}

func (m *M) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := implKey{t, key}
	if r, ok := m.implCache[k]; ok {
		return r
	}
	var r bool
	if t == m.L.rtErrType {
		r = true
		for i := 0; i < it.NumMethods(); i++ {
			n := it.Method(i).Name()
			if n != "Error" && n != "RuntimeError" {
				r = false
			}
		}
	} else {
		m.L.mu.Lock()
		r = types.Implements(t, it)
		m.L.mu.Unlock()
	}
	m.implCache[k] = r
	return r
}

var typeHash struct {
	sync.Mutex
	m typeutil.Map
	n int
}

var canonCache sync.Map

// typeID returns a canonical small integer for a type.
func typeID(t types.Type) int {
	if v, ok := canonCache.Load(t); ok {
		return v.(int)
	}
	typeHash.Lock()
	defer typeHash.Unlock()
	v := typeHash.m.At(t)
	if v == nil {
		typeHash.n++
		typeHash.m.Set(t, typeHash.n)
		v = typeHash.n
	}
	canonCache.Store(t, v.(int))
	return v.(int)
}

func identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	return typeID(a) == typeID(b)
}
