package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// dec is one recorded nondeterministic decision of a path.
type dec struct {
	val    uint64 // branch taken (0/1), chosen alternative, or candidate value
	taken  bool   // for concretisation: whether val was taken
	forced bool   // the other side was infeasible
	kind   byte   // 'b' branch, 'c' choose, 'v' value
}

type domain [4]uint64

var fullDomain = domain{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (d *domain) empty() bool { return d[0]|d[1]|d[2]|d[3] == 0 }
func (d *domain) and(o *domain) domain {
	return domain{d[0] & o[0], d[1] & o[1], d[2] & o[2], d[3] & o[3]}
}
func (d *domain) andNot(o *domain) domain {
	return domain{d[0] &^ o[0], d[1] &^ o[1], d[2] &^ o[2], d[3] &^ o[3]}
}
func (d *domain) first() uint64 {
	for i, w := range d {
		if w != 0 {
			return uint64(i*64 + bits.TrailingZeros64(w))
		}
	}
	return 0
}

// pick prefers printable characters, to make counterexamples readable.
func (d *domain) pick() uint64 {
	for _, r := range [][2]uint64{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {' ', '~'}} {
		for v := r[0]; v <= r[1]; v++ {
			if d[v/64]>>(v%64)&1 == 1 {
				return v
			}
		}
	}
	return d.first()
}
func (d *domain) has(v uint64) bool { return d[v/64]>>(v%64)&1 == 1 }

// prune records that cond was found to be implied by the single-variable
// constraints of the path; the claim is handed to the SMT solver once.
func (m *M) prune(cond *Expr) {
	if cond.isConst() || !m.smallVar(cond) {
		return
	}
	e := m.ctx.Not(cond)
	if p := m.domPC[cond.sv.vidx]; p != nil {
		e = m.ctx.And(p, e)
	}
	if e.isFalse() || m.certDone[e] {
		return
	}
	m.certDone[e] = true
	m.certs = append(m.certs, e)
}

type inputRec struct {
	name   string
	v      *Expr
	w      uint8
	const_ uint64
}

type obsRec struct {
	name string
	v    value
}

// satset returns the set of values of e's single variable (w<=8) making e true.
func (m *M) satset(e *Expr) *domain {
	if d, ok := m.satCache[e]; ok {
		return d
	}
	v := e.sv
	n := uint64(2)
	if v.w > 0 {
		n = uint64(1) << v.w
	}
	var d domain
	for x := uint64(0); x < n; x++ {
		if m.ctx.EvalWith(e, nil, v.vidx, x) == 1 {
			d[x/64] |= 1 << (x % 64)
		}
	}
	m.satCache[e] = &d
	return &d
}

func (m *M) smallVar(e *Expr) bool { return e.nv == 1 && e.sv.w <= 8 }

func (m *M) domOf(v *Expr) *domain {
	if d, ok := m.dom[v.vidx]; ok {
		return d
	}
	d := fullDomain
	if v.w < 8 {
		n := uint(2)
		if v.w > 0 {
			n = 1 << v.w
		}
		d = domain{}
		for i := uint(0); i < n; i++ {
			d[i/64] |= 1 << (i % 64)
		}
	}
	return &d
}

// addPC adds a condition to the path condition.
func (m *M) addPC(c *Expr) {
	if c.isTrue() {
		return
	}
	if c.op == OAnd {
		m.addPC(c.a)
		m.addPC(c.b)
		return
	}
	m.pc = append(m.pc, c)
	if m.smallVar(c) {
		d := m.domOf(c.sv).and(m.satset(c))
		m.dom[c.sv.vidx] = &d
		if p := m.domPC[c.sv.vidx]; p != nil {
			m.domPC[c.sv.vidx] = m.ctx.And(p, c)
		} else {
			m.domPC[c.sv.vidx] = c
		}
		return
	}
	vars := map[int32]*Expr{}
	collectVars(c, map[int32]bool{}, vars)
	for i := range vars {
		m.multi[i] = true
	}
}

func (m *M) wantVars(extra *Expr) []*Expr {
	out := make([]*Expr, 0, len(m.inputs))
	for _, i := range m.inputs {
		if i.v != nil && i.v.op == OVar {
			out = append(out, i.v)
		}
	}
	return out
}

// feasible decides pc ∧ c, returning a model when satisfiable.
// A third result tells whether the answer came from the solver.
func (m *M) feasible(c *Expr) (Res, Model, bool) {
	if c.isFalse() {
		return Unsat, nil, false
	}
	if m.smallVar(c) {
		d := m.domOf(c.sv).and(m.satset(c))
		if d.empty() {
			m.stats.DomainDecided++
			return Unsat, nil, false
		}
		if !m.multi[c.sv.vidx] {
			m.stats.DomainDecided++
			nm := m.model.clone()
			nm[c.sv.vidx] = d.pick()
			return Sat, nm, false
		}
	}
	if time.Now().After(m.ex.deadline) {
		panic(pathEnd{"timeout", "time budget exhausted"})
	}
	r, mod := m.sol.Check(m.pc, c, m.wantVars(c))
	return r, mod, true
}

// decide resolves a symbolic condition, forking the path when both
// outcomes are feasible.
func (m *M) decide(c *Expr) bool {
	if c.isConst() {
		return c.val == 1
	}
	if m.initing > 0 {
		m.unsupported("symbolic decision during package init")
	}
	if m.pidx < len(m.prefix) {
		d := m.prefix[m.pidx]
		m.pidx++
		if d.kind != 'b' {
			panic(pathEnd{"unsupported", fmt.Sprintf("engine: replay divergence (want b, have %c) at %s", d.kind, m.stack(m.cur))})
		}
		t := d.val == 1
		m.trail = append(m.trail, d)
		m.take(c, t, d.forced)
		return t
	}
	cur := m.ctx.Eval(c, m.model) == 1
	other := c
	if cur {
		other = m.ctx.Not(c)
	}
	res, mod, bySolver := m.feasible(other)
	switch res {
	case Unsat:
		m.stats.Forced++
		if !bySolver {
			m.prune(m.ctx.Not(other))
		}
		m.trail = append(m.trail, dec{val: b2u(cur), forced: true, kind: 'b'})
		return cur
	case Unknown:
		m.ex.noteUnknown(m)
		m.trail = append(m.trail, dec{val: b2u(cur), forced: false, kind: 'b'})
		m.take(c, cur, false)
		return cur
	}
	m.stats.Forks++
	if forkProf {
		noteFork(m)
	}
	// The false branch is explored first when the model allows a choice: loops
	// over inputs then leave early.
	alt := append(append(make([]dec, 0, len(m.trail)+1), m.trail...), dec{val: b2u(!cur), kind: 'b'})
	m.ex.push(m, alt, mod)
	m.trail = append(m.trail, dec{val: b2u(cur), kind: 'b'})
	m.take(c, cur, false)
	return cur
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *M) take(c *Expr, t, forced bool) {
	if forced {
		return
	}
	if t {
		m.addPC(c)
	} else {
		m.addPC(m.ctx.Not(c))
	}
}

// choose is an unconstrained n-way choice.
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pidx < len(m.prefix) {
		d := m.prefix[m.pidx]
		m.pidx++
		if d.kind != 'c' {
			panic(pathEnd{"unsupported", "engine: replay divergence (choose)"})
		}
		m.trail = append(m.trail, d)
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append(make([]dec, 0, len(m.trail)+1), m.trail...), dec{val: uint64(i), kind: 'c'})
		m.ex.push(m, alt, m.model.clone())
	}
	m.trail = append(m.trail, dec{val: 0, kind: 'c'})
	return 0
}

// concretize picks a value for e, forking over the other possible values.
func (m *M) concretize(e *Expr) uint64 {
	if e.isConst() {
		return e.val
	}
	for tries := 0; ; tries++ {
		var v uint64
		if m.pidx < len(m.prefix) {
			d := m.prefix[m.pidx]
			m.pidx++
			if d.kind != 'v' {
				panic(pathEnd{"unsupported", "engine: replay divergence (value)"})
			}
			m.trail = append(m.trail, d)
			eq := m.ctx.Eq(e, m.ctx.Const(e.w, d.val))
			m.take(eq, d.taken, d.forced)
			if d.taken {
				return d.val
			}
			continue
		}
		if tries > 300 {
			m.unsupported("too many values for a concretised expression at %s", m.stack(m.cur))
		}
		v = m.ctx.Eval(e, m.model)
		eq := m.ctx.Eq(e, m.ctx.Const(e.w, v))
		res, mod, bySolver := m.feasible(m.ctx.Not(eq))
		d := dec{val: v, taken: true, kind: 'v'}
		switch res {
		case Unsat:
			d.forced = true
			if !bySolver {
				m.prune(eq)
			}
		case Unknown:
			m.ex.noteUnknown(m)
		case Sat:
			m.stats.Forks++
			if forkProf {
				noteFork(m)
			}
			alt := append(append(make([]dec, 0, len(m.trail)+1), m.trail...), dec{val: v, taken: false, kind: 'v'})
			m.ex.push(m, alt, mod)
		}
		m.trail = append(m.trail, d)
		m.take(eq, true, d.forced)
		return v
	}
}

// ---- symbolic If with region merging ----

type exitEdge struct {
	to    *blkInfo
	edge  int
	guard *Expr
	from  *blkInfo
}

func (m *M) symIf(fr *frame, b *blkInfo, cond *Expr) {
	c := m.ctx
	// implied by the path condition? (cheap test first)
	if m.smallVar(cond) {
		d := m.domOf(cond.sv)
		s := m.satset(cond)
		in := d.and(s)
		out := d.andNot(s)
		if in.empty() || out.empty() {
			t := m.decide(cond)
			m.goEdge(fr, b, t)
			return
		}
	}
	edgeOf := func(from *blkInfo, i int) int { return predIndex(from.b, from.succs[i].b, i) }
	exits := []exitEdge{
		{b.succs[0], edgeOf(b, 0), cond, b},
		{b.succs[1], edgeOf(b, 1), c.Not(cond), b},
	}
	targets := func(ex []exitEdge) int {
		n := 0
		for i := range ex {
			dup := false
			for j := 0; j < i; j++ {
				if ex[j].to == ex[i].to {
					dup = true
					break
				}
			}
			if !dup {
				n++
			}
		}
		return n
	}
	try := true
	rounds := 0
	for try && rounds < 24 {
		try = false
		for i := range exits {
			s := exits[i].to
			if !s.pure || len(s.phis) > 0 || len(s.b.Preds) != 1 || s == b {
				continue
			}
			rounds++
			// evaluate the pure block
			n := len(s.code) - 1
			ok := true
			for k := 0; k < n; k++ {
				s.code[k](m, fr)
			}
			var ne []exitEdge
			ne = append(ne, exits[:i]...)
			ne = append(ne, exits[i+1:]...)
			switch {
			case s.ifCond != nil:
				v := s.ifCond.get(m, fr)
				if bv, isB := v.(bool); isB {
					k := 1
					if bv {
						k = 0
					}
					ne = append(ne, exitEdge{s.succs[k], edgeOf(s, k), exits[i].guard, s})
				} else {
					e := v.(*Expr)
					ne = append(ne, exitEdge{s.succs[0], edgeOf(s, 0), c.And(exits[i].guard, e), s},
						exitEdge{s.succs[1], edgeOf(s, 1), c.And(exits[i].guard, c.Not(e)), s})
				}
			case len(s.succs) == 1:
				ne = append(ne, exitEdge{s.succs[0], edgeOf(s, 0), exits[i].guard, s})
			default:
				ok = false
			}
			if ok && targets(ne) <= 2 {
				exits = ne
				try = true
				break
			}
		}
	}
	// group the exits
	var tg []*blkInfo
	groups := map[*blkInfo][]exitEdge{}
	for _, e := range exits {
		if e.guard.isFalse() {
			continue
		}
		if groups[e.to] == nil {
			tg = append(tg, e.to)
		}
		groups[e.to] = append(groups[e.to], e)
	}
	if len(exits) == 2 && len(tg) == 2 {
		m.goEdge(fr, b, m.decide(cond))
		return
	}
	merged := map[*blkInfo][]value{}
	for _, t := range tg {
		vals, ok := m.mergePhis(fr, t, groups[t])
		if !ok {
			m.goEdge(fr, b, m.decide(cond))
			return
		}
		merged[t] = vals
	}
	m.stats.Merged++
	var t *blkInfo
	if len(tg) == 1 {
		t = tg[0]
	} else {
		g := c.F
		for _, e := range groups[tg[0]] {
			g = c.Or(g, e.guard)
		}
		if m.decide(g) {
			t = tg[0]
		} else {
			t = tg[1]
		}
	}
	for i := range t.phis {
		fr.regs[t.phis[i].dst] = merged[t][i]
	}
	fr.blk = t
	fr.pc = 0
}

func (m *M) mergePhis(fr *frame, t *blkInfo, es []exitEdge) ([]value, bool) {
	vals := make([]value, len(t.phis))
	for i := range t.phis {
		r := t.phis[i].edges[es[len(es)-1].edge].get(m, fr)
		for k := len(es) - 2; k >= 0; k-- {
			v := t.phis[i].edges[es[k].edge].get(m, fr)
			nr, ok := m.iteV(es[k].guard, v, r)
			if !ok {
				return nil, false
			}
			r = nr
		}
		vals[i] = r
	}
	return vals, true
}

func (m *M) iteV(g *Expr, a, b value) (value, bool) {
	switch x := a.(type) {
	case bool:
		switch b.(type) {
		case bool, *Expr:
			return fromEx(m.ctx.Ite(g, m.toE(a, 0), m.toE(b, 0))), true
		}
	case uint64:
		switch y := b.(type) {
		case uint64:
			if x == y {
				return a, true
			}
			return nil, false // keep concrete integers concrete: fork instead
		case *Expr:
			return fromEx(m.ctx.Ite(g, m.ctx.Const(y.w, x), y)), true
		}
	case *Expr:
		switch y := b.(type) {
		case uint64:
			return fromEx(m.ctx.Ite(g, x, m.ctx.Const(x.w, y))), true
		case bool:
			return fromEx(m.ctx.Ite(g, x, m.ctx.Bool(y))), true
		case *Expr:
			if x.w == y.w {
				return fromEx(m.ctx.Ite(g, x, y)), true
			}
		}
	case string:
		if y, ok := b.(string); ok && x == y {
			return a, true
		}
	case *value:
		if y, ok := b.(*value); ok && x == y {
			return a, true
		}
	case *mapV:
		if y, ok := b.(*mapV); ok && x == y {
			return a, true
		}
	case ifaceV:
		if y, ok := b.(ifaceV); ok && x.t == nil && y.t == nil {
			return a, true
		}
	}
	return nil, false
}

func (m *M) goEdge(fr *frame, b *blkInfo, t bool) {
	i := 1
	if t {
		i = 0
	}
	to := b.succs[i]
	m.enter(fr, to, predIndex(b.b, to.b, i))
}

// ---- explorer ----

type workItem struct {
	prefix []dec
	model  map[string]uint64
}

type Violation struct {
	Kind    string
	Msg     string
	Inputs  map[string]uint64
	Chooses []int
	Notes   []string
	Path    string

	confirmed string // set when already confirmed natively
}

type PathSample struct {
	Inputs map[string]uint64 `json:"inputs"`
	Obs    []string          `json:"obs"`
	Choose []int             `json:"choose"`
}

type Explorer struct {
	L        *Loader
	entry    *ssa.Function
	mu       sync.Mutex
	cond     *sync.Cond
	stacks   [][]workItem
	active   int
	stop     bool
	deadline time.Time
	maxPaths int64
	npaths   int64
	maxViol  int

	viols     []Violation
	violKeys  map[string]int
	incompl   map[string]int // reason -> paths cut
	unknowns  int64
	reach     map[string]int64
	covQ      int64
	covBad    int64
	covN      int64
	samples   []PathSample
	nsample   int
	infeas    int64
	notes     map[string]bool
	kinds     map[string]int64
	stats     MStats
	sstats    SolverStats
	dropped   int64
	limit     int64
	allowPan  bool
	asserts   map[string]*AssertStat
	started   time.Time
	shapes    map[string]int64
	races     map[string]raceVerdict
	onDone    func(m *M)
	cutShort  bool
	isKnown   func(notes []string) bool
	firstViol time.Time
}

type AssertStat struct{ Sites, Proved, Concrete, Failed, Unknown int64 }

func (ex *Explorer) noteUnknown(m *M) {
	atomic.AddInt64(&ex.unknowns, 1)
}

func (ex *Explorer) push(m *M, prefix []dec, mod Model) {
	it := workItem{prefix: prefix, model: map[string]uint64{}}
	for _, i := range m.inputs {
		if i.v != nil && i.v.op == OVar {
			it.model[i.name] = mod[i.v.vidx]
		}
	}
	ex.mu.Lock()
	ex.stacks[m.wid] = append(ex.stacks[m.wid], it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) pop(wid int) (workItem, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return workItem{}, false
		}
		if s := ex.stacks[wid]; len(s) > 0 {
			it := s[len(s)-1]
			ex.stacks[wid] = s[:len(s)-1]
			ex.active++
			return it, true
		}
		best := -1
		for i, s := range ex.stacks {
			if len(s) > 0 && (best < 0 || len(s) > len(ex.stacks[best])) {
				best = i
			}
		}
		if best >= 0 {
			s := ex.stacks[best]
			it := s[0]
			ex.stacks[best] = s[1:]
			ex.active++
			return it, true
		}
		if ex.active == 0 {
			ex.stop = true
			ex.cond.Broadcast()
			return workItem{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 {
		empty := true
		for _, s := range ex.stacks {
			if len(s) > 0 {
				empty = false
			}
		}
		if empty {
			ex.stop = true
		}
	}
	ex.mu.Unlock()
	ex.cond.Broadcast()
}

// newM creates a worker machine.
func newM(L *Loader, wid int, solver []string) *M {
	ctx := NewCtx()
	m := &M{L: L, ctx: ctx, wid: wid, inited: map[*ssa.Package]bool{}, implCache: map[implKey]bool{}, methCache: map[methKey]*ssa.Function{}, satCache: map[*Expr]*domain{}, certDone: map[*Expr]bool{}}
	m.sol = NewSolver(ctx, solver, 20000)
	return m
}

func (m *M) resetPath(it workItem) {
	m.undo = m.undo[:0]
	m.logging = true
	m.steps = 0
	m.limit = m.ex.limit
	m.gs = nil
	m.cur = nil
	m.pc = nil
	m.prefix = it.prefix
	m.pidx = 0
	m.trail = make([]dec, 0, len(it.prefix)+16)
	m.dom = map[int32]*domain{}
	m.multi = map[int32]bool{}
	m.names = map[string]int{}
	m.inputs = nil
	m.obs = nil
	m.stdout, m.capture, m.opened = "", false, 0
	m.reach = map[string]bool{}
	m.domPC = map[int32]*Expr{}
	m.certs = nil
	m.mapOrder = false
	m.frames = 0
	m.vfs = map[string]*vfsNode{}
	m.blobs = nil
	m.pathNotes = nil
	m.tr = nil
	m.par = nil
	m.allocs = 0
	m.chooses = nil
	m.model = Model{}
	m.pending = it.model
	m.hook = nil
	m.held = nil
}

// runPath executes one path to completion.
func (ex *Explorer) runPath(m *M, it workItem) {
	m.resetPath(it)
	kind, msg := "done", ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch p := r.(type) {
				case pathEnd:
					kind, msg = p.kind, p.msg
				case goPanic:
					kind, msg = "panic", panicText(m, p.v)
				default:
					panic(r)
				}
			}
		}()
		g0 := m.spawn(ex.entry, nil, "main")
		m.runMain(g0)
	}()
	if debug {
		debugf("path %v -> %s %s (steps %d)", len(m.trail), kind, msg, m.steps)
	}
	m.stats.Paths++
	m.stats.Steps += m.steps
	if m.steps > m.stats.MaxSteps {
		m.stats.MaxSteps = m.steps
	}
	switch kind {
	case "done", "violation":
		if kind == "done" && m.heldLocks() != "" {
			ex.violate(m, "lock-held", "operation finished with a lock still held: "+m.heldLocks(), m.model)
		}
		m.certify()
		ex.mu.Lock()
		for k := range m.reach {
			ex.reach[k]++
		}
		ex.mu.Unlock()
		if kind == "done" {
			ex.sample(m)
			if ex.onDone != nil {
				ex.onDone(m)
			}
		}
	case "infeasible":
		atomic.AddInt64(&ex.infeas, 1)
	case "panic", "deadlock":
		if strings.Contains(msg, "nil map") || true {
			ex.violate(m, kind, msg, m.model)
		}
	case "alloc":
		ex.violate(m, "alloc", msg, m.model)
	case "steps":
		ex.violate(m, "hang", msg, m.model)
	default:
		ex.mu.Lock()
		ex.incompl[kind+": "+msg]++
		ex.mu.Unlock()
	}
	ex.mu.Lock()
	ex.kinds[kind]++
	ex.mu.Unlock()
	m.rollback()
	m.logging = false
	n := atomic.AddInt64(&ex.npaths, 1)
	ex.mu.Lock()
	short := !ex.firstViol.IsZero() && time.Since(ex.firstViol) > 6*time.Second
	if short {
		ex.cutShort = true
	}
	ex.mu.Unlock()
	if n >= ex.maxPaths || short || time.Now().After(ex.deadline) {
		ex.mu.Lock()
		left := 0
		for _, s := range ex.stacks {
			left += len(s)
		}
		if !ex.stop {
			ex.dropped = int64(left)
		}
		ex.stop = true
		ex.mu.Unlock()
		ex.cond.Broadcast()
	}
	// keep the expression table bounded
	if m.ctx.next > 3_000_000 {
		m.ctx = NewCtx()
		m.satCache = map[*Expr]*domain{}
		m.certDone = map[*Expr]bool{}
		m.sol.Reset(m.ctx)
	}
}

// certify hands the branches pruned by the byte-domain test on this path (and
// not examined before) to the SMT solver, in one query.
func (m *M) certify() {
	if len(m.certs) == 0 {
		return
	}
	bad := m.ctx.F
	for _, e := range m.certs {
		bad = m.ctx.Or(bad, e)
	}
	atomic.AddInt64(&m.ex.covQ, 1)
	atomic.AddInt64(&m.ex.covN, int64(len(m.certs)))
	r, _ := m.sol.Check(nil, bad, nil)
	if r == Sat {
		atomic.AddInt64(&m.ex.covBad, 1)
		debugf("CERTIFICATE FAILED")
	} else if r == Unknown {
		m.ex.noteUnknown(m)
	}
}

func (m *M) inputMap(mod Model) map[string]uint64 {
	out := map[string]uint64{}
	for _, i := range m.inputs {
		if i.v == nil {
			out[i.name] = i.const_
		} else {
			out[i.name] = m.ctx.Eval(i.v, mod)
		}
	}
	return out
}

func (ex *Explorer) violate(m *M, kind, msg string, mod Model) {
	v := Violation{Kind: kind, Msg: msg, Inputs: m.inputMap(mod), Chooses: append([]int(nil), m.chooses...), Notes: append([]string(nil), m.pathNotes...)}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	key := kind + "|" + msg + "|" + strings.Join(m.pathNotes, ";")
	ex.violKeys[key]++
	if ex.violKeys[key] <= 3 && len(ex.viols) < 200 {
		ex.viols = append(ex.viols, v)
	}
	if ex.firstViol.IsZero() && (ex.isKnown == nil || !ex.isKnown(v.Notes)) {
		ex.firstViol = time.Now()
	}
}

func (ex *Explorer) sample(m *M) {
	ex.mu.Lock()
	n := ex.nsample
	ex.nsample++
	take := n < 40 || n%(1+n/20) == 0 && len(ex.samples) < 240
	ex.mu.Unlock()
	if !take {
		return
	}
	s := PathSample{Inputs: m.inputMap(m.model), Choose: append([]int(nil), m.chooses...)}
	for _, o := range m.obs {
		s.Obs = append(s.Obs, o.name+"="+m.evalText(o.v))
	}
	ex.mu.Lock()
	ex.samples = append(ex.samples, s)
	ex.mu.Unlock()
}

// evalText renders a (string/int/bool) value under the current model.
func (m *M) evalText(v value) string {
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch y := c.(type) {
			case uint64:
				b[i] = byte(y)
			case *Expr:
				b[i] = byte(m.ctx.Eval(y, m.model))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case uint64:
		return fmt.Sprint(int64(x))
	case bool:
		return fmt.Sprint(x)
	case *Expr:
		r := m.ctx.Eval(x, m.model)
		if x.w == 0 {
			return fmt.Sprint(r == 1)
		}
		return fmt.Sprint(int64(r))
	}
	return fmt.Sprintf("%T", v)
}

type ExploreOpts struct {
	Workers  int
	Budget   time.Duration
	MaxPaths int64
	Steps    int64
	Solver   []string
}

func Explore(L *Loader, entry *ssa.Function, o ExploreOpts, ms []*M, opt ...func(*Explorer)) *Explorer {
	ex := &Explorer{L: L, entry: entry, violKeys: map[string]int{}, incompl: map[string]int{}, reach: map[string]int64{}, notes: map[string]bool{}, kinds: map[string]int64{}, asserts: map[string]*AssertStat{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.stacks = make([][]workItem, len(ms))
	ex.started = time.Now()
	ex.deadline = time.Now().Add(o.Budget)
	ex.maxPaths = o.MaxPaths
	ex.limit = o.Steps
	ex.stacks[0] = []workItem{{}}
	for _, f := range opt {
		f(ex)
	}
	base := make([]MStats, len(ms))
	sbase := make([]SolverStats, len(ms))
	var wg sync.WaitGroup
	for i, m := range ms {
		m.ex = ex
		base[i] = m.stats
		sbase[i] = m.sol.Stats
		wg.Add(1)
		go func(i int, m *M) {
			defer wg.Done()
			for {
				it, ok := ex.pop(i)
				if !ok {
					return
				}
				ex.runPath(m, it)
				ex.done()
			}
		}(i, m)
	}
	wg.Wait()
	for i, m := range ms {
		a, b := m.stats, base[i]
		ex.stats.Steps += a.Steps - b.Steps
		ex.stats.Paths += a.Paths - b.Paths
		ex.stats.Forks += a.Forks - b.Forks
		ex.stats.Forced += a.Forced - b.Forced
		ex.stats.DomainDecided += a.DomainDecided - b.DomainDecided
		ex.stats.Asserts += a.Asserts - b.Asserts
		ex.stats.AssertsTrivial += a.AssertsTrivial - b.AssertsTrivial
		ex.stats.Merged += a.Merged - b.Merged
		ex.stats.Traces += a.Traces - b.Traces
		ex.stats.RacePairs += a.RacePairs - b.RacePairs
		ex.stats.RaceQueries += a.RaceQueries - b.RaceQueries
		if a.MaxSteps > ex.stats.MaxSteps {
			ex.stats.MaxSteps = a.MaxSteps
		}
		s, t := m.sol.Stats, sbase[i]
		ex.sstats.Queries += s.Queries - t.Queries
		ex.sstats.SatN += s.SatN - t.SatN
		ex.sstats.UnsatN += s.UnsatN - t.UnsatN
		ex.sstats.UnknownN += s.UnknownN - t.UnknownN
		ex.sstats.Time += s.Time - t.Time
		if s.MaxQuery > ex.sstats.MaxQuery {
			ex.sstats.MaxQuery = s.MaxQuery
		}
	}
	return ex
}

func (ex *Explorer) reachList() []string {
	var out []string
	for k := range ex.reach {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
