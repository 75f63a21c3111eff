package main

import (
	"fmt"
	"sort"
	"strings"
)

// Concurrent sections of a harness: sym.Par runs functions as threads under
// every schedule within the preemption bound; sym.ParRace additionally records
// the accesses of each thread and asks the solver for a reordering of the
// recorded trace in which two conflicting accesses are adjacent.

// ---- schedules ----

type parRun struct {
	ths    []*gor
	base   int // first goroutine id belonging to the section
	steps  int // lock acquisitions seen so far
	sw     int // preemptions so far
	budget int
	swVar  *Expr // position of the next preemption
	yield  bool  // the running thread was preempted
}

func (g *gor) runnable() bool { return !g.dead && (g.wake == nil || g.wake()) }

func (m *M) runPar(fs []value, budget int, trace byte) {
	if m.par != nil {
		m.unsupported("nested sym.Par")
	}
	saved, sctl := m.cur, m.ctl
	p := &parRun{base: len(m.gs), budget: budget}
	for i, f := range fs {
		g := m.spawn(f, nil, fmt.Sprintf("thread %d", i))
		g.par = true
		g.thr = i + 1
		p.ths = append(p.ths, g)
	}
	m.par = p
	if trace != 0 {
		m.tr = newTracer(len(fs))
		m.tr.mode = trace
	}
	defer func() { m.par = nil; m.tr = nil }()
	m.parLoop(p)
	tr := m.tr
	m.par = nil
	m.tr = nil
	m.cur, m.ctl = saved, sctl
	if tr != nil {
		tr.check(m)
	}
}

func (m *M) parLoop(p *parRun) {
	var cur *gor
	for {
		moved := false
		for i := p.base; i < len(m.gs); i++ {
			g := m.gs[i]
			if g.par || !g.runnable() {
				continue
			}
			g.wake = nil
			m.cur = g
			m.run(g, nil)
			moved = true
		}
		if moved {
			continue
		}
		var en []*gor
		alive := false
		for _, g := range p.ths {
			if !g.dead {
				alive = true
				if g.runnable() && !(p.yield && g == cur) {
					en = append(en, g)
				}
			}
		}
		if !alive {
			return
		}
		if len(en) == 0 {
			panic(pathEnd{"deadlock", m.blockedInfo()})
		}
		next := en[0]
		if cur != nil && !p.yield && cur.runnable() {
			next = cur
		} else if len(en) > 1 {
			k := m.choose(len(en))
			m.inputs = append(m.inputs, inputRec{name: m.symName("par.to"), const_: uint64(k), w: 64})
			next = en[k]
		}
		p.yield = false
		next.wake = nil
		m.cur = next
		m.run(next, nil)
		cur = next
	}
}

// preempt decides, before a lock is taken, whether another thread runs first.
func (m *M) preempt(fr *frame) bool {
	p, g := m.par, m.cur
	if p == nil || !g.par || g.nest > 0 || !lockByRepo(fr) {
		return false
	}
	if g.retry {
		g.retry = false
		return false
	}
	p.steps++
	other := false
	for _, o := range p.ths {
		if o != g && o.runnable() {
			other = true
		}
	}
	if !other || p.sw >= p.budget || p.steps > 250 {
		return false
	}
	if p.swVar == nil {
		p.swVar = m.newVar(m.symName("par.sw"), 8)
	}
	if !m.decide(m.ctx.Eq(p.swVar, m.ctx.Const(8, uint64(p.steps)))) {
		return false
	}
	p.sw++
	p.swVar = nil
	p.yield = true
	g.retry = true
	fr.pc--
	m.ctl = ctlYield
	return true
}

// lockByRepo tells whether a lock operation belongs to the code under test (or
// to sync.Once and the like used by it) and not to another library's internals.
func lockByRepo(fr *frame) bool {
	for ; fr != nil && fr.fi != nil; fr = fr.caller {
		if fr.fi.cov || fr.fi.harness {
			return true
		}
		if f := fr.fi.fn; f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "sync" {
			return false
		}
	}
	return false
}

// ---- traces ----

type cellAcc struct {
	rd, wr     bool
	rdI, wrI   int // position of the first read and write in the segment
	rdAt, wrAt *fnInfo
	rf         *tseg // segment whose write the first read saw, nil: initial value
}

type tseg struct {
	thr, idx int
	cells    map[*value]*cellAcc
	atomic   bool
	n        int
	o        *Expr
}

type tev struct {
	thr, idx int
	acq, rd  bool
	try      bool // does not wait
	counted  bool // an operation of the code under test: replays control it
	lock     *value
	o        *Expr
}

type titem struct {
	seg *tseg
	ev  *tev
}

type tracer struct {
	mode  byte // 'r' races, 'd' deadlocks
	items [][]titem
	lastW map[*value]*tseg
}

func newTracer(n int) *tracer {
	return &tracer{items: make([][]titem, n+1), lastW: map[*value]*tseg{}}
}

func (t *tracer) seg(thr int) *tseg {
	its := t.items[thr]
	if n := len(its); n > 0 && its[n-1].seg != nil && !its[n-1].seg.atomic {
		return its[n-1].seg
	}
	s := &tseg{thr: thr, idx: len(its), cells: map[*value]*cellAcc{}}
	t.items[thr] = append(its, titem{seg: s})
	return s
}

func (t *tracer) access(m *M, p *value, write bool) {
	g := m.cur
	if g == nil || g.thr == 0 || g.thr >= len(t.items) {
		return
	}
	t.record(m, t.seg(g.thr), p, write)
}

func (t *tracer) record(m *M, s *tseg, p *value, write bool) {
	a := s.cells[p]
	if a == nil {
		a = &cellAcc{}
		s.cells[p] = a
	}
	s.n++
	if write {
		if !a.wr {
			a.wr = true
			a.wrI = s.n
			a.wrAt = m.accessFn()
		}
		t.lastW[p] = s
		return
	}
	if !a.rd {
		a.rd = true
		a.rdI = s.n
		a.rdAt = m.accessFn()
		if !a.wr {
			a.rf = t.lastW[p]
		}
	}
}

// accessFn is the function of the code under test doing the access.
func (m *M) accessFn() *fnInfo {
	for fr := m.cur.top; fr != nil; fr = fr.caller {
		if fr.fi != nil && fr.fi.cov {
			return fr.fi
		}
	}
	if m.cur.top != nil {
		return m.cur.top.fi
	}
	return nil
}

func (t *tracer) lock(m *M, acq, rd, try bool, p *value) {
	g := m.cur
	if g == nil || g.thr == 0 || g.thr >= len(t.items) {
		return
	}
	e := &tev{thr: g.thr, idx: len(t.items[g.thr]), acq: acq, rd: rd, try: try, counted: g.nest == 0 && lockByRepo(m.cur.top), lock: p}
	t.items[g.thr] = append(t.items[g.thr], titem{ev: e})
}

func (t *tracer) atomicOp(m *M, p *value, write bool) {
	g := m.cur
	if g == nil || g.thr == 0 || g.thr >= len(t.items) {
		return
	}
	s := &tseg{thr: g.thr, idx: len(t.items[g.thr]), cells: map[*value]*cellAcc{}, atomic: true}
	t.items[g.thr] = append(t.items[g.thr], titem{seg: s})
	t.record(m, s, p, false)
	if write {
		t.record(m, s, p, true)
	}
}

type raceVerdict struct {
	res  Res
	what string
	seq  []uint64 // order of the lock operations, for the replay
}

// check asks the solver whether some reordering of the trace that respects
// program order, the locks and the values read lets two conflicting accesses
// happen at the same time, or leaves every unfinished thread waiting for a lock.
func (t *tracer) check(m *M) {
	type touch struct {
		thrs map[int]bool
		wr   bool
	}
	use := map[*value]*touch{}
	for _, its := range t.items {
		for _, it := range its {
			if it.seg == nil {
				continue
			}
			for p, a := range it.seg.cells {
				u := use[p]
				if u == nil {
					u = &touch{thrs: map[int]bool{}}
					use[p] = u
				}
				u.thrs[it.seg.thr] = true
				u.wr = u.wr || a.wr
			}
		}
	}
	shared := func(p *value) bool { u := use[p]; return len(u.thrs) > 1 && u.wr }
	// name the shared cells and locks in order of appearance
	var sb strings.Builder
	ids := map[*value]int{}
	id := func(p *value) int {
		if _, ok := ids[p]; !ok {
			ids[p] = len(ids)
		}
		return ids[p]
	}
	var segs []*tseg
	var evs []*tev
	kept := map[*tseg][]*value{}
	for thr, its := range t.items {
		fmt.Fprintf(&sb, "T%d", thr)
		for _, it := range its {
			if it.ev != nil {
				evs = append(evs, it.ev)
				fmt.Fprintf(&sb, " %v%v%d", it.ev.acq, it.ev.rd, id(it.ev.lock))
				continue
			}
			var cs []*value
			for p := range it.seg.cells {
				if shared(p) {
					cs = append(cs, p)
				}
			}
			if len(cs) == 0 {
				continue
			}
			kept[it.seg] = cs
			segs = append(segs, it.seg)
		}
	}
	m.stats.Traces++
	if len(segs) == 0 && t.mode == 'r' {
		return
	}
	// cells with the same accesses in the same segments need only be seen once
	pos := map[*tseg]int{}
	for i, s := range segs {
		pos[s] = i
	}
	profile := map[string]*value{}
	prof := func(p *value) string {
		var x []string
		for i, s := range segs {
			if a := s.cells[p]; a != nil {
				rf := -1
				if a.rf != nil {
					rf = pos[a.rf]
				}
				x = append(x, fmt.Sprintf("%d:%v%v%d@%s,%s", i, a.rd, a.wr, rf, fnName(a.rdAt), fnName(a.wrAt)))
			}
		}
		return strings.Join(x, ";")
	}
	first := func(p *value) int {
		for _, s := range segs {
			if a := s.cells[p]; a != nil {
				if a.rd {
					return a.rdI
				}
				return a.wrI
			}
		}
		return 0
	}
	for p := range use {
		if shared(p) {
			k := prof(p)
			if q := profile[k]; q == nil || first(p) < first(q) {
				profile[k] = p
			}
		}
	}
	var keys []string
	for k := range profile {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, s := range segs {
		fmt.Fprintf(&sb, " s%d.%d%v", s.thr, s.idx, s.atomic)
	}
	sb.WriteString(strings.Join(keys, "|"))
	sig := string(t.mode) + sb.String()
	m.ex.mu.Lock()
	v, ok := m.ex.races[sig]
	m.ex.mu.Unlock()
	if !ok {
		cells := make([]*value, len(keys))
		for i, k := range keys {
			cells[i] = profile[k]
		}
		v = t.solve(m, segs, evs, cells, pos)
		m.ex.mu.Lock()
		if m.ex.races == nil {
			m.ex.races = map[string]raceVerdict{}
		}
		m.ex.races[sig] = v
		m.ex.mu.Unlock()
	}
	switch v.res {
	case Sat:
		kind := "race"
		if t.mode == 'd' {
			kind = "deadlock"
		}
		n := len(m.inputs)
		for i, x := range v.seq {
			nm := "par.seq"
			if i > 0 {
				nm = fmt.Sprintf("par.seq#%d", i)
			}
			m.inputs = append(m.inputs, inputRec{name: nm, const_: x, w: 64})
		}
		m.ex.violate(m, kind, v.what, m.model)
		m.inputs = m.inputs[:n]
	case Unknown:
		m.ex.noteUnknown(m)
	}
}

func fnName(f *fnInfo) string {
	if f == nil {
		return "?"
	}
	return f.name
}

func (t *tracer) solve(m *M, segs []*tseg, evs []*tev, cells []*value, pos map[*tseg]int) raceVerdict {
	c := m.ctx
	n := 0
	w := uint8(4)
	for 1<<w < len(segs)+len(evs)+4 {
		w++
	}
	nv := func() *Expr { n++; return c.Var(fmt.Sprintf("ord%d!%d", w, n), w) }
	keep := map[*tseg]bool{}
	for _, s := range segs {
		keep[s] = true
	}
	var vars []*Expr
	f := c.T
	and := func(e *Expr) { f = c.And(f, e) }
	lim := c.Const(w, uint64(1)<<w-1)
	prev := map[*tev]*Expr{}
	final := make([]*Expr, len(t.items))
	for thr, its := range t.items {
		var last *Expr
		for _, it := range its {
			if it.seg != nil && !keep[it.seg] {
				continue
			}
			o := nv()
			vars = append(vars, o)
			and(c.Ult(o, lim))
			if it.seg != nil {
				it.seg.o = o
			} else {
				it.ev.o = o
				prev[it.ev] = last
			}
			if last != nil {
				and(c.Ult(last, o))
			}
			last = o
		}
		final[thr] = last
	}
	at := nv()
	vars = append(vars, at)
	// critical sections
	type cs struct {
		thr  int
		rd   bool
		a, r *Expr
	}
	secs := map[*value][]cs{}
	var locks []*value
	open := map[string]int{}
	for _, e := range evs {
		k := fmt.Sprintf("%d %p %v", e.thr, e.lock, e.rd)
		if e.acq {
			if secs[e.lock] == nil {
				locks = append(locks, e.lock)
			}
			secs[e.lock] = append(secs[e.lock], cs{e.thr, e.rd, e.o, nil})
			open[k] = len(secs[e.lock])
		} else if i := open[k]; i > 0 {
			for i > 1 && secs[e.lock][i-1].r != nil {
				i--
			}
			secs[e.lock][i-1].r = e.o
		}
	}
	for _, l := range locks {
		ss := secs[l]
		for i := range ss {
			for j := i + 1; j < len(ss); j++ {
				x, y := ss[i], ss[j]
				if x.thr == y.thr || x.rd && y.rd {
					continue
				}
				alt := c.F
				if x.r != nil {
					alt = c.Or(alt, c.Ult(x.r, y.a))
				}
				if y.r != nil {
					alt = c.Or(alt, c.Ult(y.r, x.a))
				}
				if t.mode == 'd' {
					// what happens after the deadlock does not happen
					alt = c.Or(alt, c.Or(c.Ult(at, x.a), c.Ult(at, y.a)))
				}
				and(alt)
			}
		}
	}
	// values read before the race are those of the recorded run
	rfOf := func(s *tseg, p *value, partner *tseg, k int) *Expr {
		a := s.cells[p]
		ok := c.T
		if a.wr && a.wrI < a.rdI {
			return ok // it reads what it wrote itself
		}
		if w := a.rf; w != nil && w.thr != s.thr {
			if w == partner {
				// written before the racing access of the partner?
				return c.Bool(w.cells[p].wrI < k)
			}
			ok = c.And(ok, c.Ult(w.o, s.o))
		}
		for _, w2 := range segs {
			b := w2.cells[p]
			if b == nil || !b.wr || w2 == a.rf || w2 == partner {
				continue
			}
			if w2.thr == s.thr {
				if w2.idx < s.idx && a.rf != nil && a.rf.thr != s.thr {
					ok = c.And(ok, c.Ult(w2.o, a.rf.o))
				}
				continue
			}
			if a.rf == nil {
				ok = c.And(ok, c.Ult(s.o, w2.o))
			} else {
				ok = c.And(ok, c.Or(c.Ult(w2.o, a.rf.o), c.Ult(s.o, w2.o)))
			}
		}
		return ok
	}
	for _, p := range cells {
		for _, s := range segs {
			if a := s.cells[p]; a != nil && a.rd {
				f = c.And(f, c.Or(c.Not(c.Ult(s.o, at)), rfOf(s, p, nil, 0)))
			}
		}
	}
	if t.mode == 'd' {
		stuckAt := func(e *tev) *Expr {
			r := c.Ult(at, e.o)
			if p := prev[e]; p != nil {
				r = c.And(r, c.Ult(p, at))
			}
			return r
		}
		any := c.F
		npairs := 0
		for thr := range t.items {
			if final[thr] == nil {
				continue
			}
			fin := c.Ult(final[thr], at)
			st := fin
			for _, e := range evs {
				if e.thr != thr || !e.acq || e.try {
					continue
				}
				blocked := c.F
				for _, x := range secs[e.lock] {
					if x.rd && e.rd || x.a == e.o {
						continue
					}
					npairs++
					held := c.Ult(x.a, at)
					if x.r != nil {
						held = c.And(held, c.Ult(at, x.r))
					}
					blocked = c.Or(blocked, held)
				}
				if e.rd {
					for _, w := range evs {
						if w.thr != thr && w.acq && !w.rd && !w.try && w.lock == e.lock {
							npairs++
							blocked = c.Or(blocked, stuckAt(w))
						}
					}
				}
				st = c.Or(st, c.And(stuckAt(e), blocked))
			}
			and(st)
			any = c.Or(any, c.Not(fin))
		}
		m.stats.RacePairs += int64(npairs)
		m.stats.RaceQueries++
		res, mod := m.sol.Check(nil, c.And(f, any), vars)
		v := raceVerdict{res: res}
		if res == Sat {
			d := mod[at.vidx]
			var done, wr, rd []*tev
			for _, e := range evs {
				switch {
				case !e.acq || !e.counted:
				case mod[e.o.vidx] < d:
					done = append(done, e)
				case prev[e] == nil || mod[prev[e].vidx] < d:
					if e.rd {
						rd = append(rd, e)
					} else {
						wr = append(wr, e)
					}
				}
			}
			sort.Slice(done, func(i, j int) bool { return mod[done[i].o.vidx] < mod[done[j].o.vidx] })
			for _, e := range done {
				v.seq = append(v.seq, uint64(e.thr-1))
			}
			for _, e := range append(wr, rd...) {
				v.seq = append(v.seq, uint64(e.thr-1)+100)
			}
			v.what = fmt.Sprintf("deadlock: %d thread(s) wait for ever for a lock", len(wr)+len(rd))
		}
		return v
	}
	// before(s,i): the reads of s that precede its racing access
	before := func(s *tseg, i int, partner *tseg, k int) *Expr {
		ok := c.T
		for _, p := range cells {
			if a := s.cells[p]; a != nil && a.rd && a.rdI < i {
				ok = c.And(ok, rfOf(s, p, partner, k))
			}
		}
		return ok
	}
	type pair struct {
		s, t *tseg
		p    *value
		e    *Expr
	}
	var pairs []pair
	some := c.F
	for i, s := range segs {
		for _, u := range segs[i+1:] {
			if s.thr == u.thr || s.atomic && u.atomic {
				continue
			}
			here := c.And(c.Eq(s.o, at), c.Eq(u.o, at))
			for _, p := range cells {
				a, b := s.cells[p], u.cells[p]
				if a == nil || b == nil || !a.wr && !b.wr {
					continue
				}
				add := func(x, y int) {
					e := c.And(here, c.And(before(s, x, u, y), before(u, y, s, x)))
					pairs = append(pairs, pair{s, u, p, e})
					some = c.Or(some, e)
				}
				firstOf := func(a *cellAcc) int {
					if a.rd && (!a.wr || a.rdI < a.wrI) {
						return a.rdI
					}
					return a.wrI
				}
				if a.wr {
					add(a.wrI, firstOf(b))
				}
				if b.wr && !(a.wr && firstOf(a) == a.wrI && firstOf(b) == b.wrI) {
					add(firstOf(a), b.wrI)
				}
			}
		}
	}
	m.stats.RacePairs += int64(len(pairs))
	if len(pairs) == 0 {
		return raceVerdict{res: Unsat}
	}
	m.stats.RaceQueries++
	res, mod := m.sol.Check(nil, c.And(f, some), vars)
	v := raceVerdict{res: res}
	if res == Sat {
		r := mod[at.vidx]
		for _, q := range pairs {
			if mod[q.s.o.vidx] == r && mod[q.t.o.vidx] == r && c.Eval(q.e, mod) == 1 {
				d := func(a *cellAcc) string {
					if a.wr {
						return "write in " + fnName(a.wrAt)
					}
					return "read in " + fnName(a.rdAt)
				}
				x := []string{d(q.s.cells[q.p]), d(q.t.cells[q.p])}
				sort.Strings(x)
				v.what = "data race: " + x[0] + " and " + x[1] + " on the same memory, not ordered by any lock"
				break
			}
		}
	}
	return v
}

func registerConc(L *Loader) {
	N := L.natives
	P := symPkg + "."
	for nm, mode := range map[string]byte{"Par": 0, "ParRace": 'r', "ParLocks": 'd'} {
		N[P+nm] = func(m *M, a []value) value {
			n := int(int64(m.concInt(a[0])))
			fs := append([]value(nil), a[1].([]value)...)
			m.runPar(fs, n, mode)
			return nil
		}
	}
}
