// Package zzsync stands in for sync when a schedule found by the checker is
// replayed natively: inside a concurrent section exactly one thread runs at a
// time, switches happen where the recorded schedule says, and a lock operation
// that would block hands the turn over.  Every operation is also performed on a
// real lock.  Outside concurrent sections the real locks are used directly.
package zzsync

import (
	"bytes"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type (
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
	Cond      = sync.Cond
	Locker    = sync.Locker
)

var NewCond = sync.NewCond

func OnceFunc(f func()) func()                                 { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T                     { return sync.OnceValue(f) }
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) { return sync.OnceValues(f) }

type thread struct {
	id      int
	gid     uint64
	turn    chan bool // true: go on, false: the section is stuck, really block
	done    bool
	can     func() bool
	stuckAt int
	grant   bool
	pend    bool
}

var ctl struct {
	mu    sync.Mutex
	on    atomic.Bool
	ths   []*thread
	sw    []uint64
	to    []uint64
	steps uint64
	nblk  int
	seq   []uint64
	cond  *sync.Cond
	all   sync.WaitGroup
}

// Free makes concurrent sections run uncontrolled.
var Free = os.Getenv("ZZ_FREE") != ""

func gid() uint64 {
	var b [64]byte
	s := b[:runtime.Stack(b[:], false)]
	s = bytes.TrimPrefix(s, []byte("goroutine "))
	i := bytes.IndexByte(s, ' ')
	n, _ := strconv.ParseUint(string(s[:i]), 10, 64)
	return n
}

func self() *thread {
	if !ctl.on.Load() {
		return nil
	}
	g := gid()
	ctl.mu.Lock()
	defer ctl.mu.Unlock()
	for _, t := range ctl.ths {
		if t.gid == g {
			return t
		}
	}
	return nil
}

func (t *thread) enabled() bool { return !t.done && (t.can == nil || t.can()) }

// Run executes the functions under the schedule.
func Run(sw, to []uint64, fs []func()) {
	ctl.ths, ctl.sw, ctl.to, ctl.steps, ctl.nblk = nil, sw, to, 0, 0
	pan := make([]interface{}, len(fs))
	bad := make([]bool, len(fs))
	var ready, all sync.WaitGroup
	for i, f := range fs {
		t := &thread{id: i, turn: make(chan bool, 1)}
		ctl.ths = append(ctl.ths, t)
		ready.Add(1)
		all.Add(1)
		go func() {
			defer all.Done()
			t.gid = gid()
			ready.Done()
			<-t.turn
			defer func() {
				if e := recover(); e != nil {
					pan[i], bad[i] = e, true
				}
				ctl.mu.Lock()
				t.done = true
				next(t, nil)
				ctl.mu.Unlock()
			}()
			f()
		}()
	}
	ready.Wait()
	ctl.on.Store(true)
	ctl.mu.Lock()
	next(nil, nil)
	ctl.mu.Unlock()
	all.Wait()
	ctl.on.Store(false)
	for i := range fs {
		if bad[i] {
			panic(pan[i])
		}
	}
}

// RunSeq executes the functions with their lock operations in the given order:
// entry k is the thread that takes a lock next; an entry of 100 and more is an
// attempt that is expected to wait for ever.
func RunSeq(seq []uint64, fs []func()) {
	ctl.ths, ctl.seq, ctl.cond = nil, seq, sync.NewCond(&ctl.mu)
	var ready, all sync.WaitGroup
	start := make(chan bool)
	for i, f := range fs {
		t := &thread{id: i}
		ctl.ths = append(ctl.ths, t)
		ready.Add(1)
		all.Add(1)
		go func() {
			defer all.Done()
			t.gid = gid()
			ready.Done()
			<-start
			f()
		}()
	}
	ready.Wait()
	ctl.on.Store(true)
	close(start)
	all.Wait()
	ctl.on.Store(false)
	ctl.seq, ctl.cond = nil, nil
}

// seqLock performs one lock operation in its place of the sequence.
func (t *thread) seqLock(lock func()) {
	ctl.mu.Lock()
	for len(ctl.seq) > 0 && ctl.seq[0]%100 != uint64(t.id) {
		ctl.cond.Wait()
	}
	if len(ctl.seq) == 0 {
		ctl.mu.Unlock()
		lock()
		return
	}
	stuck := ctl.seq[0] >= 100
	if !stuck {
		ctl.mu.Unlock()
		lock()
		ctl.mu.Lock()
	} else {
		go func() {
			// by then this thread waits in lock
			time.Sleep(50 * time.Millisecond)
			ctl.mu.Lock()
			ctl.seq = ctl.seq[1:]
			ctl.cond.Broadcast()
			ctl.mu.Unlock()
		}()
		ctl.mu.Unlock()
		lock()
		return
	}
	ctl.seq = ctl.seq[1:]
	ctl.cond.Broadcast()
	ctl.mu.Unlock()
}

// next hands the turn to another thread (ctl.mu is held).
func next(cur, not *thread) {
	var en []*thread
	alive := false
	for _, t := range ctl.ths {
		if !t.done {
			alive = true
			if t != not && t.enabled() {
				en = append(en, t)
			}
		}
	}
	if !alive {
		return
	}
	if len(en) == 0 {
		stuck()
		return
	}
	k := 0
	if len(en) > 1 && len(ctl.to) > 0 {
		k = int(ctl.to[0]) % len(en)
		ctl.to = ctl.to[1:]
	}
	en[k].can = nil
	en[k].turn <- true
}

// stuck lets every blocked thread block on its real lock, in the order in which
// they stopped, for the runtime to find the deadlock.
func stuck() {
	n := len(ctl.ths)
	for i := 1; i <= ctl.nblk; i++ {
		for _, t := range ctl.ths[:n] {
			if !t.done && t.stuckAt == i {
				t.turn <- false
				time.Sleep(20 * time.Millisecond)
			}
		}
	}
	ctl.on.Store(false)
}

// step is called before a lock is taken: the schedule may switch here.
func (t *thread) step() {
	ctl.mu.Lock()
	ctl.steps++
	other := false
	for _, o := range ctl.ths {
		if o != t && o.enabled() {
			other = true
		}
	}
	if other && len(ctl.sw) > 0 && ctl.sw[0] == ctl.steps {
		ctl.sw = ctl.sw[1:]
		next(t, t)
		ctl.mu.Unlock()
		<-t.turn
		return
	}
	ctl.mu.Unlock()
}

// wait gives the turn away until can holds; false: block for real.
func (t *thread) wait(can func() bool) bool {
	ctl.mu.Lock()
	t.can = can
	ctl.nblk++
	t.stuckAt = ctl.nblk
	next(t, nil)
	ctl.mu.Unlock()
	return <-t.turn
}

type core struct {
	w     bool
	nr    int
	pend  int
	queue []*thread
}

type Mutex struct {
	c core
	r sync.Mutex
}

func (m *Mutex) Lock() {
	t := self()
	if t == nil {
		m.r.Lock()
		m.c.w = true
		return
	}
	if ctl.cond != nil {
		t.seqLock(m.r.Lock)
		return
	}
	t.step()
	for m.c.w {
		if !t.wait(func() bool { return !m.c.w }) {
			m.r.Lock()
			return
		}
	}
	m.c.w = true
	m.r.Lock()
}

func (m *Mutex) TryLock() bool {
	if t := self(); t != nil && ctl.cond == nil {
		t.step()
	}
	ok := m.r.TryLock()
	if ok {
		m.c.w = true
	}
	return ok
}

func (m *Mutex) Unlock() {
	m.c.w = false
	m.r.Unlock()
}

type RWMutex struct {
	c core
	r sync.RWMutex
	g sync.Mutex // guards c outside concurrent sections
}

func (m *RWMutex) with(f func()) { m.g.Lock(); f(); m.g.Unlock() }

func (m *RWMutex) Lock() {
	t := self()
	if t == nil {
		m.r.Lock()
		m.with(func() { m.c.w = true })
		return
	}
	if ctl.cond != nil {
		t.seqLock(m.r.Lock)
		return
	}
	t.step()
	pend := false
	for m.c.w || m.c.nr > 0 {
		if !pend {
			pend = true
			m.c.pend++
		}
		if !t.wait(func() bool { return !m.c.w && m.c.nr == 0 }) {
			m.r.Lock()
			return
		}
	}
	if pend {
		m.c.pend--
	}
	m.c.w = true
	m.r.Lock()
}

func (m *RWMutex) Unlock() {
	m.with(func() {
		m.c.w = false
		for _, t := range m.c.queue {
			t.grant = true
			m.c.nr++
		}
		m.c.queue = nil
	})
	m.r.Unlock()
}

func (m *RWMutex) RLock() {
	t := self()
	if t == nil {
		m.r.RLock()
		m.with(func() { m.c.nr++ })
		return
	}
	if ctl.cond != nil {
		t.seqLock(m.r.RLock)
		return
	}
	t.step()
	if m.c.w || m.c.pend > 0 {
		t.grant = false
		m.c.queue = append(m.c.queue, t)
		if !t.wait(func() bool { return t.grant }) {
			m.r.RLock()
			return
		}
		t.grant = false
	} else {
		m.c.nr++
	}
	m.r.RLock()
}

func (m *RWMutex) RUnlock() {
	m.with(func() { m.c.nr-- })
	m.r.RUnlock()
}

func (m *RWMutex) TryLock() bool {
	if t := self(); t != nil && ctl.cond == nil {
		t.step()
		if m.c.w || m.c.nr > 0 || m.c.pend > 0 {
			return false
		}
	}
	ok := m.r.TryLock()
	if ok {
		m.with(func() { m.c.w = true })
	}
	return ok
}

func (m *RWMutex) TryRLock() bool {
	if t := self(); t != nil && ctl.cond == nil {
		t.step()
		if m.c.w || m.c.pend > 0 {
			return false
		}
	}
	ok := m.r.TryRLock()
	if ok {
		m.with(func() { m.c.nr++ })
	}
	return ok
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() == 0 {
		o.m.Lock()
		defer o.m.Unlock()
		if o.done.Load() == 0 {
			defer o.done.Store(1)
			f()
		}
	}
}
