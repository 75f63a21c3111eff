// Package sym is the interface between the harnesses and the checker.  The
// symbolic engine intercepts every function of this package; the bodies below
// are used when a harness runs natively, to replay one concrete assignment.
package sym

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sync"
	"time"

	"github.com/leonelquinteros/gotext/zzverif/zzsync"
)

type Stop struct{ Kind, Msg string }

var (
	mu      sync.Mutex
	In      map[string]uint64
	names   map[string]int
	Obs     []string
	Failed  []string
	Notes   []string
	Reached []string
	Root    string
	TierV   int
	ConstV  []int64

	baseline int
	openBase int
)

// Reset prepares a native run.
func Reset(in map[string]uint64) {
	In = in
	names = map[string]int{}
	Obs, Failed, Notes, Reached = nil, nil, nil, nil
	baseline = runtime.NumGoroutine()
	openBase = handles()
	if Root != "" {
		os.RemoveAll(Root)
		Root = ""
	}
}

func name(n string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[n]
	names[n] = k + 1
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func get(n string, def uint64) uint64 {
	if v, ok := In[n]; ok {
		return v
	}
	return def
}

func Byte(n string) byte     { return byte(get(name(n), 'a')) }
func Bool(n string) bool     { return get(name(n), 0) == 1 }
func Int(n string) int       { return int(get(name(n), 1)) }
func Int64(n string) int64   { return int64(get(name(n), 1)) }
func Int32(n string) int32   { return int32(get(name(n), 1)) }
func Uint32(n string) uint32 { return uint32(get(name(n), 1)) }
func Uint64(n string) uint64 { return get(name(n), 1) }
func Uint16(n string) uint16 { return uint16(get(name(n), 1)) }

// String returns a string of exactly n arbitrary bytes.
func String(nm string, n int) string { return string(Bytes(nm, n)) }

// Bytes returns n arbitrary bytes.
func Bytes(nm string, n int) []byte {
	base := name(nm)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(get(fmt.Sprintf("%s[%d]", base, i), 'a'))
	}
	return b
}

// Choose returns a value in [0,n): every alternative is explored.
func Choose(nm string, n int) int {
	return int(get(name(nm), 0))
}

// Assume restricts the explored inputs.
func Assume(c bool) {
	if !c {
		panic(Stop{"infeasible", ""})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		Failed = append(Failed, msg)
		panic(Stop{"assert", msg})
	}
}

func Fail(msg string)  { Assert(false, msg) }
func Reach(tag string) { mu.Lock(); Reached = append(Reached, tag); mu.Unlock() }
func Note(s string)    { mu.Lock(); Notes = append(Notes, s); mu.Unlock() }

func Observe(n string, v string)   { Obs = append(Obs, n+"="+fmt.Sprintf("%q", v)) }
func ObserveInt(n string, v int)   { Obs = append(Obs, n+"="+fmt.Sprint(v)) }
func ObserveBool(n string, v bool) { Obs = append(Obs, n+"="+fmt.Sprint(v)) }

// Printed gives what f writes to standard output.
func Printed(f func()) string {
	old := os.Stdout
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout = w
	defer func() { os.Stdout = old }()
	got := make(chan string)
	go func() {
		b, _ := io.ReadAll(r)
		got <- string(b)
	}()
	func() {
		defer w.Close()
		f()
	}()
	s := <-got
	r.Close()
	return s
}

// OpenFiles gives the number of files opened in this run and not closed.
func OpenFiles() int { return handles() - openBase }

func handles() int {
	ds, _ := os.ReadDir("/proc/self/fd")
	return len(ds)
}

// Running gives the number of goroutines that were started in this run and have not
// ended, after giving them time to do so.
func Running() int {
	n := 0
	for i := 0; i < 50; i++ {
		n = runtime.NumGoroutine() - baseline
		if n <= 0 {
			return 0
		}
		runtime.Gosched()
		if i > 10 {
			time.Sleep(time.Duration(i) * time.Millisecond / 4)
		}
	}
	return n
}

func MapOrder(on bool)           {}
func Symbolic() bool             { return false }
func And(a, b bool) bool         { return a && b }
func Or(a, b bool) bool          { return a || b }
func Implies(a, b bool) bool     { return !a || b }
func Concretize(s string) string { return s }
func Tier() int                  { return TierV }
func Consts(lo, hi int64) []int64 {
	var out []int64
	for _, c := range ConstV {
		if c >= lo && c <= hi {
			out = append(out, c)
		}
	}
	return out
}

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// VfsRoot is the directory below which the harness puts its files.
func VfsRoot() string {
	if Root == "" {
		d, err := os.MkdirTemp("", "zzverif")
		if err != nil {
			panic(err)
		}
		Root = d
	}
	return Root
}

func VfsPut(p string, data string) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.WriteFile(p, []byte(data), 0o644); err != nil {
		panic(err)
	}
}

func VfsMkdir(p string) { os.MkdirAll(p, 0o755) }

// VfsDel removes a file the harness put there.
func VfsDel(p string) { os.Remove(p) }

// VfsFull makes p a file that can be opened but to which nothing can be written.
func VfsFull(p string) {
	os.MkdirAll(filepath.Dir(p), 0o755)
	if err := os.Symlink("/dev/full", p); err != nil {
		panic(err)
	}
}

func VfsGet(p string) (string, bool) {
	b, err := os.ReadFile(p)
	return string(b), err == nil
}

// Par runs the functions as concurrent threads, under every schedule with at
// most switches preemptions, and returns when all have finished.
func Par(switches int, fs ...func()) {
	if zzsync.Free {
		free(fs)
		return
	}
	var sw, to, seq []uint64
	for {
		v, ok := In[name("par.seq")]
		if !ok {
			break
		}
		seq = append(seq, v)
	}
	if seq != nil {
		zzsync.RunSeq(seq, fs)
		return
	}
	for {
		v, ok := In[name("par.sw")]
		if !ok {
			break
		}
		sw = append(sw, v)
	}
	for {
		v, ok := In[name("par.to")]
		if !ok {
			break
		}
		to = append(to, v)
	}
	zzsync.Run(sw, to, fs)
}

// ParRace is Par; the checker also looks for data races in every schedule.
func ParRace(switches int, fs ...func()) { Par(switches, fs...) }

// ParLocks is Par; the checker also looks for deadlocks among all reorderings of
// the lock operations of every schedule.
func ParLocks(switches int, fs ...func()) { Par(switches, fs...) }

func free(fs []func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	pan := make([]interface{}, len(fs))
	bad := make([]bool, len(fs))
	for _, i := range rand.Perm(len(fs)) {
		wg.Add(1)
		d := time.Duration(rand.Intn(4)) * time.Duration(rand.Intn(20)) * time.Microsecond
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					pan[i], bad[i] = e, true
				}
			}()
			<-start
			time.Sleep(d)
			fs[i]()
		}()
	}
	close(start)
	wg.Wait()
	for i := range fs {
		if bad[i] {
			panic(pan[i])
		}
	}
}
