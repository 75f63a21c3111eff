package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"sync"
)

var profOn bool

func startProfile(p string) {
	if p == "" {
		return
	}
	f, err := os.Create(p)
	if err != nil {
		return
	}
	pprof.StartCPUProfile(f)
	profOn = true
}

func stopProfile() {
	if profOn {
		pprof.StopCPUProfile()
		profOn = false
	}
}

// fork profile (development): where the exploration branches
var forkProf = os.Getenv("GOSYM_FORKS") != ""
var forkMu sync.Mutex
var forkAt = map[string]int{}

func noteFork(m *M) {
	s := m.stack(m.cur)
	forkMu.Lock()
	forkAt[s]++
	forkMu.Unlock()
}

func dumpForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkAt {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, x := range l {
		if i < 25 {
			fmt.Printf("   fork %7d %s\n", x.n, x.k)
		}
	}
}
