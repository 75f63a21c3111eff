package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	rdebug "runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type HarnessCfg struct {
	Fn     string `json:"fn"`
	Quick  int    `json:"quick"`  // seconds
	Deep   int    `json:"deep"`   // seconds, thorough tier
	Steps  int64  `json:"steps"`  // per-path step limit (a path beyond it is a hang candidate)
	Bounds string `json:"bounds"` // stated bound
}

type PropCfg struct {
	ID          string       `json:"id"`
	Pkg         string       `json:"pkg"`
	Harnesses   []HarnessCfg `json:"harnesses"`
	Assumptions []string     `json:"assumptions"`
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "gosym: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	rdebug.SetGCPercent(200)
	rdebug.SetMemoryLimit(14 << 30)
	if len(os.Args) < 2 {
		fatal("usage: gosym check|run|replay ...")
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	repo := fs.String("repo", "/repo", "tree under test")
	verif := fs.String("verif", "/verif", "verification directory")
	prop := fs.String("prop", "", "property id")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	only := fs.String("fn", "", "only this harness")
	pkg := fs.String("pkg", "h", "harness package (run)")
	budget := fs.Int("budget", 0, "seconds per harness, overriding the configuration")
	workers := fs.Int("workers", 0, "workers")
	solver := fs.String("solver", "z3-new", "SMT solver")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = "quick"
	}
	if *workers == 0 {
		*workers = runtime.NumCPU()
		if *workers > 8 {
			*workers = 8
		}
	}
	startProfile(*prof)
	defer stopProfile()
	switch cmd {
	case "replay":
		os.Exit(replayFile(*repo, *verif, fs.Arg(0)))
	case "check", "run":
	default:
		fatal("unknown command %s", cmd)
	}
	cfgs := loadCfg(*verif)
	var pc *PropCfg
	if cmd == "run" {
		pc = &PropCfg{ID: "DEV", Pkg: *pkg, Harnesses: []HarnessCfg{{Fn: *only, Quick: 60, Deep: 60}}}
		for i := range cfgs {
			for _, h := range cfgs[i].Harnesses {
				if h.Fn == *only {
					pc.Pkg = cfgs[i].Pkg
					pc.Harnesses[0] = h
				}
			}
		}
	} else {
		for i := range cfgs {
			if cfgs[i].ID == *prop {
				pc = &cfgs[i]
			}
		}
		if pc == nil {
			fatal("no property %q in harness/props.json", *prop)
		}
		if *only != "" {
			var hs []HarnessCfg
			for _, h := range pc.Harnesses {
				if h.Fn == *only {
					hs = append(hs, h)
				}
			}
			pc.Harnesses = hs
		}
	}
	c := &Checker{repo: *repo, verif: *verif, cfg: pc, tier: *tier, workers: *workers, solver: solverArgv(*solver), budget: *budget}
	rc := c.run(cmd == "check")
	stopProfile()
	if forkProf {
		dumpForks()
	}
	os.Exit(rc)
}

func solverArgv(s string) []string {
	if strings.Contains(s, "cvc5") {
		return []string{s, "--incremental", "--lang=smt2"}
	}
	return []string{s, "-in", "-smt2"}
}

func loadCfg(verif string) []PropCfg {
	b, err := os.ReadFile(filepath.Join(verif, "harness", "props.json"))
	if err != nil {
		fatal("%v", err)
	}
	var out []PropCfg
	if err := json.Unmarshal(b, &out); err != nil {
		fatal("props.json: %v", err)
	}
	return out
}

type Checker struct {
	repo, verif string
	cfg         *PropCfg
	tier        string
	workers     int
	solver      []string
	budget      int
	workdir     string
	runner      *Runner
	known       map[string]bool
	t0          time.Time
}

type harnessReport struct {
	Harness       string                 `json:"harness"`
	Bounds        string                 `json:"bounds"`
	Exhausted     bool                   `json:"bound_exhausted"`
	Paths         int64                  `json:"paths"`
	Kinds         map[string]int64       `json:"path_outcomes"`
	Forks         int64                  `json:"forks"`
	Merged        int64                  `json:"merged_regions"`
	DomainPruned  int64                  `json:"branches_decided_by_byte_domains"`
	CertQueries   int64                  `json:"path_certificate_queries"`
	CertFacts     int64                  `json:"path_certificate_facts"`
	CertFailures  int64                  `json:"path_certificate_failures"`
	Steps         int64                  `json:"ssa_instructions_executed"`
	MaxSteps      int64                  `json:"longest_path_instructions"`
	Queries       int64                  `json:"smt_queries"`
	Sat           int64                  `json:"smt_sat"`
	Unsat         int64                  `json:"smt_unsat"`
	Unknown       int64                  `json:"smt_unknown"`
	SolverS       float64                `json:"solver_s"`
	MaxQueryS     float64                `json:"longest_query_s"`
	WallS         float64                `json:"wall_s"`
	Asserts       map[string]*AssertStat `json:"assertions"`
	Reach         map[string]int64       `json:"reachability_witnesses"`
	Cut           map[string]int         `json:"paths_cut,omitempty"`
	Dropped       int64                  `json:"unexplored_prefixes"`
	SamplesRun    int                    `json:"paths_replayed_natively"`
	SamplesAgree  int                    `json:"paths_replayed_natively_agreeing"`
	Disagreements []string               `json:"disagreements,omitempty"`
	Unconfirmed   []string               `json:"unconfirmed_counterexamples,omitempty"`
	Extra         map[string]interface{} `json:"extra,omitempty"`
}

func (c *Checker) run(emit bool) int {
	c.t0 = time.Now()
	id := c.cfg.ID
	wd, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(wd)
	c.workdir = wd
	c.known = loadKnown(filepath.Join(c.verif, "known-findings.txt"), id)
	var wg sync.WaitGroup
	var bin string
	var berr error
	wg.Add(1)
	go func() {
		defer wg.Done()
		bin, berr = buildRunner(c.repo, c.verif, wd, c.cfg.Pkg, false)
	}()
	L, err := Load(c.repo, c.verif, c.cfg.Pkg)
	wg.Wait()
	if err != nil {
		fatal("%v", err)
	}
	if berr != nil {
		fatal("build: %v", berr)
	}
	if c.tier == "thorough" {
		L.tier = 1
	}
	loadS := time.Since(c.t0).Seconds()
	c.runner = &Runner{bin: bin, dir: wd, tier: L.tier, consts: L.harvest(-1<<62, 1<<62), race: raceBuilder(c.repo, c.verif, wd, c.cfg.Pkg)}
	L.buildPkg(L.harness)
	ms := make([]*M, c.workers)
	for i := range ms {
		ms[i] = newM(L, i, c.solver)
	}
	defer func() {
		for _, m := range ms {
			m.sol.Close()
		}
	}()

	var reps []*harnessReport
	nviol := 0
	var samples []interface{}
	knownHit := map[string]bool{}
	for _, h := range c.cfg.Harnesses {
		f := L.harness.Func(h.Fn)
		if f == nil {
			fatal("no harness %s", h.Fn)
		}
		sec := h.Quick
		if L.tier == 1 {
			sec = h.Deep
		}
		if c.budget > 0 {
			sec = c.budget
		}
		if sec == 0 {
			sec = 30
		}
		total := 600
		if L.tier == 1 {
			total = 3000
		}
		if left := total - int(time.Since(c.t0).Seconds()); sec > left && c.budget == 0 {
			sec = max(left, 5)
		}
		steps := h.Steps
		if steps == 0 {
			steps = 3_000_000
		}
		ht := time.Now()
		var rep *harnessReport
		var viols []Violation
		var ex *Explorer
		rep, viols, ex = c.explore(L, f, h, ms, sec, steps)
		for i, s := range ex.samples {
			if i < 2 && len(samples) < 8 {
				samples = append(samples, map[string]interface{}{"harness": h.Fn, "inputs": s.Inputs, "observed": s.Obs})
			}
		}
		rep.WallS = round3(time.Since(ht).Seconds())
		reps = append(reps, rep)
		nv, kh := c.report(h, rep, viols, emit)
		nviol += nv
		for k := range kh {
			knownHit[k] = true
		}
		fmt.Printf("%s %s: %d paths (%v), %d SMT queries (%d unknown, %.2fs), exhausted=%v, native %d/%d agree, %d violations, %.1fs\n", id, h.Fn, rep.Paths, rep.Kinds, rep.Queries, rep.Unknown, rep.SolverS, rep.Exhausted, rep.SamplesAgree, rep.SamplesRun, nv, rep.WallS)
		if !emit || debug {
			for k, n := range rep.Cut {
				fmt.Printf("   cut %dx %s\n", n, k)
			}
			for _, d := range rep.Disagreements {
				fmt.Printf("   DISAGREE %s\n", d)
			}
			for k, a := range rep.Asserts {
				fmt.Printf("   assert %-60s %+v\n", k, *a)
			}
			fmt.Printf("   reach %v; steps %d max %d; forks %d merged %d dom %d cert %d/%d\n", rep.Reach, rep.Steps, rep.MaxSteps, rep.Forks, rep.Merged, rep.DomainPruned, rep.CertQueries, rep.CertFailures)
		}
		if len(rep.Disagreements) > 0 || rep.CertFailures > 0 {
			fmt.Printf("   note: %d native disagreements, %d certificate failures (see evidence)\n", len(rep.Disagreements), rep.CertFailures)
		}
		for _, u := range rep.Unconfirmed {
			fmt.Printf("   unconfirmed: %s\n", u)
		}
		if nviol > 0 && emit {
			break
		}
	}
	if emit {
		for k := range c.known {
			if knownHit[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
		}
		c.evidence(L, reps, samples, nviol, loadS)
	}
	for _, n := range sortedNotes(L) {
		fmt.Println("   note:", n)
	}
	fmt.Printf("%s: %d violation(s), %.1fs\n", id, nviol, time.Since(c.t0).Seconds())
	if nviol > 0 {
		return 1
	}
	return 0
}

func round3(f float64) float64 { return float64(int64(f*1000+0.5)) / 1000 }

func sortedNotes(L *Loader) []string {
	var out []string
	for k := range L.notes {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (c *Checker) explore(L *Loader, f *ssa.Function, h HarnessCfg, ms []*M, sec int, steps int64) (*harnessReport, []Violation, *Explorer) {
	ex := Explore(L, f, ExploreOpts{Budget: time.Duration(sec) * time.Second, MaxPaths: 1 << 40, Steps: steps}, ms, func(ex *Explorer) {
		ex.isKnown = func(n []string) bool { return c.knownOf(n) != "" }
	})
	rep := reportOf(h, ex)
	c.crossValidate(h.Fn, ex.samples, rep)
	return rep, ex.viols, ex
}

func reportOf(h HarnessCfg, ex *Explorer) *harnessReport {
	rep := &harnessReport{Harness: h.Fn, Bounds: h.Bounds, Paths: ex.npaths, Kinds: ex.kinds, Forks: ex.stats.Forks, Merged: ex.stats.Merged, DomainPruned: ex.stats.DomainDecided,
		CertQueries: ex.covQ, CertFacts: ex.covN, CertFailures: ex.covBad, Steps: ex.stats.Steps, MaxSteps: ex.stats.MaxSteps, Queries: ex.sstats.Queries, Sat: ex.sstats.SatN, Unsat: ex.sstats.UnsatN,
		Unknown: ex.sstats.UnknownN, SolverS: round3(ex.sstats.Time.Seconds()), MaxQueryS: round3(ex.sstats.MaxQuery.Seconds()), Asserts: ex.asserts, Reach: ex.reach, Cut: ex.incompl, Dropped: ex.dropped}
	if ex.stats.Traces > 0 {
		rep.Extra = map[string]interface{}{"schedules_checked_for_races": ex.stats.Traces, "distinct_race_queries": ex.stats.RaceQueries, "conflicting_segment_pairs": ex.stats.RacePairs}
	}
	rep.Exhausted = len(ex.incompl) == 0 && ex.dropped == 0 && ex.unknowns == 0 && ex.covBad == 0 && !ex.cutShort
	return rep
}

// crossValidate replays completed paths natively and compares what they observed.
func (c *Checker) crossValidate(fn string, ss []PathSample, rep *harnessReport) {
	var items []runItem
	for _, s := range ss {
		items = append(items, runItem{Fn: fn, In: s.Inputs})
	}
	if len(items) == 0 {
		return
	}
	rs, crashes := c.runner.runEach(items, 60*time.Second)
	for i, crash := range crashes {
		if crash != "" && len(rep.Disagreements) < 8 {
			rep.Disagreements = append(rep.Disagreements, fmt.Sprintf("native run ended early on %v: %s", inputText(items[i].In), firstLine(crash)))
		}
	}
	for i, r := range rs {
		rep.SamplesRun++
		a, b := strings.Join(ss[i].Obs, "\x01"), strings.Join(r.Obs, "\x01")
		if r.Kind == "ok" && a == b {
			rep.SamplesAgree++
			continue
		}
		if len(rep.Disagreements) < 8 {
			rep.Disagreements = append(rep.Disagreements, fmt.Sprintf("inputs %v: engine %v, native %s %s %v", inputText(ss[i].Inputs), ss[i].Obs, r.Kind, r.Msg, r.Obs))
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// inputText renders an assignment compactly, joining byte arrays.
func inputText(in map[string]uint64) string {
	arr := map[string][]byte{}
	var keys []string
	for k, v := range in {
		if i := strings.LastIndexByte(k, '['); i > 0 && strings.HasSuffix(k, "]") {
			n, _ := strconv.Atoi(k[i+1 : len(k)-1])
			b := arr[k[:i]]
			for len(b) <= n {
				b = append(b, 0)
			}
			b[n] = byte(v)
			arr[k[:i]] = b
			continue
		}
		keys = append(keys, fmt.Sprintf("%s=%d", k, int64(v)))
	}
	for k, b := range arr {
		keys = append(keys, fmt.Sprintf("%s=%q", k, b))
	}
	sort.Strings(keys)
	return strings.Join(keys, " ")
}

func loadKnown(path, id string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+id {
			out[strings.Join(f[2:], " ")] = true
		}
	}
	return out
}

// knownOf tells whether the violation belongs to a listed finding.
func (c *Checker) knownOf(notes []string) string {
	for _, n := range notes {
		if !strings.HasPrefix(n, "known:") {
			continue
		}
		k := strings.TrimPrefix(n, "known:")
		for full := range c.known {
			if strings.HasPrefix(full, k+" ") || full == k {
				return full
			}
		}
	}
	return ""
}

// report replays each counterexample natively and prints what reproduces.
func (c *Checker) report(h HarnessCfg, rep *harnessReport, viols []Violation, emit bool) (int, map[string]bool) {
	hit := map[string]bool{}
	n := 0
	seen := map[string]bool{}
	deadline := time.Now().Add(120 * time.Second)
	for i := range viols {
		v := &viols[i]
		if n >= 3 || time.Now().After(deadline) {
			break
		}
		key := v.Kind + "|" + firstLine(v.Msg) + "|" + c.knownOf(v.Notes)
		if seen[key] {
			continue
		}
		ok, how := c.confirm(h, v)
		if !ok {
			if len(rep.Unconfirmed) < 10 {
				rep.Unconfirmed = append(rep.Unconfirmed, fmt.Sprintf("%s: %s (%s) native: %s", v.Kind, firstLine(v.Msg), inputText(v.Inputs), how))
			}
			continue
		}
		seen[key] = true
		if k := c.knownOf(v.Notes); k != "" {
			hit[k] = true
			continue
		}
		n++
		path := c.writeReplay(h, v, how, n)
		fmt.Printf("%s %s: %s: %s\n  inputs: %s\n  native: %s\n", c.cfg.ID, h.Fn, v.Kind, v.Msg, inputText(v.Inputs), how)
		if emit {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.cfg.ID, path)
		}
	}
	return n, hit
}

func (c *Checker) writeReplay(h HarnessCfg, v *Violation, how string, n int) string {
	dir := filepath.Join(c.verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", c.cfg.ID, h.Fn, n))
	b, _ := json.MarshalIndent(map[string]interface{}{
		"property": c.cfg.ID, "pkg": c.cfg.Pkg, "fn": h.Fn, "kind": v.Kind, "message": v.Msg, "inputs": v.Inputs, "inputs_text": inputText(v.Inputs), "native": how, "tier": c.tier, "notes": v.Notes,
		"how_to_replay": "/verif/check.sh replay " + p}, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

// confirm runs the counterexample against the real code.
func (c *Checker) confirm(h HarnessCfg, v *Violation) (bool, string) {
	if v.confirmed != "" {
		return true, v.confirmed
	}
	return confirmWith(c.runner, h.Fn, v)
}

// raceBuilder builds the race-detecting runner once, on demand.
func raceBuilder(repo, verif, wd, pkg string) func() string {
	return sync.OnceValue(func() string {
		b, err := buildRunner(repo, verif, wd, pkg, true)
		if err != nil {
			debugf("race build: %v", err)
			return ""
		}
		return b
	})
}

func confirmWith(r *Runner, fn string, v *Violation) (bool, string) {
	if v.Kind == "race" {
		return r.runRace(runItem{Fn: fn, In: v.Inputs})
	}
	mem := 0
	to := 20 * time.Second
	switch v.Kind {
	case "alloc":
		mem = 3000
	case "hang":
		to = 12 * time.Second
		mem = 6000
	case "deadlock", "lock-held":
		to = 8 * time.Second
	}
	judge := func(rs []runResult, crash string) (bool, string) {
		if crash != "" {
			switch {
			case strings.Contains(crash, "all goroutines are asleep"):
				return true, "fatal error: all goroutines are asleep - deadlock!"
			case strings.Contains(crash, "out of memory") || strings.Contains(crash, "cannot allocate memory"):
				return true, "process killed by out-of-memory: " + firstLine(crash)
			case strings.Contains(crash, "stack overflow") || strings.Contains(crash, "goroutine stack exceeds"):
				return true, "stack overflow"
			case strings.Contains(crash, "concurrent map") || strings.Contains(crash, "sync: "):
				return true, firstLine(crash)
			case crash == "timeout":
				return true, "does not terminate natively"
			}
			return false, crash
		}
		if len(rs) == 1 {
			x := rs[0]
			switch {
			case x.Kind == "assert" || x.Kind == "panic":
				return true, x.Kind + ": " + x.Msg
			case v.Kind == "alloc" && x.Alloc > 16<<20:
				return true, fmt.Sprintf("%d bytes allocated", x.Alloc)
			}
			return false, x.Kind + " " + x.Msg
		}
		return false, "no result"
	}
	it := runItem{Fn: fn, In: v.Inputs}
	ok, how := judge(r.run([]runItem{it}, to, mem))
	if ok || v.Kind == "alloc" {
		return ok, how
	}
	// Nondeterministic code (map order): try repeatedly, each time in a fresh process.
	items := make([]runItem, 150)
	for i := range items {
		items[i] = it
	}
	rs, crashes := r.runEach(items, to)
	for i := range rs {
		if ok, h := judge([]runResult{rs[i]}, crashes[i]); ok {
			return ok, h
		}
	}
	return false, how
}

func replayFile(repo, verif, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var r struct {
		Property, Pkg, Fn, Kind, Message, Tier string
		Inputs                                 map[string]uint64
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fatal("%v", err)
	}
	wd, _ := os.MkdirTemp("", "gosym")
	defer os.RemoveAll(wd)
	bin, err := buildRunner(repo, verif, wd, r.Pkg, false)
	if err != nil {
		fatal("%v", err)
	}
	L, err := Load(repo, verif, r.Pkg)
	if err != nil {
		fatal("%v", err)
	}
	rn := &Runner{bin: bin, dir: wd, consts: L.harvest(-1<<62, 1<<62), race: raceBuilder(repo, verif, wd, r.Pkg)}
	if r.Tier == "thorough" {
		rn.tier = 1
	}
	ok, how := confirmWith(rn, r.Fn, &Violation{Kind: r.Kind, Msg: r.Message, Inputs: r.Inputs})
	fmt.Printf("%s %s: %s\n  inputs: %s\n  native: %s\n", r.Property, r.Kind, r.Message, inputText(r.Inputs), how)
	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

func (c *Checker) evidence(L *Loader, reps []*harnessReport, samples []interface{}, nviol int, loadS float64) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var paths, steps, val, q, sat, unsat, unk, cert int64
	var st float64
	ex := true
	var bounds []string
	for _, r := range reps {
		paths += r.Paths
		steps += r.Steps
		val += int64(r.SamplesAgree)
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unknown
		cert += r.CertQueries
		st += r.SolverS
		ex = ex && r.Exhausted
		b := r.Harness + ": " + r.Bounds
		if !r.Exhausted {
			b += fmt.Sprintf(" [REDUCED on this run: %d prefixes unexplored, %d unknown queries, cut %v]", r.Dropped, r.Unknown, r.Cut)
		}
		bounds = append(bounds, b)
	}
	if samples == nil {
		samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.cfg.ID, "tier": c.tier, "seed": seed, "level": "model_checking", "wall_s": round3(time.Since(c.t0).Seconds()), "violations": nviol,
		"assumptions": c.cfg.Assumptions,
		"coverage": map[string]interface{}{
			"states": paths, "transitions": steps, "traces_validated_against_impl": val, "samples": samples,
			"rule":                      "states = symbolic paths run to completion (each stands for all inputs satisfying its path condition); transitions = SSA instructions of the real code executed symbolically; traces_validated = completed paths whose concrete instance was re-run natively with identical observations",
			"bounds":                    bounds,
			"all_bounds_exhausted":      ex,
			"functions_encoded":         L.coveredFuncs(),
			"library_functions_encoded": len(syncKeys(&L.stdCov)),
			"modelled_functions":        syncKeys(&L.natUsed),
			"smt_queries":               q, "smt_sat": sat, "smt_unsat": unsat, "smt_unknown": unk, "smt_path_certificates": cert, "solver_s": round3(st),
			"load_and_encode_s": round3(loadS),
			"solver":            strings.Join(c.solver, " "),
			"harnesses":         reps,
		},
	}
	if c.cfg.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	os.MkdirAll(filepath.Join(c.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(c.verif, "evidence", c.cfg.ID+".json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}
