package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var harnessRe = regexp.MustCompile(`(?m)^func (C\d+\w*)\(\)`)

// harnessFuncs lists the harness entry points of a harness package.
func harnessFuncs(verif, pkg string) []string {
	var out []string
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", pkg, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, m := range harnessRe.FindAllSubmatch(b, -1) {
			out = append(out, string(m[1]))
		}
	}
	sort.Strings(out)
	return out
}

const runnerSrc = `package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"log"
	"io"

	H "` + modPath + `/zzverif/@PKG@"
	"` + modPath + `/zzverif/sym"
)

type item struct {
	Fn string
	In map[string]uint64
}
type job struct {
	Items []item
	Tier int
	Consts []int64
}
type result struct {
	Kind string
	Msg string
	Obs []string
	Notes []string
	Alloc uint64
}

var reg = map[string]func(){
@REG@}

func one(it item) (r result) {
	sym.Reset(it.In)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	defer func() {
		runtime.ReadMemStats(&m1)
		r.Alloc = m1.TotalAlloc - m0.TotalAlloc
		r.Obs = sym.Obs
		r.Notes = sym.Notes
		if e := recover(); e != nil {
			if s, ok := e.(sym.Stop); ok {
				r.Kind, r.Msg = s.Kind, s.Msg
				return
			}
			r.Kind = "panic"
			r.Msg = fmt.Sprint(e)
			st := strings.Split(string(debug.Stack()), "\n")
			for _, l := range st {
				if strings.Contains(l, "gotext") && !strings.Contains(l, "zzverif") && strings.HasPrefix(l, "github") {
					r.Msg += " in " + l
					break
				}
			}
		}
	}()
	reg[it.Fn]()
	r.Kind = "ok"
	return
}

func main() {
	log.SetOutput(io.Discard)
	debug.SetMaxStack(64 << 20)
	b, err := os.ReadFile(os.Args[1])
	if err != nil { panic(err) }
	var j job
	if err := json.Unmarshal(b, &j); err != nil { panic(err) }
	sym.TierV = j.Tier
	sym.ConstV = j.Consts
	out := os.Stdout
	if nul, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil { os.Stdout = nul }
	enc := json.NewEncoder(out)
	for _, it := range j.Items {
		r := one(it)
		enc.Encode(r)
	}
	sym.Reset(nil)
}
`

type runItem struct {
	Fn string
	In map[string]uint64
}
type runResult struct {
	Kind, Msg string
	Obs       []string
	Notes     []string
	Alloc     uint64
}

// buildRunner builds the native replay binary from the current tree.
func buildRunner(repo, verif, workdir, pkg string, race bool) (string, error) {
	var reg strings.Builder
	for _, f := range harnessFuncs(verif, pkg) {
		fmt.Fprintf(&reg, "\t%q: H.%s,\n", f, f)
	}
	src := strings.ReplaceAll(strings.ReplaceAll(runnerSrc, "@PKG@", pkg), "@REG@", reg.String())
	mf := filepath.Join(workdir, "main_"+pkg+".go")
	if err := os.WriteFile(mf, []byte(src), 0o644); err != nil {
		return "", err
	}
	ov := overlayFiles(repo, verif)
	ov[filepath.Join(repo, "zzverif", "cmd"+pkg, "main.go")] = mf
	of := filepath.Join(workdir, fmt.Sprintf("overlay_%s_%v.json", pkg, race))
	controlled := map[string]string{}
	if pkg == "hc" && !race {
		controlled = importOverlay(repo, workdir, "sync", "sync", "zzsync")
		for k, v := range controlled {
			ov[k] = v
		}
	}
	if pkg == "hx" || pkg == "hm" {
		for k, v := range importOverlay(repo, workdir, packagesPath, "packages", "zzpackages") {
			ov[k] = v
		}
	}
	if pkg == "hm" {
		for k, b := range mainPackage(repo) {
			nf := filepath.Join(workdir, "cmd_"+filepath.Base(k))
			if err := os.WriteFile(nf, b, 0o644); err != nil {
				return "", err
			}
			ov[k] = nf
		}
	}
	if err := writeOverlay(ov, of); err != nil {
		return "", err
	}
	out := filepath.Join(workdir, "runner_"+pkg)
	args := []string{"build", "-overlay", of}
	if race {
		out += "_race"
		args = append(args, "-race")
	}
	args = append(args, "-o", out, modPath+"/zzverif/cmd"+pkg)
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = goEnv()
	b, err := c.CombinedOutput()
	if err != nil && len(controlled) > 0 {
		// the code uses something of sync that zzsync lacks: replay uncontrolled
		for k := range controlled {
			delete(ov, k)
		}
		if err := writeOverlay(ov, of); err != nil {
			return "", err
		}
		c := exec.Command("go", args...)
		c.Dir = repo
		c.Env = goEnv()
		b, err = c.CombinedOutput()
		if err == nil {
			os.WriteFile(out+".free", nil, 0o644)
		}
	}
	if err != nil {
		return "", fmt.Errorf("%v: %s", err, b)
	}
	return out, nil
}

const packagesPath = "golang.org/x/tools/go/packages"

// rewriteImports gives the files of the code under test that import from, with
// the import replaced by the stand-in package of the same purpose.
func rewriteImports(repo, from, alias, to string) map[string][]byte {
	out := map[string][]byte{}
	var dirs []string
	filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || n == "testdata" || n == "fixtures" || n == "zzverif") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, err := os.ReadFile(f)
			if err != nil {
				continue
			}
			set := token.NewFileSet()
			af, err := parser.ParseFile(set, f, src, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, im := range af.Imports {
				if im.Path.Value != `"`+from+`"` {
					continue
				}
				o := set.Position(im.Path.Pos()).Offset
				rep := `"` + modPath + "/zzverif/" + to + `"`
				if im.Name == nil {
					rep = alias + " " + rep
				}
				out[f] = append(append(append([]byte(nil), src[:o]...), rep...), src[o+len(im.Path.Value):]...)
				break
			}
		}
	}
	return out
}

// mainPackage gives the command's package as one that can be imported: main is
// Main, and flag, log and os are the stand-ins.
func mainPackage(repo string) map[string][]byte {
	out := map[string][]byte{}
	dir := filepath.Join(repo, "zzverif", "zzmain")
	fs, _ := filepath.Glob(filepath.Join(repo, "cli", "xgotext", "*.go"))
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		src, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		set := token.NewFileSet()
		af, err := parser.ParseFile(set, f, src, 0)
		if err != nil || af.Name.Name != "main" {
			continue
		}
		type edit struct {
			at, n int
			s     string
		}
		off := func(p token.Pos) int { return set.Position(p).Offset }
		es := []edit{{off(af.Name.Pos()), 4, "zzmain"}}
		for _, im := range af.Imports {
			if p := im.Path.Value; p == `"flag"` || p == `"log"` || p == `"os"` {
				nm := p[1 : len(p)-1]
				rep := `"` + modPath + "/zzverif/zz" + nm + `"`
				if im.Name == nil {
					rep = nm + " " + rep
				}
				es = append(es, edit{off(im.Path.Pos()), len(p), rep})
			}
		}
		for _, d := range af.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "main" {
				es = append(es, edit{off(fd.Name.Pos()), 4, "Main"})
			}
		}
		sort.Slice(es, func(i, j int) bool { return es[i].at > es[j].at })
		for _, e := range es {
			src = append(append(append([]byte(nil), src[:e.at]...), e.s...), src[e.at+e.n:]...)
		}
		out[filepath.Join(dir, filepath.Base(f))] = src
	}
	if len(out) > 0 {
		out[filepath.Join(dir, "zz_init.go")] = []byte("package zzmain\n\n// ZZInit is set before Main is called.\nvar ZZInit bool\n")
	}
	return out
}

// importOverlay writes the rewritten files for use in an overlay.
func importOverlay(repo, workdir, from, alias, to string) map[string]string {
	out := map[string]string{}
	for f, b := range rewriteImports(repo, from, alias, to) {
		nf := filepath.Join(workdir, fmt.Sprintf("%s_%d.go", alias, len(out)))
		if os.WriteFile(nf, b, 0o644) == nil {
			out[f] = nf
		}
	}
	return out
}

type Runner struct {
	bin    string
	race   func() string // builds the race-detecting runner
	dir    string
	tier   int
	consts []int64
	n      atomic.Int64
}

// run executes items in one subprocess under a memory and time limit.
func (r *Runner) run(items []runItem, timeout time.Duration, memMB int, env ...string) ([]runResult, string) {
	jf := filepath.Join(r.dir, fmt.Sprintf("job%d_%d.json", os.Getpid(), r.n.Add(1)))
	b, _ := json.Marshal(map[string]interface{}{"Items": items, "Tier": r.tier, "Consts": r.consts})
	os.WriteFile(jf, b, 0o644)
	defer os.Remove(jf)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	script := "exec \"$@\""
	if memMB > 0 {
		script = fmt.Sprintf("ulimit -v %d; exec \"$@\"", memMB*1024)
	}
	c := exec.CommandContext(ctx, "/bin/bash", "-c", script, "bash", r.bin, jf)
	c.Env = append(append(os.Environ(), "TMPDIR="+r.dir), env...)
	if _, err := os.Stat(r.bin + ".free"); err == nil {
		c.Env = append(c.Env, "ZZ_FREE=1")
	}
	c.Dir = r.dir
	var out, errb bytes.Buffer
	c.Stdout = &out
	c.Stderr = &errb
	err := c.Run()
	var rs []runResult
	dec := json.NewDecoder(&out)
	for {
		var x runResult
		if dec.Decode(&x) != nil {
			break
		}
		rs = append(rs, x)
	}
	crash := ""
	if ctx.Err() != nil {
		crash = "timeout"
	} else if err != nil {
		t := errb.String()
		if len(t) > 3000 {
			t = t[:3000]
		}
		crash = "crash: " + t
	}
	return rs, crash
}

// runEach executes every item in a process of its own, so that package state
// of one run is not seen by another.
func (r *Runner) runEach(items []runItem, timeout time.Duration) ([]runResult, []string) {
	rs := make([]runResult, len(items))
	cs := make([]string, len(items))
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := range items {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			x, crash := r.run(items[i:i+1], timeout, 0)
			cs[i] = crash
			if len(x) == 1 {
				rs[i] = x[0]
			}
		}()
	}
	wg.Wait()
	return rs, cs
}

// runRace runs one item many times under the race detector.
func (r *Runner) runRace(it runItem) (bool, string) {
	if r.race == nil {
		return false, "no race-detecting runner"
	}
	bin := r.race()
	if bin == "" {
		return false, "the race-detecting runner does not build"
	}
	rr := &Runner{bin: bin, dir: r.dir, tier: r.tier, consts: r.consts}
	items := make([]runItem, 60)
	for i := range items {
		items[i] = it
	}
	last := "not reported by the race detector"
	for round := 0; round < 4; round++ {
		var mu sync.Mutex
		var wg sync.WaitGroup
		how := ""
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rs, crash := rr.run(items, 60*time.Second, 0, "ZZ_FREE=1", "GORACE=halt_on_error=1 exitcode=66")
				mu.Lock()
				defer mu.Unlock()
				switch {
				case strings.Contains(crash, "DATA RACE"):
					how = "Go race detector: " + raceText(crash)
				case strings.Contains(crash, "concurrent map"):
					how = firstLine(strings.TrimPrefix(crash, "crash: "))
				case crash != "":
					last = firstLine(crash)
				}
				for _, x := range rs {
					if x.Kind == "assert" || x.Kind == "panic" {
						how = x.Kind + ": " + x.Msg
					}
				}
			}()
		}
		wg.Wait()
		if how != "" {
			return true, how
		}
	}
	return false, last
}

// raceText keeps the functions of the code under test from a race report.
func raceText(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Previous"):
			out = append(out, strings.Fields(t)[0]+" "+strings.Fields(t)[1])
		case strings.HasPrefix(t, modPath) && !strings.Contains(t, "zzverif") && len(out) > 0 && !strings.Contains(out[len(out)-1], "("):
			out[len(out)-1] += " in " + strings.TrimPrefix(t, modPath+".")
		}
	}
	return strings.Join(out, "; ")
}
