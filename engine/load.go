package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/leonelquinteros/gotext"

// Loader holds the SSA program; it is shared by all workers.
type Loader struct {
	mu        sync.Mutex
	prog      *ssa.Program
	built     map[*ssa.Package]bool
	gids      map[*ssa.Global]int
	globs     []*ssa.Global
	fns       sync.Map // *ssa.Function -> *fnInfo
	nfn       int
	rtErrType types.Type
	notes     map[string]bool
	harness   *ssa.Package
	covered   sync.Map // fn name -> true: functions of /repo encoded (executed)
	stdCov    sync.Map
	natives   map[string]func(m *M, args []value) value
	natUsed   sync.Map
	repo      string
	verif     string
	overlay   map[string]string // virtual path -> real path
	rtT       types.Type
	tier      int
	consts    []int64
	constsOK  bool
}

func (L *Loader) noteOnce(s string) {
	L.mu.Lock()
	defer L.mu.Unlock()
	L.notes[s] = true
}

// overlayFiles maps the harness sources into the module under test.
func overlayFiles(repo, verif string) map[string]string {
	out := map[string]string{}
	for _, d := range []string{"sym", "zzsync", "zzpackages", "zzflag", "zzlog", "zzos", "h", "hx", "hc", "hm"} {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", d, "*.go"))
		for _, f := range fs {
			out[filepath.Join(repo, "zzverif", d, filepath.Base(f))] = f
		}
	}
	return out
}

func writeOverlay(ov map[string]string, path string) error {
	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": ov}, "", " ")
	return os.WriteFile(path, b, 0o644)
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GO111MODULE=") {
			continue
		}
		out = append(out, e)
	}
	return append(out, "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func Load(repo, verif, pkg string) (*Loader, error) {
	ov := overlayFiles(repo, verif)
	content := map[string][]byte{}
	for v, r := range ov {
		b, err := os.ReadFile(r)
		if err != nil {
			return nil, err
		}
		content[v] = b
	}
	if pkg == "hx" || pkg == "hm" {
		for f, b := range rewriteImports(repo, packagesPath, "packages", "zzpackages") {
			content[f] = b
		}
	}
	if pkg == "hm" {
		for f, b := range mainPackage(repo) {
			content[f] = b
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Overlay: content,
		Env:     goEnv(),
	}
	ps, err := packages.Load(cfg, modPath+"/zzverif/"+pkg)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(ps, ssa.InstantiateGenerics|ssa.SanityCheckFunctions&0)
	L := &Loader{prog: prog, built: map[*ssa.Package]bool{}, gids: map[*ssa.Global]int{}, notes: map[string]bool{}, repo: repo, verif: verif, overlay: ov}
	L.harness = pkgs[0]
	L.rtErrType = types.NewNamed(types.NewTypeName(0, nil, "runtimeError", nil), types.Typ[types.String], nil)
	L.natives = map[string]func(m *M, args []value) value{}
	registerNatives(L)
	return L, nil
}

func (L *Loader) buildPkg(p *ssa.Package) {
	L.mu.Lock()
	if !L.built[p] {
		L.built[p] = true
		p.Build()
	}
	L.mu.Unlock()
}

func (L *Loader) globalID(g *ssa.Global) int {
	L.mu.Lock()
	defer L.mu.Unlock()
	return L.globalIDLocked(g)
}

func (L *Loader) globalIDLocked(g *ssa.Global) int {
	if id, ok := L.gids[g]; ok {
		return id
	}
	id := len(L.globs)
	L.gids[g] = id
	L.globs = append(L.globs, g)
	return id
}

func (L *Loader) globalByID(id int) *ssa.Global {
	L.mu.Lock()
	defer L.mu.Unlock()
	return L.globs[id]
}

func (L *Loader) lookupMethod(t types.Type, meth *types.Func) *ssa.Function {
	L.mu.Lock()
	defer L.mu.Unlock()
	sel := L.prog.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return L.prog.MethodValue(sel)
}

// fn returns the compiled form of f.
func (L *Loader) fn(f *ssa.Function) *fnInfo {
	if v, ok := L.fns.Load(f); ok {
		return v.(*fnInfo)
	}
	L.mu.Lock()
	defer L.mu.Unlock()
	if v, ok := L.fns.Load(f); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: f, name: f.String()}
	nm := fi.name
	if o := f.Origin(); o != nil {
		nm = o.String()
	}
	if n, ok := L.natives[nm]; ok {
		fi.native = n
		L.natUsed.Store(nm, true)
		L.fns.Store(f, fi)
		return fi
	}
	if f.Pkg != nil && !L.built[f.Pkg] {
		L.built[f.Pkg] = true
		f.Pkg.Build()
	}
	if o := f.Origin(); o != nil && o.Pkg != nil && !L.built[o.Pkg] {
		L.built[o.Pkg] = true
		o.Pkg.Build()
	}
	// the init function of another package: never run through imports
	if f.Name() == "init" && f.Synthetic == "package initializer" {
		L.compileInit(fi)
		L.fns.Store(f, fi)
		return fi
	}
	if f.Blocks == nil {
		if p := f.Parent(); p != nil && p.Pkg != nil && !L.built[p.Pkg] {
			L.built[p.Pkg] = true
			p.Pkg.Build()
		}
	}
	if f.Blocks == nil {
		L.fns.Store(f, fi)
		return fi
	}
	pp := ""
	if f.Pkg != nil {
		pp = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		pp = o.Pkg.Pkg.Path()
	}
	fi.harness = strings.Contains(pp, "/zzverif") && !strings.HasSuffix(pp, "/zzmain")
	fi.cov = strings.HasPrefix(pp, modPath) && (!strings.Contains(pp, "/zzverif") || strings.HasSuffix(pp, "/zzmain"))
	if fi.cov {
		L.covered.Store(fi.name, true)
	} else if pp != "" && !strings.Contains(pp, "/zzverif") {
		L.stdCov.Store(fi.name, true)
	}
	L.compile(fi)
	L.fns.Store(f, fi)
	return fi
}

// compileInit compiles a package initialiser so that calls to the
// initialisers of imported packages are skipped (they run lazily).
func (L *Loader) compileInit(fi *fnInfo) {
	L.compile(fi)
	for bi, b := range fi.fn.Blocks {
		k := 0
		for _, ins := range b.Instrs {
			if _, ok := ins.(*ssa.Phi); ok {
				continue
			}
			if _, ok := ins.(*ssa.DebugRef); ok {
				continue
			}
			if c, ok := ins.(*ssa.Call); ok {
				if g, ok := c.Call.Value.(*ssa.Function); ok && g.Name() == "init" && g.Pkg != fi.fn.Pkg {
					fi.blocks[bi].code[k] = func(m *M, fr *frame) {}
				}
			}
			k++
		}
	}
}

func (L *Loader) coveredFuncs() []string {
	var out []string
	L.covered.Range(func(k, _ interface{}) bool { out = append(out, k.(string)); return true })
	sort.Strings(out)
	return out
}

func syncKeys(s *sync.Map) []string {
	var out []string
	s.Range(func(k, _ interface{}) bool { out = append(out, k.(string)); return true })
	sort.Strings(out)
	return out
}

// harvest returns the integer constants of the code under test that lie in
// [lo,hi] together with their neighbours: thresholds worth covering.
func (L *Loader) harvest(lo, hi int64) []int64 {
	L.mu.Lock()
	defer L.mu.Unlock()
	if !L.constsOK {
		L.constsOK = true
		seen := map[int64]bool{}
		for _, p := range L.prog.AllPackages() {
			pp := p.Pkg.Path()
			if pp != modPath && pp != modPath+"/plurals" && !strings.HasPrefix(pp, modPath+"/cli") {
				continue
			}
			if !L.built[p] {
				L.built[p] = true
				p.Build()
			}
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, a := range f.AnonFuncs {
					visit(a)
				}
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						for _, op := range ins.Operands(nil) {
							if c, ok := (*op).(*ssa.Const); ok && c.Value != nil {
								if w, sg, ok := intKind(c.Type()); ok {
									u := constVal(c).(uint64)
									v := int64(u)
									if sg {
										v = sx(u, w)
									}
									seen[v-1], seen[v], seen[v+1] = true, true, true
								}
							}
						}
					}
				}
			}
			for _, mem := range p.Members {
				switch x := mem.(type) {
				case *ssa.Function:
					visit(x)
				case *ssa.Type:
					for _, t := range []types.Type{x.Type(), types.NewPointer(x.Type())} {
						ms := L.prog.MethodSets.MethodSet(t)
						for i := 0; i < ms.Len(); i++ {
							if f := L.prog.MethodValue(ms.At(i)); f != nil {
								visit(f)
							}
						}
					}
				}
			}
		}
		for v := range seen {
			L.consts = append(L.consts, v)
		}
		sort.Slice(L.consts, func(i, j int) bool { return L.consts[i] < L.consts[j] })
	}
	var out []int64
	for _, v := range L.consts {
		if v >= lo && v <= hi {
			out = append(out, v)
		}
	}
	return out
}
