package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const tokLSS = token.LSS

const (
	symPkgRel   = "internal/verifsym"
	stubPkgRel  = "internal/verifstub"
	harnessRel  = "zzverif"
	modPathName = "github.com/hpinc/go3mf"
)

// Harness is one entry point to explore.
type Harness struct {
	name     string
	fn       *ssa.Function
	tier     string // "" or "thorough"
	known    bool
	race     bool
	noMerge  bool
	oneSched bool
	steps    int64
	depth    int
	cpus     int
	preempt  int
	weight   float64
	noval    bool // do not validate completed paths natively

	mu       sync.Mutex
	stack    []*Task
	active   int
	spent    time.Duration
	paths    int64
	doneN    int64
	infeas   int64
	violN    int64
	problems map[string]int
	asserts  map[string]int64
	covers   map[string]int64
	samples  []*PathSample
	seen     int
	maxSteps int64
	left     int
}

type Engine struct {
	prop    string
	repo    string
	verif   string
	modPath string
	tier    string
	seed    int64
	prog    *ssa.Program
	pkgs    []*packages.Package
	order   []*ssa.Package // init order
	stubPkg *ssa.Package
	overlay map[string]string
	dropped []string

	tiString, tiRune, tiByte, tiBytes, tiAny *TI

	redir   map[string]*ssa.Function
	buildMu sync.Mutex
	built   map[*ssa.Package]bool
	noMerge bool
	prof    map[string]int
	profMu  sync.Mutex

	stats  SolverStats
	merged int64
	decs   int64
	instrs int64
	counts map[string]int64
	cmu    sync.Mutex

	harnesses []*Harness
	qmu       sync.Mutex
	qcond     *sync.Cond
	idle      int
	nworkers  int
	stop      atomic.Bool
	deadline  time.Time
	budget    time.Duration
	knowns    []Known

	cands   map[string]*Cand
	candCh  chan *Cand
	funcs   map[string]bool
	runner  *Runner
	started time.Time
}

// buildOverlay lists virtual files (path in /repo -> real file).
func (e *Engine) buildOverlay() {
	e.overlay = map[string]string{}
	add := func(rel, dir string) {
		ents, _ := os.ReadDir(dir)
		for _, x := range ents {
			if !x.IsDir() && strings.HasSuffix(x.Name(), ".go") {
				real := filepath.Join(dir, x.Name())
				drop := false
				for _, d := range e.dropped {
					drop = drop || d == real
				}
				if !drop {
					e.overlay[filepath.Join(e.repo, rel, x.Name())] = real
				}
			}
		}
	}
	add(symPkgRel, filepath.Join(e.verif, "sym"))
	add(stubPkgRel, filepath.Join(e.verif, "sym", "stubs"))
	add(harnessRel+"/lib", filepath.Join(e.verif, "harness", "lib"))
	add(harnessRel+"/"+strings.ToLower(e.prop), filepath.Join(e.verif, "harness", strings.ToLower(e.prop)))
}

func (e *Engine) overlayJSON(extra map[string]string) []byte {
	m := map[string]string{}
	for k, v := range e.overlay {
		m[k] = v
	}
	for k, v := range extra {
		m[k] = v
	}
	b, _ := json.Marshal(map[string]any{"Replace": m})
	return b
}

func goEnv() []string {
	env := os.Environ()
	return append(env, "CGO_ENABLED=0", "GOFLAGS=-mod=readonly", "GOWORK=off", "GOTOOLCHAIN=local", "GOPROXY=off")
}

// load type-checks and builds the SSA program; harness files that no longer compile are dropped.
func (e *Engine) load() error {
	for try := 0; try < 6; try++ {
		e.buildOverlay()
		ov := map[string][]byte{}
		n := 0
		for k, v := range e.overlay {
			b, err := os.ReadFile(v)
			if err != nil {
				return err
			}
			ov[k] = b
			if strings.Contains(k, "/"+harnessRel+"/"+strings.ToLower(e.prop)+"/") {
				n++
			}
		}
		if n == 0 {
			return fmt.Errorf("no harness compiles")
		}
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     e.repo,
			Env:     goEnv(),
			Overlay: ov,
		}
		pkgs, err := packages.Load(cfg, "./"+harnessRel+"/"+strings.ToLower(e.prop), "./"+stubPkgRel, "./"+symPkgRel)
		if err != nil {
			return err
		}
		bad := map[string]string{}
		var other []string
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, er := range p.Errors {
				f := er.Pos
				if i := strings.IndexByte(f, ':'); i >= 0 {
					f = f[:i]
				}
				if real, ok := e.overlay[f]; ok {
					bad[real] = er.Error()
				} else {
					other = append(other, er.Error())
				}
			}
		})
		if len(bad) > 0 {
			var fs []string
			for f, m := range bad {
				fs = append(fs, f)
				fmt.Printf("note: %s does not compile against this tree and is left out: %s\n", f, m)
			}
			sort.Strings(fs)
			e.dropped = append(e.dropped, fs...)
			continue
		}
		if len(other) > 0 {
			return fmt.Errorf("the tree does not type-check: %s", strings.Join(other[:min(3, len(other))], "; "))
		}
		e.pkgs = pkgs
		break
	}
	if e.pkgs == nil {
		return fmt.Errorf("harness does not compile")
	}
	prog, _ := ssautil.AllPackages(e.pkgs, ssa.InstantiateGenerics|ssa.BareInits)
	e.prog = prog
	e.built = map[*ssa.Package]bool{}
	// init order
	seen := map[*packages.Package]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		var ks []string
		for k := range p.Imports {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			visit(p.Imports[k])
		}
		if p.Types != nil {
			if sp := prog.Package(p.Types); sp != nil {
				e.order = append(e.order, sp)
			}
		}
	}
	for _, stub := range []bool{true, false} {
		for _, p := range e.pkgs {
			if strings.HasSuffix(p.PkgPath, stubPkgRel) == stub {
				visit(p)
			}
		}
	}
	e.tiString = typeInfo(types.Typ[types.String])
	e.tiRune = typeInfo(types.Typ[types.Int32])
	e.tiByte = typeInfo(types.Typ[types.Uint8])
	e.tiBytes = typeInfo(types.NewSlice(types.Typ[types.Uint8]))
	e.tiAny = typeInfo(types.NewInterfaceType(nil, nil))
	return e.scan()
}

// scan reads harness directives and stub redirections.
func (e *Engine) scan() error {
	e.redir = map[string]*ssa.Function{}
	for _, p := range e.pkgs {
		sp := e.prog.Package(p.Types)
		isStub := strings.HasSuffix(p.PkgPath, stubPkgRel)
		isH := strings.HasSuffix(p.PkgPath, harnessRel+"/"+strings.ToLower(e.prop))
		if !isStub && !isH {
			continue
		}
		if isStub {
			e.stubPkg = sp
		}
		for _, f := range p.Syntax {
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if rest, ok := strings.CutPrefix(c.Text, "//verif:budget "); ok && isH {
						for _, kv := range strings.Fields(rest) {
							k, v, _ := strings.Cut(kv, "=")
							n, _ := strconv.Atoi(v)
							if k == e.tier && e.budget == 0 {
								e.budget = time.Duration(n) * time.Second
							}
						}
					}
				}
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				if isH && strings.HasPrefix(fd.Name.Name, "H_") {
					h := &Harness{name: fd.Name.Name, fn: sp.Func(fd.Name.Name), steps: 20_000_000, depth: 5000, preempt: 2, weight: 1,
						problems: map[string]int{}, asserts: map[string]int64{}, covers: map[string]int64{}}
					if fd.Doc != nil {
						for _, c := range fd.Doc.List {
							rest, ok := strings.CutPrefix(c.Text, "//verif:")
							if !ok {
								continue
							}
							for _, kv := range strings.Fields(rest) {
								k, v, _ := strings.Cut(kv, "=")
								n, _ := strconv.Atoi(v)
								switch k {
								case "steps":
									h.steps = int64(n)
								case "depth":
									h.depth = n
								case "race":
									h.race = true
								case "known":
									h.known = true
								case "merge":
									h.noMerge = v == "off"
								case "sched":
									h.oneSched = v == "first"
								case "cpus":
									h.cpus = n
								case "preempt":
									h.preempt = n
								case "tier":
									h.tier = v
								case "noval":
									h.noval = true
								case "weight":
									h.weight, _ = strconv.ParseFloat(v, 64)
								}
							}
						}
					}
					if h.tier == "thorough" && e.tier != "thorough" {
						continue
					}
					e.harnesses = append(e.harnesses, h)
				}
				if isStub && fd.Doc != nil {
					for _, c := range fd.Doc.List {
						if rest, ok := strings.CutPrefix(c.Text, "//verif:replace "); ok {
							e.redir[strings.TrimSpace(rest)] = sp.Func(fd.Name.Name)
						}
					}
				}
			}
		}
	}
	if only := os.Getenv("GOSYM_ONLY"); only != "" {
		var hs []*Harness
		for _, h := range e.harnesses {
			if strings.Contains(h.name, only) {
				hs = append(hs, h)
			}
		}
		e.harnesses = hs
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].name < e.harnesses[j].name })
	return nil
}

func (e *Engine) redirect(name string) *ssa.Function { return e.redir[name] }

func (e *Engine) ensureBuilt(fn *ssa.Function) {
	e.buildMu.Lock()
	defer e.buildMu.Unlock()
	e.buildPkg(fn.Pkg)
	if o := fn.Origin(); o != nil {
		e.buildPkg(o.Pkg)
	}
	for p := fn.Parent(); p != nil; p = p.Parent() {
		e.buildPkg(p.Pkg)
	}
}

func (e *Engine) buildPkg(p *ssa.Package) {
	if p == nil || e.built[p] {
		return
	}
	e.built[p] = true
	p.Build()
}

func (e *Engine) funcNamed(pkg, name string) *ssa.Function {
	p := e.prog.ImportedPackage(pkg)
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (w *W) methodByName(t *TI, name string) *ssa.Function {
	key := "*" + name
	t.mu.Lock()
	defer t.mu.Unlock()
	if f, ok := t.methods[key]; ok {
		return f
	}
	if t.methods == nil {
		t.methods = map[string]*ssa.Function{}
	}
	w.eng.buildMu.Lock()
	defer w.eng.buildMu.Unlock()
	var f *ssa.Function
	if sel := w.eng.prog.MethodSets.MethodSet(t.t).Lookup(nil, name); sel != nil {
		f = w.eng.prog.MethodValue(sel)
	}
	t.methods[key] = f
	return f
}
