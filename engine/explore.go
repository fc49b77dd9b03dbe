package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type obsVal struct {
	Label string
	V     any
}

type inputVal struct {
	Kind string `json:"k"`
	V    uint64 `json:"v"`
}

// PathSample is a completed path with concrete inputs, replayed natively.
type PathSample struct {
	Harness string     `json:"harness"`
	Inputs  []inputVal `json:"inputs"`
	Obs     []string   `json:"-"`
	Covers  []string   `json:"-"`
}

// Cand is a counterexample candidate.
type Cand struct {
	harness   *Harness
	kind      string
	label     string
	site      string
	model     [][]inputVal
	seen      int
	tried     int
	confirmed []inputVal
	out       string
	done      bool
	trace     string
	conc      bool // found on a path with several goroutines
}

func (e *Engine) addCount(k string, n int64) {
	e.cmu.Lock()
	e.counts[k] += n
	e.cmu.Unlock()
}

func (e *Engine) countDec() { atomic.AddInt64(&e.decs, 1) }

func (e *Engine) incomplete(h *Harness, msg string) {
	if h == nil {
		return
	}
	h.mu.Lock()
	h.problems[msg]++
	h.mu.Unlock()
}

func (e *Engine) noteAssert(h *Harness, label string) {
	h.mu.Lock()
	h.asserts[label]++
	h.mu.Unlock()
}

func (e *Engine) profile(s string) {
	e.profMu.Lock()
	e.prof[s]++
	e.profMu.Unlock()
}

func (w *W) inputVals() []inputVal {
	vs := w.modelInputs()
	r := make([]inputVal, len(vs))
	for i := range vs {
		r[i] = inputVal{w.inputs[i].kind, vs[i]}
	}
	return r
}

func (e *Engine) candidate(w *W, kind, label, site string) {
	h := w.h
	short := site
	if i := strings.Index(site, " < "); i >= 0 {
		short = site[:i]
	}
	if kind == "assert" || kind == "hang" {
		short = ""
	}
	key := h.name + "|" + kind + "|" + label + "|" + short
	e.cmu.Lock()
	defer e.cmu.Unlock()
	c := e.cands[key]
	if c == nil {
		c = &Cand{harness: h, kind: kind, label: label, site: site}
		e.cands[key] = c
	}
	// The first ones are alike, as they are found one after the other.
	c.seen++
	if c.done || len(c.model) >= 24 || len(c.model) >= 6 && c.seen&(c.seen-1) != 0 && c.seen%64 != 0 {
		return
	}
	c.model = append(c.model, w.inputVals())
	c.conc = c.conc || w.gseq > 0
	select {
	case e.candCh <- c:
	default:
	}
}

// ---- queue

func (e *Engine) push(t *Task) {
	e.qmu.Lock()
	t.h.stack = append(t.h.stack, t)
	e.qmu.Unlock()
	e.qcond.Signal()
}

// next picks a task from the harness that has consumed the least weighted time.
func (e *Engine) next() *Task {
	e.qmu.Lock()
	defer e.qmu.Unlock()
	for {
		if e.stop.Load() {
			e.qcond.Broadcast()
			return nil
		}
		var best *Harness
		active := 0
		for _, h := range e.harnesses {
			active += h.active
			if len(h.stack) == 0 {
				continue
			}
			if best == nil || float64(h.spent)/h.weight+float64(h.active)*1e8/h.weight < float64(best.spent)/best.weight+float64(best.active)*1e8/best.weight {
				best = h
			}
		}
		if best != nil {
			n := len(best.stack) - 1
			t := best.stack[n]
			best.stack = best.stack[:n]
			best.active++
			return t
		}
		if active == 0 {
			e.stop.Store(true)
			e.qcond.Broadcast()
			return nil
		}
		e.qcond.Wait()
	}
}

func (e *Engine) finished(h *Harness, d time.Duration) {
	e.qmu.Lock()
	h.active--
	h.spent += d
	e.qmu.Unlock()
	e.qcond.Broadcast()
}

// ---- workers

var denyInit = []string{"runtime", "internal/", "os", "syscall", "net", "time", "reflect", "sync", "crypto", "math/big", "math/rand", "log", "testing", "hash", "vendor/", "io/fs", "iter", "unique", "weak", "embed", "encoding/json", "encoding/base64", "go/", "html", "mime", "text", "flag", "regexp", "compress", "archive", "fmt", "path/filepath", "unsafe", "maps", "cmp", "structs", "database", "bytes/", "io/ioutil", "expvar", "plugin"}
var allowInit = map[string]bool{"internal/strconv": true, "internal/stringslite": true, "internal/byteorder": true, "internal/oserror": true, "internal/itoa": true, "io/fs": true, "compress/flate": true, "io/ioutil": true, "hash/crc32": false, "regexp": true, "regexp/syntax": true}

func initDenied(p string) bool {
	if allowInit[p] {
		return false
	}
	for _, d := range denyInit {
		if p == d || strings.HasPrefix(p, d) && (strings.HasSuffix(d, "/") || strings.HasPrefix(p, d+"/")) {
			return true
		}
	}
	return false
}

func (e *Engine) newWorker(id int) *W {
	w := &W{eng: e, id: id, codes: map[*ssa.Function]*Code{}, globals: map[*ssa.Global]*Obj{}, realCodes: map[*ssa.Function]*Code{}, rng: rand.New(rand.NewSource(e.seed + int64(id)))}
	w.resetPath(nil, nil)
	w.jseq = 0
	w.baseSeq = 0
	w.seq = 10
	for _, p := range e.order {
		if initDenied(p.Pkg.Path()) {
			continue
		}
		w.runInit(p)
	}
	w.baseLocks = w.mu2
	w.journal = nil
	w.baseSeq = w.seq
	return w
}

func (w *W) runInit(p *ssa.Package) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if debugFlag && w.id == 0 {
				switch x := r.(type) {
				case pathEnd:
					fmt.Printf("init of %s stopped: %s %s\n", p.Pkg.Path(), x.kind, x.msg)
				case *goPanic:
					fmt.Printf("init of %s panicked: %s %s\n", p.Pkg.Path(), x.msg, x.site)
				default:
					fmt.Printf("init of %s: %v\n%s", p.Pkg.Path(), r, debug.Stack())
				}
			}
			w.eng.addCount("init_stopped:"+p.Pkg.Path(), 1)
		}
		g := w.gs[0]
		g.depth, g.top = 0, nil
	}()
	w.steps = 0
	w.inInit = true
	defer func() { w.inInit = false }()
	w.call(w.g, w.codeOf(fn), nil, nil, nil, nil)
}

func (w *W) resetPath(h *Harness, t *Task) {
	w.h = h
	w.tc = newTermCtx()
	w.pc = w.pc[:0]
	w.known = map[*Term]bool{}
	w.conc = map[*Term]uint64{}
	w.klog, w.clog = nil, nil
	w.dom = nil
	w.coupled = nil
	w.coupVis = map[*Term]bool{}
	w.pos = 0
	w.facts = w.facts[:0]
	if w.xcheck = false; h != nil {
		h.mu.Lock()
		w.xcheck = h.paths < 24 || w.rng.Intn(256) == 0
		h.mu.Unlock()
	}
	w.trace, w.hint = nil, nil
	if t != nil {
		w.trace = append([]Dec(nil), t.trace...)
		w.hint = t.model
	}
	w.live, w.modelOK = false, false
	w.steps, w.stepLimit = 0, 1<<40
	w.allocSlots, w.allocLimit = 0, 0
	w.maxDepth = 3000
	w.maxPreempt = 2
	w.mapOrder = false
	w.inputs = nil
	w.covers = map[string]bool{}
	w.observes = nil
	w.siteFail = map[*Instr]int{}
	w.specStack = w.specStack[:0]
	w.spec = 0
	w.gseq = 0
	w.preempt = 0
	w.racing = false
	w.chanID = 0
	w.side = map[any]any{}
	w.nasserts = 0
	w.quant = map[quantKey]*Term{}
	w.chosen = false
	w.natoms, w.atomTerm = 0, map[*Term]bool{}
	w.abort = nil
	w.mustTerm = false
	w.mu2 = map[*Obj]map[int]*lockState{}
	for o, m := range w.baseLocks {
		n := map[int]*lockState{}
		for k, s := range m {
			c := *s
			n[k] = &c
		}
		w.mu2[o] = n
	}
	w.pools = map[*Obj][]pooled{}
	g := &G{id: 0, wake: make(chan struct{}), exited: make(chan struct{}), vc: vclock{1}}
	w.g = g
	w.gs = []*G{g}
	if h != nil {
		w.stepLimit = h.steps
		w.maxDepth = h.depth
		w.maxPreempt = h.preempt
	}
}

func (w *W) undoPath() {
	for i := len(w.journal) - 1; i >= 0; i-- {
		e := w.journal[i]
		if e.f != nil {
			e.f()
		} else {
			e.o.s[e.i] = e.old
		}
	}
	w.journal = w.journal[:0]
	w.seq = w.baseSeq
}

func (w *W) runTask(t *Task) {
	h := t.h
	w.resetPath(h, t)
	w.jseq = w.baseSeq + 1
	w.solver.beginPath(w.tc)
	end := pathEnd{kind: "done"}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			w.spec = 0
			switch x := r.(type) {
			case pathEnd:
				end = x
			case *goPanic:
				end = pathEnd{"violation", ""}
				func() {
					defer func() {
						if r2 := recover(); r2 != nil {
							if pe, ok := r2.(pathEnd); ok {
								end = pe
								return
							}
							panic(r2)
						}
					}()
					if w.replaying() {
						end = pathEnd{"done", ""}
						return
					}
					w.ensureModel()
					w.eng.candidate(w, "panic", x.msg, x.site)
				}()
			case specFail:
				end = pathEnd{"unsupported", "stray merge failure"}
			case killG:
				end = pathEnd{"unsupported", "killed"}
			default:
				msg := fmt.Sprint(r)
				if debugFlag {
					msg += "\n" + string(debug.Stack())
				}
				end = pathEnd{"unsupported", "engine: " + msg}
			}
		}()
		w.call(w.g, w.codeOf(h.fn), nil, nil, nil, nil)
	}()
	if end.kind == "depth" || end.kind == "budget" && w.mustTerm {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						end = pe
						return
					}
					panic(r)
				}
			}()
			w.spec = 0
			w.ensureModel()
			k := "stack"
			if end.kind == "budget" {
				k = "hang"
			}
			w.eng.candidate(w, k, k, end.msg)
			end = pathEnd{"violation", k}
		}()
	}
	if end.kind == "done" && w.xcheck && !w.replaying() {
		w.crossCheck()
	}
	var smp *PathSample
	if end.kind == "done" && !w.replaying() {
		h.mu.Lock()
		h.seen++
		take := len(h.samples) < 40 || w.rng.Intn(h.seen) < 40
		h.mu.Unlock()
		if take {
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							if pe.kind == "infeasible" {
								end = pe
							}
							return
						}
						panic(r)
					}
				}()
				w.ensureModel()
				for i := 0; i < 10 && w.realLemmas(); i++ {
					w.ensureModel()
				}
				smp = &PathSample{Harness: h.name, Inputs: w.inputVals()}
				for _, o := range w.evalObs() {
					smp.Obs = append(smp.Obs, fmt.Sprintf("%s=%v", o.Label, o.V))
				}
				for c := range w.covers {
					smp.Covers = append(smp.Covers, c)
				}
				sort.Strings(smp.Covers)
			}()
		}
	}
	w.killAll()
	w.solver.endPath()
	w.undoPath()
	atomic.AddInt64(&w.eng.instrs, w.steps)
	h.mu.Lock()
	h.paths++
	h.maxSteps = max(h.maxSteps, w.steps)
	switch end.kind {
	case "done":
		h.doneN++
		for c := range w.covers {
			h.covers[c]++
		}
		if smp != nil {
			if len(h.samples) < 40 {
				h.samples = append(h.samples, smp)
			} else {
				h.samples[w.rng.Intn(40)] = smp
			}
		}
	case "infeasible":
		h.infeas++
	case "violation":
		h.violN++
	default:
		m := end.kind + ": " + end.msg
		if i := strings.Index(m, " < "); i >= 0 && !debugFlag {
			m = m[:i]
		}
		if len(m) > 1500 {
			m = m[:1500]
		}
		h.problems[m]++
	}
	h.mu.Unlock()
}

func (e *Engine) explore() {
	e.qcond = sync.NewCond(&e.qmu)
	for _, h := range e.harnesses {
		h.stack = append(h.stack, &Task{h: h})
	}
	e.deadline = time.Now().Add(e.budget)
	timer := time.AfterFunc(e.budget, func() {
		e.stop.Store(true)
		e.qcond.Broadcast()
	})
	defer timer.Stop()
	var wg sync.WaitGroup
	var fmu sync.Mutex
	for i := 0; i < e.nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "worker: %v\n%s", r, debug.Stack())
				}
			}()
			w := e.newWorker(i)
			w.solver = newSolver(&e.stats)
			defer w.solver.close()
			for {
				t := e.next()
				if t == nil {
					break
				}
				t0 := time.Now()
				func() {
					defer func() { e.finished(t.h, time.Since(t0)) }()
					w.runTask(t)
				}()
			}
			fmu.Lock()
			for _, c := range w.codes {
				if c.used && c.native == nil && c.fn != nil {
					e.funcs[c.name] = true
				}
			}
			fmu.Unlock()
		}(i)
	}
	wg.Wait()
	for _, h := range e.harnesses {
		h.left = len(h.stack)
	}
}
