package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var debugFlag bool

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	panic(pathEnd{"unsupported", fmt.Sprintf(f, a...)})
}

// Known is one entry of known-findings.json.
type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Label    string `json:"label"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

type violationOut struct {
	Property string     `json:"property"`
	Harness  string     `json:"harness"`
	Kind     string     `json:"kind"`
	Label    string     `json:"label"`
	Site     string     `json:"site"`
	Native   string     `json:"native_outcome"`
	Readable string     `json:"inputs_readable"`
	Inputs   []inputVal `json:"inputs"`
	Tier     string     `json:"tier"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "verification directory")
	budget := flag.Int("budget", 0, "exploration seconds")
	replay := flag.String("replay", "", "replay a violation file natively")
	dbg := flag.Bool("debug", false, "debug output")
	prof := flag.Bool("prof", false, "profile branch sites")
	cpuprof := flag.String("cpuprofile", "", "")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	noMerge := flag.Bool("nomerge", false, "")
	flag.Parse()
	debugFlag = *dbg
	if *tier != "thorough" {
		*tier = "quick"
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(14 << 30)
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	e := &Engine{prop: *prop, repo: *repo, verif: *verif, modPath: modPathName, tier: *tier, seed: seed, noMerge: *noMerge,
		counts: map[string]int64{}, cands: map[string]*Cand{}, candCh: make(chan *Cand, 4096), funcs: map[string]bool{}, nworkers: *workers, started: time.Now()}
	if *prof {
		e.prof = map[string]int{}
	}
	if *budget > 0 {
		e.budget = time.Duration(*budget) * time.Second
	}
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	code := e.run(*replay)
	if *cpuprof != "" {
		pprof.StopCPUProfile()
	}
	os.Exit(code)
}

func (e *Engine) run(replay string) int {
	dir, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println("note: no scratch directory:", err)
		return 0
	}
	defer os.RemoveAll(dir)
	e.runner = &Runner{e: e, dir: dir}
	if b, err := os.ReadFile(filepath.Join(e.verif, "known-findings.json")); err == nil {
		if err := json.Unmarshal(b, &e.knowns); err != nil {
			fmt.Println("note: known-findings.json:", err)
		}
	}
	if err := e.load(); err != nil {
		fmt.Printf("note: property %s not decided: %v\n", e.prop, err)
		e.writeEvidence(nil, 0, nil, 0, err.Error())
		return 0
	}
	loadT := time.Since(e.started)
	if replay != "" {
		return e.replayFile(replay)
	}
	if e.budget == 0 {
		e.budget = 40 * time.Second
		if e.tier == "thorough" {
			e.budget = 400 * time.Second
		}
	}
	// native build in the background
	var bg sync.WaitGroup
	bg.Add(1)
	go func() {
		defer bg.Done()
		if _, err := e.runner.binary(false, false); err != nil {
			fmt.Println("note:", firstLines(err.Error(), 8))
		}
	}()
	var violated atomic.Bool
	bg.Add(1)
	stopC := make(chan struct{})
	go func() {
		defer bg.Done()
		for {
			select {
			case c := <-e.candCh:
				e.cmu.Lock()
				done := c.done
				e.cmu.Unlock()
				if done {
					continue
				}
				e.confirm(c)
				if c.done && e.knownFor(c) == nil {
					if !violated.Swap(true) && os.Getenv("GOSYM_KEEPGOING") == "" {
						// a confirmed violation: finish soon
						time.AfterFunc(2*time.Second, func() { e.stop.Store(true); e.qcond.Broadcast() })
					}
				}
			case <-stopC:
				return
			}
		}
	}()
	e.explore()
	exploreT := time.Since(e.started) - loadT
	close(stopC)
	bg.Wait()
	// remaining candidates
	var keys []string
	for k := range e.cands {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	t0 := time.Now()
	for _, k := range keys {
		if c := e.cands[k]; !c.done && time.Since(t0) < 90*time.Second {
			e.confirm(c)
		}
	}
	nval, bad, verr := e.validate()
	if verr != nil {
		fmt.Println("note: native validation failed:", firstLines(verr.Error(), 5))
	}
	code := e.report(keys)
	e.writeEvidence(keys, nval, bad, code, "")
	e.summary(loadT, exploreT, nval, bad)
	return code
}

func (e *Engine) knownFor(c *Cand) *Known {
	for i := range e.knowns {
		k := &e.knowns[i]
		if k.Fixed == "" && k.Property == e.prop && k.Harness == c.harness.name && (k.Label == c.label || k.Label == c.kind) {
			return k
		}
	}
	return nil
}

func (e *Engine) report(keys []string) int {
	code := 0
	n := 0
	printed := map[string]bool{}
	for _, k := range keys {
		c := e.cands[k]
		if !c.done {
			fmt.Printf("note: unconfirmed candidate (not reported) %s [%s] %s; inputs %s; %s\n", c.harness.name, c.kind, c.label, showInputs(c.model[0]), firstLines(c.out, 3))
			e.incomplete(c.harness, "unconfirmed candidate: "+c.kind+" "+c.label)
			continue
		}
		if kf := e.knownFor(c); kf != nil {
			if !printed[kf.ID] {
				fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", e.prop, kf.ID, kf.What)
				printed[kf.ID] = true
			}
			continue
		}
		n++
		dir := filepath.Join(e.verif, "evidence", "violations")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", e.prop, n))
		b, _ := json.MarshalIndent(violationOut{e.prop, c.harness.name, c.kind, c.label, c.site, c.out, showInputs(c.confirmed), c.confirmed, e.tier}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", e.prop, path)
		fmt.Printf("  harness %s, %s: %s\n  inputs: %s\n  real code: %s\n  at: %s\n", c.harness.name, c.kind, c.label, showInputs(c.confirmed), firstLines(c.out, 6), c.site)
		code = 1
	}
	return code
}

func (e *Engine) summary(loadT, exploreT time.Duration, nval int, bad []string) {
	for _, h := range e.harnesses {
		fmt.Printf("%-28s paths=%d done=%d infeasible=%d violating=%d left=%d maxsteps=%d asserts=%v covers=%v spent=%.1fs\n", h.name, h.paths, h.doneN, h.infeas, h.violN, h.left, h.maxSteps, h.asserts, h.covers, h.spent.Seconds())
		var ks []string
		for k := range h.problems {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return h.problems[ks[i]] > h.problems[ks[j]] })
		for i, k := range ks {
			if i < 6 {
				fmt.Printf("    %dx %s\n", h.problems[k], k)
			}
		}
	}
	for i, b := range bad {
		if i < 6 {
			fmt.Println("MISMATCH", b)
		}
	}
	fmt.Printf("%s %s: load %.1fs explore %.1fs total %.1fs; queries %d (sat %d unsat %d unknown %d, domain %d confirmed %d) solver %.1fs; merged %d; instrs %d; decisions %d; validated %d mismatched %d; counts %v\n",
		e.prop, e.tier, loadT.Seconds(), exploreT.Seconds(), time.Since(e.started).Seconds(), e.stats.queries, e.stats.sat, e.stats.unsat, e.stats.unknown, e.stats.domain, e.stats.facts, float64(e.stats.ns)/1e9, e.merged, e.instrs, e.decs, nval, len(bad), e.counts)
	if e.prof != nil {
		var ks []string
		for k := range e.prof {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return e.prof[ks[i]] > e.prof[ks[j]] })
		for i, k := range ks {
			if i < 25 {
				fmt.Printf("%6d %s\n", e.prof[k], k)
			}
		}
	}
}

func (e *Engine) writeEvidence(keys []string, nval int, bad []string, code int, problem string) {
	states, left, infeas, viol := int64(0), 0, int64(0), 0
	samples := []any{}
	hs := []any{}
	exhaustive := problem == "" && len(e.dropped) == 0
	for _, h := range e.harnesses {
		states += h.paths
		left += h.left
		infeas += h.infeas
		if h.left > 0 || len(h.problems) > 0 {
			exhaustive = false
		}
		for i, s := range h.samples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": h.name, "inputs": showInputs(s.Inputs), "covers": s.Covers, "observed": s.Obs})
			}
		}
		hs = append(hs, map[string]any{"harness": h.name, "paths": h.paths, "completed": h.doneN, "infeasible": h.infeas, "violating": h.violN, "unexplored": h.left,
			"assertions_reached": h.asserts, "covered": h.covers, "outside_the_bound": h.problems, "cpu_s": h.spent.Seconds(), "max_instructions_per_path": h.maxSteps, "call_depth_bound": h.depth, "instruction_bound": h.steps})
	}
	for _, k := range keys {
		c := e.cands[k]
		if c.done && e.knownFor(c) == nil {
			viol++
		}
	}
	if len(samples) > 30 {
		samples = samples[:30]
	}
	var fs, std []string
	for f := range e.funcs {
		if strings.Contains(f, harnessRel) || strings.Contains(f, "verifsym") {
			continue
		}
		if strings.Contains(f, e.modPath) && !strings.Contains(f, "verifstub") {
			fs = append(fs, strings.ReplaceAll(f, e.modPath, "go3mf"))
		} else {
			std = append(std, f)
		}
	}
	sort.Strings(fs)
	sort.Strings(std)
	explain := "states = execution paths of the real code decided symbolically; transitions = decisions (branch, choice, scheduling) made along them; each path stands for every input satisfying its condition"
	cov := map[string]any{
		"states": states, "transitions": e.decs, "traces_validated_against_impl": nval, "samples": samples, "exhaustive": exhaustive, "explanation": explain,
		"functions_encoded": fs, "library_and_stub_functions_encoded": std, "harnesses": hs, "paths_left_unexplored": left,
		"solver":                map[string]any{"queries": e.stats.queries, "sat": e.stats.sat, "unsat": e.stats.unsat, "unknown": e.stats.unknown, "second_opinion_runs": e.stats.oneshot, "decided_by_byte_domain": e.stats.domain, "such_decisions_confirmed_by_solver": e.stats.facts, "seconds": float64(e.stats.ns) / 1e9},
		"instructions_executed": e.instrs, "merged_branches": e.merged, "counters": e.counts, "model_validation_mismatches": bad, "harness_files_left_out": e.dropped,
	}
	if problem != "" {
		cov["problem"] = problem
	}
	ev := map[string]any{"property": e.prop, "tier": e.tier, "seed": e.seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"bounds and Assume preconditions written in the harness sources under harness/" + strings.ToLower(e.prop), "environment stubs in sym/stubs (fmt, opc package I/O, crypto/rand) and engine intrinsics (strconv numeric text as exact tokens, sync, bytealg)", "go/ssa of the current /repo tree is the encoded program; z3 5.3.2, cvc5 1.1.2 and z3 4.8.12 are trusted for unsat, sat models are re-evaluated and replayed natively"},
		"wall_s":      time.Since(e.started).Seconds(), "violations": viol}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(e.verif, "evidence"), 0o755)
	os.WriteFile(filepath.Join(e.verif, "evidence", e.prop+".json"), b, 0o644)
}

func (e *Engine) replayFile(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		fmt.Println(err)
		return 0
	}
	var v violationOut
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Println(err)
		return 0
	}
	for _, h := range e.harnesses {
		if h.name == v.Harness {
			c := &Cand{harness: h, kind: v.Kind, label: v.Label, model: [][]inputVal{v.Inputs}, conc: true}
			e.confirm(c)
			fmt.Println("replay:", c.done, c.out)
			if c.done {
				return 1
			}
		}
	}
	return 0
}
