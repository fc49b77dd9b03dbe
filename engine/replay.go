package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func quant32(f float32, prec int) float32 {
	v, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f), 'f', prec, 32), 32)
	return float32(v)
}

// Runner builds and runs the native replay program.
type Runner struct {
	e     *Engine
	dir   string
	once  sync.Once
	bin   string
	err   error
	ronce sync.Once
	rbin  string
	rerr  error
	jonce sync.Once
	jbin  string
	jerr  error
}

// build is the program that runs the harnesses natively: as they are, with
// schedules that vary, or with those and a detector of races.
func (r *Runner) build(race, sched bool) (string, error) {
	e := r.e
	pkg := strings.ToLower(e.prop)
	var sb strings.Builder
	fmt.Fprintf(&sb, "package main\n\nimport (\n\th %q\n\tsym %q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", e.modPath+"/"+harnessRel+"/"+pkg, e.modPath+"/"+symPkgRel)
	for _, h := range e.harnesses {
		fmt.Fprintf(&sb, "\t\t%q: h.%s,\n", h.name, h.name)
	}
	sb.WriteString("\t})\n}\n")
	sub := "run"
	if race {
		sub = "runrace"
	} else if sched {
		sub = "runsched"
	}
	main := filepath.Join(r.dir, sub+"_main.go")
	if err := os.WriteFile(main, []byte(sb.String()), 0o644); err != nil {
		return "", err
	}
	ov := filepath.Join(r.dir, sub+"_overlay.json")
	extra := map[string]string{}
	if sched {
		jdir := filepath.Join(r.dir, sub+"_jitter")
		if err := os.MkdirAll(jdir, 0o755); err != nil {
			return "", err
		}
		extra = e.jitter(jdir)
	}
	extra[filepath.Join(e.repo, harnessRel, "run", "main.go")] = main
	if err := os.WriteFile(ov, e.overlayJSON(extra), 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(r.dir, sub)
	args := []string{"build", "-overlay", ov, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./"+harnessRel+"/run")
	cmd := exec.Command("go", args...)
	cmd.Dir = e.repo
	cmd.Env = goEnv()
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v\n%s", err, out)
	}
	return bin, nil
}

func (r *Runner) binary(race, sched bool) (string, error) {
	if race {
		r.ronce.Do(func() { r.rbin, r.rerr = r.build(true, true) })
		return r.rbin, r.rerr
	}
	if sched {
		r.jonce.Do(func() { r.jbin, r.jerr = r.build(false, true) })
		return r.jbin, r.jerr
	}
	r.once.Do(func() { r.bin, r.err = r.build(false, false) })
	return r.bin, r.err
}

type runSpec struct {
	Harness string     `json:"harness"`
	Inputs  []inputVal `json:"inputs"`
	Tier    string     `json:"tier"`
	Repeat  int        `json:"repeat"`
}

type runResult struct {
	Outcome string   `json:"outcome"` // ok, assert, panic, assume, diverge
	Label   string   `json:"label"`
	Obs     []string `json:"obs"`
	Covers  []string `json:"covers"`
}

// run executes one input natively. exit status: "" or timeout/crash text.
func (r *Runner) run(specs []runSpec, race, sched bool, to time.Duration, procs int) ([]runResult, string, error) {
	bin, err := r.binary(race, sched)
	if err != nil {
		return nil, "", err
	}
	in, _ := json.Marshal(specs)
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	work, err := os.MkdirTemp(r.dir, "w")
	if err != nil {
		return nil, "", err
	}
	defer os.RemoveAll(work)
	cmd := exec.CommandContext(ctx, "/bin/sh", "-c", "ulimit -v 67108864; exec \"$0\"", bin)
	if race {
		cmd = exec.CommandContext(ctx, bin)
	}
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+strconv.Itoa(procs), "GORACE=halt_on_error=1 exitcode=66", "TMPDIR="+work, "GOMEMLIMIT=4GiB")
	cmd.Stdin = bytes.NewReader(in)
	var out, errb bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &limitWriter{b: &errb, n: 1 << 16}
	err = cmd.Run()
	var rs []runResult
	for _, ln := range strings.Split(out.String(), "\n") {
		if rest, ok := strings.CutPrefix(ln, "@@"); ok {
			var x runResult
			if json.Unmarshal([]byte(rest), &x) == nil {
				rs = append(rs, x)
			}
		}
	}
	if ctx.Err() != nil {
		return rs, "timeout", nil
	}
	if err != nil {
		return rs, "crash: " + err.Error() + "\n" + errb.String(), nil
	}
	return rs, "", nil
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		l.b.Write(p[:min(k, len(p))])
	}
	return len(p), nil
}

// confirm replays a candidate against the real code.
func (e *Engine) confirm(c *Cand) {
	for !c.done {
		e.cmu.Lock()
		if c.tried >= len(c.model) {
			e.cmu.Unlock()
			return
		}
		in := c.model[c.tried]
		c.tried++
		conc := c.conc && c.tried <= 8 && (c.kind == "assert" || c.kind == "panic")
		e.cmu.Unlock()
		sp := runSpec{Harness: c.harness.name, Inputs: in, Tier: e.tier}
		type attempt struct {
			sched         bool
			repeat, procs int
		}
		race := c.kind == "race"
		attempts := []attempt{{false, 1, 8}}
		if c.harness.race || race || c.kind == "deadlock" {
			rep := 300
			if race {
				rep = 60
			}
			attempts = []attempt{{true, rep, 4}, {true, rep, 1}, {true, rep, 8}}
		} else if conc {
			attempts = append(attempts, attempt{true, 300, 4}, attempt{true, 300, 8})
		}
		for _, at := range attempts {
			sched, procs := at.sched, at.procs
			sp.Repeat = at.repeat
			to := 20 * time.Second
			if c.kind == "hang" || c.kind == "deadlock" {
				to = 10 * time.Second
			}
			rs, status, err := e.runner.run([]runSpec{sp}, race, sched, to, procs)
			if err != nil {
				e.addCount("replay_build_failed", 1)
				c.out = err.Error()
				return
			}
			bad, desc := false, ""
			switch {
			case status == "timeout" && sched && c.kind != "hang" && c.kind != "deadlock":
			case status == "timeout":
				bad, desc = true, "does not terminate within "+to.String()
			case strings.Contains(status, "DATA RACE"):
				bad, desc = true, "data race: "+firstLines(status, 12)
			case status != "":
				bad, desc = true, firstLines(status, 12)
				if strings.Contains(status, "signal: killed") && !strings.Contains(status, "goroutine") {
					desc = "killed (out of memory or time): " + desc
				}
			}
			for _, x := range rs {
				switch x.Outcome {
				case "assert", "panic", "alloc":
					bad, desc = true, x.Outcome+": "+x.Label
				}
			}
			if bad {
				c.confirmed, c.out, c.done = in, desc, true
				if c.confirmed == nil {
					c.confirmed = []inputVal{}
				}
				return
			}
			if len(rs) > 0 {
				c.out = "native outcome: " + rs[0].Outcome + " " + rs[0].Label
			}
		}
	}
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// validate replays completed paths natively; returns how many agree and descriptions of the ones that do not.
func (e *Engine) validate() (int, []string, error) {
	var specs []runSpec
	var smps []*PathSample
	per := 25
	if e.tier == "thorough" {
		per = 40
	}
	for _, h := range e.harnesses {
		if h.noval {
			continue
		}
		for i, s := range h.samples {
			if i >= per {
				break
			}
			specs = append(specs, runSpec{Harness: s.Harness, Inputs: s.Inputs, Tier: e.tier, Repeat: 1})
			smps = append(smps, s)
		}
	}
	if len(specs) == 0 {
		return 0, nil, nil
	}
	rs, status, err := e.runner.run(specs, false, false, 120*time.Second, 8)
	if err != nil {
		return 0, nil, err
	}
	ok := 0
	var bad []string
	for i, s := range smps {
		if i >= len(rs) {
			bad = append(bad, fmt.Sprintf("%s: no native result (%s) inputs %v", s.Harness, firstLines(status, 3), s.Inputs))
			break
		}
		r := rs[i]
		no := strings.Join(filterObs(r.Obs, s.Obs), ";")
		if r.Outcome != "ok" {
			bad = append(bad, fmt.Sprintf("%s: native %s %s, model completes; inputs %v", s.Harness, r.Outcome, r.Label, s.Inputs))
		} else if no != strings.Join(s.Obs, ";") {
			bad = append(bad, fmt.Sprintf("%s: native observes %s, model %s; inputs %v", s.Harness, no, strings.Join(s.Obs, ";"), s.Inputs))
		} else {
			sort.Strings(r.Covers)
			if strings.Join(r.Covers, ",") != strings.Join(s.Covers, ",") {
				bad = append(bad, fmt.Sprintf("%s: native covers %v, model %v; inputs %v", s.Harness, r.Covers, s.Covers, s.Inputs))
			} else {
				ok++
			}
		}
	}
	return ok, bad, nil
}

// filterObs keeps the native observations the model also made.
func filterObs(n, m []string) []string {
	have := map[string]bool{}
	for _, x := range m {
		have[x[:strings.IndexByte(x, '=')]] = true
	}
	var r []string
	for _, x := range n {
		if have[x[:strings.IndexByte(x, '=')]] {
			r = append(r, x)
		}
	}
	return r
}

func showInputs(in []inputVal) string {
	var p []string
	for i := 0; i < len(in); i++ {
		v := in[i]
		switch v.Kind {
		case "u8":
			var b []byte
			for i < len(in) && in[i].Kind == "u8" {
				b = append(b, byte(in[i].V))
				i++
			}
			i--
			p = append(p, strconv.Quote(string(b)))
		case "f32", "if32":
			p = append(p, strconv.FormatFloat(float64(math.Float32frombits(uint32(v.V))), 'g', -1, 32))
		default:
			p = append(p, fmt.Sprintf("%s:%d", v.Kind, int64(v.V)))
		}
	}
	return strings.Join(p, " ")
}
