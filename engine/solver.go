package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type SolverStats struct {
	queries, sat, unsat, unknown, oneshot, domain, hint, facts int64
	ns                                                         int64
}

// Solver drives one incremental z3 process.
type Solver struct {
	cmd  *exec.Cmd
	in   *bufio.Writer
	inC  io.WriteCloser
	out  *bufio.Reader
	st   *SolverStats
	dead bool
	live bool // a path-level push is open

	ctx      *TermCtx
	done     map[int]bool
	declared int
	asserted int
	nq       int
	timeout  int
}

var z3bin = "z3-new"
var solverTimeoutMs = 3000

func newSolver(st *SolverStats) *Solver {
	s := &Solver{st: st}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(z3bin, "-in", "-memory:3000")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		fatal("solver stdin: %v", err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		fatal("solver stdout: %v", err)
	}
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start %s: %v", z3bin, err)
	}
	s.in, s.inC, s.out = bufio.NewWriterSize(in, 1<<16), in, bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", solverTimeoutMs)
	s.timeout = solverTimeoutMs
	s.dead, s.live = false, false
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

// beginPath resets the assertion state for a new path.
func (s *Solver) beginPath(c *TermCtx) {
	s.ctx = c
	s.nq = 0
}

func (s *Solver) endPath() {
	if s.live {
		s.in.WriteString("(pop 1)\n")
		s.live = false
	}
}

func (s *Solver) sync(pc []*Term) {
	if s.dead {
		s.close()
		s.start()
	}
	if !s.live {
		s.in.WriteString("(push 1)\n")
		s.live = true
		s.done = make(map[int]bool)
		s.declared, s.asserted = 0, 0
	}
	var sb strings.Builder
	s.declared = s.ctx.declare(&sb, s.declared)
	for ; s.asserted < len(pc); s.asserted++ {
		n := s.ctx.emit(&sb, pc[s.asserted], s.done, nil)
		sb.WriteString("(assert " + n + ")\n")
	}
	s.in.WriteString(sb.String())
}

// check decides pc ∧ cond. On Sat the model is returned (one value per variable).
func (s *Solver) check(pc []*Term, cond *Term, hard bool) (SatRes, []uint64) {
	t0 := time.Now()
	defer func() { atomic.AddInt64(&s.st.ns, int64(time.Since(t0))) }()
	atomic.AddInt64(&s.st.queries, 1)
	s.sync(pc)
	var sb strings.Builder
	// definitions made inside push would be lost on pop: emit before
	n := "true"
	if cond != nil {
		n = s.ctx.emit(&sb, cond, s.done, nil)
	}
	sb.WriteString("(push 1)\n(assert " + n + ")\n(check-sat)\n")
	s.in.WriteString(sb.String())
	s.in.Flush()
	r, bad := s.readResult()
	var m []uint64
	if r == Sat {
		m = s.getModel()
		if m == nil {
			r, bad = Unknown, true
		}
	}
	if s.dead {
		s.live = false
	} else {
		s.in.WriteString("(pop 1)\n")
	}
	if r == Unknown && (hard || !bad) {
		to := 5 * time.Second
		if hard {
			to = 40 * time.Second
		}
		r, m = s.oneShot(pc, cond, to)
	}
	if d := os.Getenv("GOSYM_SLOW"); d != "" && time.Since(t0) > time.Second {
		os.WriteFile(fmt.Sprintf("%s/slow%d.smt2", d, time.Now().UnixNano()), []byte(s.script(pc, cond)), 0o644)
	}
	switch r {
	case Sat:
		atomic.AddInt64(&s.st.sat, 1)
	case Unsat:
		atomic.AddInt64(&s.st.unsat, 1)
	default:
		atomic.AddInt64(&s.st.unknown, 1)
	}
	return r, m
}

func (s *Solver) readResult() (SatRes, bool) {
	for {
		ln, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return Unknown, true
		}
		ln = strings.TrimSpace(ln)
		switch {
		case ln == "sat":
			return Sat, false
		case ln == "unsat":
			return Unsat, false
		case ln == "unknown" || ln == "timeout":
			return Unknown, false
		case strings.HasPrefix(ln, "(error"):
			if debugFlag {
				fmt.Fprintln(os.Stderr, "SOLVER:", ln)
			}
			// whatever verdict follows is not to be believed
			s.dead = true
			return Unknown, true
		}
	}
}

func valueQuery(c *TermCtx) string {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range c.vars {
		sb.WriteString(v.name)
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	return sb.String()
}

func (s *Solver) getModel() []uint64 {
	if len(s.ctx.vars) == 0 {
		return []uint64{}
	}
	s.in.WriteString(valueQuery(s.ctx))
	s.in.Flush()
	txt, ok := readSexp(s.out)
	if !ok {
		s.dead = true
		return nil
	}
	m, err := parseModel(txt, s.ctx)
	if err != nil {
		if debugFlag {
			fmt.Fprintln(os.Stderr, "MODEL:", err, txt)
		}
		return nil
	}
	return m
}

func readSexp(r *bufio.Reader) (string, bool) {
	var sb strings.Builder
	d := 0
	for {
		b, err := r.ReadByte()
		if err != nil {
			return "", false
		}
		if d == 0 && (b == '\n' || b == ' ' || b == '\r') {
			continue
		}
		sb.WriteByte(b)
		if b == '(' {
			d++
		} else if b == ')' {
			d--
			if d == 0 {
				return sb.String(), true
			}
		}
	}
}

type sexp struct {
	atom string
	list []sexp
}

func parseSexp(s string, i int) (sexp, int) {
	for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t') {
		i++
	}
	if i < len(s) && s[i] == '(' {
		i++
		var l []sexp
		for {
			for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r') {
				i++
			}
			if i >= len(s) {
				return sexp{list: l}, i
			}
			if s[i] == ')' {
				return sexp{list: l}, i + 1
			}
			var e sexp
			e, i = parseSexp(s, i)
			l = append(l, e)
		}
	}
	j := i
	for j < len(s) && s[j] != ' ' && s[j] != ')' && s[j] != '(' && s[j] != '\n' {
		j++
	}
	return sexp{atom: s[i:j]}, j
}

func bvAtom(a string) (uint64, int, error) {
	if strings.HasPrefix(a, "#x") {
		v, err := strconv.ParseUint(a[2:], 16, 64)
		return v, 4 * (len(a) - 2), err
	}
	if strings.HasPrefix(a, "#b") {
		v, err := strconv.ParseUint(a[2:], 2, 64)
		return v, len(a) - 2, err
	}
	return 0, 0, fmt.Errorf("bad bv %q", a)
}

func modelValue(e sexp, s Sort) (uint64, error) {
	switch {
	case s == SBool:
		return b2u(e.atom == "true"), nil
	case s.isBV():
		if e.atom != "" {
			v, _, err := bvAtom(e.atom)
			return v, err
		}
		if len(e.list) == 3 && e.list[0].atom == "_" && strings.HasPrefix(e.list[1].atom, "bv") {
			return strconv.ParseUint(e.list[1].atom[2:], 10, 64)
		}
	case s == SInt:
		if e.atom != "" {
			v, err := strconv.ParseInt(e.atom, 10, 64)
			return uint64(v), err
		}
		if len(e.list) == 2 && e.list[0].atom == "-" {
			v, err := strconv.ParseInt(e.list[1].atom, 10, 64)
			return uint64(-v), err
		}
	case s.isFloat():
		eb, sb := 8, 23
		if s == SF64 {
			eb, sb = 11, 52
		}
		if len(e.list) == 4 && e.list[0].atom == "fp" {
			a, _, e1 := bvAtom(e.list[1].atom)
			b, _, e2 := bvAtom(e.list[2].atom)
			c, _, e3 := bvAtom(e.list[3].atom)
			if e1 != nil || e2 != nil || e3 != nil {
				return 0, fmt.Errorf("bad fp")
			}
			return a<<(eb+sb) | b<<sb | c, nil
		}
		if len(e.list) >= 2 && e.list[0].atom == "_" {
			exp := (uint64(1)<<eb - 1) << sb
			switch e.list[1].atom {
			case "+zero":
				return 0, nil
			case "-zero":
				return 1 << (eb + sb), nil
			case "+oo":
				return exp, nil
			case "-oo":
				return exp | 1<<(eb+sb), nil
			case "NaN":
				return exp | 1<<(sb-1), nil
			}
		}
	}
	return 0, fmt.Errorf("unparsed value %v", e)
}

func parseModel(txt string, c *TermCtx) ([]uint64, error) {
	e, _ := parseSexp(txt, 0)
	if len(e.list) != len(c.vars) {
		return nil, fmt.Errorf("model has %d values for %d vars", len(e.list), len(c.vars))
	}
	m := make([]uint64, len(c.vars))
	for i, p := range e.list {
		if len(p.list) != 2 || p.list[0].atom != c.vars[i].name {
			return nil, fmt.Errorf("model entry %d", i)
		}
		v, err := modelValue(p.list[1], c.vars[i].sort)
		if err != nil {
			return nil, err
		}
		m[i] = v
	}
	return m, nil
}

func (s *Solver) script(pc []*Term, cond *Term) string {
	var sb strings.Builder
	done := make(map[int]bool)
	sb.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	s.ctx.declare(&sb, 0)
	for _, p := range pc {
		n := s.ctx.emit(&sb, p, done, nil)
		sb.WriteString("(assert " + n + ")\n")
	}
	if cond != nil {
		n := s.ctx.emit(&sb, cond, done, nil)
		sb.WriteString("(assert " + n + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if len(s.ctx.vars) > 0 {
		sb.WriteString(valueQuery(s.ctx))
	}
	return sb.String()
}

// oneShot runs a small portfolio of solvers on the complete query.
func (s *Solver) oneShot(pc []*Term, cond *Term, to time.Duration) (SatRes, []uint64) {
	atomic.AddInt64(&s.st.oneshot, 1)
	script := s.script(pc, cond)
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		f, _ := os.CreateTemp(d, "q*.smt2")
		f.WriteString(script)
		f.Close()
	}
	ctx, cancel := context.WithTimeout(context.Background(), to)
	defer cancel()
	type res struct {
		r SatRes
		m []uint64
	}
	cmds := [][]string{
		{"z3-new", "-in", "-memory:3000"},
		{"cvc5", "--lang=smt2", "--produce-models", "-"},
		{"z3", "-in", "-memory:3000"},
	}
	ch := make(chan res, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := string(out)
			i := strings.IndexByte(txt, '\n')
			if i < 0 {
				ch <- res{Unknown, nil}
				return
			}
			first := strings.TrimSpace(txt[:i])
			switch first {
			case "unsat":
				ch <- res{Unsat, nil}
			case "sat":
				if len(s.ctx.vars) == 0 {
					ch <- res{Sat, []uint64{}}
					return
				}
				m, err := parseModel(txt[i+1:], s.ctx)
				if err != nil {
					ch <- res{Unknown, nil}
					return
				}
				ch <- res{Sat, m}
			default:
				ch <- res{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		r := <-ch
		if r.r != Unknown {
			return r.r, r.m
		}
	}
	return Unknown, nil
}
