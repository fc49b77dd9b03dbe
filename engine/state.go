package main

import (
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"sort"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type jent struct {
	o   *Obj
	i   int
	old Val
	f   func()
}

// Dec is one recorded decision of a path.
type Dec struct {
	k      byte // 'b' branch, 'c' choice, 'p' picked value
	forced bool
	v      uint64
}

type Task struct {
	h     *Harness
	trace []Dec
	model []uint64
}

type Input struct {
	kind string
	t    *Term // nil: concrete
	v    uint64
}

// pooled is a value put in a sync.Pool, and when.
type pooled struct {
	v  Val
	vc vclock
}

// W is one exploration worker.
type W struct {
	eng     *Engine
	id      int
	codes   map[*ssa.Function]*Code
	globals map[*ssa.Global]*Obj
	seq     uint64
	baseSeq uint64
	jseq    uint64
	journal []jent
	solver  *Solver

	// per path
	h           *Harness
	tc          *TermCtx
	pc          []*Term
	known       map[*Term]bool
	facts       []*Term // decided without the solver, to be cross-checked
	xcheck      bool
	conc        map[*Term]uint64
	klog, clog  []*Term
	dom         []*[4]uint64
	coupled     []bool
	coupVis     map[*Term]bool
	trace       []Dec
	pos         int
	hint        []uint64
	live        bool
	modelOK     bool
	steps       int64
	stepLimit   int64
	allocSlots  int64
	allocLimit  int64
	maxDepth    int
	mapOrder    bool
	mapOrderMax int
	inputs      []Input
	covers      map[string]bool
	observes    []obs
	siteFail    map[*Instr]int
	specStack   []specSite
	spec        int
	g           *G
	gs          []*G
	gseq        int
	preempt     int
	maxPreempt  int
	racing      bool
	chanID      int
	side        map[any]any
	nasserts    int
	forkCount   map[*Instr]int
	quant       map[quantKey]*Term
	chosen      bool // the model makes floats come back as they would
	natoms      int
	atomTerm    map[*Term]bool
	abort       any
	mu2         map[*Obj]map[int]*lockState
	natPanic    any
	rng         *rand.Rand
	fmtDepth    int
	pools       map[*Obj][]pooled
	realCodes   map[*ssa.Function]*Code
	skipNative  string
	baseLocks   map[*Obj]map[int]*lockState
	ended       bool
	mustTerm    bool
	inInit      bool
}

type obs struct {
	label string
	v     Val
	ti    *TI
}

type specSite struct {
	fr *Frame
	in *Instr
}

var fullDom = [4]uint64{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

func (w *W) newVar(s Sort, tag string, dom *[4]uint64, def uint64) *VarInfo {
	vi := w.tc.NewVar(s, tag)
	vi.dom = dom
	for len(w.dom) < len(w.tc.vars) {
		w.dom = append(w.dom, nil)
		w.coupled = append(w.coupled, false)
	}
	i := len(w.tc.vars) - 1
	if s == SBV8 {
		d := fullDom
		if dom != nil {
			d = *dom
			def = firstOf(d)
		}
		w.dom[i] = &d
	}
	for len(w.tc.model) <= i {
		w.tc.model = append(w.tc.model, 0)
	}
	w.tc.model[i] = def
	w.tc.gen++
	return vi
}

func firstOf(d [4]uint64) uint64 {
	for i, x := range d {
		if x != 0 {
			return uint64(i*64 + bits.TrailingZeros64(x))
		}
	}
	return 0
}

// nicest picks a readable member of the domain if there is one.
func nicest(d [4]uint64) uint64 {
	for _, r := range "a0 x1bA\"<&" {
		if d[r>>6]>>(uint(r)&63)&1 == 1 {
			return uint64(r)
		}
	}
	return firstOf(d)
}

func (w *W) domOf(v int32) *[4]uint64 {
	if d := w.dom[v]; d != nil {
		return d
	}
	return &fullDom
}

// cheap decides a condition without the solver when possible.
func (w *W) cheap(t *Term) (bool, bool) {
	if t.op == OConst {
		return t.c != 0, true
	}
	if v, ok := w.known[t]; ok {
		return v, true
	}
	switch t.op {
	case ONot:
		v, ok := w.cheap(t.a[0])
		return !v, ok
	case OAnd:
		a, ok1 := w.cheap(t.a[0])
		if ok1 && !a {
			return false, true
		}
		b, ok2 := w.cheap(t.a[1])
		if ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OOr:
		a, ok1 := w.cheap(t.a[0])
		if ok1 && a {
			return true, true
		}
		b, ok2 := w.cheap(t.a[1])
		if ok2 && b {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	if t.v1 == -2 {
		if v, ok := w.byRange(t); ok {
			return v, true
		}
	}
	if t.v1 >= 0 && w.tc.vars[t.v1].sort == SBV8 {
		tt := w.tc.truth(t)
		d := w.dom[t.v1]
		anyT, anyF := false, false
		for i := range tt {
			if tt[i]&d[i] != 0 {
				anyT = true
			}
			if d[i]&^tt[i] != 0 {
				anyF = true
			}
		}
		if !anyF {
			return true, true
		}
		if !anyT {
			return false, true
		}
	}
	return false, false
}

// overAtom tells whether a term depends on the byte that stands for the text of a number.
func (w *W) overAtom(t *Term) bool {
	if t.v1 == -1 {
		return false
	}
	if t.v1 >= 0 {
		return w.tc.vars[t.v1].atom != nil
	}
	if w.natoms == 0 {
		return false
	}
	if v, ok := w.atomTerm[t]; ok {
		return v
	}
	r := false
	for _, a := range t.a {
		if w.overAtom(a) {
			r = true
			break
		}
	}
	w.atomTerm[t] = r
	return r
}

func (w *W) constOf(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.c, true
	}
	if v, ok := w.conc[t]; ok {
		return v, true
	}
	in := t
	if in.op == OZext {
		in = in.a[0]
	}
	if in.op == OVar && in.sort == SBV8 {
		d := w.dom[in.c]
		n := 0
		for _, x := range d {
			n += bits.OnesCount64(x)
		}
		if n == 1 {
			return firstOf(*d), true
		}
	}
	return 0, false
}

func (w *W) couple(t *Term) {
	if w.coupVis[t] {
		return
	}
	w.coupVis[t] = true
	if t.op == OVar {
		w.coupled[t.c] = true
	}
	for _, a := range t.a {
		if a.op != OConst {
			w.couple(a)
		}
	}
}

func (w *W) setKnown(t *Term, v bool) {
	if w.spec > 0 {
		if _, ok := w.known[t]; ok {
			return
		}
		w.klog = append(w.klog, t)
	}
	w.known[t] = v
}

func (w *W) setConc(t *Term, v uint64) {
	if w.spec > 0 {
		if _, ok := w.conc[t]; ok {
			return
		}
		w.clog = append(w.clog, t)
	}
	w.conc[t] = v
}

// learn records that t has truth value v (no pc entry).
func (w *W) learn(t *Term, v bool) {
	if !v {
		t = w.tc.Not(t)
	}
	w.setKnown(t, true)
	if t.neg != nil {
		w.setKnown(t.neg, false)
	}
	if t.op == OAnd {
		w.learn(t.a[0], true)
		w.learn(t.a[1], true)
	}
	if t.op == ONot && t.a[0].op == OOr {
		w.learn(t.a[0].a[0], false)
		w.learn(t.a[0].a[1], false)
	}
	if t.op == OEq && t.a[1].isConst() && t.a[0].sort.isBV() {
		w.setConc(t.a[0], t.a[1].c)
	}
	if t.v1 >= 0 && w.tc.vars[t.v1].sort == SBV8 {
		tt := w.tc.truth(t)
		d := *w.dom[t.v1]
		e := true
		for i := range d {
			d[i] &= tt[i]
			if d[i] != 0 {
				e = false
			}
		}
		if e {
			panic(pathEnd{"infeasible", ""})
		}
		nd := d
		w.dom[t.v1] = &nd
	}
}

// assume adds a condition to the path.
func (w *W) assume(t *Term, v bool) {
	if !v {
		t = w.tc.Not(t)
	}
	if t.op == OConst {
		if t.c == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	w.pc = append(w.pc, t)
	if !(t.v1 >= 0 && w.tc.vars[t.v1].sort == SBV8) {
		w.couple(t)
	}
	w.learn(t, true)
	if w.modelOK {
		if e, ok := w.tc.Eval(t); !ok || e == 0 {
			w.modelOK = false
			if t.v1 >= 0 && w.tc.vars[t.v1].sort == SBV8 && !w.coupled[t.v1] {
				w.tc.model[t.v1] = nicest(*w.dom[t.v1])
				w.tc.gen++
				w.modelOK = true
			}
		}
	}
}

// goLive is called when the replayed prefix is exhausted.
func (w *W) goLive() {
	if w.live {
		return
	}
	w.live = true
	copy(w.tc.model, w.hint)
	w.tc.gen++
	w.modelOK = true
	for _, p := range w.pc {
		if v, ok := w.tc.Eval(p); !ok || v == 0 {
			w.modelOK = false
			break
		}
	}
}

func (w *W) setModel(m []uint64) bool {
	copy(w.tc.model, m)
	w.tc.gen++
	for _, p := range w.pc {
		if v, ok := w.tc.Eval(p); !ok || v == 0 {
			w.eng.addCount("model_mismatch", 1)
			if debugFlag {
				fmt.Println("MODEL MISMATCH", w.tc.String(p, 6))
			}
			return false
		}
	}
	return true
}

// ensureModel makes the current model satisfy the path condition.
func (w *W) ensureModel() {
	w.goLive()
	if w.modelOK {
		return
	}
	r, m := w.solver.check(w.pc, nil, false)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case Unknown:
		panic(pathEnd{"unknown", "path feasibility undecided"})
	}
	if !w.setModel(m) {
		panic(pathEnd{"unknown", "solver model rejected by the evaluator"})
	}
	w.modelOK = true
}

// query decides pc ∧ t, returning a model.
func (w *W) query(t *Term, hard bool) (SatRes, []uint64) {
	if t.v1 >= 0 && w.tc.vars[t.v1].sort == SBV8 && !w.coupled[t.v1] {
		tt := w.tc.truth(t)
		d := *w.dom[t.v1]
		e := true
		for i := range d {
			d[i] &= tt[i]
			if d[i] != 0 {
				e = false
			}
		}
		atomic.AddInt64(&w.eng.stats.domain, 1)
		if e {
			w.note(t, false)
			return Unsat, nil
		}
		if w.modelOK {
			m := append([]uint64(nil), w.tc.model...)
			m[t.v1] = nicest(d)
			return Sat, m
		}
	}
	return w.solver.check(w.pc, t, hard)
}

func (w *W) fork(decs []Dec, model []uint64) {
	tr := make([]Dec, len(w.trace), len(w.trace)+len(decs))
	copy(tr, w.trace)
	tr = append(tr, decs...)
	w.eng.push(&Task{h: w.h, trace: tr, model: append([]uint64(nil), model...)})
}

func (w *W) replaying() bool { return w.pos < len(w.trace) }

func (w *W) nextDec(k byte) Dec {
	d := w.trace[w.pos]
	w.pos++
	if d.k != k {
		panic(pathEnd{"unsupported", fmt.Sprintf("replay divergence: decision %c, expected %c", k, d.k)})
	}
	return d
}

func (w *W) record(d Dec) {
	w.trace = append(w.trace, d)
	w.pos = len(w.trace)
	w.eng.countDec()
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (w *W) branch(t *Term) bool {
	if v, ok := w.cheap(t); ok {
		w.note(t, v)
		return v
	}
	if w.spec > 0 {
		panic(specFail{})
	}
	if w.replaying() {
		d := w.nextDec('b')
		v := d.v == 1
		if d.forced {
			w.learn(t, v)
		} else {
			w.assume(t, v)
		}
		return v
	}
	w.ensureModel()
	if w.g != nil && w.g.top != nil && w.g.top.in != nil && w.eng.prof != nil {
		w.eng.profile(w.where(w.g))
	}
	e, ok := w.tc.Eval(t)
	if !ok {
		r, m := w.query(t, false)
		if r == Unknown {
			panic(pathEnd{"unknown", "branch undecided"})
		}
		if r == Unsat {
			w.record(Dec{'b', true, 0})
			w.learn(t, false)
			return false
		}
		if !w.setModel(m) {
			panic(pathEnd{"unknown", "model rejected"})
		}
		e = 1
	}
	v := e != 0
	other := t
	if v {
		other = w.tc.Not(t)
	}
	r, m := w.query(other, false)
	switch r {
	case Sat:
		if w.overAtom(t) {
			w.unsupported("numeric text inspected byte by byte: " + w.tc.String(t, 4))
		}
		w.fork([]Dec{{'b', false, b2u(!v)}}, m)
		w.record(Dec{'b', false, b2u(v)})
		w.assume(t, v)
	case Unsat:
		w.record(Dec{'b', true, b2u(v)})
		w.learn(t, v)
	default:
		w.eng.incomplete(w.h, "branch side undecided by the solver")
		w.record(Dec{'b', false, b2u(v)})
		w.assume(t, v)
	}
	return v
}

// branchPanic is branch for a condition whose falsity panics.
func (w *W) branchPanic(t *Term) bool { return w.branch(t) }

// choose is a nondeterministic choice among n alternatives.
func (w *W) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	w.noSpec()
	if w.replaying() {
		return int(w.nextDec('c').v)
	}
	w.goLive()
	for i := n - 1; i > 0; i-- {
		w.fork([]Dec{{'c', false, uint64(i)}}, w.tc.model)
	}
	w.record(Dec{'c', false, 0})
	return 0
}

func (w *W) concretize(t *Term) uint64 {
	if c, ok := w.constOf(t); ok {
		return c
	}
	w.noSpec()
	for n := 0; ; n++ {
		if n > 300 {
			w.unsupported("too many values for a size or index")
		}
		var v uint64
		if w.replaying() {
			v = w.nextDec('p').v
		} else {
			w.ensureModel()
			e, ok := w.tc.Eval(t)
			if !ok {
				w.unsupported("cannot evaluate term")
			}
			v = e
			w.record(Dec{'p', false, v})
		}
		if w.branch(w.tc.Eq(t, w.tc.Const(t.sort, v))) {
			w.setConc(t, v)
			return v
		}
	}
}

// ---- assertions

func (w *W) assertTerm(t *Term, label string) {
	w.noSpec()
	w.eng.noteAssert(w.h, label)
	if v, ok := w.cheap(t); ok && v {
		w.note(t, v)
		w.eng.addCount("assert_trivial", 1)
		return
	} else if ok {
		w.violation("assert", label)
	}
	if w.replaying() {
		// decided by the path this one was forked from
		w.assume(t, true)
		return
	}
	w.ensureModel()
	var r SatRes
	var m []uint64
	if e, ok := w.tc.Eval(t); ok && e == 0 {
		r = Sat
		m = append(m, w.tc.model...)
	} else {
		r, m = w.query(w.tc.Not(t), true)
	}
	for i := 0; r == Sat; i++ {
		if !w.setModel(m) {
			w.eng.incomplete(w.h, "assertion model rejected: "+label)
			panic(pathEnd{"unknown", "model rejected"})
		}
		w.modelOK = true
		if !w.realLemmas() {
			w.chosen = true
			break
		}
		if i == 20 {
			w.realFloats(w.tc.Not(t))
			break
		}
		w.eng.addCount("printed_float_refined", 1)
		r, m = w.query(w.tc.Not(t), true)
	}
	switch r {
	case Unsat:
		w.eng.addCount("assert_unsat", 1)
		w.learn(t, true)
	case Sat:
		w.violation("assert", label)
	default:
		w.eng.incomplete(w.h, "assertion undecided by the solver: "+label)
		w.assume(t, true)
	}
}

// violation ends the path with a counterexample candidate under the current model.
func (w *W) violation(kind, label string) {
	w.noSpec()
	if w.replaying() {
		// the parent path ended here as well; nothing new to report
		panic(pathEnd{"done", ""})
	}
	w.ensureModel()
	if kind != "assert" || !w.chosen {
		w.realFloats(nil)
	}
	site := ""
	if w.g != nil {
		site = w.where(w.g)
	}
	w.eng.candidate(w, kind, label, site)
	panic(pathEnd{"violation", kind + ": " + label})
}

// realLemmas adds to the path condition what the current model gets wrong about
// floats that were printed and read back; it reports whether there was anything.
// It learns nothing: paths forked from this one start without these facts.
func (w *W) realLemmas() bool {
	if len(w.quant) == 0 {
		return false
	}
	tc := w.tc
	type kv struct {
		k quantKey
		q *Term
		v float32
		r float32
	}
	var all []kv
	for k, q := range w.quant {
		if k.t.sort != SF32 {
			continue
		}
		v, ok1 := tc.Eval(k.t)
		r, ok2 := tc.Eval(q)
		if ok1 && ok2 {
			all = append(all, kv{k, q, f32(v), f32(r)})
		}
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].k.t.id != all[j].k.t.id {
			return all[i].k.t.id < all[j].k.t.id
		}
		return all[i].k.prec < all[j].k.prec
	})
	var ls []*Term
	imp := func(a, b *Term) { ls = append(ls, tc.Or(tc.Not(a), b)) }
	fc := func(f float32) *Term { return tc.Const(SF32, uint64(math.Float32bits(f))) }
	for i, x := range all {
		if x.v != x.v || math.IsInf(float64(x.v), 0) {
			continue
		}
		if real := quant32(x.v, x.k.prec); real != x.r {
			lo, hi := sameQuant(x.v, real, x.k.prec)
			imp(tc.Bin(OFLe, x.k.t, fc(hi)), tc.Bin(OFLe, x.q, fc(real)))
			imp(tc.Bin(OFLe, fc(lo), x.k.t), tc.Bin(OFLe, fc(real), x.q))
		}
		for _, y := range all[:i] {
			if y.k.prec != x.k.prec {
				continue
			}
			if x.v <= y.v && x.r > y.r {
				imp(tc.Bin(OFLe, x.k.t, y.k.t), tc.Bin(OFLe, x.q, y.q))
			}
			if y.v <= x.v && y.r > x.r {
				imp(tc.Bin(OFLe, y.k.t, x.k.t), tc.Bin(OFLe, y.q, x.q))
			}
		}
	}
	for _, l := range ls {
		w.pc = append(w.pc, l)
		w.couple(l)
		w.modelOK = false
	}
	return len(ls) > 0
}

// sameQuant is the range of floats around f that come back as q.
func sameQuant(f, q float32, prec int) (lo, hi float32) {
	// floats in the order of their values
	key := func(f float32) int64 {
		b := int64(math.Float32bits(f))
		if b>>31 != 0 {
			return -(b & 0x7fffffff)
		}
		return b
	}
	val := func(k int64) float32 {
		if k < 0 {
			return -math.Float32frombits(uint32(-k))
		}
		return math.Float32frombits(uint32(k))
	}
	edge := func(far int64) float32 {
		near := key(f)
		for near-far > 1 || far-near > 1 {
			mid := (near + far) / 2
			if quant32(val(mid), prec) == q {
				near = mid
			} else {
				far = mid
			}
		}
		return val(near)
	}
	return edge(key(-math.MaxFloat32) - 1), edge(key(math.MaxFloat32) + 1)
}

// realFloats looks for a model in which floats that were printed and read back
// are as they would really come back, among a few values.
func (w *W) realFloats(extra *Term) {
	if len(w.quant) == 0 {
		return
	}
	tc := w.tc
	all := tc.Bool(true)
	keys := make([]quantKey, 0, len(w.quant))
	for k := range w.quant {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].t != keys[j].t {
			return keys[i].t.id < keys[j].t.id
		}
		return keys[i].prec < keys[j].prec
	})
	for _, k := range keys {
		if k.t.sort != SF32 {
			continue
		}
		any := tc.Bool(false)
		for _, f := range [...]float32{0.12345678, -7.6543217, 1, 2.5, 0, -1} {
			c := tc.Const(SF32, uint64(math.Float32bits(f)))
			q := tc.Const(SF32, uint64(math.Float32bits(quant32(f, k.prec))))
			any = tc.Or(any, tc.And(tc.Eq(k.t, c), tc.Eq(w.quant[k], q)))
		}
		all = tc.And(all, any)
	}
	if extra != nil {
		all = tc.And(all, extra)
	}
	w.chosen = true
	old := append([]uint64(nil), w.tc.model...)
	if r, m := w.query(all, true); r == Sat && !w.setModel(m) {
		w.setModel(old)
	}
}

func (w *W) modelInputs() []uint64 {
	r := make([]uint64, len(w.inputs))
	for i, in := range w.inputs {
		if in.t == nil {
			r[i] = in.v
			continue
		}
		v, ok := w.tc.Eval(in.t)
		if !ok {
			v = 0
		}
		if in.t.sort == SInt {
			// exact-integer float
			v = uint64(math.Float32bits(float32(int64(v))))
		}
		r[i] = v
	}
	return r
}

// ---- merging

type sideRes struct {
	ret    bool
	retVal Val
	phis   []Val
	live   []Val
	keys   []slotKey
	vals   map[slotKey]Val
}

type slotKey struct {
	o *Obj
	i int
}

func (w *W) trySpec(fr *Frame, in *Instr, t *Term) (int, bool, bool) {
	code := fr.code
	j := code.ipdom[in.n]
	if w.eng.noMerge || code.noSpec || j == noBlk || w.racing || w.h != nil && w.h.noMerge {
		return 0, false, false
	}
	if w.siteFail[in] >= 2 || len(w.specStack) >= 8 {
		return 0, false, false
	}
	if code.hasDefer && j == exitBlk {
		return 0, false, false
	}
	for _, s := range w.specStack {
		if s.fr == fr && s.in == in {
			return 0, false, false // loop: do not merge whole loops
		}
	}
	regs := append([]Val(nil), fr.r...)
	retSave := fr.ret
	w.specStack = append(w.specStack, specSite{fr, in})
	a, ok := w.specSide(fr, in, t, 0, j)
	copy(fr.r, regs)
	fr.ret = retSave
	var b sideRes
	if ok {
		b, ok = w.specSide(fr, in, w.tc.Not(t), 1, j)
		copy(fr.r, regs)
		fr.ret = retSave
	}
	w.specStack = w.specStack[:len(w.specStack)-1]
	fr.in = in
	if !ok {
		w.siteFail[in]++
		return 0, false, false
	}
	// merge
	var ret Val
	phis := make([]Val, len(a.phis))
	if a.ret {
		switch len(code.resTI.fields) {
		case 0:
		case 1:
			ret, ok = w.mergeVal(t, a.retVal, b.retVal, code.resTI.fields[0].ti)
		default:
			ret, ok = w.mergeVal(t, a.retVal, b.retVal, code.resTI)
		}
	} else {
		for i, ph := range code.blocks[j].phis {
			if phis[i], ok = w.mergeVal(t, a.phis[i], b.phis[i], ph.ti); !ok {
				break
			}
		}
	}
	live := a.live
	if ok {
		for i, l := range a.live {
			if a.live[i] != b.live[i] {
				if live[i], ok = w.mergeVal(t, a.live[i], b.live[i], l2ti(code, j, i)); !ok {
					break
				}
			}
			_ = l
		}
	}
	type upd struct {
		k slotKey
		v Val
	}
	var us []upd
	if ok {
		seen := map[slotKey]bool{}
		for _, k := range append(append([]slotKey(nil), a.keys...), b.keys...) {
			if seen[k] {
				continue
			}
			seen[k] = true
			va, ok1 := a.vals[k]
			if !ok1 {
				va = k.o.s[k.i]
			}
			vb, ok2 := b.vals[k]
			if !ok2 {
				vb = k.o.s[k.i]
			}
			m, o := w.mergeVal(t, va, vb, leafTI(k.o, k.i))
			if !o {
				ok = false
				break
			}
			us = append(us, upd{k, m})
		}
	}
	if !ok {
		w.siteFail[in]++
		return 0, false, false
	}
	for _, u := range us {
		w.set(u.k.o, u.k.i, u.v)
	}
	atomic.AddInt64(&w.eng.merged, 1)
	if a.ret {
		fr.ret = ret
		return 0, true, true
	}
	for i, ph := range code.blocks[j].phis {
		fr.r[ph.dst] = phis[i]
	}
	for i, l := range live {
		fr.r[code.live[j][i].r] = l
	}
	return j, false, true
}

func l2ti(code *Code, j, i int) *TI { return code.live[j][i].ti }

func (w *W) specSide(fr *Frame, in *Instr, cond *Term, si int, j int) (res sideRes, ok bool) {
	g := fr.g
	mark := len(w.journal)
	oldJ, oldLimit := w.jseq, w.stepLimit
	depth, ck, sp, top := g.depth, g.chunk, g.sp, g.top
	nst := len(w.specStack)
	nin := len(w.inputs)
	kmark, cmark := len(w.klog), len(w.clog)
	dom := append([]*[4]uint64(nil), w.dom...)
	w.jseq = w.seq + 1
	w.spec++
	w.stepLimit = min(oldLimit, w.steps+30000)
	undo := func() {
		for len(w.journal) > mark {
			e := w.journal[len(w.journal)-1]
			w.journal = w.journal[:len(w.journal)-1]
			if e.f != nil {
				e.f()
			} else {
				e.o.s[e.i] = e.old
			}
		}
		w.jseq, w.stepLimit = oldJ, oldLimit
		w.spec--
		g.depth, g.chunk, g.sp, g.top = depth, ck, sp, top
		w.specStack = w.specStack[:nst]
		for _, t := range w.klog[kmark:] {
			delete(w.known, t)
		}
		for _, t := range w.clog[cmark:] {
			delete(w.conc, t)
		}
		w.klog, w.clog = w.klog[:kmark], w.clog[:cmark]
		// variables created meanwhile keep their domains
		copy(w.dom, dom)
		w.inputs = w.inputs[:nin]
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case specFail:
			case pathEnd:
				if x.kind != "infeasible" {
					undo()
					panic(r)
				}
			default:
				panic(r)
			}
			undo()
			ok = false
		}
	}()
	// temporary assumption
	w.learn(cond, true)
	b := w.jump(fr, in.n, si)
	stop := j
	if j == exitBlk {
		stop = -9
	}
	res.ret = w.run(fr, b, stop)
	if res.ret != (j == exitBlk) {
		panic(specFail{})
	}
	if res.ret {
		res.retVal = fr.ret
	} else {
		for _, ph := range fr.code.blocks[j].phis {
			res.phis = append(res.phis, fr.r[ph.dst])
		}
		for _, l := range fr.code.liveAt(j) {
			res.live = append(res.live, fr.r[l.r])
		}
	}
	res.vals = map[slotKey]Val{}
	for _, e := range w.journal[mark:] {
		if e.f != nil {
			panic(specFail{})
		}
		k := slotKey{e.o, e.i}
		if _, dup := res.vals[k]; !dup {
			res.keys = append(res.keys, k)
			res.vals[k] = e.o.s[e.i]
		}
	}
	undo()
	return res, true
}

func leafTI(o *Obj, i int) *TI {
	t := o.ti
	if t == nil {
		return nil
	}
	if t.n > 0 {
		i %= t.n
	}
	for t != nil && t.agg {
		switch t.kind {
		case KArray:
			if t.elem.n == 0 {
				return nil
			}
			i %= t.elem.n
			t = t.elem
		default:
			var nt *TI
			for _, f := range t.fields {
				if i >= f.off && i < f.off+f.ti.n {
					nt, i = f.ti, i-f.off
					break
				}
			}
			t = nt
		}
	}
	return t
}

func (w *W) mergeVal(c *Term, a, b Val, ti *TI) (Val, bool) {
	if a.P == nil && b.P == nil && a.N == b.N {
		return a, true
	}
	if ti == nil {
		if ta, ok := a.P.(*Term); ok {
			if tb, ok := b.P.(*Term); ok && ta.sort == tb.sort {
				return w.fromTerm(w.tc.Ite(c, ta, tb)), true
			}
		}
		return Val{}, false
	}
	switch ti.kind {
	case KBool, KInt, KUint, KFloat:
		if _, ok := a.P.(*Obj); ok {
			return Val{}, false
		}
		if _, ok := b.P.(*Obj); ok {
			return Val{}, false
		}
		if ti.kind == KFloat && (isSInt(a) || isSInt(b)) {
			for _, v := range []Val{a, b} {
				if v.P == nil {
					f := float64(f32(v.N))
					if ti.sort == SF64 {
						f = f64(v.N)
					}
					if f != math.Trunc(f) || math.Abs(f) > 1<<24 {
						return Val{}, false
					}
				} else if !isSInt(v) {
					return Val{}, false
				}
			}
			return w.fromSInt(w.tc.Ite(c, w.sintOf(a, ti.sort), w.sintOf(b, ti.sort)), ti.sort), true
		}
		return w.fromTerm(w.tc.Ite(c, w.toTerm(a, ti.sort), w.toTerm(b, ti.sort))), true
	case KString:
		n := strLen(a)
		if n != strLen(b) {
			return Val{}, false
		}
		x, y := strBytes(a), strBytes(b)
		r := make([]Val, n)
		for i := range r {
			r[i] = w.fromTerm(w.tc.Ite(c, w.toTerm(x[i], 8), w.toTerm(y[i], 8)))
		}
		return mkSStr(r), true
	case KSlice:
		x, ok1 := a.P.(*Slice)
		y, ok2 := b.P.(*Slice)
		if ok1 && ok2 && *x == *y {
			return a, true
		}
		return Val{}, false
	case KIface:
		x, ok1 := a.P.(*Iface)
		y, ok2 := b.P.(*Iface)
		if !ok1 || !ok2 || x.t != y.t {
			return Val{}, false
		}
		if x == y {
			return a, true
		}
		v, ok := w.mergeVal(c, x.v, y.v, x.t)
		if !ok {
			return Val{}, false
		}
		return Val{P: &Iface{x.t, v}}, true
	case KStruct, KArray, KTuple:
		if a.P == nil {
			a = Val{P: &Agg{make([]Val, ti.n)}}
		}
		if b.P == nil {
			b = Val{P: &Agg{make([]Val, ti.n)}}
		}
		x, y := a.P.(*Agg), b.P.(*Agg)
		if x == y {
			return a, true
		}
		r := make([]Val, ti.n)
		put := func(off int, ft *TI) bool {
			v, ok := w.mergeVal(c, aggSub(a, off, ft), aggSub(b, off, ft), ft)
			if !ok {
				return false
			}
			if ft.agg {
				if v.P != nil {
					copy(r[off:], v.P.(*Agg).v)
				}
			} else {
				r[off] = v
			}
			return true
		}
		if ti.kind == KArray {
			for i := 0; i < ti.alen; i++ {
				if !put(i*ti.elem.n, ti.elem) {
					return Val{}, false
				}
			}
		} else {
			for _, f := range ti.fields {
				if f.ti.n > 0 && !put(f.off, f.ti) {
					return Val{}, false
				}
			}
		}
		_, _ = x, y
		return Val{P: &Agg{r}}, true
	case KFunc:
		x, ok1 := a.P.(*Closure)
		y, ok2 := b.P.(*Closure)
		if ok1 && ok2 && x == y {
			return a, true
		}
		return Val{}, false
	}
	if a.P == b.P && a.N == b.N {
		return a, true
	}
	return Val{}, false
}

func (w *W) fromSInt(t *Term, s Sort) Val {
	if t.op == OConst {
		f := float64(int64(t.c))
		if s == SF32 {
			return Val{N: uint64(math.Float32bits(float32(f)))}
		}
		return Val{N: math.Float64bits(f)}
	}
	return Val{P: t}
}
