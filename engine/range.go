package main

import (
	"math/bits"
	"sync/atomic"
)

// Interval reasoning over bit-vector terms whose leaves are byte variables:
// it decides comparisons such as "the mantissa built from these digits is not
// zero" for the current domains of the bytes, without a solver call.

type urange struct{ lo, hi uint64 }

// byRange decides a comparison by the unsigned ranges of its operands.
func (w *W) byRange(t *Term) (bool, bool) {
	switch t.op {
	case OEq, OULt, OULe, OSLt, OSLe:
	default:
		return false, false
	}
	s := t.a[0].sort
	if !s.isBV() || t.size > 400 {
		return false, false
	}
	n := 0
	memo := map[*Term]urange{}
	a := w.urange(t.a[0], memo, &n)
	b := w.urange(t.a[1], memo, &n)
	if n > 200 {
		return false, false
	}
	if t.op == OSLt || t.op == OSLe {
		if top := mask(s) >> 1; a.hi > top || b.hi > top {
			return false, false
		}
	}
	switch t.op {
	case OEq:
		if a.hi < b.lo || b.hi < a.lo {
			return false, true
		}
		if a.lo == a.hi && a == b {
			return true, true
		}
	case OULt, OSLt:
		if a.hi < b.lo {
			return true, true
		}
		if a.lo >= b.hi {
			return false, true
		}
	default:
		if a.hi <= b.lo {
			return true, true
		}
		if a.lo > b.hi {
			return false, true
		}
	}
	return false, false
}

func (w *W) urange(t *Term, memo map[*Term]urange, n *int) urange {
	if t.op == OConst {
		return urange{t.c, t.c}
	}
	if r, ok := memo[t]; ok {
		return r
	}
	top := mask(t.sort)
	r := urange{0, top}
	*n++
	if *n > 200 || !t.sort.isBV() {
		return r
	}
	sub := func(i int) urange { return w.urange(t.a[i], memo, n) }
	switch t.op {
	case OVar:
		if t.sort == SBV8 {
			d := w.domOf(int32(t.c))
			r = urange{firstOf(*d), lastOf(*d)}
		}
	case OZext:
		r = sub(0)
	case OTrunc:
		if a := sub(0); a.hi <= top {
			r = a
		}
	case OAdd:
		a, b := sub(0), sub(1)
		if h, c := bits.Add64(a.hi, b.hi, 0); c == 0 && h <= top {
			r = urange{a.lo + b.lo, h}
		} else if lo, c2 := bits.Add64(a.lo, b.lo, 0); c2 == 1 || lo > top {
			// both ends wrap once: adding a negative constant
			if t.sort == 64 {
				if c == 1 && c2 == 1 {
					r = urange{lo, h}
				}
			} else if h <= 2*top+1 {
				r = urange{lo & top, h & top}
			}
		}
	case OSub:
		if a, b := sub(0), sub(1); a.lo >= b.hi {
			r = urange{a.lo - b.hi, a.hi - b.lo}
		}
	case OMul:
		a, b := sub(0), sub(1)
		if h, l := bits.Mul64(a.hi, b.hi); h == 0 && l <= top {
			r = urange{a.lo * b.lo, l}
		}
	case OUDiv:
		if a, b := sub(0), sub(1); b.lo > 0 {
			r = urange{a.lo / b.hi, a.hi / b.lo}
		}
	case OURem:
		if a, b := sub(0), sub(1); b.lo > 0 {
			r = urange{0, min(a.hi, b.hi-1)}
			if a.hi < b.lo {
				r = a
			}
		}
	case OBAnd:
		a, b := sub(0), sub(1)
		r = urange{0, min(a.hi, b.hi)}
	case OShl:
		if a, b := sub(0), sub(1); b.lo == b.hi && b.hi < 64 && a.hi <= top>>b.hi {
			r = urange{a.lo << b.hi, a.hi << b.hi}
		}
	case OLShr:
		if a, b := sub(0), sub(1); b.lo == b.hi && b.hi < 64 {
			r = urange{a.lo >> b.hi, a.hi >> b.hi}
		}
	case OIte:
		a, b := sub(1), sub(2)
		r = urange{min(a.lo, b.lo), max(a.hi, b.hi)}
	}
	memo[t] = r
	return r
}

func lastOf(d [4]uint64) uint64 {
	for i := 3; i >= 0; i-- {
		if d[i] != 0 {
			return uint64(i*64 + 63 - bits.LeadingZeros64(d[i]))
		}
	}
	return 0
}

// note remembers a condition decided without the solver, on the paths sampled for cross-checking.
func (w *W) note(t *Term, v bool) {
	if !w.xcheck || t.op == OConst || w.spec > 0 || len(w.facts) >= 200 || t.size > 2000 {
		return
	}
	if !v {
		t = w.tc.Not(t)
	}
	w.facts = append(w.facts, t)
}

// crossCheck asks the solver to confirm what the path decided by byte domains and intervals.
func (w *W) crossCheck() {
	if len(w.facts) == 0 {
		return
	}
	all := w.tc.tru
	for _, f := range w.facts {
		all = w.tc.And(all, f)
	}
	if all.op == OConst {
		return
	}
	switch r, _ := w.solver.check(w.pc, w.tc.Not(all), false); r {
	case Unsat:
		atomic.AddInt64(&w.eng.stats.facts, int64(len(w.facts)))
	case Sat:
		w.eng.incomplete(w.h, "a decision made without the solver is refuted by it")
	}
}
