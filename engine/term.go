package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
)

// Sorts. BV sorts are encoded by their width.
type Sort uint8

const (
	SBool Sort = 1
	SBV8  Sort = 8
	SBV16 Sort = 16
	SBV32 Sort = 32
	SBV64 Sort = 64
	SF32  Sort = 132
	SF64  Sort = 164
	SInt  Sort = 200
)

func (s Sort) isBV() bool    { return s == 8 || s == 16 || s == 32 || s == 64 }
func (s Sort) isFloat() bool { return s == SF32 || s == SF64 }
func (s Sort) smt() string {
	switch s {
	case SBool:
		return "Bool"
	case SF32:
		return "(_ FloatingPoint 8 24)"
	case SF64:
		return "(_ FloatingPoint 11 53)"
	case SInt:
		return "Int"
	}
	return fmt.Sprintf("(_ BitVec %d)", s)
}

type Op uint8

const (
	OConst Op = iota
	OVar      // c = variable index
	ONot
	OAnd
	OOr
	OEq // any sort except float (bit equality / iff / int equality)
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OZext
	OSext
	OTrunc
	OFromBits // BV -> float (reinterpret)
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFConv  // float -> float
	OSToF   // signed BV -> float
	OUToF   // unsigned BV -> float
	OFToS   // float -> signed BV (in-range only; caller guards)
	OFToU   // float -> unsigned BV
	OFRound // c: 0 floor 1 ceil 2 trunc 3 nearest-even 4 nearest-away
	OIAdd
	OISub
	OIMul
	OINeg
	OILt
	OILe
)

var opSMT = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul",
	OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
	OIAdd: "+", OISub: "-", OIMul: "*", OINeg: "-", OILt: "<", OILe: "<="}

// Term is a hash-consed SMT term.
type Term struct {
	op   Op
	sort Sort
	c    uint64
	a    []*Term
	id   int
	v1   int32 // the only variable this term depends on; -1 none; -2 several
	size int32
	fm   float64 // floats: the value is a number whose magnitude is at most this; +Inf when unknown

	tt   *[4]uint64 // truth table over the single 8-bit variable (bool terms)
	neg  *Term
	eval uint64
	egen uint32
	eok  bool
}

type tkey struct {
	op      Op
	sort    Sort
	c       uint64
	a, b, d int
}

// VarInfo describes a solver variable.
type VarInfo struct {
	name string
	sort Sort
	term *Term
	dom  *[4]uint64 // for 8-bit variables: initial domain (nil = all)
	atom *Atom      // numeric text token
	tag  string
	lo   int64 // SInt range
	hi   int64
}

// Atom describes a numeric token rendered as one pseudo byte.
type Atom struct {
	kind string // "uint","int","float"
	val  *Term  // numeric value (BV64 for ints; float term)
	prec int
	fval Val // the float32/64 value (as parsed with bitSize)
	bits int
}

// TermCtx owns all terms of one path execution.
type TermCtx struct {
	tab   map[tkey]*Term
	vars  []*VarInfo
	nid   int
	tru   *Term
	fls   *Term
	gen   uint32
	model []uint64
	rng   map[*Term][2]int64
}

func newTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[tkey]*Term, 1024)}
	c.tru = c.mk(OConst, SBool, 1)
	c.fls = c.mk(OConst, SBool, 0)
	c.tru.neg, c.fls.neg = c.fls, c.tru
	return c
}

func (c *TermCtx) mk(op Op, s Sort, cv uint64, a ...*Term) *Term {
	k := tkey{op: op, sort: s, c: cv, a: -1, b: -1, d: -1}
	switch len(a) {
	case 3:
		k.d = a[2].id
		fallthrough
	case 2:
		k.b = a[1].id
		fallthrough
	case 1:
		k.a = a[0].id
	case 0:
	default:
		panic("mk arity")
	}
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.nid++
	t := &Term{op: op, sort: s, c: cv, a: a, id: c.nid, v1: -1, size: 1}
	if op == OVar {
		t.v1 = int32(cv)
	}
	for _, x := range a {
		if t.size < 1<<28 {
			t.size += x.size
		}
		switch {
		case x.v1 == -1 || x.v1 == t.v1:
		case t.v1 == -1:
			t.v1 = x.v1
		default:
			t.v1 = -2
		}
	}
	if s.isFloat() {
		t.fm = t.magnitude()
	}
	c.tab[k] = t
	return t
}

// magnitude bounds the absolute value of a float term that cannot be a NaN nor infinite.
func (t *Term) magnitude() float64 {
	m := math.Inf(1)
	switch t.op {
	case OConst:
		m = math.Abs(f64(t.c))
		if t.sort == SF32 {
			m = math.Abs(float64(f32(t.c)))
		}
		if math.IsNaN(m) {
			m = math.Inf(1)
		}
		return m
	case OUToF, OSToF:
		m = 1 << 64
	case OFNeg, OFAbs, OFConv:
		m = t.a[0].fm
	case OFRound:
		m = t.a[0].fm + 1
	case OFAdd, OFSub:
		m = t.a[0].fm + t.a[1].fm
	case OFMul:
		m = t.a[0].fm * t.a[1].fm
	case OFDiv:
		if t.a[1].isConst() && t.a[1].fm > 0 && !math.IsInf(t.a[1].fm, 0) {
			m = t.a[0].fm / t.a[1].fm
		}
	case OIte:
		m = max(t.a[1].fm, t.a[2].fm)
	}
	m *= 1.001 // roundings
	if math.IsNaN(m) || t.sort == SF32 && m > 3e38 || m > 1e300 {
		m = math.Inf(1)
	}
	return m
}

// finite reports whether the term is known to be neither a NaN nor infinite.
func (t *Term) finite() bool { return !math.IsInf(t.fm, 0) }

func (t *Term) isConst() bool { return t.op == OConst }

func mask(s Sort) uint64 {
	switch s {
	case SBool:
		return 1
	case 8:
		return 0xff
	case 16:
		return 0xffff
	case 32, SF32:
		return 0xffffffff
	}
	return ^uint64(0)
}

func sx(v uint64, s Sort) int64 {
	switch s {
	case 8:
		return int64(int8(v))
	case 16:
		return int64(int16(v))
	case 32:
		return int64(int32(v))
	}
	return int64(v)
}

func (c *TermCtx) Const(s Sort, v uint64) *Term { return c.mk(OConst, s, v&mask(s)) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *TermCtx) NewVar(s Sort, name string) *VarInfo {
	vi := &VarInfo{sort: s}
	idx := len(c.vars)
	vi.name = fmt.Sprintf("v%d", idx)
	vi.tag = name
	c.vars = append(c.vars, vi)
	vi.term = c.mk(OVar, s, uint64(idx))
	return vi
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.neg != nil {
		return a.neg
	}
	if a.op == ONot {
		return a.a[0]
	}
	t := c.mk(ONot, SBool, 0, a)
	a.neg, t.neg = t, a
	return t
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.fls || b == c.fls || a.neg == b && a.neg != nil {
		return c.fls
	}
	if a == c.tru || a == b {
		return b
	}
	if b == c.tru {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, SBool, 0, a, b)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.tru || b == c.tru || a.neg == b && a.neg != nil {
		return c.tru
	}
	if a == c.fls || a == b {
		return b
	}
	if b == c.fls {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, SBool, 0, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.c == b.c)
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.sort == SBool {
		if b == c.tru {
			return a
		}
		if b == c.fls {
			return c.Not(a)
		}
	}
	if b.isConst() && a.sort.isBV() {
		switch a.op {
		case OZext:
			if b.c > mask(a.a[0].sort) {
				return c.fls
			}
			return c.Eq(a.a[0], c.Const(a.a[0].sort, b.c))
		case OSext:
			t := b.c & mask(a.a[0].sort)
			if uint64(sx(t, a.a[0].sort))&mask(a.sort) != b.c {
				return c.fls
			}
			return c.Eq(a.a[0], c.Const(a.a[0].sort, t))
		case OIte:
			if a.a[1].isConst() && a.a[2].isConst() {
				e1, e2 := a.a[1].c == b.c, a.a[2].c == b.c
				switch {
				case e1 && e2:
					return c.tru
				case !e1 && !e2:
					return c.fls
				case e1:
					return a.a[0]
				default:
					return c.Not(a.a[0])
				}
			}
			if a.a[1].isConst() {
				if a.a[1].c == b.c {
					return c.Or(a.a[0], c.Eq(a.a[2], b))
				}
				return c.And(c.Not(a.a[0]), c.Eq(a.a[2], b))
			}
			if a.a[2].isConst() {
				if a.a[2].c == b.c {
					return c.Or(c.Not(a.a[0]), c.Eq(a.a[1], b))
				}
				return c.And(a.a[0], c.Eq(a.a[1], b))
			}
		case OAdd:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(a.sort, b.c-a.a[1].c))
			}
		case OBXor:
			if a.a[1].isConst() {
				return c.Eq(a.a[0], c.Const(a.sort, b.c^a.a[1].c))
			}
		}
	}
	if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
		return c.Eq(a.a[0], b.a[0])
	}
	if !b.isConst() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OEq, SBool, 0, a, b)
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g == c.tru || a == b {
		return a
	}
	if g == c.fls {
		return b
	}
	if g.op == ONot {
		return c.Ite(g.a[0], b, a)
	}
	if a.sort == SBool {
		switch {
		case a == c.tru && b == c.fls:
			return g
		case a == c.fls && b == c.tru:
			return c.Not(g)
		case a == c.tru:
			return c.Or(g, b)
		case a == c.fls:
			return c.And(c.Not(g), b)
		case b == c.tru:
			return c.Or(c.Not(g), a)
		case b == c.fls:
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a[0] == g {
		a = a.a[1]
	}
	if b.op == OIte && b.a[0] == g {
		b = b.a[2]
	}
	if a == b {
		return a
	}
	// ite(g, x, ite(h, x, y)) = ite(g|h, x, y)
	if b.op == OIte && b.a[1] == a {
		return c.Ite(c.Or(g, b.a[0]), a, b.a[2])
	}
	return c.mk(OIte, a.sort, 0, g, a, b)
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	s := a.sort
	rs := s
	switch op {
	case OULt, OULe, OSLt, OSLe, OFLt, OFLe, OFEq, OILt, OILe:
		rs = SBool
	}
	if a.isConst() && b.isConst() {
		if v, ok := evalBin(op, s, a.c, b.c); ok {
			return c.Const(rs, v)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Bin %v sort mismatch %d %d", opSMT[op], a.sort, b.sort))
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return c.Bin(OAdd, a.a[0], c.Const(s, a.a[1].c+b.c))
			}
		}
	case OSub:
		if a == b {
			return c.Const(s, 0)
		}
		if b.isConst() {
			return c.Bin(OAdd, a, c.Const(s, -b.c))
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == 1 {
				return a
			}
		}
	case OBAnd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.c == 0 {
				return b
			}
			if b.c == mask(s) {
				return a
			}
			if a.op == OZext && b.c&mask(a.a[0].sort) == mask(a.a[0].sort) {
				return a
			}
		}
		if a == b {
			return a
		}
	case OBOr:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OBXor:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return a
		}
		if a == b {
			return c.Const(s, 0)
		}
	case OShl, OLShr, OAShr:
		if b.isConst() && b.c == 0 {
			return a
		}
		if b.isConst() && b.c >= uint64(s) && op != OAShr {
			return c.Const(s, 0)
		}
		if a.isConst() && a.c == 0 {
			return a
		}
	case OULt:
		if a == b {
			return c.fls
		}
		if b.isConst() && b.c == 0 {
			return c.fls
		}
		if b.isConst() && b.c == 1 {
			return c.Eq(a, c.Const(s, 0))
		}
		if a.op == OZext && b.isConst() {
			if b.c > mask(a.a[0].sort) {
				return c.tru
			}
			return c.Bin(OULt, a.a[0], c.Const(a.a[0].sort, b.c))
		}
		if b.op == OZext && a.isConst() {
			if a.c >= mask(b.a[0].sort) {
				return c.fls
			}
			return c.Bin(OULt, c.Const(b.a[0].sort, a.c), b.a[0])
		}
		if a.op == OZext && b.op == OZext && a.a[0].sort == b.a[0].sort {
			return c.Bin(OULt, a.a[0], b.a[0])
		}
	case OULe:
		return c.Not(c.Bin(OULt, b, a))
	case OSLt:
		if a == b {
			return c.fls
		}
		if a.op == OZext && b.isConst() {
			if sx(b.c, s) <= 0 {
				return c.fls
			}
			return c.Bin(OULt, a, b)
		}
		if b.op == OZext && a.isConst() {
			if sx(a.c, s) < 0 {
				return c.tru
			}
			return c.Bin(OULt, a, b)
		}
		if a.op == OZext && b.op == OZext {
			return c.Bin(OULt, a, b)
		}
	case OSLe:
		return c.Not(c.Bin(OSLt, b, a))
	case OILt:
		if a == b {
			return c.fls
		}
	case OILe:
		if a == b {
			return c.tru
		}
	case OFEq:
		if a == b && a.finite() {
			return c.tru
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OFAdd, OFMul:
		if a.id > b.id { // commutative (NaN payloads are not observable)
			a, b = b, a
		}
	case OIAdd:
		if a.isConst() && a.c == 0 {
			return b
		}
		if b.isConst() && b.c == 0 {
			return a
		}
	case OIMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.c == 0 {
			return b
		}
		if b.isConst() && b.c == 1 {
			return a
		}
	}
	return c.mk(op, rs, 0, a, b)
}

func f32(v uint64) float32 { return math.Float32frombits(uint32(v)) }
func f64(v uint64) float64 { return math.Float64frombits(v) }

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalBin(op Op, s Sort, a, b uint64) (uint64, bool) {
	m := mask(s)
	switch op {
	case OAdd:
		return (a + b) & m, true
	case OSub:
		return (a - b) & m, true
	case OMul:
		return (a * b) & m, true
	case OUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OSDiv:
		x, y := sx(a, s), sx(b, s)
		if y == 0 {
			if x >= 0 {
				return m, true
			}
			return 1, true
		}
		if y == -1 {
			return uint64(-x) & m, true
		}
		return uint64(x/y) & m, true
	case OSRem:
		x, y := sx(a, s), sx(b, s)
		if y == 0 {
			return a, true
		}
		if y == -1 {
			return 0, true
		}
		return uint64(x%y) & m, true
	case OBAnd:
		return a & b, true
	case OBOr:
		return a | b, true
	case OBXor:
		return a ^ b, true
	case OShl:
		if b >= uint64(s) {
			return 0, true
		}
		return (a << b) & m, true
	case OLShr:
		if b >= uint64(s) {
			return 0, true
		}
		return a >> b, true
	case OAShr:
		x := sx(a, s)
		if b >= uint64(s) {
			b = 63
		}
		return uint64(x>>b) & m, true
	case OULt:
		return b2u(a < b), true
	case OULe:
		return b2u(a <= b), true
	case OSLt:
		return b2u(sx(a, s) < sx(b, s)), true
	case OSLe:
		return b2u(sx(a, s) <= sx(b, s)), true
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		if s == SF32 {
			x, y := f32(a), f32(b)
			switch op {
			case OFAdd:
				return uint64(math.Float32bits(x + y)), true
			case OFSub:
				return uint64(math.Float32bits(x - y)), true
			case OFMul:
				return uint64(math.Float32bits(x * y)), true
			case OFDiv:
				return uint64(math.Float32bits(x / y)), true
			case OFLt:
				return b2u(x < y), true
			case OFLe:
				return b2u(x <= y), true
			case OFEq:
				return b2u(x == y), true
			}
		}
		x, y := f64(a), f64(b)
		switch op {
		case OFAdd:
			return math.Float64bits(x + y), true
		case OFSub:
			return math.Float64bits(x - y), true
		case OFMul:
			return math.Float64bits(x * y), true
		case OFDiv:
			return math.Float64bits(x / y), true
		case OFLt:
			return b2u(x < y), true
		case OFLe:
			return b2u(x <= y), true
		case OFEq:
			return b2u(x == y), true
		}
	case OIAdd:
		r := int64(a) + int64(b)
		if (r > int64(a)) != (int64(b) > 0) && b != 0 {
			return 0, false
		}
		return uint64(r), true
	case OISub:
		r := int64(a) - int64(b)
		if (r < int64(a)) != (int64(b) > 0) && b != 0 {
			return 0, false
		}
		return uint64(r), true
	case OIMul:
		x, y := int64(a), int64(b)
		hi, _ := bits.Mul64(uint64(abs64(x)), uint64(abs64(y)))
		r := x * y
		if hi != 0 || (r < 0) != ((x < 0) != (y < 0)) && r != 0 {
			return 0, false
		}
		return uint64(r), true
	case OILt:
		return b2u(int64(a) < int64(b)), true
	case OILe:
		return b2u(int64(a) <= int64(b)), true
	}
	return 0, false
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func roundF(m uint64, x float64) float64 {
	switch m {
	case 0:
		return math.Floor(x)
	case 1:
		return math.Ceil(x)
	case 2:
		return math.Trunc(x)
	case 3:
		return math.RoundToEven(x)
	}
	return math.Round(x)
}

func evalUn(op Op, rs, s Sort, c uint64, a uint64) (uint64, bool) {
	switch op {
	case ONot:
		return a ^ 1, true
	case OBNot:
		return ^a & mask(s), true
	case ONeg:
		return -a & mask(s), true
	case OZext, OTrunc:
		return a & mask(rs), true
	case OSext:
		return uint64(sx(a, s)) & mask(rs), true
	case OFromBits:
		return a, true
	case OINeg:
		return uint64(-int64(a)), true
	case OFNeg:
		if s == SF32 {
			return a ^ 1<<31, true
		}
		return a ^ 1<<63, true
	case OFAbs:
		if s == SF32 {
			return a &^ (1 << 31), true
		}
		return a &^ (1 << 63), true
	case OSToF:
		x := sx(a, s)
		if rs == SF32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return math.Float64bits(float64(x)), true
	case OUToF:
		if rs == SF32 {
			return uint64(math.Float32bits(float32(a))), true
		}
		return math.Float64bits(float64(a)), true
	}
	var x float64
	if s == SF32 {
		x = float64(f32(a))
	} else if s == SF64 {
		x = f64(a)
	} else {
		return 0, false
	}
	switch op {
	case OFIsNaN:
		return b2u(math.IsNaN(x)), true
	case OFIsInf:
		return b2u(math.IsInf(x, 0)), true
	case OFSqrt:
		if s == SF32 {
			return uint64(math.Float32bits(float32(math.Sqrt(x)))), true
		}
		return math.Float64bits(math.Sqrt(x)), true
	case OFConv:
		if rs == SF32 {
			return uint64(math.Float32bits(float32(x))), true
		}
		return math.Float64bits(x), true
	case OFRound:
		r := roundF(c, x)
		if s == SF32 {
			return uint64(math.Float32bits(float32(r))), true
		}
		return math.Float64bits(r), true
	case OFToS:
		if math.IsNaN(x) || x >= 9.3e18 || x <= -9.3e18 {
			return 0, true
		}
		return uint64(int64(x)) & mask(rs), true
	case OFToU:
		if math.IsNaN(x) || x >= 1.8446744073709552e19 || x <= -1 {
			return 0, true
		}
		return uint64(x) & mask(rs), true
	}
	return 0, false
}

func (c *TermCtx) Un(op Op, rs Sort, a *Term, cv ...uint64) *Term {
	var k uint64
	if len(cv) > 0 {
		k = cv[0]
	}
	if a.isConst() {
		if v, ok := evalUn(op, rs, a.sort, k, a.c); ok {
			return c.Const(rs, v)
		}
	}
	switch op {
	case OZext:
		if a.sort == rs {
			return a
		}
		if a.op == OZext {
			return c.Un(OZext, rs, a.a[0])
		}
		if a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return c.Ite(a.a[0], c.Const(rs, a.a[1].c), c.Const(rs, a.a[2].c))
		}
	case OSext:
		if a.sort == rs {
			return a
		}
		if a.op == OZext {
			return c.Un(OZext, rs, a.a[0])
		}
	case OTrunc:
		if a.sort == rs {
			return a
		}
		if a.op == OZext || a.op == OSext {
			in := a.a[0]
			if in.sort == rs {
				return in
			}
			if in.sort > rs {
				return c.Un(OTrunc, rs, in)
			}
			return c.Un(a.op, rs, in)
		}
		if a.op == OTrunc {
			return c.Un(OTrunc, rs, a.a[0])
		}
		if a.op == OIte {
			return c.Ite(a.a[0], c.Un(OTrunc, rs, a.a[1]), c.Un(OTrunc, rs, a.a[2]))
		}
		if a.op == OAdd || a.op == OBAnd || a.op == OBOr || a.op == OSub || a.op == OBXor {
			return c.Bin(a.op, c.Un(OTrunc, rs, a.a[0]), c.Un(OTrunc, rs, a.a[1]))
		}
	case OFConv:
		if a.sort == rs {
			return a
		}
		if a.op == OFConv && rs == SF32 && a.a[0].sort == SF32 { // widen then narrow
			return a.a[0]
		}
	case OFNeg:
		if a.op == OFNeg {
			return a.a[0]
		}
	case OFIsNaN, OFIsInf:
		if a.finite() {
			return c.fls
		}
	}
	return c.mk(op, rs, k, a)
}

// ---- evaluation under the current model

func (c *TermCtx) bumpModel() { c.gen++ }

func (c *TermCtx) Eval(t *Term) (uint64, bool) {
	if t.op == OConst {
		return t.c, true
	}
	if t.egen == c.gen {
		return t.eval, t.eok
	}
	var v uint64
	ok := true
	switch t.op {
	case OVar:
		if int(t.c) < len(c.model) {
			v = c.model[t.c]
		} else {
			ok = false
		}
	case OIte:
		var g uint64
		if g, ok = c.Eval(t.a[0]); ok {
			if g != 0 {
				v, ok = c.Eval(t.a[1])
			} else {
				v, ok = c.Eval(t.a[2])
			}
		}
	case OAnd:
		x, ok1 := c.Eval(t.a[0])
		if ok1 && x == 0 {
			break
		}
		y, ok2 := c.Eval(t.a[1])
		if ok2 && y == 0 {
			break
		}
		v, ok = 1, ok1 && ok2
	case OOr:
		x, ok1 := c.Eval(t.a[0])
		if ok1 && x != 0 {
			v = 1
			break
		}
		y, ok2 := c.Eval(t.a[1])
		if ok2 && y != 0 {
			v = 1
			break
		}
		ok = ok1 && ok2
	case OEq:
		x, ok1 := c.Eval(t.a[0])
		y, ok2 := c.Eval(t.a[1])
		v, ok = b2u(x == y), ok1 && ok2
	default:
		x, ok1 := c.Eval(t.a[0])
		if !ok1 {
			ok = false
			break
		}
		if len(t.a) == 1 {
			v, ok = evalUn(t.op, t.sort, t.a[0].sort, t.c, x)
		} else {
			y, ok2 := c.Eval(t.a[1])
			if !ok2 {
				ok = false
				break
			}
			v, ok = evalBin(t.op, t.a[0].sort, x, y)
		}
	}
	t.egen, t.eval, t.eok = c.gen, v, ok
	return v, ok
}

// truth computes, for a bool term over one 8-bit variable, the set of values making it true.
func (c *TermCtx) truth(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	var r [4]uint64
	if t.op == ONot {
		in := c.truth(t.a[0])
		for i := range r {
			r[i] = ^in[i]
		}
	} else if (t.op == OAnd || t.op == OOr) && t.a[0].v1 == t.v1 && t.a[1].v1 == t.v1 {
		x, y := c.truth(t.a[0]), c.truth(t.a[1])
		for i := range r {
			if t.op == OAnd {
				r[i] = x[i] & y[i]
			} else {
				r[i] = x[i] | y[i]
			}
		}
	} else if t.op == OEq && t.a[0].op == OVar && t.a[1].isConst() {
		v := t.a[1].c
		r[v>>6] |= 1 << (v & 63)
	} else {
		v := int(t.v1)
		for len(c.model) <= v {
			c.model = append(c.model, 0)
		}
		save := c.model[v]
		for i := 0; i < 256; i++ {
			c.model[v] = uint64(i)
			c.gen++
			x, ok := c.Eval(t)
			if !ok {
				panic("truth: eval failed")
			}
			if x != 0 {
				r[i>>6] |= 1 << (i & 63)
			}
		}
		c.model[v] = save
		c.gen++
	}
	t.tt = &r
	return t.tt
}

// tabulate writes a term over one 8-bit variable as ranges of that variable, if that is short.
func (c *TermCtx) tabulate(t *Term) string {
	v := int(t.v1)
	vi := c.vars[v]
	if vi.sort != SBV8 {
		return ""
	}
	name := vi.name
	if t.sort == SBool {
		tt := c.truth(t)
		at := func(i int) bool { return tt[i>>6]>>(i&63)&1 == 1 }
		var parts []string
		for i := 0; i < 256; {
			if !at(i) {
				i++
				continue
			}
			j := i
			for j < 255 && at(j+1) {
				j++
			}
			switch {
			case i == 0 && j == 255:
				return "true"
			case i == j:
				parts = append(parts, "(= "+name+" "+bvConst(8, uint64(i))+")")
			case i == 0:
				parts = append(parts, "(bvule "+name+" "+bvConst(8, uint64(j))+")")
			case j == 255:
				parts = append(parts, "(bvule "+bvConst(8, uint64(i))+" "+name+")")
			default:
				parts = append(parts, "(and (bvule "+bvConst(8, uint64(i))+" "+name+") (bvule "+name+" "+bvConst(8, uint64(j))+"))")
			}
			i = j + 1
		}
		switch len(parts) {
		case 0:
			return "false"
		case 1:
			return parts[0]
		}
		return "(or " + strings.Join(parts, " ") + ")"
	}
	if !t.sort.isBV() {
		return ""
	}
	var val [256]uint64
	for len(c.model) <= v {
		c.model = append(c.model, 0)
	}
	save := c.model[v]
	good := true
	for i := 0; i < 256 && good; i++ {
		c.model[v] = uint64(i)
		c.gen++
		val[i], good = c.Eval(t)
	}
	c.model[v] = save
	c.gen++
	if !good {
		return ""
	}
	m := mask(t.sort)
	wide := name
	if t.sort != SBV8 {
		wide = fmt.Sprintf("((_ zero_extend %d) %s)", t.sort-8, name)
	}
	type run struct {
		hi  int
		val string
	}
	var runs []run
	for i := 0; i < 256; {
		j, k := i, i
		for j < 255 && val[j+1] == val[i] {
			j++
		}
		for k < 255 && val[k+1] == (val[k]+1)&m {
			k++
		}
		if k > j {
			d := (val[i] - uint64(i)) & m
			s := wide
			if d != 0 {
				s = "(bvadd " + wide + " " + bvConst(t.sort, d) + ")"
			}
			runs = append(runs, run{k, s})
			i = k + 1
		} else {
			runs = append(runs, run{j, bvConst(t.sort, val[i])})
			i = j + 1
		}
	}
	if len(runs) > 40 || len(runs) > int(t.size) {
		return ""
	}
	var sb strings.Builder
	for i, r := range runs {
		if i == len(runs)-1 {
			sb.WriteString(r.val)
			break
		}
		sb.WriteString("(ite (bvule " + name + " " + bvConst(8, uint64(r.hi)) + ") " + r.val + " ")
	}
	sb.WriteString(strings.Repeat(")", len(runs)-1))
	return sb.String()
}

// ---- SMT-LIB printing

func (t *Term) ref() string { return "t" + strconv.Itoa(t.id) }

func bvConst(s Sort, v uint64) string {
	switch s {
	case 8:
		return fmt.Sprintf("#x%02x", v)
	case 16:
		return fmt.Sprintf("#x%04x", v)
	case 32:
		return fmt.Sprintf("#x%08x", v)
	}
	return fmt.Sprintf("#x%016x", v)
}

func (c *TermCtx) leaf(t *Term) (string, bool) {
	switch t.op {
	case OConst:
		switch {
		case t.sort == SBool:
			if t.c != 0 {
				return "true", true
			}
			return "false", true
		case t.sort == SF32:
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.c), true
		case t.sort == SF64:
			return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.c), true
		case t.sort == SInt:
			if int64(t.c) < 0 {
				return fmt.Sprintf("(- %d)", -int64(t.c)), true
			}
			return strconv.FormatInt(int64(t.c), 10), true
		}
		return bvConst(t.sort, t.c), true
	case OVar:
		return c.vars[t.c].name, true
	}
	return "", false
}

func (c *TermCtx) head(t *Term) string {
	switch t.op {
	case OZext:
		return fmt.Sprintf("(_ zero_extend %d)", t.sort-t.a[0].sort)
	case OSext:
		return fmt.Sprintf("(_ sign_extend %d)", t.sort-t.a[0].sort)
	case OTrunc:
		return fmt.Sprintf("(_ extract %d 0)", t.sort-1)
	case OFromBits:
		if t.sort == SF32 {
			return "(_ to_fp 8 24)"
		}
		return "(_ to_fp 11 53)"
	case OFConv, OSToF:
		if t.sort == SF32 {
			return "(_ to_fp 8 24) RNE"
		}
		return "(_ to_fp 11 53) RNE"
	case OUToF:
		if t.sort == SF32 {
			return "(_ to_fp_unsigned 8 24) RNE"
		}
		return "(_ to_fp_unsigned 11 53) RNE"
	case OFToS:
		return fmt.Sprintf("(_ fp.to_sbv %d) RTZ", t.sort)
	case OFToU:
		return fmt.Sprintf("(_ fp.to_ubv %d) RTZ", t.sort)
	case OFRound:
		return "fp.roundToIntegral " + [...]string{"RTN", "RTP", "RTZ", "RNE", "RNA"}[t.c]
	}
	return opSMT[t.op]
}

// emit writes definitions for all not-yet-defined subterms of t and returns its name.
func (c *TermCtx) emit(sb *strings.Builder, t *Term, done map[int]bool, declared *int) string {
	if s, ok := c.leaf(t); ok {
		return s
	}
	if done[t.id] {
		return t.ref()
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i == 0 && f.t.size > 6 && f.t.v1 >= 0 {
			if d := c.tabulate(f.t); d != "" {
				done[f.t.id] = true
				sb.WriteString("(define-fun " + f.t.ref() + " () " + f.t.sort.smt() + " " + d + ")\n")
				st = st[:len(st)-1]
				continue
			}
		}
		if f.i < len(f.t.a) {
			ch := f.t.a[f.i]
			f.i++
			if ch.op != OConst && ch.op != OVar && !done[ch.id] {
				st = append(st, fr{ch, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if done[x.id] {
			continue
		}
		done[x.id] = true
		sb.WriteString("(define-fun ")
		sb.WriteString(x.ref())
		sb.WriteString(" () ")
		sb.WriteString(x.sort.smt())
		sb.WriteString(" (")
		sb.WriteString(c.head(x))
		for _, a := range x.a {
			sb.WriteByte(' ')
			if s, ok := c.leaf(a); ok {
				sb.WriteString(s)
			} else {
				sb.WriteString(a.ref())
			}
		}
		sb.WriteString("))\n")
	}
	return t.ref()
}

func (c *TermCtx) declare(sb *strings.Builder, from int) int {
	for i := from; i < len(c.vars); i++ {
		v := c.vars[i]
		fmt.Fprintf(sb, "(declare-const %s %s)\n", v.name, v.sort.smt())
		if v.dom != nil {
			sb.WriteString("(assert (or")
			for lo := 0; lo < 256; {
				if v.dom[lo>>6]>>(lo&63)&1 == 0 {
					lo++
					continue
				}
				hi := lo
				for hi < 255 && v.dom[(hi+1)>>6]>>((hi+1)&63)&1 == 1 {
					hi++
				}
				fmt.Fprintf(sb, " (and (bvule #x%02x %s) (bvule %s #x%02x))", lo, v.name, v.name, hi)
				lo = hi + 1
			}
			sb.WriteString(" false))\n")
		}
		if v.sort == SInt {
			fmt.Fprintf(sb, "(assert (and (<= %s %s) (<= %s %s)))\n", smtInt(v.lo), v.name, v.name, smtInt(v.hi))
		}
	}
	return len(c.vars)
}

// pretty prints a term for reports (bounded).
func (c *TermCtx) String(t *Term, depth int) string {
	if s, ok := c.leaf(t); ok {
		if t.op == OVar && c.vars[t.c].tag != "" {
			return c.vars[t.c].tag + "." + s
		}
		return s
	}
	if depth <= 0 {
		return "…"
	}
	p := make([]string, len(t.a))
	for i, a := range t.a {
		p[i] = c.String(a, depth-1)
	}
	return "(" + c.head(t) + " " + strings.Join(p, " ") + ")"
}

// irange returns a conservative interval of an integer term.
func (c *TermCtx) irange(t *Term) (int64, int64) {
	if t.op == OConst {
		return int64(t.c), int64(t.c)
	}
	if r, ok := c.rng[t]; ok {
		return r[0], r[1]
	}
	const big = int64(1) << 50
	clip := func(v int64) int64 { return max(-big, min(big, v)) }
	mul := func(a, b int64) int64 {
		hi, _ := bits.Mul64(uint64(abs64(a)), uint64(abs64(b)))
		if hi != 0 || abs64(a)*abs64(b) < 0 {
			if (a < 0) != (b < 0) {
				return -big
			}
			return big
		}
		return clip(a * b)
	}
	lo, hi := -big, big
	switch t.op {
	case OVar:
		lo, hi = c.vars[t.c].lo, c.vars[t.c].hi
	case OIAdd, OISub, OIMul:
		a, b := c.irange(t.a[0])
		x, y := c.irange(t.a[1])
		switch t.op {
		case OIAdd:
			lo, hi = clip(a+x), clip(b+y)
		case OISub:
			lo, hi = clip(a-y), clip(b-x)
		default:
			p := []int64{mul(a, x), mul(a, y), mul(b, x), mul(b, y)}
			lo, hi = p[0], p[0]
			for _, v := range p {
				lo, hi = min(lo, v), max(hi, v)
			}
		}
	case OINeg:
		a, b := c.irange(t.a[0])
		lo, hi = -b, -a
	case OIte:
		a, b := c.irange(t.a[1])
		x, y := c.irange(t.a[2])
		lo, hi = min(a, x), max(b, y)
	}
	if c.rng == nil {
		c.rng = map[*Term][2]int64{}
	}
	c.rng[t] = [2]int64{lo, hi}
	return lo, hi
}

func smtInt(v int64) string {
	if v < 0 {
		return fmt.Sprintf("(- %d)", -v)
	}
	return strconv.FormatInt(v, 10)
}
