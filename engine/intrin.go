package main

import (
	"fmt"
	"go/types"
	"math"
	"strconv"
	"strings"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

var gcSizes = types.SizesFor("gc", "amd64")

func growCap(oldCap, need int, elem *TI) int {
	nc := oldCap
	dbl := nc * 2
	if need > dbl {
		nc = need
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := 1
	if elem != nil && elem.t != nil {
		es = int(gcSizes.Sizeof(elem.t))
	}
	if es == 0 {
		return need
	}
	b := nc * es
	if b <= 32768 {
		for _, c := range sizeClasses {
			if c >= b {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	if c := b / es; c > nc {
		nc = c
	}
	return nc
}

func (w *W) sliceVals(v Val) []Val {
	switch s := v.P.(type) {
	case nil:
		return nil
	case *Slice:
		if w.racing {
			w.raceRead(s.o, s.off, s.len*s.esz)
		}
		return s.o.s[s.off : s.off+s.len*s.esz]
	case string, *SStr:
		return strBytes(v)
	}
	w.unsupported(fmt.Sprintf("slice contents of %T", v.P))
	return nil
}

func sliceLen(v Val) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case *Slice:
		return s.len
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	return 0
}

func (w *W) mkSlice(vals []Val, elem *TI) Val {
	o := w.newObj(len(vals), elem)
	copy(o.s, vals)
	esz := elem.n
	n := len(vals)
	if esz > 0 {
		n /= esz
	}
	return Val{P: &Slice{o: o, len: n, cap: n, esz: esz}}
}

func (w *W) appendSlice(x, y Val, st *TI) Val {
	add := w.sliceVals(y)
	elem := st.elem
	esz := elem.n
	nadd := sliceLen(y)
	s, _ := x.P.(*Slice)
	if nadd == 0 {
		return x
	}
	if s == nil {
		nc := growCap(0, nadd, elem)
		o := w.newObj(nc*esz, elem)
		copy(o.s, add)
		return Val{P: &Slice{o: o, len: nadd, cap: nc, esz: esz}}
	}
	if s.len+nadd <= s.cap {
		if w.racing {
			w.raceWrite(s.o, s.off+s.len*esz, nadd*esz)
		}
		add = append([]Val(nil), add...)
		for i, v := range add {
			w.set(s.o, s.off+s.len*esz+i, v)
		}
		return Val{P: &Slice{o: s.o, off: s.off, len: s.len + nadd, cap: s.cap, esz: esz}}
	}
	nc := growCap(s.cap, s.len+nadd, elem)
	if nc*max(1, esz) > 1<<24 {
		w.unsupported("slice too large")
	}
	if w.allocLimit > 0 && int64(nc)*int64(esz) > w.allocLimit {
		w.violation("alloc", "append beyond the allocation bound")
	}
	if w.racing {
		w.raceRead(s.o, s.off, s.len*esz)
	}
	o := w.newObj(nc*esz, elem)
	copy(o.s, s.o.s[s.off:s.off+s.len*esz])
	copy(o.s[s.len*esz:], add)
	return Val{P: &Slice{o: o, len: s.len + nadd, cap: nc, esz: esz}}
}

func (w *W) copySlice(dst, src Val) int {
	d, _ := dst.P.(*Slice)
	if d == nil {
		return 0
	}
	sv := w.sliceVals(src)
	n := min(d.len, sliceLen(src))
	k := n * d.esz
	if w.racing && k > 0 {
		w.raceWrite(d.o, d.off, k)
	}
	tmp := append([]Val(nil), sv[:k]...)
	for i, v := range tmp {
		w.set(d.o, d.off+i, v)
	}
	return n
}

func (w *W) builtin(g *G, name string, args []Val, in *Instr, caller *Frame) Val {
	switch name {
	case "len":
		switch x := args[0].P.(type) {
		case nil:
			return Val{}
		case *Slice:
			return Val{N: uint64(x.len)}
		case string, *SStr:
			w.atomLen(args[0])
			return Val{N: uint64(strLen(args[0]))}
		case *MapObj:
			if w.racing {
				w.raceRead(x.o, 0, 1)
			}
			return Val{N: uint64(x.n)}
		case *ChanObj:
			return Val{N: uint64(len(x.buf))}
		case *Obj:
			return Val{N: uint64(in.ti.elem.alen)}
		case *Agg:
			return Val{N: uint64(in.ti.alen)}
		}
	case "cap":
		switch x := args[0].P.(type) {
		case nil:
			return Val{}
		case *Slice:
			return Val{N: uint64(x.cap)}
		case *ChanObj:
			return Val{N: uint64(x.cap)}
		case *Obj:
			return Val{N: uint64(in.ti.elem.alen)}
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return w.appendSlice(args[0], args[1], in.ti)
	case "copy":
		return Val{N: uint64(w.copySlice(args[0], args[1]))}
	case "delete":
		w.mapDelete(args[0], args[1])
		return Val{}
	case "close":
		w.noSpec()
		w.chanClose(g, args[0])
		return Val{}
	case "recover":
		w.noSpec()
		if caller != nil && caller.deferOf != nil && caller.deferOf.pan != nil {
			p := caller.deferOf.pan
			caller.deferOf.pan = nil
			return p.val
		}
		return Val{}
	case "print", "println":
		return Val{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := &Instr{ti: in.ti, ti2: in.ti, tok: tokLSS}
			var c Val
			if name == "min" {
				c = w.binop(lt, a, r)
			} else {
				c = w.binop(lt, r, a)
			}
			if in.ti.kind == KFloat && (a.P != nil || r.P != nil) {
				w.unsupported("symbolic float min/max")
			}
			if t, ok := c.P.(*Term); ok {
				m, ok := w.mergeVal(t, a, r, in.ti)
				if !ok {
					w.unsupported("min/max merge")
				}
				r = m
			} else if c.N != 0 {
				r = a
			}
		}
		return r
	case "clear":
		switch x := args[0].P.(type) {
		case nil:
		case *Slice:
			if w.racing {
				w.raceWrite(x.o, x.off, x.len*x.esz)
			}
			for i := 0; i < x.len*x.esz; i++ {
				w.set(x.o, x.off+i, Val{})
			}
		case *MapObj:
			w.mapTouch(x)
			x.ents, x.idx, x.n, x.sym = nil, map[string]int{}, 0, 0
		}
		return Val{}
	case "ssa:wrapnilchk":
		if args[0].P == nil {
			w.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return Val{}
	case "String": // unsafe.String
		n := args[1]
		if n.P != nil {
			n.N = w.concretize(n.P.(*Term))
		}
		if n.N == 0 {
			return Val{}
		}
		o := args[0].P.(*Obj)
		b := append([]Val(nil), o.s[args[0].N:args[0].N+n.N]...)
		return mkSStr(b)
	case "StringData":
		b := strBytes(args[0])
		if len(b) == 0 {
			return Val{}
		}
		o := w.newObj(len(b), w.eng.tiByte)
		copy(o.s, b)
		return Val{P: o}
	case "SliceData":
		if s, ok := args[0].P.(*Slice); ok {
			return Val{P: s.o, N: uint64(s.off)}
		}
		return Val{}
	case "Slice":
		n := args[1]
		if n.P != nil {
			n.N = w.concretize(n.P.(*Term))
		}
		if args[0].P == nil {
			return Val{}
		}
		o := args[0].P.(*Obj)
		esz := in.ti.elem.n
		return Val{P: &Slice{o: o, off: int(args[0].N), len: int(n.N), cap: int(n.N), esz: esz}}
	}
	w.unsupported("builtin " + name)
	return Val{}
}

// ---- numeric text atoms

func (w *W) atomOf(v Val) *Atom {
	s, ok := v.P.(*SStr)
	if !ok || len(s.b) != 1 {
		return nil
	}
	t, ok := s.b[0].P.(*Term)
	if !ok || t.op != OVar {
		return nil
	}
	return w.tc.vars[t.c].atom
}

func (w *W) hasAtom(v Val) bool {
	s, ok := v.P.(*SStr)
	if !ok {
		return false
	}
	for _, b := range s.b {
		if t, ok := b.P.(*Term); ok && t.op == OVar && w.tc.vars[t.c].atom != nil {
			return true
		}
	}
	return false
}

// atomLen: the length of a text containing a numeric token is unknown, but never zero.
func (w *W) atomLen(v Val) {}

// atomStrEq compares strings that contain numeric tokens. A token is a non-empty run of
// characters of its class; texts are aligned token by token or the comparison is unsupported.
func (w *W) atomStrEq(x, y Val) *Term {
	xb, yb := strBytes(x), strBytes(y)
	atom := func(v Val) *Atom {
		if t, ok := v.P.(*Term); ok && t.op == OVar {
			return w.tc.vars[t.c].atom
		}
		return nil
	}
	const class = "-+.e0123456789"
	// 0 may be equal, 1 the same, -1 different
	cmp := func(a, b Val) int {
		aa, ab := atom(a), atom(b)
		switch {
		case a.P == nil && b.P == nil:
			if a.N == b.N {
				return 1
			}
			return -1
		case a.P != nil && a.P == b.P:
			return 1
		case aa != nil && b.P == nil && !strings.ContainsRune(class, rune(b.N)),
			ab != nil && a.P == nil && !strings.ContainsRune(class, rune(a.N)):
			return -1
		}
		return 0
	}
	for len(xb) > 0 && len(yb) > 0 {
		c := cmp(xb[0], yb[0])
		if c < 0 {
			return w.tc.fls
		}
		if c == 0 {
			break
		}
		xb, yb = xb[1:], yb[1:]
	}
	for len(xb) > 0 && len(yb) > 0 {
		c := cmp(xb[len(xb)-1], yb[len(yb)-1])
		if c < 0 {
			return w.tc.fls
		}
		if c == 0 {
			break
		}
		xb, yb = xb[:len(xb)-1], yb[:len(yb)-1]
	}
	if len(xb) == 0 || len(yb) == 0 {
		return w.tc.Bool(len(xb) == len(yb))
	}
	// one integer token against concrete text
	if len(yb) == 1 && atom(yb[0]) != nil {
		xb, yb = yb, xb
	}
	if a := atom(xb[0]); len(xb) == 1 && a != nil && a.kind != "float" {
		if txt, ok := concStr(mkSStr(yb)); ok {
			if a.kind == "uint" {
				v, err := strconv.ParseUint(txt, 10, 64)
				if err != nil || strconv.FormatUint(v, 10) != txt {
					return w.tc.fls
				}
				return w.tc.Eq(a.val, w.tc.Const(64, v))
			}
			v, err := strconv.ParseInt(txt, 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != txt {
				return w.tc.fls
			}
			return w.tc.Eq(a.val, w.tc.Const(64, uint64(v)))
		}
	}
	if len(xb) != len(yb) {
		w.unsupported("comparison of numeric text")
	}
	natoms := 0
	for i := range xb {
		if (atom(xb[i]) != nil) != (atom(yb[i]) != nil) {
			w.unsupported("comparison of numeric text")
		}
		if atom(xb[i]) != nil {
			natoms++
		}
	}
	r := w.tc.tru
	for i := range xb {
		aa, ab := atom(xb[i]), atom(yb[i])
		if aa == nil {
			r = w.tc.And(w.tc.Eq(w.toTerm(xb[i], 8), w.toTerm(yb[i], 8)), r)
			continue
		}
		if natoms > 1 && i+1 < len(xb) {
			for _, v := range []Val{xb[i+1], yb[i+1]} {
				if v.P != nil || strings.ContainsRune(class, rune(v.N)) {
					w.unsupported("comparison of numeric text")
				}
			}
		}
		r = w.tc.And(w.atomEq(aa, ab), r)
	}
	return r
}

func (w *W) atomEq(a, b *Atom) *Term {
	if a.val == b.val && a.kind == b.kind && a.prec == b.prec && a.bits == b.bits {
		return w.tc.tru
	}
	if a.kind == "float" || b.kind == "float" {
		if a.kind == b.kind && a.val.sort == SInt && b.val.sort == SInt {
			return w.tc.Eq(a.val, b.val)
		}
		w.unsupported("comparison of numeric text")
	}
	r := w.tc.Eq(a.val, b.val)
	if a.kind != b.kind {
		r = w.tc.And(r, w.tc.Not(w.tc.Bin(OSLt, a.val, w.tc.Const(64, 0))))
	}
	return r
}

func classDom(s string) *[4]uint64 {
	var d [4]uint64
	for i := 0; i < len(s); i++ {
		d[s[i]>>6] |= 1 << (s[i] & 63)
	}
	return &d
}

func (w *W) newAtom(a *Atom, chars string) Val {
	w.noSpec()
	vi := w.newVar(SBV8, "num", classDom(chars), 0)
	vi.atom = a
	w.natoms++
	return Val{P: &SStr{[]Val{{P: vi.term}}}}
}

func (w *W) fmtUint(v Val, base Val) Val {
	t, ok := v.P.(*Term)
	if !ok {
		return mkStr(strconv.FormatUint(v.N, int(base.N)))
	}
	if base.N != 10 || base.P != nil {
		w.unsupported("FormatUint base")
	}
	if c, ok := w.constOf(t); ok {
		return mkStr(strconv.FormatUint(c, 10))
	}
	return w.newAtom(&Atom{kind: "uint", val: t}, "0123456789")
}

func (w *W) fmtInt(v Val, base Val) Val {
	t, ok := v.P.(*Term)
	if !ok {
		return mkStr(strconv.FormatInt(int64(v.N), int(base.N)))
	}
	if base.N != 10 || base.P != nil {
		w.unsupported("FormatInt base")
	}
	if c, ok := w.constOf(t); ok {
		return mkStr(strconv.FormatInt(int64(c), 10))
	}
	return w.newAtom(&Atom{kind: "int", val: t}, "-0123456789")
}

func (w *W) fmtFloat(v Val, f byte, prec, bits int) Val {
	t, ok := v.P.(*Term)
	if !ok {
		return mkStr(strconv.FormatFloat(f64(v.N), f, prec, bits))
	}
	if t.sort == SInt {
		if f == 'f' && prec >= 0 {
			// an integral value prints exactly
			return w.newAtom(&Atom{kind: "float", val: t, prec: -1, bits: 32}, "-.0123456789")
		}
		return w.newAtom(&Atom{kind: "float", val: t, prec: -1, bits: 32}, "-+.e0123456789")
	}
	// finite only: NaN and infinities are formatted as words
	in := t
	if in.op == OFConv && in.a[0].sort == SF32 && (bits == 32 || f == 'f' && prec >= 0) {
		in, bits = in.a[0], 32 // decimals are those of the exact value, whatever the size
	} else if bits == 32 {
		w.unsupported("FormatFloat(32) of a float64")
	}
	nan := w.tc.Or(w.tc.Un(OFIsNaN, SBool, in), w.tc.Un(OFIsInf, SBool, in))
	if w.branch(nan) {
		if w.branch(w.tc.Un(OFIsNaN, SBool, in)) {
			return mkStr("NaN")
		}
		z := w.tc.Const(in.sort, 0)
		if w.branch(w.tc.Bin(OFLt, in, z)) {
			return mkStr("-Inf")
		}
		return mkStr("+Inf")
	}
	chars := "-+.e0123456789"
	if f == 'f' {
		chars = "-.0123456789"
	}
	return w.newAtom(&Atom{kind: "float", val: in, prec: prec, bits: bits}, chars)
}

type quantKey struct {
	t    *Term
	prec int
}

// quantized returns the variable standing for a float printed with prec digits and read back.
func (w *W) quantized(t *Term, prec int) *Term {
	if prec < 0 || t.sort == SInt {
		return t
	}
	k := quantKey{t, prec}
	if q, ok := w.quant[k]; ok {
		return q
	}
	vi := w.newVar(t.sort, "q", nil, 0)
	w.quant[k] = vi.term
	f := w.tc.Not(w.tc.Or(w.tc.Un(OFIsNaN, SBool, vi.term), w.tc.Un(OFIsInf, SBool, vi.term)))
	w.assume(f, true)
	return vi.term
}

func (w *W) parseErr(fn, bad string, rest ...Val) Val {
	return w.callNamed("strconv", fn, append([]Val{mkStr(bad)}, rest...))
}

func (w *W) parseInteger(g *G, fn string, args []Val, signed bool) Val {
	s := args[0]
	if a := w.atomOf(s); a != nil {
		bitSize := 64
		if len(args) > 2 {
			bitSize = int(args[2].N)
			if args[1].N != 10 && args[1].N != 0 {
				w.unsupported("ParseInt base on numeric text")
			}
		}
		if bitSize == 0 {
			bitSize = 64
		}
		if a.kind == "float" {
			w.unsupported("integer parse of float text")
		}
		t := a.val
		tc := w.tc
		var fit *Term
		switch {
		case a.kind == "uint" && !signed:
			fit = tc.Bin(OULe, t, tc.Const(64, mask(Sort(bitSize))))
		case a.kind == "uint" && signed:
			fit = tc.Bin(OULe, t, tc.Const(64, mask(Sort(bitSize))>>1))
		case a.kind == "int" && signed:
			h := int64(mask(Sort(bitSize)) >> 1)
			fit = tc.And(tc.Bin(OSLe, tc.Const(64, uint64(-h-1)), t), tc.Bin(OSLe, t, tc.Const(64, uint64(h))))
		default: // signed text read as unsigned
			fit = tc.And(tc.Not(tc.Bin(OSLt, t, tc.Const(64, 0))), tc.Bin(OULe, t, tc.Const(64, mask(Sort(bitSize)))))
		}
		if w.branch(fit) {
			return Val{P: &Agg{[]Val{w.fromTerm(t), {}}}}
		}
		if a.kind == "int" && !signed {
			return w.parseErr(fn, "-1", args[1:]...)
		}
		return w.parseErr(fn, "99999999999999999999999", args[1:]...)
	}
	return w.interpretReal(g, "strconv", fn, args)
}

func (w *W) parseFloat(g *G, args []Val) Val {
	s := args[0]
	if a := w.atomOf(s); a != nil {
		bits := int(args[1].N)
		tc := w.tc
		var r *Term
		switch a.kind {
		case "uint", "int":
			op := OUToF
			if a.kind == "int" {
				op = OSToF
			}
			if bits == 32 {
				r = tc.Un(OFConv, SF64, tc.Un(op, SF32, a.val))
			} else {
				r = tc.Un(op, SF64, a.val)
			}
		default:
			q := w.quantized(a.val, a.prec)
			if q.sort == SInt {
				return Val{P: &Agg{[]Val{{P: q}, {}}}}
			}
			if a.bits != bits && !(a.bits == 64 && bits == 64) {
				w.unsupported("ParseFloat of text printed with another size")
			}
			r = q
			if q.sort == SF32 {
				r = tc.Un(OFConv, SF64, q)
			}
		}
		return Val{P: &Agg{[]Val{w.fromTerm(r), {}}}}
	}
	if w.hasAtom(s) {
		w.unsupported("ParseFloat of composite numeric text")
	}
	return w.interpretReal(g, "strconv", "ParseFloat", args)
}

// interpretReal runs the library's own code (bypassing the intrinsic).
func (w *W) interpretReal(g *G, pkg, name string, args []Val) Val {
	if w.hasAtomArgs(args) {
		w.unsupported(pkg + "." + name + " of composite numeric text")
	}
	code := w.realCode(pkg, name)
	return w.call(g, code, args, nil, nil, g.top)
}

func (w *W) hasAtomArgs(args []Val) bool {
	for _, a := range args {
		if w.hasAtom(a) {
			return true
		}
	}
	return false
}

func (w *W) realCode(pkg, name string) *Code {
	fn := w.eng.funcNamed(pkg, name)
	if fn == nil {
		w.unsupported("missing " + pkg + "." + name)
	}
	if c, ok := w.realCodes[fn]; ok {
		return c
	}
	// compile without looking at the intrinsic table
	save, had := w.codes[fn]
	delete(w.codes, fn)
	nm := fn.String()
	nat := intrinsics[nm]
	w.skipNative = nm
	c := w.codeOf(fn)
	w.skipNative = ""
	_ = nat
	if had {
		w.codes[fn] = save
	} else {
		delete(w.codes, fn)
	}
	w.realCodes[fn] = c
	return c
}

func tup(vs ...Val) Val { return Val{P: &Agg{vs}} }

func allConc(args []Val) bool {
	for _, a := range args {
		switch x := a.P.(type) {
		case *Term:
			return false
		case *SStr:
			_ = x
			return false
		case *Slice:
			for _, v := range x.o.s[x.off : x.off+x.len*x.esz] {
				if v.P != nil {
					return false
				}
			}
		}
	}
	return true
}

// symIndexByte scans bytes for c, forking at undecided positions.
func (w *W) indexByte(b []Val, c Val) int {
	for i, x := range b {
		if x.P == nil && c.P == nil {
			if x.N == c.N {
				return i
			}
			continue
		}
		if w.branch(w.tc.Eq(w.toTerm(x, 8), w.toTerm(c, 8))) {
			return i
		}
	}
	return -1
}

func (w *W) lastIndexByte(b []Val, c Val) int {
	for i := len(b) - 1; i >= 0; i-- {
		x := b[i]
		if x.P == nil && c.P == nil {
			if x.N == c.N {
				return i
			}
			continue
		}
		if w.branch(w.tc.Eq(w.toTerm(x, 8), w.toTerm(c, 8))) {
			return i
		}
	}
	return -1
}

func (w *W) bytesEqTerm(a, b []Val) *Term {
	if len(a) != len(b) {
		return w.tc.fls
	}
	r := w.tc.tru
	for i := len(a) - 1; i >= 0; i-- {
		if a[i].P == nil && b[i].P == nil {
			if a[i].N != b[i].N {
				return w.tc.fls
			}
			continue
		}
		r = w.tc.And(w.tc.Eq(w.toTerm(a[i], 8), w.toTerm(b[i], 8)), r)
	}
	return r
}

func (w *W) indexBytes(b, sub []Val) int {
	for i := 0; i+len(sub) <= len(b); i++ {
		t := w.bytesEqTerm(b[i:i+len(sub)], sub)
		if w.branch(t) {
			return i
		}
	}
	return -1
}

func (w *W) ival(n int) Val { return Val{N: uint64(int64(n))} }

func (w *W) cmpBytes(a, b []Val) Val {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].P == nil && b[i].P == nil {
			if a[i].N != b[i].N {
				if a[i].N < b[i].N {
					return w.ival(-1)
				}
				return w.ival(1)
			}
			continue
		}
		x, y := w.toTerm(a[i], 8), w.toTerm(b[i], 8)
		if w.branch(w.tc.Eq(x, y)) {
			continue
		}
		if w.branch(w.tc.Bin(OULt, x, y)) {
			return w.ival(-1)
		}
		return w.ival(1)
	}
	switch {
	case len(a) < len(b):
		return w.ival(-1)
	case len(a) > len(b):
		return w.ival(1)
	}
	return Val{}
}

func (w *W) userCaller(g *G) bool {
	if g.top == nil || g.top.code.fn == nil || g.top.code.fn.Pkg == nil {
		return g.top != nil && g.top.code.fn != nil && g.top.code.fn.Parent() != nil
	}
	return strings.HasPrefix(g.top.code.fn.Pkg.Pkg.Path(), w.eng.modPath)
}

func (w *W) acquire(g *G, p Val, read bool) {
	w.noSpec()
	s := w.lockOf(p)
	if w.userCaller(g) {
		w.yield(g, false)
	}
	if read {
		w.block(g, func() bool { return !s.locked })
		s.readers++
	} else {
		w.block(g, func() bool { return !s.locked && s.readers == 0 })
		s.locked = true
		// what readers did comes before a writer, not before other readers
		g.vc = g.vc.join(s.rvc)
	}
	g.vc = g.vc.join(s.vc)
}

func (w *W) release(g *G, p Val, read bool) {
	w.noSpec()
	s := w.lockOf(p)
	if read {
		if s.readers == 0 {
			w.unsupported("RUnlock of unlocked")
		}
		s.readers--
		s.rvc = s.rvc.join(g.vc)
	} else {
		if !s.locked {
			panic(&goPanic{val: Val{P: &Iface{w.eng.tiString, mkStr("sync: unlock of unlocked mutex")}}, msg: "fatal error: sync: unlock of unlocked mutex", site: w.where(g)})
		}
		s.locked = false
		s.vc = s.vc.join(g.vc)
	}
	g.vc = g.vc.inc(g.id)
}

func (w *W) float32Bits(t *Term, s Sort) Val {
	if t.op == OFromBits {
		return w.fromTerm(t.a[0])
	}
	if t.sort == SInt {
		w.unsupported("bits of exact-integer float")
	}
	w.noSpec()
	vi := w.newVar(s, "fb", nil, 0)
	sf := SF32
	if s == 64 {
		sf = SF64
	}
	nan := w.tc.Un(OFIsNaN, SBool, t)
	w.assume(w.tc.Ite(nan, w.tc.Un(OFIsNaN, SBool, w.tc.Un(OFromBits, sf, vi.term)), w.tc.Eq(w.tc.Un(OFromBits, sf, vi.term), t)), true)
	return Val{P: vi.term}
}

func mathRound(mode uint64, f func(float64) float64) intrinsic {
	return func(w *W, g *G, args []Val, in *Instr) Val {
		if t, ok := args[0].P.(*Term); ok {
			if t.sort == SInt {
				return args[0]
			}
			return w.fromTerm(w.tc.Un(OFRound, t.sort, t, mode))
		}
		return Val{N: math.Float64bits(f(f64(args[0].N)))}
	}
}

func mathConc(f func(float64) float64) intrinsic {
	return func(w *W, g *G, args []Val, in *Instr) Val {
		if args[0].P != nil {
			w.unsupported("symbolic math function")
		}
		return Val{N: math.Float64bits(f(f64(args[0].N)))}
	}
}

var intrinsics map[string]intrinsic

func nop(w *W, g *G, args []Val, in *Instr) Val      { return Val{} }
func identity(w *W, g *G, args []Val, in *Instr) Val { return args[0] }

func init() {
	intrinsics = map[string]intrinsic{
		"runtime.KeepAlive":                         nop,
		"runtime.SetFinalizer":                      nop,
		"runtime.Gosched":                           nop,
		"runtime.GC":                                nop,
		"runtime.GOMAXPROCS":                        func(w *W, g *G, a []Val, in *Instr) Val { return Val{N: 4} },
		"runtime.NumCPU":                            func(w *W, g *G, a []Val, in *Instr) Val { return Val{N: uint64(max(1, w.h.cpus))} },
		"internal/abi.NoEscape":                     identity,
		"internal/abi.Escape":                       identity,
		"internal/godebug.New":                      nop,
		"(*internal/godebug.Setting).Value":         nop,
		"(*internal/godebug.Setting).IncNonDefault": nop,
		"internal/race.Acquire":                     nop,
		"os.Getenv":                                 nop,

		"math.Float32bits": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				return w.float32Bits(t, 32)
			}
			return a[0]
		},
		"math.Float64bits": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				return w.float32Bits(t, 64)
			}
			return a[0]
		},
		"math.Float32frombits": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				return w.fromTerm(w.tc.Un(OFromBits, SF32, t))
			}
			return a[0]
		},
		"math.Float64frombits": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				return w.fromTerm(w.tc.Un(OFromBits, SF64, t))
			}
			return a[0]
		},
		"math.Floor":       mathRound(0, math.Floor),
		"math.Ceil":        mathRound(1, math.Ceil),
		"math.Trunc":       mathRound(2, math.Trunc),
		"math.RoundToEven": mathRound(3, math.RoundToEven),
		"math.Round":       mathRound(4, math.Round),
		"math.Abs": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				if t.sort == SInt {
					z := w.tc.Const(SInt, 0)
					return w.fromSInt(w.tc.Ite(w.tc.Bin(OILt, t, z), w.tc.Un(OINeg, SInt, t), t), SF64)
				}
				return w.fromTerm(w.tc.Un(OFAbs, t.sort, t))
			}
			return Val{N: a[0].N &^ (1 << 63)}
		},
		"math.Sqrt": func(w *W, g *G, a []Val, in *Instr) Val {
			if t, ok := a[0].P.(*Term); ok {
				if t.sort == SInt {
					w.unsupported("sqrt of exact-integer float")
				}
				return w.fromTerm(w.tc.Un(OFSqrt, t.sort, t))
			}
			return Val{N: math.Float64bits(math.Sqrt(f64(a[0].N)))}
		},
		"math.Max": minmax(false),
		"math.Min": minmax(true),
		"math.Pow": func(w *W, g *G, a []Val, in *Instr) Val {
			if a[0].P != nil || a[1].P != nil {
				w.unsupported("symbolic pow")
			}
			return Val{N: math.Float64bits(math.Pow(f64(a[0].N), f64(a[1].N)))}
		},
		"math.Mod": func(w *W, g *G, a []Val, in *Instr) Val {
			if a[0].P != nil || a[1].P != nil {
				w.unsupported("symbolic mod")
			}
			return Val{N: math.Float64bits(math.Mod(f64(a[0].N), f64(a[1].N)))}
		},
		"math.Sin": mathConc(math.Sin), "math.Cos": mathConc(math.Cos), "math.Exp": mathConc(math.Exp), "math.Log": mathConc(math.Log),
		"math.Log10": mathConc(math.Log10), "math.Log2": mathConc(math.Log2),

		"strconv.FormatUint": func(w *W, g *G, a []Val, in *Instr) Val { return w.fmtUint(a[0], a[1]) },
		"strconv.FormatInt":  func(w *W, g *G, a []Val, in *Instr) Val { return w.fmtInt(a[0], a[1]) },
		"strconv.Itoa":       func(w *W, g *G, a []Val, in *Instr) Val { return w.fmtInt(a[0], Val{N: 10}) },
		"strconv.AppendUint": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.appendSlice(a[0], w.fmtUint(a[1], a[2]), w.eng.tiBytes)
		},
		"strconv.AppendInt": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.appendSlice(a[0], w.fmtInt(a[1], a[2]), w.eng.tiBytes)
		},
		"strconv.FormatFloat": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.fmtFloat(a[0], byte(a[1].N), int(int64(a[2].N)), int(a[3].N))
		},
		"strconv.AppendFloat": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.appendSlice(a[0], w.fmtFloat(a[1], byte(a[2].N), int(int64(a[3].N)), int(a[4].N)), w.eng.tiBytes)
		},
		"strconv.ParseUint": func(w *W, g *G, a []Val, in *Instr) Val {
			if s, ok := concStr(a[0]); ok && a[1].P == nil {
				v, err := strconv.ParseUint(s, int(a[1].N), int(a[2].N))
				if err == nil {
					return tup(Val{N: v}, Val{})
				}
			}
			return w.parseInteger(g, "ParseUint", a, false)
		},
		"strconv.ParseInt": func(w *W, g *G, a []Val, in *Instr) Val {
			if s, ok := concStr(a[0]); ok && a[1].P == nil {
				v, err := strconv.ParseInt(s, int(a[1].N), int(a[2].N))
				if err == nil {
					return tup(Val{N: uint64(v)}, Val{})
				}
			}
			return w.parseInteger(g, "ParseInt", a, true)
		},
		"strconv.Atoi": func(w *W, g *G, a []Val, in *Instr) Val {
			if s, ok := concStr(a[0]); ok {
				v, err := strconv.Atoi(s)
				if err == nil {
					return tup(Val{N: uint64(v)}, Val{})
				}
			}
			return w.parseInteger(g, "Atoi", a, true)
		},
		"strconv.ParseFloat": func(w *W, g *G, a []Val, in *Instr) Val {
			if s, ok := concStr(a[0]); ok {
				v, err := strconv.ParseFloat(s, int(a[1].N))
				if err == nil {
					return tup(Val{N: math.Float64bits(v)}, Val{})
				}
			}
			return w.parseFloat(g, a)
		},

		"internal/bytealg.IndexByte": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexByte(w.sliceVals(a[0]), a[1]))
		},
		"internal/bytealg.IndexByteString": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexByte(strBytes(a[0]), a[1]))
		},
		"internal/bytealg.LastIndexByte": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.lastIndexByte(w.sliceVals(a[0]), a[1]))
		},
		"internal/bytealg.LastIndexByteString": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.lastIndexByte(strBytes(a[0]), a[1]))
		},
		"internal/bytealg.Count": func(w *W, g *G, a []Val, in *Instr) Val { return w.count(w.sliceVals(a[0]), a[1]) },
		"internal/bytealg.CountString": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.count(strBytes(a[0]), a[1])
		},
		"internal/bytealg.Index": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexBytes(w.sliceVals(a[0]), w.sliceVals(a[1])))
		},
		"internal/bytealg.IndexString": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexBytes(strBytes(a[0]), strBytes(a[1])))
		},
		"internal/stringslite.Index": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexBytes(strBytes(a[0]), strBytes(a[1])))
		},
		"strings.Index": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexBytes(strBytes(a[0]), strBytes(a[1])))
		},
		"bytes.Index": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.ival(w.indexBytes(w.sliceVals(a[0]), w.sliceVals(a[1])))
		},
		"internal/bytealg.Equal": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.fromTerm(w.bytesEqTerm(w.sliceVals(a[0]), w.sliceVals(a[1])))
		},
		"bytes.Equal": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.fromTerm(w.bytesEqTerm(w.sliceVals(a[0]), w.sliceVals(a[1])))
		},
		"internal/bytealg.Compare": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.cmpBytes(w.sliceVals(a[0]), w.sliceVals(a[1]))
		},
		"internal/bytealg.CompareString": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.cmpBytes(strBytes(a[0]), strBytes(a[1]))
		},
		"internal/bytealg.MakeNoZero": func(w *W, g *G, a []Val, in *Instr) Val {
			n := w.sizeOf(a[0], "bytealg.MakeNoZero", w.eng.tiByte)
			c := growCap(0, n, w.eng.tiByte)
			return Val{P: &Slice{o: w.newObj(c, w.eng.tiByte), len: n, cap: c, esz: 1}}
		},

		"(*sync.Mutex).Lock":   func(w *W, g *G, a []Val, in *Instr) Val { w.acquire(g, a[0], false); return Val{} },
		"(*sync.Mutex).Unlock": func(w *W, g *G, a []Val, in *Instr) Val { w.release(g, a[0], false); return Val{} },
		"(*sync.Mutex).TryLock": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			s := w.lockOf(a[0])
			if s.locked || s.readers > 0 {
				return Val{}
			}
			s.locked = true
			g.vc = g.vc.join(s.vc)
			return Val{N: 1}
		},
		"(*sync.RWMutex).Lock":    func(w *W, g *G, a []Val, in *Instr) Val { w.acquire(g, a[0], false); return Val{} },
		"(*sync.RWMutex).Unlock":  func(w *W, g *G, a []Val, in *Instr) Val { w.release(g, a[0], false); return Val{} },
		"(*sync.RWMutex).RLock":   func(w *W, g *G, a []Val, in *Instr) Val { w.acquire(g, a[0], true); return Val{} },
		"(*sync.RWMutex).RUnlock": func(w *W, g *G, a []Val, in *Instr) Val { w.release(g, a[0], true); return Val{} },
		"(*sync.Once).Do": func(w *W, g *G, a []Val, in *Instr) Val {
			s := w.lockOf(a[0])
			if s.done {
				if w.racing {
					w.yield(g, false)
				}
				g.vc = g.vc.join(s.vc)
				return Val{}
			}
			w.noSpec()
			w.acquire(g, a[0], false)
			if !s.done {
				w.callVal(g, a[1], nil, in, g.top)
				s.done = true
			}
			w.release(g, a[0], false)
			return Val{}
		},
		"(*sync.WaitGroup).Add": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			w.wgAdd(g, a[0], int64(a[1].N))
			return Val{}
		},
		"(*sync.WaitGroup).Done": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			w.wgAdd(g, a[0], -1)
			return Val{}
		},
		"(*sync.WaitGroup).Wait": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			s := w.lockOf(a[0])
			w.block(g, func() bool { return s.cnt == 0 })
			g.vc = g.vc.join(s.vc)
			return Val{}
		},
		"(*sync.WaitGroup).Go": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			w.wgAdd(g, a[0], 1)
			wg, f := a[0], a[1]
			cl := &Closure{nat: "wg.Go", dat: func(w *W, g *G, args []Val) Val {
				w.callVal(g, f, nil, in, g.top)
				w.wgAdd(g, wg, -1)
				return Val{}
			}}
			w.spawn(g, Val{P: cl}, nil, in)
			return Val{}
		},
		"(*sync.Pool).Get": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			o := a[0].P.(*Obj)
			if l := w.pools[o]; len(l) > 0 {
				it := l[len(l)-1]
				w.pools[o] = l[:len(l)-1]
				g.vc = g.vc.join(it.vc)
				return it.v
			}
			// New is the last field
			nf := o.s[len(o.s)-1]
			for i := int(a[0].N); i < len(o.s); i++ {
				if c, ok := o.s[i].P.(*Closure); ok {
					nf = Val{P: c}
				}
			}
			if _, ok := nf.P.(*Closure); !ok {
				return Val{}
			}
			return w.callVal(g, nf, nil, in, g.top)
		},
		"(*sync.Pool).Put": func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			o := a[0].P.(*Obj)
			// putting a value happens before getting it
			w.pools[o] = append(w.pools[o], pooled{a[1], g.vc})
			g.vc = g.vc.inc(g.id)
			return Val{}
		},

		"errors.Is":        nil,
		"errors.As":        func(w *W, g *G, a []Val, in *Instr) Val { return w.errorsAs(g, a[0], a[1]) },
		"sort.Slice":       func(w *W, g *G, a []Val, in *Instr) Val { w.sortSlice(g, a[0], a[1]); return Val{} },
		"sort.SliceStable": func(w *W, g *G, a []Val, in *Instr) Val { w.sortSlice(g, a[0], a[1]); return Val{} },
		"reflect.DeepEqual": func(w *W, g *G, a []Val, in *Instr) Val {
			return w.fromTerm(w.deepEqual(a[0], a[1], w.eng.tiAny, false, 0))
		},
		"encoding/binary.Read": func(w *W, g *G, a []Val, in *Instr) Val { return w.binaryRead(g, a) },
		"time.Now":             nop,
	}
	delete(intrinsics, "errors.Is")
	for _, n := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		s := SBV64
		if strings.HasSuffix(n, "32") {
			s = SBV32
		}
		s2 := s
		intrinsics["sync/atomic.Load"+n] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.atomicSync(g, a[0])
			o := a[0].P.(*Obj)
			return o.s[a[0].N]
		}
		intrinsics["sync/atomic.Store"+n] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.atomicSync(g, a[0])
			w.set(a[0].P.(*Obj), int(a[0].N), a[1])
			return Val{}
		}
		intrinsics["sync/atomic.Swap"+n] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.atomicSync(g, a[0])
			o := a[0].P.(*Obj)
			old := o.s[a[0].N]
			w.set(o, int(a[0].N), a[1])
			return old
		}
		intrinsics["sync/atomic.Add"+n] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.atomicSync(g, a[0])
			o := a[0].P.(*Obj)
			old := o.s[a[0].N]
			if old.P != nil || a[1].P != nil {
				w.unsupported("symbolic atomic add")
			}
			nv := Val{N: (old.N + a[1].N) & mask(s2)}
			w.set(o, int(a[0].N), nv)
			return nv
		}
		intrinsics["sync/atomic.CompareAndSwap"+n] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.atomicSync(g, a[0])
			o := a[0].P.(*Obj)
			old := o.s[a[0].N]
			if old.P == a[1].P && old.N == a[1].N {
				w.set(o, int(a[0].N), a[2])
				return Val{N: 1}
			}
			return Val{}
		}
	}
	intrinsics["(*sync/atomic.Value).Load"] = func(w *W, g *G, a []Val, in *Instr) Val {
		w.atomicSync(g, a[0])
		return a[0].P.(*Obj).s[a[0].N]
	}
	intrinsics["(*sync/atomic.Value).Store"] = func(w *W, g *G, a []Val, in *Instr) Val {
		w.atomicSync(g, a[0])
		w.set(a[0].P.(*Obj), int(a[0].N), a[1])
		return Val{}
	}
	initSymAPI()
}

func minmax(isMin bool) intrinsic {
	return func(w *W, g *G, a []Val, in *Instr) Val {
		if a[0].P == nil && a[1].P == nil {
			if isMin {
				return Val{N: math.Float64bits(math.Min(f64(a[0].N), f64(a[1].N)))}
			}
			return Val{N: math.Float64bits(math.Max(f64(a[0].N), f64(a[1].N)))}
		}
		if isSInt(a[0]) || isSInt(a[1]) {
			x, y := w.sintOf(a[0], SF64), w.sintOf(a[1], SF64)
			c := w.tc.Bin(OILt, x, y)
			if isMin {
				return w.fromSInt(w.tc.Ite(c, x, y), SF64)
			}
			return w.fromSInt(w.tc.Ite(c, y, x), SF64)
		}
		w.unsupported("symbolic math.Min/Max")
		return Val{}
	}
}

func (w *W) atomicSync(g *G, p Val) {
	if p.P == nil {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	if !w.racing {
		return
	}
	if w.userCaller(g) {
		w.yield(g, false)
	}
	s := w.lockOf(p)
	g.vc = g.vc.join(s.vc)
	s.vc = g.vc
	g.vc = g.vc.inc(g.id)
}

func (w *W) wgAdd(g *G, p Val, d int64) {
	s := w.lockOf(p)
	s.cnt += d
	if d < 0 {
		s.vc = s.vc.join(g.vc)
		g.vc = g.vc.inc(g.id)
	}
	if s.cnt < 0 {
		panic(&goPanic{val: Val{P: &Iface{w.eng.tiString, mkStr("sync: negative WaitGroup counter")}}, msg: "panic: sync: negative WaitGroup counter", site: w.where(g)})
	}
}

func (w *W) count(b []Val, c Val) Val {
	n := 0
	for _, x := range b {
		if x.P == nil && c.P == nil {
			if x.N == c.N {
				n++
			}
			continue
		}
		if w.branch(w.tc.Eq(w.toTerm(x, 8), w.toTerm(c, 8))) {
			n++
		}
	}
	return w.ival(n)
}

func (w *W) sortSlice(g *G, x, less Val) {
	w.noSpec()
	if x.P == nil {
		return
	}
	s, ok := x.P.(*Iface).v.P.(*Slice)
	if !ok {
		return
	}
	call := func(i, j int) bool {
		r := w.callVal(g, less, []Val{w.ival(i), w.ival(j)}, nil, g.top)
		if t, ok := r.P.(*Term); ok {
			return w.branch(t)
		}
		return r.N != 0
	}
	for i := 1; i < s.len; i++ {
		for j := i; j > 0 && call(j, j-1); j-- {
			for k := 0; k < s.esz; k++ {
				a, b := s.off+j*s.esz+k, s.off+(j-1)*s.esz+k
				va, vb := s.o.s[a], s.o.s[b]
				w.set(s.o, a, vb)
				w.set(s.o, b, va)
			}
		}
	}
}

// errorsAs implements errors.As without reflection.
func (w *W) errorsAs(g *G, err, target Val) Val {
	if err.P == nil {
		return Val{}
	}
	if target.P == nil {
		w.rtPanic("errors: target cannot be nil")
	}
	tif := target.P.(*Iface)
	if tif.t.kind != KPtr {
		w.rtPanic("errors: target must be a non-nil pointer")
	}
	want := tif.t.elem
	for err.P != nil {
		e := err.P.(*Iface)
		if want.kind == KIface {
			if w.implements(e.t, want) {
				w.store(tif.v, want, err)
				return Val{N: 1}
			}
		} else if e.t == want {
			w.store(tif.v, want, e.v)
			return Val{N: 1}
		}
		if fn := w.methodByName(e.t, "As"); fn != nil && fn.Signature.Params().Len() == 1 {
			r := w.call(g, w.codeOf(fn), []Val{e.v, target}, nil, nil, g.top)
			if t, ok := r.P.(*Term); ok {
				r.N = b2u(w.branch(t))
			}
			if r.N != 0 {
				return Val{N: 1}
			}
		}
		fn := w.methodByName(e.t, "Unwrap")
		if fn == nil {
			return Val{}
		}
		r := w.call(g, w.codeOf(fn), []Val{e.v}, nil, nil, g.top)
		if _, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			for _, x := range append([]Val(nil), w.sliceVals(r)...) {
				if x.P == nil {
					continue
				}
				if y := w.errorsAs(g, x, target); y.N != 0 {
					return y
				}
			}
			return Val{}
		}
		err = r
	}
	return Val{}
}

// deepEqual builds the equality term of two values; loose treats nil and empty slices/maps alike.
func (w *W) deepEqual(a, b Val, ti *TI, loose bool, depth int) *Term {
	tc := w.tc
	if depth > 60 {
		w.unsupported("DeepEqual depth")
	}
	switch ti.kind {
	case KPtr:
		if a.P == nil || b.P == nil {
			return tc.Bool(a.P == nil && b.P == nil)
		}
		if a.P == b.P && a.N == b.N {
			return tc.tru
		}
		return w.deepEqual(w.load(a, ti.elem), w.load(b, ti.elem), ti.elem, loose, depth+1)
	case KSlice:
		x, _ := a.P.(*Slice)
		y, _ := b.P.(*Slice)
		n, m := 0, 0
		if x != nil {
			n = x.len
		}
		if y != nil {
			m = y.len
		}
		if n != m || !loose && (x == nil) != (y == nil) {
			return tc.fls
		}
		r := tc.tru
		for i := 0; i < n; i++ {
			va := w.loadFrom(x.o, x.off+i*x.esz, ti.elem)
			vb := w.loadFrom(y.o, y.off+i*y.esz, ti.elem)
			r = tc.And(r, w.deepEqual(va, vb, ti.elem, loose, depth+1))
			if r == tc.fls {
				return r
			}
		}
		return r
	case KIface:
		if a.P == nil || b.P == nil {
			return tc.Bool(a.P == nil && b.P == nil)
		}
		x, y := a.P.(*Iface), b.P.(*Iface)
		if x.t != y.t {
			return tc.fls
		}
		return w.deepEqual(x.v, y.v, x.t, loose, depth+1)
	case KStruct:
		r := tc.tru
		for _, f := range ti.fields {
			r = tc.And(r, w.deepEqual(aggSub0(a, f.off, f.ti), aggSub0(b, f.off, f.ti), f.ti, loose, depth+1))
			if r == tc.fls {
				return r
			}
		}
		return r
	case KArray:
		r := tc.tru
		for i := 0; i < ti.alen; i++ {
			r = tc.And(r, w.deepEqual(aggSub0(a, i*ti.elem.n, ti.elem), aggSub0(b, i*ti.elem.n, ti.elem), ti.elem, loose, depth+1))
			if r == tc.fls {
				return r
			}
		}
		return r
	case KMap:
		x, _ := a.P.(*MapObj)
		y, _ := b.P.(*MapObj)
		n, m := 0, 0
		if x != nil {
			n = x.n
		}
		if y != nil {
			m = y.n
		}
		if n != m || !loose && (x == nil) != (y == nil) {
			return tc.fls
		}
		r := tc.tru
		if n > 0 {
			for _, e := range x.ents {
				f := w.mapFind(y, e.k)
				if f == nil {
					return tc.fls
				}
				r = tc.And(r, w.deepEqual(e.v, f.v, ti.elem, loose, depth+1))
				if r == tc.fls {
					return r
				}
			}
		}
		return r
	case KFunc:
		return tc.Bool(a.P == nil && b.P == nil)
	case KChan, KUnsafe:
		return tc.Bool(a.P == b.P && a.N == b.N)
	}
	return w.eqVal(a, b, ti, nil)
}

func aggSub0(v Val, off int, ti *TI) Val {
	if ti.agg && ti.n == 0 {
		return Val{}
	}
	return aggSub(v, off, ti)
}

// binaryRead implements encoding/binary.Read for fixed-size little/big endian data.
func (w *W) binaryRead(g *G, a []Val) Val {
	r, order, data := a[0], a[1], a[2]
	ifc := data.P.(*Iface)
	var elem *TI
	var o *Obj
	off, cnt := 0, 1
	switch ifc.t.kind {
	case KPtr:
		elem = ifc.t.elem
		if ifc.v.P == nil {
			w.rtPanic("nil pointer")
		}
		o, off = ifc.v.P.(*Obj), int(ifc.v.N)
	case KSlice:
		elem = ifc.t.elem
		s, _ := ifc.v.P.(*Slice)
		if s == nil || s.len == 0 {
			return Val{}
		}
		o, off, cnt = s.o, s.off, s.len
	default:
		w.unsupported("binary.Read into " + ifc.t.t.String())
	}
	little := true
	if oi, ok := order.P.(*Iface); ok && strings.Contains(oi.t.t.String(), "bigEndian") {
		little = false
	}
	var leaves []*TI
	var walk func(t *TI)
	walk = func(t *TI) {
		switch t.kind {
		case KBool, KInt, KUint, KFloat:
			leaves = append(leaves, t)
		case KArray:
			for i := 0; i < t.alen; i++ {
				walk(t.elem)
			}
		case KStruct:
			for _, f := range t.fields {
				walk(f.ti)
			}
		default:
			w.unsupported("binary.Read into " + t.t.String())
		}
	}
	for i := 0; i < cnt; i++ {
		walk(elem)
	}
	width := func(t *TI) int {
		switch t.sort {
		case SBool, 8:
			return 1
		case 16:
			return 2
		case 32, SF32:
			return 4
		}
		return 8
	}
	size := 0
	for _, l := range leaves {
		size += width(l)
	}
	buf := w.newObj(size, w.eng.tiByte)
	rr := w.callNamed("io", "ReadFull", []Val{r, {P: &Slice{o: buf, len: size, cap: size, esz: 1}}})
	errv := rr.P.(*Agg).v[1]
	if errv.P != nil {
		return errv
	}
	p := 0
	for i, l := range leaves {
		n := width(l)
		bs := buf.s[p : p+n]
		p += n
		v := w.bytesToInt(bs, little, Sort(8*n))
		if l.kind == KFloat {
			if t, ok := v.P.(*Term); ok {
				v = w.fromTerm(w.tc.Un(OFromBits, l.sort, t))
			}
		} else if l.kind == KBool {
			if t, ok := v.P.(*Term); ok {
				v = w.fromTerm(w.tc.Not(w.tc.Eq(t, w.tc.Const(8, 0))))
			} else {
				v = Val{N: b2u(v.N != 0)}
			}
		}
		if w.racing {
			w.raceWrite(o, off+i, 1)
		}
		w.set(o, off+i, v)
	}
	return Val{}
}

func (w *W) bytesToInt(bs []Val, little bool, s Sort) Val {
	conc := true
	for _, b := range bs {
		if b.P != nil {
			conc = false
		}
	}
	n := len(bs)
	at := func(i int) Val { // i-th least significant
		if little {
			return bs[i]
		}
		return bs[n-1-i]
	}
	if conc {
		var v uint64
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | at(i).N
		}
		return Val{N: v}
	}
	// recognise bytes that are slices of one word
	if t := w.wordOf(at, n, s); t != nil {
		return w.fromTerm(t)
	}
	r := w.tc.Const(s, 0)
	for i := n - 1; i >= 0; i-- {
		r = w.tc.Bin(OBOr, w.tc.Bin(OShl, r, w.tc.Const(s, 8)), w.zx(w.toTerm(at(i), 8), s))
	}
	return w.fromTerm(r)
}

func (w *W) zx(t *Term, s Sort) *Term {
	if t.sort == s {
		return t
	}
	return w.tc.Un(OZext, s, t)
}

func (w *W) wordOf(at func(int) Val, n int, s Sort) *Term {
	var word *Term
	for i := 0; i < n; i++ {
		t, ok := at(i).P.(*Term)
		if !ok || t.op != OTrunc {
			return nil
		}
		x := t.a[0]
		if i > 0 {
			if x.op != OLShr || !x.a[1].isConst() || x.a[1].c != uint64(8*i) {
				return nil
			}
			x = x.a[0]
		}
		if x.sort != s || word != nil && word != x {
			return nil
		}
		word = x
	}
	return word
}
