package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *W, g *G, args []Val, in *Instr) Val

type Frame struct {
	code    *Code
	r       []Val
	g       *G
	ret     Val
	defers  []deferred
	pan     *goPanic
	deferOf *Frame
	caller  *Frame
	in      *Instr
}

type deferred struct {
	f    Val // closure value
	args []Val
	in   *Instr
}

type goPanic struct {
	val  Val
	msg  string
	site string
}

type pathEnd struct {
	kind string // "done","infeasible","unsupported","budget","violation","unknown","depth"
	msg  string
}

type specFail struct{}

func (fr *Frame) get(i int32) Val {
	if i >= 0 {
		return fr.r[i]
	}
	return fr.code.consts[-i-1]
}

func (w *W) posStr(p token.Pos) string {
	if p == token.NoPos {
		return "?"
	}
	ps := w.eng.prog.Fset.Position(p)
	f := ps.Filename
	for _, pre := range []string{w.eng.repo + "/", "/usr/local/go/src/"} {
		f = strings.TrimPrefix(f, pre)
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (w *W) where(g *G) string {
	var sb strings.Builder
	n := 0
	for fr := g.top; fr != nil && n < 9; fr = fr.caller {
		if fr.in != nil {
			fmt.Fprintf(&sb, "%s (%s) < ", fr.code.name, w.posStr(fr.in.pos))
			n++
		}
	}
	return sb.String()
}

func (w *W) unsupported(msg string) {
	if w.spec > 0 {
		panic(specFail{})
	}
	site := ""
	if w.g != nil {
		site = w.where(w.g)
	}
	panic(pathEnd{"unsupported", msg + " @ " + site})
}

func (w *W) rtPanic(format string, a ...any) {
	if w.spec > 0 {
		panic(specFail{})
	}
	msg := "runtime error: " + fmt.Sprintf(format, a...)
	panic(&goPanic{val: Val{P: &Iface{w.eng.tiString, mkStr(msg)}}, msg: msg, site: w.where(w.g)})
}

func (w *W) newObj(n int, ti *TI) *Obj {
	w.seq++
	w.allocSlots += int64(n)
	return &Obj{s: make([]Val, n), seq: w.seq, ti: ti}
}

func (w *W) global(g *ssa.Global) *Obj {
	if o, ok := w.globals[g]; ok {
		return o
	}
	ti := typeInfo(deref(g.Type()))
	o := w.newObj(ti.n, ti)
	o.name = g.String()
	if w.baseSeq != 0 {
		o.seq = 1
	}
	w.globals[g] = o
	return o
}

// set writes a slot, journaling writes to older objects.
func (w *W) set(o *Obj, i int, v Val) {
	if o.seq < w.jseq {
		w.journal = append(w.journal, jent{o: o, i: i, old: o.s[i]})
	}
	o.s[i] = v
}

func (w *W) loadFrom(o *Obj, off int, ti *TI) Val {
	if w.racing {
		w.raceRead(o, off, ti.n)
	}
	if !ti.agg {
		return w.coerce(o.s[off], ti)
	}
	a := make([]Val, ti.n)
	copy(a, o.s[off:off+ti.n])
	return Val{P: &Agg{a}}
}

// coerce handles loads through unsafe casts between strings and byte slices.
func (w *W) coerce(v Val, ti *TI) Val {
	switch x := v.P.(type) {
	case *Slice:
		if ti.kind == KString {
			return mkSStr(append([]Val(nil), x.o.s[x.off:x.off+x.len]...))
		}
	case string, *SStr:
		if ti.kind == KSlice {
			return w.mkSlice(append([]Val(nil), strBytes(v)...), w.eng.tiByte)
		}
	}
	return v
}

func (w *W) storeTo(o *Obj, off int, ti *TI, v Val) {
	if w.racing {
		w.raceWrite(o, off, ti.n)
	}
	if !ti.agg {
		w.set(o, off, v)
		return
	}
	if v.P == nil {
		for i := 0; i < ti.n; i++ {
			w.set(o, off+i, Val{})
		}
		return
	}
	a := v.P.(*Agg)
	for i := 0; i < ti.n; i++ {
		w.set(o, off+i, a.v[i])
	}
}

func (w *W) load(p Val, ti *TI) Val {
	switch x := p.P.(type) {
	case *Obj:
		if int(p.N)+ti.n > len(x.s) {
			w.unsupported("load past object (unsafe cast)")
		}
		return w.loadFrom(x, int(p.N), ti)
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		return w.symLoad(x, ti)
	}
	w.unsupported(fmt.Sprintf("load through %T", p.P))
	return Val{}
}

func (w *W) store(p Val, ti *TI, v Val) {
	switch x := p.P.(type) {
	case *Obj:
		if int(p.N)+ti.n > len(x.s) {
			w.unsupported("store past object (unsafe cast)")
		}
		w.storeTo(x, int(p.N), ti, v)
		return
	case nil:
		w.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		w.symStore(x, ti, v)
		return
	}
	w.unsupported(fmt.Sprintf("store through %T", p.P))
}

func (w *W) symLoad(x *SymPtr, ti *TI) Val {
	if r, ok := w.tryMergeLoad(x, ti); ok {
		return r
	}
	k := int(w.concretize(x.idx))
	return w.loadFrom(x.o, x.base+k*x.esz+x.sub, ti)
}

// feasibleIdx lists index values not excluded by the byte domain of idx.
func (w *W) feasibleIdx(idx *Term, n int) []int {
	var r []int
	in := idx
	if in.op == OZext {
		in = in.a[0]
	}
	if in.op == OVar && in.sort == SBV8 {
		d := w.domOf(int32(in.c))
		for i := 0; i < n && i < 256; i++ {
			if d[i>>6]>>(i&63)&1 == 1 {
				r = append(r, i)
			}
		}
		return r
	}
	for i := 0; i < n; i++ {
		r = append(r, i)
	}
	return r
}

func (w *W) tryMergeLoad(x *SymPtr, ti *TI) (Val, bool) {
	ks := w.feasibleIdx(x.idx, x.n)
	if len(ks) == 0 || len(ks) > 256 {
		return Val{}, false
	}
	res := w.loadFrom(x.o, x.base+ks[len(ks)-1]*x.esz+x.sub, ti)
	for i := len(ks) - 2; i >= 0; i-- {
		v := w.loadFrom(x.o, x.base+ks[i]*x.esz+x.sub, ti)
		var ok bool
		res, ok = w.mergeVal(w.tc.Eq(x.idx, w.tc.Const(64, uint64(ks[i]))), v, res, ti)
		if !ok {
			return Val{}, false
		}
	}
	return res, true
}

func (w *W) symStore(x *SymPtr, ti *TI, v Val) {
	ks := w.feasibleIdx(x.idx, x.n)
	if len(ks) <= 64 {
		type upd struct {
			off int
			v   Val
		}
		var us []upd
		ok := true
		for _, k := range ks {
			off := x.base + k*x.esz + x.sub
			old := w.loadFrom(x.o, off, ti)
			m, o := w.mergeVal(w.tc.Eq(x.idx, w.tc.Const(64, uint64(k))), v, old, ti)
			if !o {
				ok = false
				break
			}
			us = append(us, upd{off, m})
		}
		if ok {
			for _, u := range us {
				w.storeTo(x.o, u.off, ti, u.v)
			}
			return
		}
	}
	k := int(w.concretize(x.idx))
	w.storeTo(x.o, x.base+k*x.esz+x.sub, ti, v)
}

// ---- calls

const stkChunk = 1 << 15

func (g *G) alloc(n int) []Val {
	if len(g.chunk)-g.sp < n {
		sz := stkChunk
		if n > sz {
			sz = n
		}
		g.chunk = make([]Val, sz)
		g.sp = 0
	}
	r := g.chunk[g.sp : g.sp+n : g.sp+n]
	clear(r)
	g.sp += n
	return r
}

func (w *W) callVal(g *G, f Val, args []Val, in *Instr, caller *Frame) Val {
	cl, ok := f.P.(*Closure)
	if !ok {
		if f.P == nil {
			w.rtPanic("invalid memory address or nil pointer dereference (nil func)")
		}
		w.unsupported(fmt.Sprintf("call of %T", f.P))
	}
	if cl.fn == nil {
		if cl.dat != nil {
			return cl.dat.(func(w *W, g *G, args []Val) Val)(w, g, args)
		}
		return w.builtin(g, cl.nat, args, in, caller)
	}
	return w.call(g, w.codeOf(cl.fn), args, cl.fv, in, caller)
}

func (w *W) call(g *G, code *Code, args, fv []Val, in *Instr, caller *Frame) Val {
	if code.native != nil {
		code.used = true
		return code.native(w, g, args, in)
	}
	code.used = true
	fr := &Frame{code: code, g: g, caller: caller}
	return w.callFrame(fr, args, fv)
}

func (w *W) callFrame(fr *Frame, args, fv []Val) Val {
	g := fr.g
	code := fr.code
	g.depth++
	if g.depth > w.maxDepth {
		if w.spec > 0 {
			g.depth--
			panic(specFail{})
		}
		panic(pathEnd{"depth", "call depth " + w.where(g)})
	}
	ck, sp := g.chunk, g.sp
	fr.r = g.alloc(code.nregs)
	copy(fr.r, args)
	copy(fr.r[code.nparams:], fv)
	oldTop := g.top
	g.top = fr
	if code.hasDefer {
		w.runWithDefers(fr)
	} else {
		w.run(fr, 0, -9)
	}
	g.top = oldTop
	g.depth--
	g.chunk, g.sp = ck, sp
	return fr.ret
}

func (w *W) runWithDefers(fr *Frame) {
	g := fr.g
	depth, ck, sp := g.depth, g.chunk, g.sp
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanic)
				if !ok || w.spec > 0 {
					panic(r)
				}
				g.depth, g.chunk, g.sp, g.top = depth, ck, sp, fr
				fr.pan = gp
			}
		}()
		w.run(fr, 0, -9)
	}()
	if fr.pan == nil {
		return
	}
	w.runDefers(fr)
	if fr.pan != nil {
		panic(fr.pan)
	}
	if fr.code.recover >= 0 {
		w.run(fr, fr.code.recover, -9)
	} else {
		fr.ret = Val{}
	}
}

func (w *W) runDefers(fr *Frame) {
	g := fr.g
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, ck, sp := g.depth, g.chunk, g.sp
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok || w.spec > 0 {
						panic(r)
					}
					g.depth, g.chunk, g.sp, g.top = depth, ck, sp, fr
					fr.pan = gp
				}
			}()
			cl, ok := d.f.P.(*Closure)
			if !ok {
				w.rtPanic("invalid memory address or nil pointer dereference (nil deferred func)")
			}
			if cl.fn == nil {
				w.callVal(g, d.f, d.args, d.in, fr)
				return
			}
			code := w.codeOf(cl.fn)
			if code.native != nil {
				code.native(w, g, d.args, d.in)
				return
			}
			code.used = true
			nf := &Frame{code: code, g: g, caller: fr, deferOf: fr}
			w.callFrame(nf, d.args, cl.fv)
		}()
	}
	if fr.pan != nil && fr.in != nil && fr.in.op == opRunDefers {
		// a deferred call panicked during normal return
		p := fr.pan
		fr.pan = nil
		panic(p)
	}
}

// ---- main loop

// tolerantCall runs a call of a package initialiser; what cannot be run leaves a zero value.
func (w *W) tolerantCall(fr *Frame, code *Code, args []Val, in *Instr) (v Val) {
	g := fr.g
	depth, ck, sp, top := g.depth, g.chunk, g.sp, g.top
	defer func() {
		if x := recover(); x != nil {
			if debugFlag && w.id == 0 {
				fmt.Printf("init call %s skipped: %v\n", code.name, x)
			}
			w.eng.addCount("init_skipped:"+code.name, 1)
			g.depth, g.chunk, g.sp, g.top = depth, ck, sp, top
			v = Val{}
		}
	}()
	return w.call(g, code, args, nil, in, fr)
}

func (w *W) jump(fr *Frame, b, si int) int {
	blk := &fr.code.blocks[b]
	s := blk.succs[si]
	w.phis(fr, s, blk.spi[si])
	return s
}

func (w *W) phis(fr *Frame, s, pi int) {
	ph := fr.code.blocks[s].phis
	switch len(ph) {
	case 0:
	case 1:
		fr.r[ph[0].dst] = fr.get(ph[0].edges[pi])
	default:
		var tmp [16]Val
		t := tmp[:0]
		for i := range ph {
			t = append(t, fr.get(ph[i].edges[pi]))
		}
		for i := range ph {
			fr.r[ph[i].dst] = t[i]
		}
	}
}

// run executes from block b until a return (true) or until about to execute block stop (false).
func (w *W) run(fr *Frame, b int, stop int) bool {
	r := fr.r
	consts := fr.code.consts
	get := func(i int32) Val {
		if i >= 0 {
			return r[i]
		}
		return consts[-i-1]
	}
	for {
		if b == stop {
			return false
		}
		blk := &fr.code.blocks[b]
		w.steps += int64(len(blk.ins))
		if w.steps > w.stepLimit {
			w.overBudget()
		}
	instrs:
		for k := range blk.ins {
			in := &blk.ins[k]
			fr.in = in
			switch in.op {
			case opBin:
				x, y := get(in.a), get(in.b)
				r[in.dst] = w.binop(in, x, y)
			case opLoad:
				p := get(in.a)
				if o, ok := p.P.(*Obj); ok && !in.ti.agg && !w.racing && int(p.N) < len(o.s) {
					v := o.s[p.N]
					if v.P != nil && (in.ti.kind == KString || in.ti.kind == KSlice) {
						v = w.coerce(v, in.ti)
					}
					r[in.dst] = v
				} else {
					r[in.dst] = w.load(p, in.ti)
				}
			case opStore:
				p := get(in.a)
				if o, ok := p.P.(*Obj); ok && !in.ti.agg && !w.racing && int(p.N) < len(o.s) {
					w.set(o, int(p.N), get(in.b))
				} else {
					w.store(p, in.ti, get(in.b))
				}
			case opFieldAddr:
				p := get(in.a)
				switch x := p.P.(type) {
				case *Obj:
					p.N += uint64(in.n)
					r[in.dst] = p
				case *SymPtr:
					c := *x
					c.sub += in.n
					r[in.dst] = Val{P: &c}
				case nil:
					w.rtPanic("invalid memory address or nil pointer dereference")
				default:
					w.unsupported(fmt.Sprintf("field of %T", p.P))
				}
			case opField, opExtract:
				a := get(in.a)
				if a.P == nil {
					r[in.dst] = Val{}
				} else if ag, ok := a.P.(*Agg); !ok {
					w.unsupported(fmt.Sprintf("extract from %T", a.P))
				} else if in.ti.agg {
					r[in.dst] = Val{P: &Agg{ag.v[in.n : in.n+in.ti.n : in.n+in.ti.n]}}
				} else {
					r[in.dst] = ag.v[in.n]
				}
			case opIndexAddr:
				r[in.dst] = w.indexAddr(in, get(in.a), get(in.b))
			case opIndex:
				r[in.dst] = w.index(in, get(in.a), get(in.b))
			case opMove:
				r[in.dst] = get(in.a)
			case opAlloc:
				o := w.newObj(in.ti.n, in.ti)
				r[in.dst] = Val{P: o}
			case opCall:
				args := make([]Val, len(in.args))
				for i, a := range in.args {
					args[i] = get(a)
				}
				if f, ok := in.aux.(*ssa.Function); ok {
					if w.inInit && fr.code.isInit {
						r[in.dst] = w.tolerantCall(fr, w.codeOf(f), args, in)
					} else {
						r[in.dst] = w.call(fr.g, w.codeOf(f), args, nil, in, fr)
					}
				} else {
					r[in.dst] = w.callVal(fr.g, get(in.a), args, in, fr)
				}
			case opInvoke:
				args := make([]Val, len(in.args)+1)
				for i, a := range in.args {
					args[i+1] = get(a)
				}
				recv := get(in.a)
				code, cl := w.method(recv, in)
				args[0] = recv.P.(*Iface).v
				if cl != nil {
					r[in.dst] = w.callVal(fr.g, Val{P: cl}, args[1:], in, fr)
				} else {
					r[in.dst] = w.call(fr.g, code, args, nil, in, fr)
				}
			case opIf:
				c := get(in.a)
				var v bool
				if c.P == nil {
					v = c.N != 0
				} else {
					t := c.P.(*Term)
					var ok bool
					if v, ok = w.cheap(t); !ok {
						if j, ret, ok := w.trySpec(fr, in, t); ok {
							if ret {
								return true
							}
							b = j
							break instrs
						}
						v = w.branch(t)
					} else if w.xcheck {
						w.note(t, v)
					}
				}
				if v {
					b = w.jump(fr, b, 0)
				} else {
					b = w.jump(fr, b, 1)
				}
				break instrs
			case opJump:
				b = w.jump(fr, b, 0)
				break instrs
			case opReturn:
				switch len(in.args) {
				case 0:
					fr.ret = Val{}
				case 1:
					fr.ret = get(in.args[0])
				default:
					ti := fr.code.resTI
					a := make([]Val, ti.n)
					for i, x := range in.args {
						v := get(x)
						f := ti.fields[i]
						if !f.ti.agg {
							a[f.off] = v
						} else if v.P != nil {
							copy(a[f.off:], v.P.(*Agg).v)
						}
					}
					fr.ret = Val{P: &Agg{a}}
				}
				return true
			case opNot:
				x := get(in.a)
				if t, ok := x.P.(*Term); ok {
					r[in.dst] = w.fromTerm(w.tc.Not(t))
				} else {
					r[in.dst] = Val{N: x.N ^ 1}
				}
			case opNeg, opCom:
				r[in.dst] = w.unop(in, get(in.a))
			case opConvert:
				r[in.dst] = w.convert(get(in.a), in.ti, in.ti2)
			case opMakeIface:
				r[in.dst] = Val{P: &Iface{in.ti, get(in.a)}}
			case opMakeClosure:
				fv := make([]Val, len(in.args))
				for i, a := range in.args {
					fv[i] = get(a)
				}
				r[in.dst] = Val{P: &Closure{fn: in.aux.(*ssa.Function), fv: fv}}
			case opMakeMap:
				w.seq++
				m := &MapObj{ti: in.ti, idx: map[string]int{}, seq: w.seq, o: w.newObj(1, nil)}
				r[in.dst] = Val{P: m}
			case opMakeChan:
				w.noSpec()
				n := get(in.a)
				w.chanID++
				r[in.dst] = Val{P: &ChanObj{cap: int(n.N), id: w.chanID}}
			case opMakeSlice:
				ts := in.aux.([3]*TI)
				r[in.dst] = w.makeSlice(in.ti, w.idx64(get(in.a), ts[0]), w.idx64(get(in.b), ts[1]))
			case opSlice:
				r[in.dst] = w.slice(in, get(in.a), get(in.b), get(in.c), get(in.d))
			case opLookup:
				r[in.dst] = w.lookup(in, get(in.a), get(in.b))
			case opMapUpdate:
				w.mapUpdate(get(in.a), get(in.b), get(in.c), in.ti)
			case opRange:
				r[in.dst] = w.rangeIter(in, get(in.a))
			case opNext:
				r[in.dst] = w.next(in, get(in.a))
			case opTypeAssert:
				r[in.dst] = w.typeAssert(in, get(in.a))
			case opRunDefers:
				w.runDefers(fr)
			case opDefer:
				w.noSpec()
				d := deferred{in: in}
				if in.flag {
					recv := get(in.a)
					code, cl := w.method(recv, in)
					if cl != nil {
						d.f = Val{P: cl}
					} else {
						d.f = Val{P: &Closure{fn: code.fn}}
						d.args = append(d.args, recv.P.(*Iface).v)
					}
				} else {
					d.f = get(in.a)
				}
				for _, a := range in.args {
					d.args = append(d.args, get(a))
				}
				fr.defers = append(fr.defers, d)
			case opPanic:
				if w.spec > 0 {
					panic(specFail{})
				}
				v := get(in.a)
				panic(&goPanic{val: v, msg: "panic: " + w.describe(v), site: w.where(fr.g)})
			case opGo:
				w.noSpec()
				var f Val
				var args []Val
				if in.flag {
					recv := get(in.a)
					code, cl := w.method(recv, in)
					if cl != nil {
						f = Val{P: cl}
					} else {
						f = Val{P: &Closure{fn: code.fn}}
						args = append(args, recv.P.(*Iface).v)
					}
				} else {
					f = get(in.a)
				}
				for _, a := range in.args {
					args = append(args, get(a))
				}
				w.spawn(fr.g, f, args, in)
			case opSend:
				w.noSpec()
				w.chanSend(fr.g, get(in.a), get(in.b))
			case opRecv:
				w.noSpec()
				v, ok := w.chanRecv(fr.g, get(in.a))
				if in.flag {
					ti := in.ti
					a := make([]Val, ti.n+1)
					if ti.agg {
						if v.P != nil {
							copy(a, v.P.(*Agg).v)
						}
					} else {
						a[0] = v
					}
					a[ti.n] = Val{N: b2u(ok)}
					v = Val{P: &Agg{a}}
				}
				r[in.dst] = v
			case opSelect:
				w.noSpec()
				r[in.dst] = w.doSelect(fr, in)
			case opSliceToArrayPtr:
				s := get(in.a)
				sl, _ := s.P.(*Slice)
				n := in.ti.alen
				if sl == nil {
					if n != 0 {
						w.rtPanic("cannot convert slice with length 0 to array or pointer to array with length %d", n)
					}
					r[in.dst] = Val{}
					break
				}
				if sl.len < n {
					w.rtPanic("cannot convert slice with length %d to array or pointer to array with length %d", sl.len, n)
				}
				r[in.dst] = Val{P: sl.o, N: uint64(sl.off)}
			default:
				w.unsupported("instruction " + in.name)
			}
		}
	}
}

func (w *W) noSpec() {
	if w.spec > 0 {
		panic(specFail{})
	}
}

func (w *W) overBudget() {
	if w.spec > 0 {
		panic(specFail{})
	}
	panic(pathEnd{"budget", "instruction budget " + w.where(w.g)})
}

func (w *W) fromTerm(t *Term) Val {
	if t.op == OConst {
		return Val{N: t.c}
	}
	return Val{P: t}
}

func (w *W) toTerm(v Val, s Sort) *Term {
	if t, ok := v.P.(*Term); ok {
		if t.sort == s {
			return t
		}
		if s == SF32 && t.sort == SInt {
			w.unsupported("exact-integer float mixed with IEEE term")
		}
		w.unsupported(fmt.Sprintf("term sort %d wanted %d", t.sort, s))
	}
	if v.P != nil {
		w.unsupported(fmt.Sprintf("term of %T", v.P))
	}
	return w.tc.Const(s, v.N)
}

// method resolves a dynamic call.
func (w *W) method(recv Val, in *Instr) (*Code, *Closure) {
	ifc, ok := recv.P.(*Iface)
	if !ok {
		if recv.P == nil {
			w.rtPanic("invalid memory address or nil pointer dereference (nil interface method %s)", in.name)
		}
		w.unsupported(fmt.Sprintf("invoke on %T", recv.P))
	}
	fn := w.findMethod(ifc.t, in.aux.(*types.Func))
	if fn == nil {
		w.unsupported(fmt.Sprintf("method %s not found on %s", in.name, ifc.t.t))
	}
	return w.codeOf(fn), nil
}

func (w *W) findMethod(t *TI, m *types.Func) *ssa.Function {
	key := m.Id()
	t.mu.Lock()
	defer t.mu.Unlock()
	if f, ok := t.methods[key]; ok {
		return f
	}
	if t.methods == nil {
		t.methods = map[string]*ssa.Function{}
	}
	w.eng.buildMu.Lock()
	f := w.eng.prog.LookupMethod(t.t, m.Pkg(), m.Name())
	w.eng.buildMu.Unlock()
	t.methods[key] = f
	return f
}

// ---- indexing

func (w *W) idx64(v Val, ti *TI) Val {
	if t, ok := v.P.(*Term); ok {
		if t.sort == 64 {
			return v
		}
		if ti.kind == KInt {
			return w.fromTerm(w.tc.Un(OSext, 64, t))
		}
		return w.fromTerm(w.tc.Un(OZext, 64, t))
	}
	if ti.kind == KInt {
		return Val{N: uint64(sx(v.N, ti.sort))}
	}
	return v
}

// boundIdx checks 0 <= idx < n, panicking (or forking) otherwise.
func (w *W) boundIdx(iv Val, n int) {
	if t, ok := iv.P.(*Term); ok {
		if !w.branchPanic(w.tc.Bin(OULt, t, w.tc.Const(64, uint64(n)))) {
			w.rtPanic("index out of range [symbolic] with length %d", n)
		}
		return
	}
	if iv.N >= uint64(n) {
		w.rtPanic("index out of range [%d] with length %d", int64(iv.N), n)
	}
}

func (w *W) indexAddr(in *Instr, x, i Val) Val {
	iv := w.idx64(i, in.ti2)
	var o *Obj
	var base, n int
	switch p := x.P.(type) {
	case *Slice:
		o, base, n = p.o, p.off, p.len
	case *Obj:
		o, base, n = p, int(x.N), in.n
	case nil:
		if in.flag {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		w.boundIdx(iv, 0)
	case *SymPtr:
		if iv.P == nil {
			w.boundIdx(iv, in.n)
			c := *p
			c.sub += int(iv.N) * in.ti.n
			return Val{P: &c}
		}
		k := int(w.concretize(p.idx))
		o, base, n = p.o, p.base+k*p.esz+p.sub, in.n
	default:
		w.unsupported(fmt.Sprintf("index of %T", x.P))
	}
	w.boundIdx(iv, n)
	if t, ok := iv.P.(*Term); ok {
		if c, ok := w.constOf(t); ok {
			return Val{P: o, N: uint64(base + int(c)*in.ti.n)}
		}
		if n > 4096 {
			k := w.concretize(t)
			return Val{P: o, N: uint64(base + int(k)*in.ti.n)}
		}
		return Val{P: &SymPtr{o: o, base: base, esz: in.ti.n, n: n, idx: t}}
	}
	return Val{P: o, N: uint64(base + int(iv.N)*in.ti.n)}
}

func (w *W) index(in *Instr, x, i Val) Val {
	iv := w.idx64(i, in.ti2)
	if in.ti.kind == KString {
		return w.strIndex(x, iv)
	}
	// array value
	n := in.ti.alen
	w.boundIdx(iv, n)
	e := in.ti.elem
	if x.P == nil {
		return Val{}
	}
	a := x.P.(*Agg)
	if t, ok := iv.P.(*Term); ok {
		tmp := &Obj{s: a.v, seq: w.seq + 1}
		return w.symLoad(&SymPtr{o: tmp, esz: e.n, n: n, idx: t}, e)
	}
	k := int(iv.N)
	if e.agg {
		return Val{P: &Agg{a.v[k*e.n : (k+1)*e.n : (k+1)*e.n]}}
	}
	return a.v[k]
}

func (w *W) strIndex(x, iv Val) Val {
	n := strLen(x)
	w.boundIdx(iv, n)
	if t, ok := iv.P.(*Term); ok {
		if c, ok := w.constOf(t); ok {
			return strAt(x, int(c))
		}
		if n > 512 {
			return strAt(x, int(w.concretize(t)))
		}
		ks := w.feasibleIdx(t, n)
		if len(ks) == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		res := w.toTerm(strAt(x, ks[len(ks)-1]), 8)
		for i := len(ks) - 2; i >= 0; i-- {
			res = w.tc.Ite(w.tc.Eq(t, w.tc.Const(64, uint64(ks[i]))), w.toTerm(strAt(x, ks[i]), 8), res)
		}
		return w.fromTerm(res)
	}
	return strAt(x, int(iv.N))
}

func (w *W) makeSlice(elem *TI, l, c Val) Val {
	n := w.sizeOf(l, "makeslice: len", elem)
	cp := n
	if c != l {
		cp = w.sizeOf(c, "makeslice: cap", elem)
		if cp < n {
			w.rtPanic("makeslice: cap out of range")
		}
	}
	return Val{P: &Slice{o: w.newObj(cp*elem.n, elem), len: n, cap: cp, esz: elem.n}}
}

// sizeOf makes an allocation size concrete, checking the allocation limit.
func (w *W) sizeOf(v Val, what string, elem *TI) int {
	if t, ok := v.P.(*Term); ok {
		if w.allocLimit > 0 {
			lim := uint64(w.allocLimit / int64(max(1, elem.n)))
			if !w.branch(w.tc.Bin(OULe, t, w.tc.Const(64, lim))) {
				w.violation("alloc", fmt.Sprintf("%s not bounded by the input", what))
			}
		}
		v.N = w.concretize(t)
	}
	if int64(v.N) < 0 || v.N > 1<<40 {
		w.rtPanic("%s out of range", what)
	}
	if int64(v.N)*int64(elem.n) > 1<<24 {
		if w.allocLimit > 0 {
			w.violation("alloc", fmt.Sprintf("%s not bounded by the input", what))
		}
		w.unsupported("allocation too large")
	}
	if w.allocLimit > 0 && int64(v.N)*int64(elem.n) > w.allocLimit {
		w.violation("alloc", fmt.Sprintf("%s not bounded by the input", what))
	}
	return int(v.N)
}

func (w *W) slice(in *Instr, x, lo, hi, mx Val) Val {
	ts := in.aux.([3]*TI)
	opt := func(v Val, def, k int) int {
		if _, ok := v.P.(noOperand); ok {
			return def
		}
		v = w.idx64(v, ts[k])
		if t, ok := v.P.(*Term); ok {
			return int(int64(w.concretize(t)))
		}
		return int(int64(v.N))
	}
	switch in.ti.kind {
	case KString:
		n := strLen(x)
		l := opt(lo, 0, 0)
		h := opt(hi, n, 1)
		if h < 0 || h > n {
			w.rtPanic("slice bounds out of range [:%d] with length %d", h, n)
		}
		if l < 0 || l > h {
			w.rtPanic("slice bounds out of range [%d:%d]", l, h)
		}
		return strSub(x, l, h)
	case KSlice:
		s, _ := x.P.(*Slice)
		if s == nil {
			l, h := opt(lo, 0, 0), opt(hi, 0, 1)
			m := opt(mx, 0, 2)
			if l != 0 || h != 0 || m != 0 {
				w.rtPanic("slice bounds out of range [%d:%d] with capacity 0", l, h)
			}
			return x
		}
		l, h, m := opt(lo, 0, 0), opt(hi, s.len, 1), opt(mx, s.cap, 2)
		w.sliceBounds(l, h, m, s.cap)
		return Val{P: &Slice{o: s.o, off: s.off + l*s.esz, len: h - l, cap: m - l, esz: s.esz}}
	case KPtr:
		at := in.ti.elem
		if x.P == nil {
			w.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := x.P.(*Obj)
		if !ok {
			w.unsupported("slice of symbolic array pointer")
		}
		l, h, m := opt(lo, 0, 0), opt(hi, at.alen, 1), opt(mx, at.alen, 2)
		w.sliceBounds(l, h, m, at.alen)
		e := at.elem.n
		return Val{P: &Slice{o: o, off: int(x.N) + l*e, len: h - l, cap: m - l, esz: e}}
	}
	w.unsupported("slice of " + in.ti.t.String())
	return Val{}
}

func (w *W) sliceBounds(l, h, m, c int) {
	if m < 0 || m > c {
		w.rtPanic("slice bounds out of range [::%d] with capacity %d", m, c)
	}
	if h < 0 || h > m {
		w.rtPanic("slice bounds out of range [:%d] with capacity %d", h, m)
	}
	if l < 0 || l > h {
		w.rtPanic("slice bounds out of range [%d:%d]", l, h)
	}
}

// ---- operators

func (w *W) unop(in *Instr, x Val) Val {
	ti := in.ti
	if t, ok := x.P.(*Term); ok {
		switch {
		case in.op == opCom:
			return w.fromTerm(w.tc.Un(OBNot, t.sort, t))
		case t.sort == SInt:
			return w.fromTerm(w.tc.Un(OINeg, SInt, t))
		case ti.kind == KFloat:
			return w.fromTerm(w.tc.Un(OFNeg, t.sort, t))
		default:
			return w.fromTerm(w.tc.Un(ONeg, t.sort, t))
		}
	}
	if x.P != nil {
		w.unsupported("unary operator on opaque value")
	}
	if in.op == opCom {
		return Val{N: ^x.N & mask(ti.sort)}
	}
	if ti.kind == KFloat {
		if ti.sort == SF32 {
			return Val{N: x.N ^ 1<<31}
		}
		return Val{N: x.N ^ 1<<63}
	}
	return Val{N: -x.N & mask(ti.sort)}
}

func (w *W) binop(in *Instr, x, y Val) Val {
	ti := in.ti
	switch ti.kind {
	case KInt, KUint:
		if x.P == nil && y.P == nil {
			return w.intBin(in, x.N, y.N)
		}
		return w.symIntBin(in, x, y)
	case KFloat:
		return w.floatBin(in, x, y)
	case KBool:
		if x.P == nil && y.P == nil {
			switch in.tok {
			case token.EQL:
				return Val{N: b2u(x.N == y.N)}
			case token.NEQ:
				return Val{N: b2u(x.N != y.N)}
			case token.AND:
				return Val{N: x.N & y.N}
			case token.OR:
				return Val{N: x.N | y.N}
			}
		}
		a, b := w.toTerm(x, SBool), w.toTerm(y, SBool)
		switch in.tok {
		case token.EQL:
			return w.fromTerm(w.tc.Eq(a, b))
		case token.NEQ:
			return w.fromTerm(w.tc.Not(w.tc.Eq(a, b)))
		case token.AND:
			return w.fromTerm(w.tc.And(a, b))
		case token.OR:
			return w.fromTerm(w.tc.Or(a, b))
		}
	case KString:
		return w.strBin(in.tok, x, y)
	}
	switch in.tok {
	case token.EQL:
		return w.fromTerm(w.eqVal(x, y, ti, in.ti2))
	case token.NEQ:
		return w.fromTerm(w.tc.Not(w.eqVal(x, y, ti, in.ti2)))
	}
	w.unsupported("binop " + in.tok.String() + " on " + ti.t.String())
	return Val{}
}

func (w *W) intBin(in *Instr, a, b uint64) Val {
	s := in.ti.sort
	sg := in.ti.kind == KInt
	m := mask(s)
	switch in.tok {
	case token.ADD:
		return Val{N: (a + b) & m}
	case token.SUB:
		return Val{N: (a - b) & m}
	case token.MUL:
		return Val{N: (a * b) & m}
	case token.QUO, token.REM:
		if b == 0 {
			w.rtPanic("integer divide by zero")
		}
		if sg {
			x, y := sx(a, s), sx(b, s)
			if y == -1 {
				if in.tok == token.QUO {
					return Val{N: uint64(-x) & m}
				}
				return Val{}
			}
			if in.tok == token.QUO {
				return Val{N: uint64(x/y) & m}
			}
			return Val{N: uint64(x%y) & m}
		}
		if in.tok == token.QUO {
			return Val{N: a / b}
		}
		return Val{N: a % b}
	case token.AND:
		return Val{N: a & b}
	case token.OR:
		return Val{N: a | b}
	case token.XOR:
		return Val{N: a ^ b}
	case token.AND_NOT:
		return Val{N: a &^ b}
	case token.SHL, token.SHR:
		if in.ti2.kind == KInt {
			sb := sx(b, in.ti2.sort)
			if sb < 0 {
				w.rtPanic("negative shift amount")
			}
			b = uint64(sb)
		}
		if in.tok == token.SHL {
			if b >= 64 {
				return Val{}
			}
			return Val{N: (a << b) & m}
		}
		if sg {
			if b > 63 {
				b = 63
			}
			return Val{N: uint64(sx(a, s)>>b) & m}
		}
		if b >= 64 {
			return Val{}
		}
		return Val{N: a >> b}
	case token.EQL:
		return Val{N: b2u(a == b)}
	case token.NEQ:
		return Val{N: b2u(a != b)}
	case token.LSS:
		if sg {
			return Val{N: b2u(sx(a, s) < sx(b, s))}
		}
		return Val{N: b2u(a < b)}
	case token.LEQ:
		if sg {
			return Val{N: b2u(sx(a, s) <= sx(b, s))}
		}
		return Val{N: b2u(a <= b)}
	case token.GTR:
		if sg {
			return Val{N: b2u(sx(a, s) > sx(b, s))}
		}
		return Val{N: b2u(a > b)}
	case token.GEQ:
		if sg {
			return Val{N: b2u(sx(a, s) >= sx(b, s))}
		}
		return Val{N: b2u(a >= b)}
	}
	w.unsupported("int op " + in.tok.String())
	return Val{}
}

func (w *W) symIntBin(in *Instr, x, y Val) Val {
	// opaque uintptr arithmetic (noescape idiom)
	if _, ok := x.P.(*Obj); ok {
		if y.P == nil && y.N == 0 && (in.tok == token.XOR || in.tok == token.ADD || in.tok == token.OR) {
			return x
		}
		w.unsupported("pointer arithmetic")
	}
	s := in.ti.sort
	sg := in.ti.kind == KInt
	tc := w.tc
	a := w.toTerm(x, s)
	if in.tok == token.SHL || in.tok == token.SHR {
		var b *Term
		if t, ok := y.P.(*Term); ok {
			if in.ti2.kind == KInt {
				if !w.branchPanic(tc.Not(tc.Bin(OSLt, t, tc.Const(t.sort, 0)))) {
					w.rtPanic("negative shift amount")
				}
			}
			switch {
			case t.sort == s:
				b = t
			case t.sort < s:
				b = tc.Un(OZext, s, t)
			default:
				// saturate
				lim := tc.Const(t.sort, uint64(s))
				b = tc.Un(OTrunc, s, tc.Ite(tc.Bin(OULt, t, lim), t, lim))
			}
		} else {
			n := y.N
			if in.ti2.kind == KInt && sx(n, in.ti2.sort) < 0 {
				w.rtPanic("negative shift amount")
			}
			if n > uint64(s) {
				n = uint64(s)
			}
			b = tc.Const(s, n)
		}
		switch {
		case in.tok == token.SHL:
			return w.fromTerm(tc.Bin(OShl, a, b))
		case sg:
			return w.fromTerm(tc.Bin(OAShr, a, b))
		default:
			return w.fromTerm(tc.Bin(OLShr, a, b))
		}
	}
	b := w.toTerm(y, s)
	sel := func(u, sgn Op) Op {
		if sg {
			return sgn
		}
		return u
	}
	switch in.tok {
	case token.ADD:
		return w.fromTerm(tc.Bin(OAdd, a, b))
	case token.SUB:
		return w.fromTerm(tc.Bin(OSub, a, b))
	case token.MUL:
		return w.fromTerm(tc.Bin(OMul, a, b))
	case token.QUO, token.REM:
		if !w.branchPanic(tc.Not(tc.Eq(b, tc.Const(s, 0)))) {
			w.rtPanic("integer divide by zero")
		}
		if in.tok == token.QUO {
			return w.fromTerm(tc.Bin(sel(OUDiv, OSDiv), a, b))
		}
		return w.fromTerm(tc.Bin(sel(OURem, OSRem), a, b))
	case token.AND:
		return w.fromTerm(tc.Bin(OBAnd, a, b))
	case token.OR:
		return w.fromTerm(tc.Bin(OBOr, a, b))
	case token.XOR:
		return w.fromTerm(tc.Bin(OBXor, a, b))
	case token.AND_NOT:
		return w.fromTerm(tc.Bin(OBAnd, a, tc.Un(OBNot, s, b)))
	case token.EQL:
		return w.fromTerm(tc.Eq(a, b))
	case token.NEQ:
		return w.fromTerm(tc.Not(tc.Eq(a, b)))
	case token.LSS:
		return w.fromTerm(tc.Bin(sel(OULt, OSLt), a, b))
	case token.LEQ:
		return w.fromTerm(tc.Bin(sel(OULe, OSLe), a, b))
	case token.GTR:
		return w.fromTerm(tc.Bin(sel(OULt, OSLt), b, a))
	case token.GEQ:
		return w.fromTerm(tc.Bin(sel(OULe, OSLe), b, a))
	}
	w.unsupported("int op " + in.tok.String())
	return Val{}
}

// sintOf converts a float value to an exact-integer term when the other side is one.
func (w *W) sintOf(v Val, s Sort) *Term {
	if t, ok := v.P.(*Term); ok {
		if t.sort == SInt {
			return t
		}
		w.unsupported("exact-integer float mixed with IEEE term")
	}
	var f float64
	if s == SF32 {
		f = float64(f32(v.N))
	} else {
		f = f64(v.N)
	}
	if f != math.Trunc(f) || math.Abs(f) > 1<<24 {
		if math.Abs(f) >= math.MaxFloat32 || math.IsInf(f, 0) {
			// used as +-infinity marker in comparisons only
			if f > 0 {
				return w.tc.Const(SInt, 1<<40)
			}
			return w.tc.Const(SInt, ^uint64(0)-(1<<40)+1)
		}
		w.unsupported("non-integer float mixed with exact-integer float")
	}
	return w.tc.Const(SInt, uint64(int64(f)))
}

// sintable says whether v can take part in exact-integer arithmetic.
func (w *W) sintable(v Val, s Sort) bool {
	if v.P != nil {
		return isSInt(v)
	}
	f := f64(v.N)
	if s == SF32 {
		f = float64(f32(v.N))
	}
	return f == math.Trunc(f) && math.Abs(f) <= 1<<24 || math.Abs(f) >= math.MaxFloat32
}

// pinSInt replaces an exact-integer float by a few of its possible values, so
// that operations that leave the integers go on with them. The rest counts as
// not explored.
func (w *W) pinSInt(v Val, s Sort) Val {
	if !isSInt(v) {
		return v
	}
	t := v.P.(*Term)
	c, ok := w.constOf(t)
	if !ok {
		w.noSpec()
		for n := 0; !ok; n++ {
			if n > 1 {
				w.unsupported("exact-integer float leaves the integers")
			}
			if w.replaying() {
				c = w.nextDec('p').v
			} else {
				w.ensureModel()
				e, evaled := w.tc.Eval(t)
				if !evaled {
					w.unsupported("cannot evaluate term")
				}
				c = e
				w.record(Dec{'p', false, c})
			}
			if w.branch(w.tc.Eq(t, w.tc.Const(t.sort, c))) {
				w.setConc(t, c)
				ok = true
			}
		}
	}
	f := float64(int64(c))
	if s == SF32 {
		return Val{N: uint64(math.Float32bits(float32(f)))}
	}
	return Val{N: math.Float64bits(f)}
}

func isSInt(v Val) bool {
	t, ok := v.P.(*Term)
	return ok && t.sort == SInt
}

func (w *W) floatBin(in *Instr, x, y Val) Val {
	s := in.ti.sort
	tc := w.tc
	if isSInt(x) || isSInt(y) {
		if in.tok == token.QUO || !w.sintable(x, s) || !w.sintable(y, s) {
			return w.floatBin(in, w.pinSInt(x, s), w.pinSInt(y, s))
		}
		a, b := w.sintOf(x, s), w.sintOf(y, s)
		var r *Term
		switch in.tok {
		case token.ADD:
			r = tc.Bin(OIAdd, a, b)
		case token.SUB:
			r = tc.Bin(OISub, a, b)
		case token.MUL:
			r = tc.Bin(OIMul, a, b)
		case token.EQL:
			return w.fromTerm(tc.Eq(a, b))
		case token.NEQ:
			return w.fromTerm(tc.Not(tc.Eq(a, b)))
		case token.LSS:
			return w.fromTerm(tc.Bin(OILt, a, b))
		case token.LEQ:
			return w.fromTerm(tc.Bin(OILe, a, b))
		case token.GTR:
			return w.fromTerm(tc.Bin(OILt, b, a))
		case token.GEQ:
			return w.fromTerm(tc.Bin(OILe, b, a))
		default:
			w.unsupported("float op on exact-integer float")
		}
		lo, hi := tc.irange(r)
		if lim := int64(1) << 24; s == SF32 && (lo < -lim || hi > lim) {
			return w.floatBin(in, w.pinSInt(x, s), w.pinSInt(y, s))
		}
		if r.op == OConst {
			f := float64(int64(r.c))
			if s == SF32 {
				return Val{N: uint64(math.Float32bits(float32(f)))}
			}
			return Val{N: math.Float64bits(f)}
		}
		return Val{P: r}
	}
	if x.P == nil && y.P == nil {
		var op Op
		a, b := x.N, y.N
		switch in.tok {
		case token.ADD:
			op = OFAdd
		case token.SUB:
			op = OFSub
		case token.MUL:
			op = OFMul
		case token.QUO:
			op = OFDiv
		case token.EQL:
			op = OFEq
		case token.NEQ:
			r, _ := evalBin(OFEq, s, a, b)
			return Val{N: r ^ 1}
		case token.LSS:
			op = OFLt
		case token.LEQ:
			op = OFLe
		case token.GTR:
			op, a, b = OFLt, b, a
		case token.GEQ:
			op, a, b = OFLe, b, a
		}
		r, _ := evalBin(op, s, a, b)
		return Val{N: r}
	}
	a, b := w.toTerm(x, s), w.toTerm(y, s)
	switch in.tok {
	case token.ADD:
		return w.fromTerm(tc.Bin(OFAdd, a, b))
	case token.SUB:
		return w.fromTerm(tc.Bin(OFSub, a, b))
	case token.MUL:
		return w.fromTerm(tc.Bin(OFMul, a, b))
	case token.QUO:
		return w.fromTerm(tc.Bin(OFDiv, a, b))
	case token.EQL:
		return w.fromTerm(tc.Bin(OFEq, a, b))
	case token.NEQ:
		return w.fromTerm(tc.Not(tc.Bin(OFEq, a, b)))
	case token.LSS:
		return w.fromTerm(tc.Bin(OFLt, a, b))
	case token.LEQ:
		return w.fromTerm(tc.Bin(OFLe, a, b))
	case token.GTR:
		return w.fromTerm(tc.Bin(OFLt, b, a))
	case token.GEQ:
		return w.fromTerm(tc.Bin(OFLe, b, a))
	}
	w.unsupported("float op " + in.tok.String())
	return Val{}
}

func (w *W) strEq(x, y Val) *Term {
	xs, ok1 := x.P.(string)
	ys, ok2 := y.P.(string)
	if (ok1 || x.P == nil) && (ok2 || y.P == nil) {
		return w.tc.Bool(xs == ys)
	}
	if w.hasAtom(x) || w.hasAtom(y) {
		return w.atomStrEq(x, y)
	}
	n := strLen(x)
	if n != strLen(y) {
		return w.tc.fls
	}
	r := w.tc.tru
	for i := n - 1; i >= 0; i-- {
		a, b := strAt(x, i), strAt(y, i)
		if a.P == nil && b.P == nil {
			if a.N != b.N {
				return w.tc.fls
			}
			continue
		}
		r = w.tc.And(w.tc.Eq(w.toTerm(a, 8), w.toTerm(b, 8)), r)
		if r == w.tc.fls {
			return r
		}
	}
	return r
}

func (w *W) strBin(op token.Token, x, y Val) Val {
	switch op {
	case token.ADD:
		if strLen(x) == 0 {
			return y
		}
		if strLen(y) == 0 {
			return x
		}
		xs, ok1 := x.P.(string)
		ys, ok2 := y.P.(string)
		if ok1 && ok2 {
			return Val{P: xs + ys}
		}
		b := append(append([]Val(nil), strBytes(x)...), strBytes(y)...)
		return mkSStr(b)
	case token.EQL:
		return w.fromTerm(w.strEq(x, y))
	case token.NEQ:
		return w.fromTerm(w.tc.Not(w.strEq(x, y)))
	}
	xs, ok1 := concStr(x)
	ys, ok2 := concStr(y)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return Val{N: b2u(xs < ys)}
		case token.LEQ:
			return Val{N: b2u(xs <= ys)}
		case token.GTR:
			return Val{N: b2u(xs > ys)}
		case token.GEQ:
			return Val{N: b2u(xs >= ys)}
		}
	}
	switch op {
	case token.LSS:
		return w.fromTerm(w.strLess(x, y))
	case token.GTR:
		return w.fromTerm(w.strLess(y, x))
	case token.LEQ:
		return w.fromTerm(w.tc.Not(w.strLess(y, x)))
	case token.GEQ:
		return w.fromTerm(w.tc.Not(w.strLess(x, y)))
	}
	w.unsupported("string op " + op.String())
	return Val{}
}

func (w *W) strLess(x, y Val) *Term {
	n, m := strLen(x), strLen(y)
	k := min(n, m)
	r := w.tc.Bool(n < m)
	for i := k - 1; i >= 0; i-- {
		a, b := w.toTerm(strAt(x, i), 8), w.toTerm(strAt(y, i), 8)
		r = w.tc.Or(w.tc.Bin(OULt, a, b), w.tc.And(w.tc.Eq(a, b), r))
	}
	return r
}

// eqVal compares two values of (static) type ti.
func (w *W) eqVal(x, y Val, ti, ti2 *TI) *Term {
	tc := w.tc
	switch ti.kind {
	case KBool, KInt, KUint:
		if x.P == nil && y.P == nil {
			return tc.Bool(x.N == y.N)
		}
		return tc.Eq(w.toTerm(x, ti.sort), w.toTerm(y, ti.sort))
	case KFloat:
		r := w.floatBin(&Instr{ti: ti, tok: token.EQL}, x, y)
		return w.toTerm(r, SBool)
	case KString:
		return w.strEq(x, y)
	case KPtr, KUnsafe, KChan, KFunc, KMap, KSlice:
		if ti.kind == KPtr || ti.kind == KUnsafe {
			if sp, ok := x.P.(*SymPtr); ok {
				return w.symPtrEq(sp, y)
			}
			if sp, ok := y.P.(*SymPtr); ok {
				return w.symPtrEq(sp, x)
			}
			return tc.Bool(x.P == y.P && (x.P == nil || x.N == y.N))
		}
		if x.P == nil || y.P == nil {
			return tc.Bool(x.P == nil && y.P == nil)
		}
		if ti.kind == KFunc || ti.kind == KSlice {
			w.unsupported("comparison of funcs/slices")
		}
		return tc.Bool(x.P == y.P)
	case KIface:
		if ti2 != nil && ti2.kind != KIface && ti2.kind != KUnsafe {
			y = Val{P: &Iface{ti2, y}}
		}
		return w.eqIface(x, y)
	case KStruct, KArray:
		if ti2 != nil && ti2.kind == KIface {
			return w.eqIface(Val{P: &Iface{ti, x}}, y)
		}
		r := tc.tru
		if ti.kind == KStruct {
			st := ti.t.Underlying().(*types.Struct)
			for i, f := range ti.fields {
				if st.Field(i).Name() == "_" {
					continue
				}
				r = tc.And(r, w.eqVal(aggSub(x, f.off, f.ti), aggSub(y, f.off, f.ti), f.ti, nil))
				if r == tc.fls {
					return r
				}
			}
			return r
		}
		for i := 0; i < ti.alen; i++ {
			r = tc.And(r, w.eqVal(aggSub(x, i*ti.elem.n, ti.elem), aggSub(y, i*ti.elem.n, ti.elem), ti.elem, nil))
			if r == tc.fls {
				return r
			}
		}
		return r
	}
	w.unsupported("comparison of " + ti.t.String())
	return nil
}

func (w *W) symPtrEq(sp *SymPtr, y Val) *Term {
	if y.P == nil {
		return w.tc.fls
	}
	w.unsupported("comparison of symbolic pointers")
	return nil
}

func (w *W) eqIface(x, y Val) *Term {
	if x.P == nil || y.P == nil {
		return w.tc.Bool(x.P == nil && y.P == nil)
	}
	a, b := x.P.(*Iface), y.P.(*Iface)
	if a.t != b.t {
		return w.tc.fls
	}
	if !types.Comparable(a.t.t) {
		w.rtPanic("comparing uncomparable type %s", a.t.t)
	}
	return w.eqVal(a.v, b.v, a.t, nil)
}

func aggSub(v Val, off int, ti *TI) Val {
	if v.P == nil {
		return Val{}
	}
	a := v.P.(*Agg)
	if ti.agg {
		return Val{P: &Agg{a.v[off : off+ti.n : off+ti.n]}}
	}
	return a.v[off]
}

// ---- conversions

func (w *W) convert(x Val, from, to *TI) Val {
	tc := w.tc
	isInt := func(t *TI) bool { return t.kind == KInt || t.kind == KUint }
	switch {
	case isInt(from) && isInt(to):
		t, ok := x.P.(*Term)
		if !ok {
			if x.P != nil {
				return x // opaque pointer
			}
			return Val{N: uint64(sxk(x.N, from)) & mask(to.sort)}
		}
		return w.fromTerm(w.intConv(t, from.kind == KInt, to.sort))
	case isInt(from) && to.kind == KFloat:
		t, ok := x.P.(*Term)
		if !ok {
			var f float64
			if from.kind == KInt {
				v := sx(x.N, from.sort)
				if to.sort == SF32 {
					return Val{N: uint64(math.Float32bits(float32(v)))}
				}
				f = float64(v)
			} else {
				if to.sort == SF32 {
					return Val{N: uint64(math.Float32bits(float32(x.N)))}
				}
				f = float64(x.N)
			}
			return Val{N: math.Float64bits(f)}
		}
		op := OUToF
		if from.kind == KInt {
			op = OSToF
		}
		return w.fromTerm(tc.Un(op, to.sort, t))
	case from.kind == KFloat && isInt(to):
		return w.floatToInt(x, from, to)
	case from.kind == KFloat && to.kind == KFloat:
		if t, ok := x.P.(*Term); ok {
			if t.sort == SInt {
				return x
			}
			return w.fromTerm(tc.Un(OFConv, to.sort, t))
		}
		if from.sort == to.sort {
			return x
		}
		if to.sort == SF32 {
			return Val{N: uint64(math.Float32bits(float32(f64(x.N))))}
		}
		return Val{N: math.Float64bits(float64(f32(x.N)))}
	case from.kind == KString && to.kind == KString:
		return x
	case from.kind == KString && to.kind == KSlice:
		if to.elem.sort == 8 {
			b := strBytes(x)
			o := w.newObj(len(b), to.elem)
			copy(o.s, b)
			return Val{P: &Slice{o: o, len: len(b), cap: len(b), esz: 1}}
		}
		var rs []Val
		for i := 0; i < strLen(x); {
			rv, n := w.decodeRune(x, i)
			rs = append(rs, rv)
			i += n
		}
		o := w.newObj(len(rs), to.elem)
		copy(o.s, rs)
		return Val{P: &Slice{o: o, len: len(rs), cap: len(rs), esz: 1}}
	case from.kind == KSlice && to.kind == KString:
		sl, _ := x.P.(*Slice)
		if sl == nil {
			return Val{}
		}
		if from.elem.sort == 8 {
			if w.racing {
				w.raceRead(sl.o, sl.off, sl.len)
			}
			b := make([]Val, sl.len)
			copy(b, sl.o.s[sl.off:sl.off+sl.len])
			return mkSStr(b)
		}
		var out []Val
		for i := 0; i < sl.len; i++ {
			out = append(out, w.encodeRune(sl.o.s[sl.off+i])...)
		}
		return mkSStr(out)
	case isInt(from) && to.kind == KString:
		if from.sort != 32 {
			x = w.convert(x, from, w.eng.tiRune)
		}
		return mkSStr(w.encodeRune(x))
	case to.kind == KUnsafe || from.kind == KUnsafe:
		if isInt(to) || isInt(from) {
			return x
		}
		return x
	case from.kind == to.kind:
		return x
	}
	w.unsupported(fmt.Sprintf("conversion %s -> %s", from.t, to.t))
	return Val{}
}

func sxk(v uint64, ti *TI) int64 {
	if ti.kind == KInt {
		return sx(v, ti.sort)
	}
	return int64(v)
}

func (w *W) intConv(t *Term, signed bool, to Sort) *Term {
	switch {
	case t.sort == to:
		return t
	case t.sort > to:
		return w.tc.Un(OTrunc, to, t)
	case signed:
		return w.tc.Un(OSext, to, t)
	}
	return w.tc.Un(OZext, to, t)
}

func goF2I(f float64, to *TI) uint64 {
	if to.kind == KInt {
		switch to.sort {
		case 8:
			return uint64(int8(f)) & 0xff
		case 16:
			return uint64(int16(f)) & 0xffff
		case 32:
			return uint64(int32(f)) & 0xffffffff
		}
		return uint64(int64(f))
	}
	switch to.sort {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

func goF2I32(f float32, to *TI) uint64 {
	if to.kind == KInt {
		switch to.sort {
		case 8:
			return uint64(int8(f)) & 0xff
		case 16:
			return uint64(int16(f)) & 0xffff
		case 32:
			return uint64(int32(f)) & 0xffffffff
		}
		return uint64(int64(f))
	}
	switch to.sort {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}

func (w *W) floatToInt(x Val, from, to *TI) Val {
	t, ok := x.P.(*Term)
	if !ok {
		if from.sort == SF32 {
			return Val{N: goF2I32(f32(x.N), to)}
		}
		return Val{N: goF2I(f64(x.N), to)}
	}
	tc := w.tc
	if t.sort == SInt {
		w.unsupported("exact-integer float to int")
	}
	bits := int(to.sort)
	var lo, hi float64
	if to.kind == KInt {
		lo, hi = -math.Ldexp(1, bits-1), math.Ldexp(1, bits-1)
	} else {
		lo, hi = -1, math.Ldexp(1, bits)
	}
	fc := func(f float64) *Term {
		if from.sort == SF32 {
			return tc.Const(SF32, uint64(math.Float32bits(float32(f))))
		}
		return tc.Const(SF64, math.Float64bits(f))
	}
	var inr *Term
	op := OFToS
	if to.kind == KInt {
		// trunc(x) >= lo: for 64/32-bit from float32, lo is representable: lo <= x
		inr = tc.And(tc.Bin(OFLe, fc(lo), t), tc.Bin(OFLt, t, fc(hi)))
		if from.sort == SF64 && bits < 64 {
			inr = tc.And(tc.Bin(OFLt, fc(lo-1), t), tc.Bin(OFLt, t, fc(hi)))
		}
	} else {
		op = OFToU
		inr = tc.And(tc.Bin(OFLt, fc(lo), t), tc.Bin(OFLt, t, fc(hi)))
	}
	if w.branch(inr) {
		return w.fromTerm(tc.Un(op, to.sort, t))
	}
	// out of range: implementation-defined; use what this machine does for the class
	var res func(f float64) uint64
	if from.sort == SF32 {
		res = func(f float64) uint64 { return goF2I32(float32(f), to) }
	} else {
		res = func(f float64) uint64 { return goF2I(f, to) }
	}
	if w.branch(tc.Un(OFIsNaN, SBool, t)) {
		return Val{N: res(math.NaN())}
	}
	if to.sort < 64 && !(to.kind == KInt && to.sort == 32) {
		w.unsupported("narrow out-of-range float to int conversion")
	}
	if w.branch(tc.Bin(OFLt, t, fc(0))) {
		return Val{N: res(-1e30)}
	}
	return Val{N: res(1e30)}
}

// ---- interfaces

func (w *W) implements(t *TI, it *TI) bool {
	t.mu.Lock()
	defer t.mu.Unlock()
	if r, ok := t.impl[it]; ok {
		return r
	}
	if t.impl == nil {
		t.impl = map[*TI]bool{}
	}
	iface := it.t.Underlying().(*types.Interface)
	r := types.Implements(t.t, iface)
	t.impl[it] = r
	return r
}

func (w *W) typeAssert(in *Instr, x Val) Val {
	ok := false
	var v Val
	ifc, _ := x.P.(*Iface)
	if ifc != nil {
		if in.ti.kind == KIface {
			if ok = w.implements(ifc.t, in.ti); ok {
				v = x
			}
		} else if ifc.t == in.ti {
			ok, v = true, ifc.v
		}
	} else if x.P != nil {
		w.unsupported(fmt.Sprintf("type assert on %T", x.P))
	}
	if !in.flag {
		if !ok {
			dyn := "nil"
			if ifc != nil {
				dyn = ifc.t.t.String()
			}
			w.rtPanic("interface conversion: interface is %s, not %s", dyn, in.ti.t)
		}
		return v
	}
	n := in.ti.n
	a := make([]Val, n+1)
	if in.ti.agg {
		if v.P != nil {
			copy(a, v.P.(*Agg).v)
		}
	} else if n > 0 {
		a[0] = v
	}
	a[n] = Val{N: b2u(ok)}
	return Val{P: &Agg{a}}
}

func (w *W) describe(v Val) string {
	ifc, ok := v.P.(*Iface)
	if !ok {
		return fmt.Sprintf("%T", v.P)
	}
	if ifc.t.kind == KString {
		if s, ok := concStr(ifc.v); ok {
			return s
		}
	}
	return ifc.t.t.String()
}

// ---- maps

func (w *W) mapKey(k Val, ti *TI) (string, bool) {
	switch ti.kind {
	case KBool, KInt, KUint:
		if k.P == nil {
			return fmt.Sprintf("%d", k.N), true
		}
		if t, ok := k.P.(*Term); ok {
			if c, ok := w.constOf(t); ok {
				return fmt.Sprintf("%d", c), true
			}
		}
		return "", false
	case KFloat:
		if k.P == nil {
			n := k.N
			var f float64
			if ti.sort == SF32 {
				f = float64(f32(n))
			} else {
				f = f64(n)
			}
			if f != f {
				w.unsupported("NaN map key")
			}
			if f == 0 {
				return "f0", true
			}
			return fmt.Sprintf("f%x", n), true
		}
		return "", false
	case KString:
		s, ok := concStr(k)
		return "s" + s, ok
	case KPtr, KChan, KUnsafe:
		return fmt.Sprintf("p%p.%d", k.P, k.N), true
	case KIface:
		if k.P == nil {
			return "nil", true
		}
		ifc := k.P.(*Iface)
		if !types.Comparable(ifc.t.t) {
			w.rtPanic("hash of unhashable type %s", ifc.t.t)
		}
		s, ok := w.mapKey(ifc.v, ifc.t)
		return fmt.Sprintf("i%d:%s", ifc.t.id, s), ok
	case KStruct:
		var sb strings.Builder
		for _, f := range ti.fields {
			s, ok := w.mapKey(aggSub(k, f.off, f.ti), f.ti)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s|", len(s), s)
		}
		return sb.String(), true
	case KArray:
		var sb strings.Builder
		for i := 0; i < ti.alen; i++ {
			s, ok := w.mapKey(aggSub(k, i*ti.elem.n, ti.elem), ti.elem)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s|", len(s), s)
		}
		return sb.String(), true
	}
	w.unsupported("map key " + ti.t.String())
	return "", false
}

// find locates an entry, forking on symbolic key comparisons.
func (w *W) mapFind(m *MapObj, k Val) *MapEnt {
	kt := m.ti.key
	ks, conc := w.mapKey(k, kt)
	if conc {
		if i, ok := m.idx[ks]; ok {
			return m.ents[i]
		}
		if m.sym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		if conc {
			if e.conc {
				continue
			}
		}
		t := w.eqVal(k, e.k, kt, nil)
		if w.branch(t) {
			return e
		}
	}
	return nil
}

func (w *W) lookup(in *Instr, x, k Val) Val {
	if in.ti.kind == KString {
		return w.strIndex(x, w.idx64(k, in.ti2))
	}
	m, _ := x.P.(*MapObj)
	var v Val
	ok := false
	if m != nil {
		if w.racing {
			w.raceRead(m.o, 0, 1)
		}
		if e := w.mapFind(m, k); e != nil {
			v, ok = e.v, true
		}
	} else {
		w.mapKey(k, in.ti.key)
	}
	if !in.flag {
		return v
	}
	et := in.ti.elem
	a := make([]Val, et.n+1)
	if et.agg {
		if v.P != nil {
			copy(a, v.P.(*Agg).v)
		}
	} else if et.n > 0 {
		a[0] = v
	}
	a[et.n] = Val{N: b2u(ok)}
	return Val{P: &Agg{a}}
}

// mapTouch prepares a map for modification.
func (w *W) mapTouch(m *MapObj) {
	if w.spec > 0 && m.seq < w.jseq {
		panic(specFail{})
	}
	if w.racing {
		w.raceWrite(m.o, 0, 1)
	}
	if m.seq < w.jseq {
		// save a full copy once per path
		save := *m
		save.ents = make([]*MapEnt, len(m.ents))
		for i, e := range m.ents {
			c := *e
			save.ents[i] = &c
		}
		save.idx = make(map[string]int, len(m.idx))
		for k, v := range m.idx {
			save.idx[k] = v
		}
		old := m.seq
		w.journal = append(w.journal, jent{f: func() { *m = save; m.seq = old }})
		m.seq = w.jseq
	}
}

func (w *W) mapUpdate(x, k, v Val, ti *TI) {
	m, _ := x.P.(*MapObj)
	if m == nil {
		w.rtPanic("assignment to entry in nil map")
	}
	e := w.mapFind(m, k)
	w.mapTouch(m)
	if e != nil {
		// mapTouch may have replaced nothing: entries are shared pointers
		e.v = v
		return
	}
	ks, conc := w.mapKey(k, m.ti.key)
	if conc {
		m.idx[ks] = len(m.ents)
	} else {
		m.sym++
	}
	m.ents = append(m.ents, &MapEnt{k: k, v: v, conc: conc, ks: ks})
	m.n++
}

func (w *W) mapDelete(x, k Val) {
	m, _ := x.P.(*MapObj)
	if m == nil {
		return
	}
	e := w.mapFind(m, k)
	if e == nil {
		return
	}
	w.mapTouch(m)
	e.deleted = true
	m.n--
	if e.conc {
		delete(m.idx, e.ks)
	} else {
		m.sym--
	}
	j := 0
	ne := make([]*MapEnt, 0, len(m.ents))
	for _, x := range m.ents {
		if !x.deleted {
			ne = append(ne, x)
			if x.conc {
				m.idx[x.ks] = j
			}
			j++
		}
	}
	m.ents = ne
}

func (w *W) rangeIter(in *Instr, x Val) Val {
	if in.ti.kind == KString {
		return Val{P: &Iter{str: x, isS: true, o: w.newObj(1, nil)}}
	}
	it := &Iter{o: w.newObj(1, nil)}
	if m, ok := x.P.(*MapObj); ok {
		if w.racing {
			w.raceRead(m.o, 0, 1)
		}
		it.m = m
		it.ks = append(it.ks, m.ents...)
		// iteration order is a scheduling choice
		if w.mapOrder && len(it.ks) > 1 && len(it.ks) <= w.mapOrderMax && w.underTest() {
			w.noSpec()
			rest := append([]*MapEnt(nil), it.ks...)
			it.ks = it.ks[:0]
			for len(rest) > 1 {
				c := w.choose(len(rest), "map order")
				it.ks = append(it.ks, rest[c])
				rest = append(rest[:c:c], rest[c+1:]...)
			}
			it.ks = append(it.ks, rest[0])
		}
	}
	return Val{P: it}
}

func (w *W) next(in *Instr, x Val) Val {
	it := x.P.(*Iter)
	pos := int(it.o.s[0].N)
	if it.isS {
		a := make([]Val, 3)
		if pos < strLen(it.str) {
			r, n := w.decodeRune(it.str, pos)
			a[0] = Val{N: 1}
			a[1] = Val{N: uint64(pos)}
			a[2] = r
			w.set(it.o, 0, Val{N: uint64(pos + n)})
		}
		return Val{P: &Agg{a}}
	}
	ti := in.ti // tuple (ok, k, v)
	a := make([]Val, ti.n)
	for pos < len(it.ks) && it.ks[pos].deleted {
		pos++
	}
	if pos < len(it.ks) {
		e := it.ks[pos]
		a[0] = Val{N: 1}
		put := func(f TField, v Val) {
			if f.ti.kind == KBad || f.ti.n == 0 {
				return
			}
			if f.ti.agg {
				if v.P != nil {
					copy(a[f.off:], v.P.(*Agg).v)
				}
			} else {
				a[f.off] = v
			}
		}
		put(ti.fields[1], e.k)
		put(ti.fields[2], e.v)
		pos++
	}
	w.set(it.o, 0, Val{N: uint64(pos)})
	return Val{P: &Agg{a}}
}

// decodeRune decodes the rune of s at i (symbolic bytes run utf8.DecodeRuneInString).
func (w *W) decodeRune(s Val, i int) (Val, int) {
	b := strAt(s, i)
	if b.P == nil && b.N < 0x80 {
		return Val{N: b.N}, 1
	}
	if t, ok := b.P.(*Term); ok {
		if w.branch(w.tc.Bin(OULt, t, w.tc.Const(8, 0x80))) {
			return w.fromTerm(w.tc.Un(OZext, 32, t)), 1
		}
	}
	end := min(strLen(s), i+4)
	r := w.callNamed("unicode/utf8", "DecodeRuneInString", []Val{strSub(s, i, end)})
	a := r.P.(*Agg)
	n := a.v[1]
	if t, ok := n.P.(*Term); ok {
		n.N = w.concretize(t)
	}
	return a.v[0], int(n.N)
}

func (w *W) encodeRune(r Val) []Val {
	if r.P == nil {
		return strBytes(mkStr(string(rune(int32(r.N)))))
	}
	t := r.P.(*Term)
	if w.branch(w.tc.Bin(OULt, t, w.tc.Const(32, 0x80))) {
		return []Val{w.fromTerm(w.tc.Un(OTrunc, 8, t))}
	}
	o := w.newObj(4, w.eng.tiByte)
	n := w.callNamed("unicode/utf8", "EncodeRune", []Val{{P: &Slice{o: o, len: 4, cap: 4, esz: 1}}, r})
	return append([]Val(nil), o.s[:n.N]...)
}

func (w *W) callNamed(pkg, name string, args []Val) Val {
	fn := w.eng.funcNamed(pkg, name)
	if fn == nil {
		w.unsupported("missing " + pkg + "." + name)
	}
	return w.call(w.g, w.codeOf(fn), args, nil, nil, w.g.top)
}

// underTest tells whether the running function is one of the repository.
func (w *W) underTest() bool {
	if w.g == nil || w.g.top == nil || w.g.top.code.fn.Pkg == nil {
		return false
	}
	p := w.g.top.code.fn.Pkg.Pkg.Path()
	return strings.HasPrefix(p, w.eng.modPath) && !strings.HasPrefix(p, w.eng.modPath+"/"+harnessRel)
}
