package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type OpC uint8

const (
	opNop OpC = iota
	opAlloc
	opBin
	opNot
	opNeg
	opCom
	opLoad
	opRecv
	opCall
	opInvoke
	opMove
	opConvert
	opMakeIface
	opMakeClosure
	opMakeMap
	opMakeChan
	opMakeSlice
	opSlice
	opFieldAddr
	opField
	opIndexAddr
	opIndex
	opLookup
	opSelect
	opRange
	opNext
	opTypeAssert
	opExtract
	opJump
	opIf
	opReturn
	opRunDefers
	opPanic
	opGo
	opDefer
	opSend
	opStore
	opMapUpdate
	opSliceToArrayPtr
	opBad
)

type Instr struct {
	op   OpC
	flag bool // comma-ok, heap, etc.
	tok  token.Token
	dst  int32
	a, b int32
	c, d int32
	n    int
	ti   *TI
	ti2  *TI
	args []int32
	aux  any
	pos  token.Pos
	fn   *Code
	name string
}

type Phi struct {
	dst   int32
	edges []int32
	ti    *TI
}

type Block struct {
	ins   []Instr
	phis  []Phi
	succs []int
	spi   []int // pred index in succ
}

type Code struct {
	fn       *ssa.Function
	name     string
	blocks   []Block
	nregs    int
	nparams  int
	consts   []Val
	ipdom    []int // immediate post-dominator block; -1 = exit; -2 = none
	hasDefer bool
	recover  int
	resTI    *TI
	native   intrinsic
	used     bool
	noSpec   bool
	isInit   bool
	regOf    map[ssa.Value]int32
	live     [][]liveReg // registers live at block start besides its phis (lazy)
}

type liveReg struct {
	r  int32
	ti *TI
}

// liveAt lists the registers a block and its successors read that were set before it.
func (code *Code) liveAt(j int) []liveReg {
	if code.live != nil {
		return code.live[j]
	}
	fn := code.fn
	n := len(fn.Blocks)
	wds := (code.nregs + 63) / 64
	gen := make([][]uint64, n)  // used before defined (phi uses excluded)
	def := make([][]uint64, n)  // defined by non-phi instructions
	phid := make([][]uint64, n) // defined by phis
	in := make([][]uint64, n)   // live after the phis
	tis := make([]*TI, code.nregs)
	set := func(b []uint64, r int32) { b[r>>6] |= 1 << (r & 63) }
	has := func(b []uint64, r int32) bool { return b[r>>6]>>(r&63)&1 == 1 }
	for v, r := range code.regOf {
		if t := v.Type(); t != nil {
			tis[r] = typeInfo(t)
		}
	}
	for i, b := range fn.Blocks {
		gen[i], def[i], phid[i], in[i] = make([]uint64, wds), make([]uint64, wds), make([]uint64, wds), make([]uint64, wds)
		for _, x := range b.Instrs {
			if ph, ok := x.(*ssa.Phi); ok {
				set(phid[i], code.regOf[ph])
				continue
			}
			var ops [16]*ssa.Value
			for _, o := range x.Operands(ops[:0]) {
				if *o == nil {
					continue
				}
				if r, ok := code.regOf[*o]; ok && !has(def[i], r) {
					set(gen[i], r)
				}
			}
			if v, ok := x.(ssa.Value); ok {
				set(def[i], code.regOf[v])
			}
		}
	}
	tmp := make([]uint64, wds)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			for k := range tmp {
				tmp[k] = 0
			}
			b := fn.Blocks[i]
			for _, s := range b.Succs {
				for k := range tmp {
					tmp[k] |= in[s.Index][k] &^ phid[s.Index][k]
				}
				for _, x := range s.Instrs {
					ph, ok := x.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if r, ok := code.regOf[ph.Edges[pi]]; ok {
								set(tmp, r)
							}
						}
					}
				}
			}
			for k := range tmp {
				v := gen[i][k] | tmp[k]&^def[i][k]
				if v != in[i][k] {
					in[i][k], ch = v, true
				}
			}
		}
	}
	code.live = make([][]liveReg, n)
	for i := range in {
		for r := int32(0); r < int32(code.nregs); r++ {
			if has(in[i], r) && !has(phid[i], r) {
				code.live[i] = append(code.live[i], liveReg{r, tis[r]})
			}
		}
	}
	return code.live[j]
}

const exitBlk = -1
const noBlk = -2

type compiler struct {
	w      *W
	code   *Code
	regs   map[ssa.Value]int32
	consts map[any]int32
}

func (w *W) codeOf(fn *ssa.Function) *Code {
	if c, ok := w.codes[fn]; ok {
		return c
	}
	name := fn.String()
	if o := fn.Origin(); o != nil && o != fn {
		// generic instance: also allow redirects by origin name
		if nat, ok := intrinsics[o.String()]; ok {
			c := &Code{fn: fn, name: name, native: nat}
			w.codes[fn] = c
			return c
		}
	}
	if to := w.eng.redirect(name); to != nil {
		c := w.codeOf(to)
		w.codes[fn] = c
		return c
	}
	if nat, ok := intrinsics[name]; ok && name != w.skipNative {
		c := &Code{fn: fn, name: name, native: nat}
		w.codes[fn] = c
		return c
	}
	w.eng.ensureBuilt(fn)
	if fn.Blocks == nil {
		c := &Code{fn: fn, name: name, native: func(w *W, g *G, args []Val, in *Instr) Val {
			w.unsupported("no body: " + name)
			return Val{}
		}}
		w.codes[fn] = c
		return c
	}
	code := &Code{fn: fn, name: name, recover: -1, isInit: fn.Name() == "init" && fn.Pkg != nil && fn.Pkg.Func("init") == fn}
	w.codes[fn] = code
	c := &compiler{w: w, code: code, regs: map[ssa.Value]int32{}, consts: map[any]int32{}}
	for _, p := range fn.Params {
		c.reg(p)
	}
	for _, p := range fn.FreeVars {
		c.reg(p)
	}
	code.nparams = len(fn.Params)
	code.resTI = typeInfo(fn.Signature.Results())
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg(v)
			}
		}
	}
	code.blocks = make([]Block, len(fn.Blocks))
	for i, b := range fn.Blocks {
		blk := &code.blocks[i]
		for si, s := range b.Succs {
			blk.succs = append(blk.succs, s.Index)
			cnt := 0
			for _, p := range b.Succs[:si] {
				if p == s {
					cnt++
				}
			}
			pi := -1
			for k, p := range s.Preds {
				if p == b {
					if cnt == 0 {
						pi = k
						break
					}
					cnt--
				}
			}
			blk.spi = append(blk.spi, pi)
		}
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := Phi{dst: c.reg(ph), ti: typeInfo(ph.Type())}
				for _, e := range ph.Edges {
					p.edges = append(p.edges, c.operand(e))
				}
				blk.phis = append(blk.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			blk.ins = append(blk.ins, c.instr(in))
		}
	}
	if fn.Recover != nil {
		code.recover = fn.Recover.Index
	}
	code.nregs = len(c.regs)
	code.regOf = c.regs
	c.postdom()
	return code
}

func (c *compiler) reg(v ssa.Value) int32 {
	if r, ok := c.regs[v]; ok {
		return r
	}
	r := int32(len(c.regs))
	c.regs[v] = r
	return r
}

func (c *compiler) addConst(key any, v Val) int32 {
	if i, ok := c.consts[key]; ok {
		return i
	}
	c.code.consts = append(c.code.consts, v)
	i := int32(-len(c.code.consts))
	c.consts[key] = i
	return i
}

func constVal(k *ssa.Const) Val {
	ti := typeInfo(k.Type())
	if k.Value == nil {
		return Val{}
	}
	switch ti.kind {
	case KBool:
		return Val{N: b2u(constant.BoolVal(k.Value))}
	case KInt, KUint:
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{N: uint64(i) & mask(ti.sort)}
		}
		u, _ := constant.Uint64Val(v)
		return Val{N: u & mask(ti.sort)}
	case KFloat:
		if ti.sort == SF32 {
			f, _ := constant.Float32Val(k.Value)
			return Val{N: uint64(math.Float32bits(f))}
		}
		f, _ := constant.Float64Val(k.Value)
		return Val{N: math.Float64bits(f)}
	case KString:
		if k.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(k.Value))
		}
		i, _ := constant.Int64Val(k.Value)
		return mkStr(string(rune(i)))
	case KUnsafe:
		return Val{}
	}
	return Val{P: badVal{fmt.Sprintf("const of type %s", k.Type())}}
}

type badVal struct{ msg string }

func (c *compiler) operand(v ssa.Value) int32 {
	switch v := v.(type) {
	case nil:
		panic("nil operand")
	case *ssa.Const:
		return c.addConst(v, constVal(v))
	case *ssa.Global:
		return c.addConst(v, Val{P: c.w.global(v)})
	case *ssa.Function:
		return c.addConst(v, Val{P: &Closure{fn: v}})
	case *ssa.Builtin:
		return c.addConst(v, Val{P: &Closure{nat: v.Name()}})
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("operand %s %T not numbered", v.Name(), v))
	}
	return r
}

func (c *compiler) optOperand(v ssa.Value) int32 {
	if v == nil {
		return c.addConst("none", Val{P: noOperand{}})
	}
	return c.operand(v)
}

type noOperand struct{}

func (c *compiler) call(in *Instr, cc *ssa.CallCommon) {
	if cc.IsInvoke() {
		in.flag = true
		in.a = c.operand(cc.Value)
		in.aux = cc.Method
		in.name = cc.Method.Name()
	} else {
		in.a = c.operand(cc.Value)
		switch f := cc.Value.(type) {
		case *ssa.Function:
			in.aux = f
		case *ssa.Builtin:
			in.aux = f
			in.name = f.Name()
		}
	}
	for _, a := range cc.Args {
		in.args = append(in.args, c.operand(a))
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		// argument types matter for builtins
		_ = b
		if len(cc.Args) > 0 {
			in.ti = typeInfo(cc.Args[0].Type())
		}
		if len(cc.Args) > 1 {
			in.ti2 = typeInfo(cc.Args[1].Type())
		}
	}
}

func deref(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

func (c *compiler) instr(si ssa.Instruction) (in Instr) {
	in.pos = si.Pos()
	in.fn = c.code
	if v, ok := si.(ssa.Value); ok {
		in.dst = c.reg(v)
	} else {
		in.dst = -1
	}
	switch x := si.(type) {
	case *ssa.Alloc:
		in.op = opAlloc
		in.ti = typeInfo(deref(x.Type()))
		in.name = x.Comment
	case *ssa.BinOp:
		in.op = opBin
		in.tok = x.Op
		in.a, in.b = c.operand(x.X), c.operand(x.Y)
		in.ti, in.ti2 = typeInfo(x.X.Type()), typeInfo(x.Y.Type())
		if in.ti.kind == KUnsafe && in.ti2.kind != KUnsafe {
			in.ti = in.ti2 // comparison with untyped nil
		}
	case *ssa.UnOp:
		in.a = c.operand(x.X)
		switch x.Op {
		case token.NOT:
			in.op = opNot
		case token.SUB:
			in.op = opNeg
			in.ti = typeInfo(x.Type())
		case token.XOR:
			in.op = opCom
			in.ti = typeInfo(x.Type())
		case token.MUL:
			in.op = opLoad
			in.ti = typeInfo(x.Type())
		case token.ARROW:
			in.op = opRecv
			in.flag = x.CommaOk
			in.ti = typeInfo(x.X.Type().Underlying().(*types.Chan).Elem())
		}
	case *ssa.Call:
		in.op = opCall
		c.call(&in, &x.Call)
		if in.flag {
			in.op = opInvoke
		}
	case *ssa.ChangeType:
		in.op = opMove
		in.a = c.operand(x.X)
	case *ssa.ChangeInterface:
		in.op = opMove
		in.a = c.operand(x.X)
	case *ssa.Convert:
		in.op = opConvert
		in.a = c.operand(x.X)
		in.ti, in.ti2 = typeInfo(x.X.Type()), typeInfo(x.Type())
	case *ssa.MultiConvert:
		in.op = opConvert
		in.a = c.operand(x.X)
		in.ti, in.ti2 = typeInfo(x.X.Type()), typeInfo(x.Type())
	case *ssa.MakeInterface:
		in.op = opMakeIface
		in.a = c.operand(x.X)
		in.ti = typeInfo(x.X.Type())
	case *ssa.MakeClosure:
		in.op = opMakeClosure
		in.aux = x.Fn.(*ssa.Function)
		for _, b := range x.Bindings {
			in.args = append(in.args, c.operand(b))
		}
	case *ssa.MakeMap:
		in.op = opMakeMap
		in.ti = typeInfo(x.Type())
	case *ssa.MakeChan:
		in.op = opMakeChan
		in.a = c.operand(x.Size)
		in.ti = typeInfo(x.Type())
	case *ssa.MakeSlice:
		in.op = opMakeSlice
		in.a, in.b = c.operand(x.Len), c.operand(x.Cap)
		in.aux = [3]*TI{typeInfo(x.Len.Type()), typeInfo(x.Cap.Type())}
		in.ti = typeInfo(x.Type()).elem
		if in.ti == nil {
			in.ti = typeInfo(x.Type().Underlying().(*types.Slice).Elem())
		}
	case *ssa.Slice:
		in.op = opSlice
		in.a = c.operand(x.X)
		in.b, in.c, in.d = c.optOperand(x.Low), c.optOperand(x.High), c.optOperand(x.Max)
		var ts [3]*TI
		for i, v := range []ssa.Value{x.Low, x.High, x.Max} {
			if v != nil {
				ts[i] = typeInfo(v.Type())
			}
		}
		in.aux = ts
		in.ti = typeInfo(x.X.Type())
	case *ssa.FieldAddr:
		in.op = opFieldAddr
		in.a = c.operand(x.X)
		st := typeInfo(deref(x.X.Type()))
		in.n = st.fields[x.Field].off
		in.ti = st.fields[x.Field].ti
		in.name = st.fields[x.Field].nm
	case *ssa.Field:
		in.op = opField
		in.a = c.operand(x.X)
		st := typeInfo(x.X.Type())
		in.n = st.fields[x.Field].off
		in.ti = st.fields[x.Field].ti
	case *ssa.IndexAddr:
		in.op = opIndexAddr
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.ti2 = typeInfo(x.Index.Type())
		t := typeInfo(x.X.Type())
		if t.kind == KPtr {
			in.ti = t.elem.elem
			in.n = t.elem.alen
			in.flag = true
		} else {
			in.ti = t.elem
		}
	case *ssa.Index:
		in.op = opIndex
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.ti = typeInfo(x.X.Type())
		in.ti2 = typeInfo(x.Index.Type())
	case *ssa.Lookup:
		in.op = opLookup
		in.a, in.b = c.operand(x.X), c.operand(x.Index)
		in.ti = typeInfo(x.X.Type())
		in.ti2 = typeInfo(x.Index.Type())
		in.flag = x.CommaOk
	case *ssa.Select:
		in.op = opSelect
		in.flag = x.Blocking
		in.aux = x
		for _, s := range x.States {
			in.args = append(in.args, c.operand(s.Chan))
			if s.Send != nil {
				in.args = append(in.args, c.operand(s.Send))
			} else {
				in.args = append(in.args, -1<<30)
			}
		}
		in.ti = typeInfo(x.Type())
	case *ssa.Range:
		in.op = opRange
		in.a = c.operand(x.X)
		in.ti = typeInfo(x.X.Type())
	case *ssa.Next:
		in.op = opNext
		in.a = c.operand(x.Iter)
		in.flag = x.IsString
		in.ti = typeInfo(x.Type())
	case *ssa.TypeAssert:
		in.op = opTypeAssert
		in.a = c.operand(x.X)
		in.ti = typeInfo(x.AssertedType)
		in.flag = x.CommaOk
	case *ssa.Extract:
		in.op = opExtract
		in.a = c.operand(x.Tuple)
		st := typeInfo(x.Tuple.Type())
		in.n = st.fields[x.Index].off
		in.ti = st.fields[x.Index].ti
	case *ssa.Jump:
		in.op = opJump
	case *ssa.If:
		in.op = opIf
		in.a = c.operand(x.Cond)
		if in.pos == token.NoPos && x.Cond.Pos() != token.NoPos {
			in.pos = x.Cond.Pos()
		}
		in.n = si.Block().Index
	case *ssa.Return:
		in.op = opReturn
		for _, r := range x.Results {
			in.args = append(in.args, c.operand(r))
		}
	case *ssa.RunDefers:
		in.op = opRunDefers
	case *ssa.Panic:
		in.op = opPanic
		in.a = c.operand(x.X)
	case *ssa.Go:
		in.op = opGo
		c.call(&in, &x.Call)
	case *ssa.Defer:
		in.op = opDefer
		c.code.hasDefer = true
		c.call(&in, &x.Call)
		if x.DeferStack != nil {
			in.op = opBad
			in.name = "range-over-func defer"
		}
	case *ssa.Send:
		in.op = opSend
		in.a, in.b = c.operand(x.Chan), c.operand(x.X)
	case *ssa.Store:
		in.op = opStore
		in.a, in.b = c.operand(x.Addr), c.operand(x.Val)
		in.ti = typeInfo(x.Val.Type())
	case *ssa.MapUpdate:
		in.op = opMapUpdate
		in.a, in.b, in.c = c.operand(x.Map), c.operand(x.Key), c.operand(x.Value)
		in.ti = typeInfo(x.Map.Type())
	case *ssa.SliceToArrayPointer:
		in.op = opSliceToArrayPtr
		in.a = c.operand(x.X)
		in.ti = typeInfo(deref(x.Type()))
	default:
		in.op = opBad
		in.name = fmt.Sprintf("%T", si)
	}
	return in
}

// postdom computes immediate post-dominators, ignoring blocks that can only panic.
func (c *compiler) postdom() {
	n := len(c.code.blocks)
	ip := make([]int, n)
	for i := range ip {
		ip[i] = noBlk
	}
	c.code.ipdom = ip
	if n > 400 {
		return
	}
	// sets of postdominators as bitsets; universe n+1 (exit = n)
	wds := (n + 1 + 63) / 64
	full := make([]uint64, wds)
	for i := 0; i <= n; i++ {
		full[i>>6] |= 1 << (i & 63)
	}
	pd := make([][]uint64, n+1)
	live := make([]bool, n) // can reach return
	isRet := make([]bool, n)
	for i := range c.code.blocks {
		b := &c.code.blocks[i]
		if len(b.ins) > 0 && b.ins[len(b.ins)-1].op == opReturn {
			isRet[i], live[i] = true, true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := range c.code.blocks {
			if live[i] {
				continue
			}
			for _, s := range c.code.blocks[i].succs {
				if live[s] {
					live[i], ch = true, true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		pd[i] = append([]uint64(nil), full...)
	}
	pd[n] = make([]uint64, wds)
	pd[n][n>>6] |= 1 << (n & 63)
	tmp := make([]uint64, wds)
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			if !live[i] {
				continue
			}
			copy(tmp, full)
			if isRet[i] {
				copy(tmp, pd[n])
			} else {
				for _, s := range c.code.blocks[i].succs {
					if live[s] {
						for k := range tmp {
							tmp[k] &= pd[s][k]
						}
					}
				}
			}
			tmp[i>>6] |= 1 << (i & 63)
			for k := range tmp {
				if tmp[k] != pd[i][k] {
					copy(pd[i], tmp)
					ch = true
					break
				}
			}
		}
	}
	cnt := func(s []uint64) int {
		r := 0
		for i := 0; i <= n; i++ {
			if s[i>>6]>>(i&63)&1 == 1 {
				r++
			}
		}
		return r
	}
	size := make([]int, n+1)
	for i := 0; i <= n; i++ {
		if i == n || live[i] {
			size[i] = cnt(pd[i])
		}
	}
	for i := 0; i < n; i++ {
		if !live[i] {
			continue
		}
		best, bs := noBlk, -1
		for j := 0; j <= n; j++ {
			if j == i || pd[i][j>>6]>>(j&63)&1 == 0 || j < n && !live[j] {
				continue
			}
			if size[j] > bs {
				best, bs = j, size[j]
			}
		}
		if best == n {
			best = exitBlk
		}
		ip[i] = best
	}
}
