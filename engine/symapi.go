package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"
)

func domRange(n int) *[4]uint64 {
	var d [4]uint64
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << (i & 63)
	}
	return &d
}

func (w *W) input(kind string, t *Term, v uint64) {
	w.inputs = append(w.inputs, Input{kind, t, v})
}

func (w *W) symByte(dom *[4]uint64) Val {
	vi := w.newVar(SBV8, "b", dom, 'a')
	w.input("u8", vi.term, 0)
	return Val{P: vi.term}
}

func concArg(w *W, v Val, what string) int {
	if v.P != nil {
		w.unsupported("symbolic " + what)
	}
	return int(int64(v.N))
}

func initSymAPI() {
	p := modPathName + "/" + symPkgRel + "."
	reg := func(name string, f intrinsic) {
		intrinsics[p+name] = func(w *W, g *G, a []Val, in *Instr) Val {
			w.noSpec()
			return f(w, g, a, in)
		}
	}
	reg("Bool", func(w *W, g *G, a []Val, in *Instr) Val {
		vi := w.newVar(SBV8, "bool", domRange(2), 0)
		w.input("bool", vi.term, 0)
		return w.fromTerm(w.tc.Eq(vi.term, w.tc.Const(8, 1)))
	})
	reg("Byte", func(w *W, g *G, a []Val, in *Instr) Val { return w.symByte(nil) })
	uint_ := func(s Sort, k string) intrinsic {
		return func(w *W, g *G, a []Val, in *Instr) Val {
			vi := w.newVar(s, k, nil, 0)
			w.input(k, vi.term, 0)
			return Val{P: vi.term}
		}
	}
	reg("Uint16", uint_(16, "u16"))
	reg("Uint32", uint_(32, "u32"))
	reg("Uint64", uint_(64, "u64"))
	reg("Int", func(w *W, g *G, a []Val, in *Instr) Val {
		lo, hi := int64(concArg(w, a[0], "bound")), int64(concArg(w, a[1], "bound"))
		if hi < lo {
			panic(pathEnd{"infeasible", ""})
		}
		tc := w.tc
		if hi == lo {
			w.input("int", nil, uint64(lo))
			return Val{N: uint64(lo)}
		}
		if hi-lo < 256 && lo >= 0 && hi < 256 {
			var d [4]uint64
			for i := lo; i <= hi; i++ {
				d[i>>6] |= 1 << (i & 63)
			}
			vi := w.newVar(SBV8, "int", &d, uint64(lo))
			t := tc.Un(OZext, 64, vi.term)
			w.input("int", t, 0)
			return w.fromTerm(t)
		}
		if hi-lo < 256 {
			vi := w.newVar(SBV8, "int", domRange(int(hi-lo+1)), 0)
			t := tc.Bin(OAdd, tc.Un(OZext, 64, vi.term), tc.Const(64, uint64(lo)))
			w.input("int", t, 0)
			return w.fromTerm(t)
		}
		vi := w.newVar(64, "int", nil, uint64(lo))
		w.input("int", vi.term, 0)
		w.assume(tc.And(tc.Bin(OSLe, tc.Const(64, uint64(lo)), vi.term), tc.Bin(OSLe, vi.term, tc.Const(64, uint64(hi)))), true)
		return Val{P: vi.term}
	})
	reg("AnyFloat32", func(w *W, g *G, a []Val, in *Instr) Val {
		vi := w.newVar(SF32, "f32", nil, 0)
		w.input("f32", vi.term, 0)
		return Val{P: vi.term}
	})
	reg("Float32", func(w *W, g *G, a []Val, in *Instr) Val {
		vi := w.newVar(SF32, "f32", nil, 0)
		w.input("f32", vi.term, 0)
		w.assume(w.tc.Not(w.tc.Or(w.tc.Un(OFIsNaN, SBool, vi.term), w.tc.Un(OFIsInf, SBool, vi.term))), true)
		return Val{P: vi.term}
	})
	reg("IntFloat", func(w *W, g *G, a []Val, in *Instr) Val {
		lo, hi := int64(concArg(w, a[0], "bound")), int64(concArg(w, a[1], "bound"))
		def := max(lo, min(hi, 0))
		vi := w.newVar(SInt, "if32", nil, uint64(def))
		vi.lo, vi.hi = lo, hi
		w.input("if32", vi.term, 0)
		return Val{P: vi.term}
	})
	bytesOf := func(w *W, n int, dom *[4]uint64) []Val {
		r := make([]Val, n)
		for i := range r {
			r[i] = w.symByte(dom)
		}
		return r
	}
	reg("String", func(w *W, g *G, a []Val, in *Instr) Val {
		return mkSStr(bytesOf(w, concArg(w, a[0], "length"), nil))
	})
	reg("StringOf", func(w *W, g *G, a []Val, in *Instr) Val {
		al, _ := concStr(a[1])
		return mkSStr(bytesOf(w, concArg(w, a[0], "length"), classDom(al)))
	})
	reg("Bytes", func(w *W, g *G, a []Val, in *Instr) Val {
		return w.mkSlice(bytesOf(w, concArg(w, a[0], "length"), nil), w.eng.tiByte)
	})
	reg("Choice", func(w *W, g *G, a []Val, in *Instr) Val {
		n := w.choose(concArg(w, a[0], "choice"), "choice")
		w.input("choice", nil, uint64(n))
		return Val{N: uint64(n)}
	})
	reg("Concrete", func(w *W, g *G, a []Val, in *Instr) Val {
		if t, ok := a[0].P.(*Term); ok {
			return Val{N: w.concretize(t)}
		}
		return a[0]
	})
	reg("Assume", func(w *W, g *G, a []Val, in *Instr) Val {
		if t, ok := a[0].P.(*Term); ok {
			if v, ok := w.cheap(t); ok {
				if !v {
					panic(pathEnd{"infeasible", ""})
				}
				return Val{}
			}
			w.assume(t, true)
			if !w.replaying() {
				// find out now whether anything is left
				w.ensureModel()
			}
		} else if a[0].N == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return Val{}
	})
	reg("Assert", func(w *W, g *G, a []Val, in *Instr) Val {
		lab, _ := concStr(a[1])
		w.assertTerm(w.toTerm(a[0], SBool), lab)
		return Val{}
	})
	reg("Cover", func(w *W, g *G, a []Val, in *Instr) Val {
		lab, _ := concStr(a[0])
		w.covers[lab] = true
		return Val{}
	})
	reg("Equal", func(w *W, g *G, a []Val, in *Instr) Val {
		return w.fromTerm(w.deepEqual(a[0], a[1], w.eng.tiAny, true, 0))
	})
	reg("ObserveInt", func(w *W, g *G, a []Val, in *Instr) Val {
		lab, _ := concStr(a[0])
		w.observes = append(w.observes, obs{label: lab, v: a[1]})
		return Val{}
	})
	reg("ObserveStr", func(w *W, g *G, a []Val, in *Instr) Val {
		lab, _ := concStr(a[0])
		w.observes = append(w.observes, obs{label: lab, v: a[1], ti: w.eng.tiString})
		return Val{}
	})
	reg("Unsupported", func(w *W, g *G, a []Val, in *Instr) Val {
		lab, _ := concStr(a[0])
		w.unsupported(lab)
		return Val{}
	})
	// Basic strips the name off a value of basic kind.
	reg("Basic", func(w *W, g *G, a []Val, in *Instr) Val {
		f, ok := a[0].P.(*Iface)
		if !ok {
			return a[0]
		}
		t := f.t.t.Underlying()
		if _, ok := t.(*types.Basic); !ok {
			return Val{}
		}
		return Val{P: &Iface{typeInfo(t), f.v}}
	})
	reg("TypeName", func(w *W, g *G, a []Val, in *Instr) Val {
		f, ok := a[0].P.(*Iface)
		if !ok {
			return Val{P: "<nil>"}
		}
		return Val{P: types.TypeString(f.t.t, func(p *types.Package) string { return p.Name() })}
	})
	reg("Tier", func(w *W, g *G, a []Val, in *Instr) Val {
		return Val{N: b2u(w.eng.tier == "thorough")}
	})
	reg("QuantizeTo", func(w *W, g *G, a []Val, in *Instr) Val {
		prec := concArg(w, a[1], "precision")
		t, ok := a[0].P.(*Term)
		if !ok {
			v, _ := strconv.ParseFloat(strconv.FormatFloat(float64(f32(a[0].N)), 'f', prec, 32), 32)
			return Val{N: uint64(math.Float32bits(float32(v)))}
		}
		return Val{P: w.quantized(t, prec)}
	})
	reg("MustTerminate", func(w *W, g *G, a []Val, in *Instr) Val {
		w.mustTerm = true
		if n := int64(a[0].N); n > 0 {
			w.stepLimit = w.steps + n
		}
		return Val{}
	})
	reg("AllocLimit", func(w *W, g *G, a []Val, in *Instr) Val {
		w.allocLimit = int64(a[0].N)
		return Val{}
	})
	reg("MapOrder", func(w *W, g *G, a []Val, in *Instr) Val {
		w.mapOrder, w.mapOrderMax = true, int(a[0].N)
		return Val{}
	})
	intrinsics[p+"Symbolic"] = func(w *W, g *G, a []Val, in *Instr) Val { return Val{N: 1} }
}

func (w *W) evalObs() []obsVal {
	var r []obsVal
	for _, o := range w.observes {
		if o.ti != nil {
			if w.hasAtom(o.v) {
				continue
			}
			var sb strings.Builder
			for _, b := range strBytes(o.v) {
				n := b.N
				if t, ok := b.P.(*Term); ok {
					n, _ = w.tc.Eval(t)
				}
				sb.WriteByte(byte(n))
			}
			r = append(r, obsVal{o.label, sb.String()})
			continue
		}
		n := o.v.N
		if t, ok := o.v.P.(*Term); ok {
			v, ok := w.tc.Eval(t)
			if !ok {
				continue
			}
			n = v
		}
		r = append(r, obsVal{o.label, int64(n)})
	}
	return r
}
