package main

import (
	"fmt"
	"go/types"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is a run-time value. Scalars hold their bits in N (P == nil) or a *Term in P.
// The zero Val is the zero value of every type.
type Val struct {
	N uint64
	P any
}

type Kind uint8

const (
	KBad Kind = iota
	KBool
	KInt
	KUint
	KFloat
	KString
	KSlice
	KPtr
	KUnsafe
	KIface
	KFunc
	KMap
	KChan
	KStruct
	KArray
	KTuple
	KComplex
)

// TI caches what the interpreter needs to know about a type.
type TI struct {
	t      types.Type
	kind   Kind
	sort   Sort // scalar kinds
	n      int  // leaf slots
	fields []TField
	elem   *TI
	key    *TI
	alen   int
	id     int
	agg    bool
	named  string

	mu      sync.Mutex
	methods map[string]*ssa.Function
	impl    map[*TI]bool
}

type TField struct {
	off int
	ti  *TI
	nm  string
}

var (
	tiMu  sync.Mutex
	tiMap = func() *typeutil.Map { m := new(typeutil.Map); m.SetHasher(typeutil.MakeHasher()); return m }()
	tiSeq int
)

func typeInfo(t types.Type) *TI {
	tiMu.Lock()
	defer tiMu.Unlock()
	return typeInfoL(t)
}

func typeInfoL(t types.Type) *TI {
	t = types.Unalias(t)
	if v := tiMap.At(t); v != nil {
		return v.(*TI)
	}
	tiSeq++
	ti := &TI{t: t, id: tiSeq, n: 1}
	tiMap.Set(t, ti)
	if n, ok := t.(*types.Named); ok {
		ti.named = n.String()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind, ti.sort = KBool, SBool
		case types.Int8:
			ti.kind, ti.sort = KInt, 8
		case types.Int16:
			ti.kind, ti.sort = KInt, 16
		case types.Int32, types.UntypedRune:
			ti.kind, ti.sort = KInt, 32
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.sort = KInt, 64
		case types.Uint8:
			ti.kind, ti.sort = KUint, 8
		case types.Uint16:
			ti.kind, ti.sort = KUint, 16
		case types.Uint32:
			ti.kind, ti.sort = KUint, 32
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.sort = KUint, 64
		case types.Float32:
			ti.kind, ti.sort = KFloat, SF32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.sort = KFloat, SF64
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer, types.UntypedNil:
			ti.kind = KUnsafe
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		}
	case *types.Pointer:
		ti.kind = KPtr
		ti.elem = typeInfoL(u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ti.elem = typeInfoL(u.Elem())
	case *types.Array:
		ti.kind, ti.agg = KArray, true
		ti.elem = typeInfoL(u.Elem())
		ti.alen = int(u.Len())
		ti.n = ti.elem.n * ti.alen
	case *types.Struct:
		ti.kind, ti.agg = KStruct, true
		ti.n = 0
		for i := 0; i < u.NumFields(); i++ {
			f := typeInfoL(u.Field(i).Type())
			ti.fields = append(ti.fields, TField{ti.n, f, u.Field(i).Name()})
			ti.n += f.n
		}
	case *types.Tuple:
		ti.kind, ti.agg = KTuple, true
		ti.n = 0
		for i := 0; i < u.Len(); i++ {
			f := typeInfoL(u.At(i).Type())
			ti.fields = append(ti.fields, TField{ti.n, f, ""})
			ti.n += f.n
		}
	case *types.Interface:
		ti.kind = KIface
	case *types.Signature:
		ti.kind = KFunc
	case *types.Map:
		ti.kind = KMap
		ti.key, ti.elem = typeInfoL(u.Key()), typeInfoL(u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ti.elem = typeInfoL(u.Elem())
	case *types.TypeParam:
		ti.kind = KBad
	}
	return ti
}

// Obj is a heap object: a flat array of leaf slots.
type Obj struct {
	s    []Val
	seq  uint64 // creation sequence (for journaling)
	ti   *TI    // element type (diagnostics)
	name string
	rd   *raceObj
}

type Slice struct {
	o        *Obj
	off      int // slot offset of element 0
	len, cap int // elements
	esz      int
}

// SStr is a string with symbolic bytes (immutable).
type SStr struct{ b []Val }

type Iface struct {
	t *TI
	v Val
}

type Closure struct {
	fn  *ssa.Function
	nat string // native (engine) function
	fv  []Val
	dat any
}

type Agg struct{ v []Val }

// SymPtr is a pointer to one of several elements, selected by a symbolic index.
type SymPtr struct {
	o    *Obj
	base int
	esz  int
	n    int
	idx  *Term // 64-bit, known to be < n on this path
	sub  int   // slot offset inside the element
}

type MapEnt struct {
	k, v    Val
	ks      string // index key when the key was concrete on insertion
	conc    bool
	deleted bool
}

type MapObj struct {
	ti   *TI
	ents []*MapEnt
	idx  map[string]int // concrete keys
	sym  int            // number of entries with symbolic keys
	n    int
	seq  uint64
	o    *Obj // one pseudo slot for race detection
}

type ChanObj struct {
	buf    []Val
	cap    int
	closed bool
	vc     []vclock
	sendq  []*waiter
	recvq  []*waiter
	cvc    vclock
	id     int
}

type Iter struct {
	m   *MapObj
	ks  []*MapEnt
	str Val
	isS bool
	o   *Obj // slot 0: position
}

func (v Val) term() (*Term, bool) { t, ok := v.P.(*Term); return t, ok }

func concStr(v Val) (string, bool) {
	switch s := v.P.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SStr:
		for _, b := range s.b {
			if b.P != nil {
				return "", false
			}
		}
		r := make([]byte, len(s.b))
		for i, b := range s.b {
			r[i] = byte(b.N)
		}
		return string(r), true
	}
	panic(fmt.Sprintf("concStr %T", v.P))
}

func strLen(v Val) int {
	switch s := v.P.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v.P))
}

func strAt(v Val, i int) Val {
	switch s := v.P.(type) {
	case string:
		return Val{N: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic("strAt")
}

func mkStr(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{P: s}
}

func mkSStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	for _, x := range b {
		if x.P != nil {
			return Val{P: &SStr{b}}
		}
	}
	r := make([]byte, len(b))
	for i, x := range b {
		r[i] = byte(x.N)
	}
	return Val{P: string(r)}
}

func strSub(v Val, lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	switch s := v.P.(type) {
	case string:
		return Val{P: s[lo:hi]}
	case *SStr:
		return mkSStr(s.b[lo:hi:hi])
	}
	panic("strSub")
}

func strBytes(v Val) []Val {
	switch s := v.P.(type) {
	case nil:
		return nil
	case string:
		r := make([]Val, len(s))
		for i := range r {
			r[i].N = uint64(s[i])
		}
		return r
	case *SStr:
		return s.b
	}
	panic("strBytes")
}
