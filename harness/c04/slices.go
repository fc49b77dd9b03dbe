//go:build go1.22

// Package c04: slice stacks come back as they were saved.
package c04

import (
	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=600

// roundTrip saves and loads slice stacks: they come back as those wanted.
func roundTrip(assets, want []go3mf.Asset) {
	m := &go3mf.Model{Extensions: []go3mf.Extension{slices.DefaultExtension}}
	w := *m
	m.Resources.Assets = assets
	w.Resources.Assets = want
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Cover("round trip")
}

func one(s, w *slices.SliceStack) { roundTrip([]go3mf.Asset{s}, []go3mf.Asset{w}) }

// segment is a segment, with its property or without.
func segment() slices.Segment {
	s := slices.Segment{V2: sym.Uint32(), PID: sym.Uint32(), P1: sym.Uint32(), P2: sym.Uint32()}
	// indices are those of a property
	sym.Assume(s.PID != 0 || s.P1 == 0 && s.P2 == 0)
	return s
}

// The attributes of a stack, and how its extension is declared.
func H_stack() {
	m := new(go3mf.Model)
	switch sym.Choice(3) {
	case 0:
		m.Extensions = []go3mf.Extension{slices.DefaultExtension}
	case 1:
		m.Extensions = []go3mf.Extension{{Namespace: "http://other", LocalName: "s"}, {Namespace: slices.Namespace, LocalName: "ss", IsRequired: true}}
	}
	w := *m
	s := &slices.SliceStack{ID: sym.Uint32(), BottomZ: sym.Float32()}
	x := &slices.SliceStack{ID: s.ID, BottomZ: lib.Q4(s.BottomZ)}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		z := sym.Float32()
		s.Slices = append(s.Slices, slices.Slice{TopZ: z})
		x.Slices = append(x.Slices, slices.Slice{TopZ: lib.Q4(z)})
	}
	m.Resources.Assets = []go3mf.Asset{s}
	w.Resources.Assets = []go3mf.Asset{x}
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Cover("stack")
}

// The vertices of slices.
func H_vertices() {
	s, w := &slices.SliceStack{ID: 1}, &slices.SliceStack{ID: 1}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		var a, b slices.Slice
		for j, n := 0, sym.Choice(sym.Bound(3, 5)); j < n; j++ {
			x, y := sym.Float32(), sym.Float32()
			a.Vertices.Vertex = append(a.Vertices.Vertex, go3mf.Point2D{x, y})
			b.Vertices.Vertex = append(b.Vertices.Vertex, go3mf.Point2D{lib.Q4(x), lib.Q4(y)})
		}
		s.Slices, w.Slices = append(s.Slices, a), append(w.Slices, b)
	}
	one(s, w)
}

// The segments of a polygon: a property that is left out does not inherit that of another.
func H_segments() {
	s := &slices.SliceStack{ID: 1}
	p := slices.Polygon{StartV: sym.Uint32()}
	for i, n := 0, sym.Choice(sym.Bound(3, 4)+1); i < n; i++ {
		p.Segments = append(p.Segments, segment())
	}
	s.Slices = []slices.Slice{{TopZ: 1, Polygons: []slices.Polygon{p}}}
	w := *s
	one(s, &w)
}

// The polygons of slices.
func H_polygons() {
	s := &slices.SliceStack{ID: 1}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		sl := slices.Slice{TopZ: float32(i)}
		for j, n := 0, sym.Choice(3); j < n; j++ {
			p := slices.Polygon{StartV: sym.Uint32()}
			for k, n := 0, sym.Choice(sym.Bound(2, 3)); k < n; k++ {
				p.Segments = append(p.Segments, segment())
			}
			sl.Polygons = append(sl.Polygons, p)
		}
		s.Slices = append(s.Slices, sl)
	}
	w := *s
	one(s, &w)
}

// References to stacks of other parts.
func H_refs() {
	s := &slices.SliceStack{ID: sym.Uint32()}
	for i, n := 0, sym.Choice(4); i < n; i++ {
		r := slices.SliceRef{SliceStackID: sym.Uint32()}
		if sym.Choice(2) == 0 {
			r.Path = lib.Word(2)
		}
		s.Refs = append(s.Refs, r)
	}
	w := *s
	one(s, &w)
}

// The paths of references, which may need escaping.
func H_path() {
	s := &slices.SliceStack{ID: 1, Refs: []slices.SliceRef{{SliceStackID: 2, Path: lib.OptText(sym.Bound(2, 3))}, {SliceStackID: 2, Path: `/<&">`}}}
	w := *s
	one(s, &w)
}

// Slices and references, which the rules do not allow together.
func H_both() {
	s := &slices.SliceStack{ID: 1, Refs: []slices.SliceRef{{SliceStackID: sym.Uint32(), Path: "/a"}, {SliceStackID: sym.Uint32(), Path: "/a"}}}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		s.Slices = append(s.Slices, slices.Slice{TopZ: float32(sym.IntFloat(-1000, 1000)), Polygons: []slices.Polygon{{StartV: sym.Uint32(), Segments: []slices.Segment{segment()}}}})
	}
	w := *s
	one(s, &w)
}

// Long lists.
func H_long() {
	const n = 12
	s := &slices.SliceStack{ID: 1}
	var sl slices.Slice
	var p slices.Polygon
	for i := 0; i < n; i++ {
		sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{float32(sym.IntFloat(-1000, 1000)), float32(i)})
		p.Segments = append(p.Segments, slices.Segment{V2: sym.Uint32(), PID: uint32(i % 3), P1: uint32(min(1, i%3)), P2: uint32(i % 3)})
	}
	for i := 0; i < n; i++ {
		p.StartV = uint32(i)
		sl.Polygons = append(sl.Polygons, p, slices.Polygon{StartV: sym.Uint32()})
	}
	for i := 0; i < 3; i++ {
		s.Slices = append(s.Slices, slices.Slice{TopZ: float32(i)}, sl)
	}
	for i := 0; i < n; i++ {
		s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: sym.Uint32(), Path: "/p"})
	}
	w := *s
	one(s, &w)
}

// Objects bound to stacks.
func H_objects() {
	m := &go3mf.Model{Extensions: []go3mf.Extension{slices.DefaultExtension}}
	for i, n := 0, 1+sym.Choice(sym.Bound(2, 3)); i < n; i++ {
		o := &go3mf.Object{ID: sym.Uint32(), Mesh: lib.Solid()}
		if sym.Choice(3) == 0 {
			o.Mesh, o.Components = nil, &go3mf.Components{Component: []*go3mf.Component{{ObjectID: sym.Uint32()}}}
		}
		if sym.Choice(3) > 0 {
			o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: sym.Uint32(), MeshResolution: slices.MeshResolution(sym.Choice(2))})
		}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	w := *m
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Cover("objects")
}

// Any number of decimals.
//
//verif:sched=first
func H_precision() {
	prec := []int{-1, 0, 1, 2, 3, 4, 5, 6, 9}[sym.Choice(9)]
	q := func(f float32) float32 { return sym.QuantizeTo(f, prec) }
	b, z, x, y := sym.Float32(), sym.Float32(), sym.Float32(), sym.Float32()
	m := &go3mf.Model{Path: lib.RootPath, Extensions: []go3mf.Extension{slices.DefaultExtension}}
	m.Resources.Assets = []go3mf.Asset{&slices.SliceStack{ID: 1, BottomZ: b, Slices: []slices.Slice{{TopZ: z, Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{x, y}}}}}}}
	pkg, err := lib.EncodePrec(m, prec)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	want := []go3mf.Asset{&slices.SliceStack{ID: 1, BottomZ: q(b), Slices: []slices.Slice{{TopZ: q(z), Vertices: slices.Vertices{Vertex: []go3mf.Point2D{{q(x), q(y)}}}}}}}
	sym.Assert(sym.Equal(got.Resources.Assets, want), "the loaded model equals the saved one")
	sym.Cover("precision")
}

// Stacks in root and child models, in packages, with objects bound to them.
//
//verif:sched=first
func H_package() {
	m := &go3mf.Model{Path: lib.RootPath, Extensions: []go3mf.Extension{slices.DefaultExtension}}
	obj := func() *go3mf.Object {
		return &go3mf.Object{ID: sym.Uint32(), Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: sym.Uint32(), MeshResolution: slices.MeshResolution(sym.Choice(2))}}}
	}
	m.Resources.Objects = []*go3mf.Object{obj()}
	child := new(go3mf.ChildModel)
	if sym.Choice(2) == 0 {
		child.Resources.Objects = []*go3mf.Object{obj()}
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.Resources.Assets = append(m.Resources.Assets, &slices.SliceStack{ID: sym.Uint32(), Refs: []slices.SliceRef{{SliceStackID: sym.Uint32(), Path: "/3D/c.model"}}})
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		child.Resources.Assets = append(child.Resources.Assets, &slices.SliceStack{ID: sym.Uint32(), Slices: []slices.Slice{{TopZ: 1, Polygons: []slices.Polygon{{StartV: sym.Uint32(), Segments: []slices.Segment{segment()}}}}}})
	}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": child}
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the loaded resources equal the saved ones")
	sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/c.model"] != nil, "the child model is loaded")
	sym.Assert(sym.Equal(got.Childs["/3D/c.model"].Resources, child.Resources), "the loaded resources of the child equal the saved ones")
	sym.Cover("package")
}

// H_huge: much more of one thing than fits any buffer or small counter, one of which is anything.
//
//verif:steps=200000000 weight=2
func H_huge() {
	n := sym.Concrete(sym.Bound(600, 5000))
	k := sym.Concrete([]int{n - 1, 255, 256, 0, 257}[sym.Choice(sym.Bound(2, 5))]) // which one
	s := &slices.SliceStack{ID: 1, BottomZ: 0.5}
	sl := slices.Slice{TopZ: 1}
	var p slices.Polygon
	switch sym.Choice(5) {
	case 0:
		for i := 0; i < n; i++ {
			sl.Vertices.Vertex = append(sl.Vertices.Vertex, go3mf.Point2D{float32(i), float32(-i) / 4})
		}
		sl.Vertices.Vertex[k] = go3mf.Point2D{sym.IntFloat(-9999, 9999), 0.5}
		s.Slices = []slices.Slice{sl, {TopZ: 2}}
	case 1:
		for i := 0; i < n; i++ {
			p.Segments = append(p.Segments, slices.Segment{V2: uint32(i), PID: uint32(i % 2), P1: uint32(i % 2), P2: uint32(i % 2 * (i + 1))})
		}
		p.Segments[k] = slices.Segment{V2: sym.Uint32(), PID: 3, P1: 2, P2: 1}
		sl.Polygons = []slices.Polygon{p, {StartV: 1}}
		s.Slices = []slices.Slice{sl, {TopZ: 2}}
	case 2:
		for i := 0; i < n; i++ {
			sl.Polygons = append(sl.Polygons, slices.Polygon{StartV: uint32(i)})
		}
		sl.Polygons[k].StartV = sym.Uint32()
		s.Slices = []slices.Slice{sl, {TopZ: 2}}
	case 3:
		for i := 0; i < n; i++ {
			s.Slices = append(s.Slices, slices.Slice{TopZ: float32(i)})
		}
		s.Slices[k].TopZ = sym.IntFloat(-9999, 9999)
		s.Slices[k].Vertices.Vertex = []go3mf.Point2D{{1, 2}}
	case 4:
		for i := 0; i < n; i++ {
			s.Refs = append(s.Refs, slices.SliceRef{SliceStackID: uint32(i)})
		}
		s.Refs[k] = slices.SliceRef{SliceStackID: sym.Uint32(), Path: "/p" + lib.OptText(1)}
	}
	w := *s
	one(s, &w)
}
