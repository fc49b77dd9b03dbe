//go:build go1.22

// Package c03: beam lattices come back as they were saved.
package c03

import (
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=600

// exts declares the extension, in one way or another, or does not.
func exts() []go3mf.Extension {
	switch sym.Choice(3) {
	case 0:
		return []go3mf.Extension{beamlattice.DefaultExtension}
	case 1:
		return []go3mf.Extension{{Namespace: "http://other", LocalName: "b"}, {Namespace: beamlattice.Namespace, LocalName: "bb", IsRequired: true}}
	}
	return nil
}

func object(id uint32, l *beamlattice.BeamLattice) *go3mf.Object {
	mesh := lib.Solid()
	mesh.Any = append(mesh.Any, l)
	return &go3mf.Object{ID: id, Mesh: mesh}
}

// roundTrip saves and loads a lattice: it comes back as the one wanted.
func roundTrip(l, want *beamlattice.BeamLattice) {
	m := &go3mf.Model{Extensions: []go3mf.Extension{beamlattice.DefaultExtension}}
	w := *m
	m.Resources.Objects = []*go3mf.Object{object(1, l)}
	w.Resources.Objects = []*go3mf.Object{object(1, want)}
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Assert(sym.Equal(beamlattice.GetBeamLattice(got.Resources.Objects[0].Mesh), want), "the lattice of the loaded mesh is found")
	sym.Cover("round trip")
}

// radius is the radius of a beam, which the decimals written can tell from zero, and what it comes back as.
func radius(prec int) (float32, float32) {
	f := sym.Float32()
	q := sym.QuantizeTo(f, prec)
	sym.Assume(f > 0 && q > 0)
	return f, q
}

func clip() beamlattice.ClipMode { return beamlattice.ClipMode(sym.Choice(3)) }
func caps() beamlattice.CapMode  { return beamlattice.CapMode(sym.Choice(3)) }

// The attributes of a lattice.
func H_attributes() {
	m := &go3mf.Model{Extensions: exts()}
	w := *m
	l := &beamlattice.BeamLattice{ClipMode: clip(), CapMode: caps(), ClippingMeshID: sym.Uint32(), RepresentationMeshID: sym.Uint32(), MinLength: sym.Float32(), Radius: sym.Float32()}
	x := *l
	x.MinLength, x.Radius = lib.Q4(l.MinLength), lib.Q4(l.Radius)
	m.Resources.Objects = []*go3mf.Object{object(1, l)}
	w.Resources.Objects = []*go3mf.Object{object(1, &x)}
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Cover("attributes")
}

// One beam and its lattice: everything that may be left out.
func H_beam() {
	l := &beamlattice.BeamLattice{CapMode: caps(), Radius: sym.Float32()}
	w := &beamlattice.BeamLattice{CapMode: l.CapMode, Radius: lib.Q4(l.Radius)}
	var b, x beamlattice.Beam
	b.Indices = [2]uint32{sym.Uint32(), sym.Uint32()}
	b.CapMode = [2]beamlattice.CapMode{caps(), caps()}
	x = b
	b.Radius[0], x.Radius[0] = radius(4)
	b.Radius[1], x.Radius[1] = radius(4)
	l.Beams.Beam, w.Beams.Beam = []beamlattice.Beam{b}, []beamlattice.Beam{x}
	roundTrip(l, w)
}

// Several beams, which have nothing to do with each other.
func H_beams() {
	l := &beamlattice.BeamLattice{CapMode: beamlattice.CapMode(sym.Choice(2)), MinLength: 0.5, Radius: 0.25}
	w := *l
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		var b, x beamlattice.Beam
		b.Indices = [2]uint32{sym.Uint32(), sym.Uint32()}
		b.CapMode = [2]beamlattice.CapMode{beamlattice.CapMode(sym.Choice(2)), beamlattice.CapMode(sym.Choice(2))}
		x = b
		b.Radius[0], x.Radius[0] = radius(4)
		b.Radius[1], x.Radius[1] = radius(4)
		l.Beams.Beam, w.Beams.Beam = append(l.Beams.Beam, b), append(w.Beams.Beam, x)
	}
	roundTrip(l, &w)
}

// Any number of decimals.
//
//verif:sched=first
func H_precision() {
	prec := []int{-1, 0, 1, 2, 3, 5, 6, 9}[sym.Choice(8)]
	l := &beamlattice.BeamLattice{MinLength: sym.Float32(), Radius: sym.Float32()}
	w := &beamlattice.BeamLattice{MinLength: sym.QuantizeTo(l.MinLength, prec), Radius: sym.QuantizeTo(l.Radius, prec)}
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		var b, x beamlattice.Beam
		b.Radius[0], x.Radius[0] = radius(prec)
		b.Radius[1], x.Radius[1] = radius(prec)
		l.Beams.Beam, w.Beams.Beam = append(l.Beams.Beam, b), append(w.Beams.Beam, x)
	}
	m := &go3mf.Model{Path: lib.RootPath, Extensions: []go3mf.Extension{beamlattice.DefaultExtension}}
	m.Resources.Objects = []*go3mf.Object{object(1, l)}
	pkg, err := lib.EncodePrec(m, prec)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got.Resources.Objects, []*go3mf.Object{object(1, w)}), "the loaded model equals the saved one")
	sym.Cover("precision")
}

// Sets of beams.
func H_sets() {
	l := new(beamlattice.BeamLattice)
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		var s beamlattice.BeamSet
		if sym.Choice(2) == 0 {
			s.Name = lib.Word(1)
		}
		if sym.Choice(2) == 0 {
			s.Identifier = lib.Word(1)
		}
		for j, n := 0, sym.Choice(3); j < n; j++ {
			s.Refs = append(s.Refs, sym.Uint32())
		}
		l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, s)
	}
	w := *l
	roundTrip(l, &w)
}

// The texts of sets, which may need escaping.
func H_texts() {
	l := new(beamlattice.BeamLattice)
	l.BeamSets.BeamSet = []beamlattice.BeamSet{{Name: lib.OptText(sym.Bound(1, 3)), Identifier: lib.OptText(sym.Bound(1, 2)), Refs: []uint32{sym.Uint32()}}, {Name: `<&">`}}
	l.Beams.Beam = []beamlattice.Beam{{Radius: [2]float32{1, 1}}}
	w := *l
	roundTrip(l, &w)
}

// Long lists.
func H_long() {
	const n = 12
	l := &beamlattice.BeamLattice{CapMode: beamlattice.CapModeButt, Radius: 2}
	var s beamlattice.BeamSet
	for i := 0; i < n; i++ {
		l.Beams.Beam = append(l.Beams.Beam, beamlattice.Beam{
			Indices: [2]uint32{sym.Uint32(), sym.Uint32()}, CapMode: [2]beamlattice.CapMode{beamlattice.CapMode(i % 3), beamlattice.CapMode(i / 3 % 3)},
			Radius: [2]float32{float32(1 + i%2), float32(1 + i/2%3)},
		})
		s.Refs = append(s.Refs, sym.Uint32())
	}
	l.BeamSets.BeamSet = []beamlattice.BeamSet{s, {}, s}
	w := *l
	roundTrip(l, &w)
}

// small is a lattice that differs from the default in one thing.
func small() *beamlattice.BeamLattice {
	l := &beamlattice.BeamLattice{Radius: 1, ClippingMeshID: sym.Uint32()}
	switch sym.Choice(5) {
	case 0:
		l.ClipMode = clip()
	case 1:
		l.CapMode = caps()
	case 2:
		l.Beams.Beam = []beamlattice.Beam{{Indices: [2]uint32{sym.Uint32(), sym.Uint32()}, Radius: [2]float32{1, float32(1 + sym.Choice(2))}, CapMode: [2]beamlattice.CapMode{caps(), caps()}}}
	case 3:
		l.BeamSets.BeamSet = []beamlattice.BeamSet{{Identifier: "i", Refs: []uint32{sym.Uint32()}}}
	case 4:
		l.RepresentationMeshID = sym.Uint32()
	}
	return l
}

// Several objects, with and without lattices, in packages.
//
//verif:sched=first
func H_objects() {
	objs := func() (r []*go3mf.Object) {
		for i, n, l := 0, 1+sym.Choice(2), sym.Choice(3); i < n; i++ {
			if i == l {
				r = append(r, object(sym.Uint32(), small()))
			} else {
				r = append(r, &go3mf.Object{ID: sym.Uint32(), Mesh: lib.Solid()})
			}
		}
		return
	}
	m := &go3mf.Model{Path: lib.RootPath, Extensions: []go3mf.Extension{beamlattice.DefaultExtension}}
	m.Resources.Objects = objs()
	child := new(go3mf.ChildModel)
	child.Resources.Objects = []*go3mf.Object{object(sym.Uint32(), &beamlattice.BeamLattice{Radius: 3, CapMode: beamlattice.CapModeButt})}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": child}
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the loaded objects equal the saved ones")
	sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/c.model"] != nil, "the child model is loaded")
	sym.Assert(sym.Equal(got.Childs["/3D/c.model"].Resources, child.Resources), "the loaded objects of the child equal the saved ones")
	sym.Cover("package")
}

// Lattices next to other elements the mesh carries.
func H_any() {
	m := &go3mf.Model{Extensions: []go3mf.Extension{beamlattice.DefaultExtension}}
	mesh := object(1, small())
	m.Resources.Objects = []*go3mf.Object{mesh, object(2, &beamlattice.BeamLattice{Radius: 2, CapMode: beamlattice.CapModeButt}), object(3, &beamlattice.BeamLattice{Radius: 1})}
	w := *m
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	for i, o := range got.Resources.Objects {
		sym.Assert(beamlattice.GetBeamLattice(o.Mesh) == o.Mesh.Any[0], "the lattice of a mesh is found")
		sym.Assert(sym.Equal(o, m.Resources.Objects[i]), "the loaded object equals the saved one")
	}
	sym.Cover("several")
}

// H_huge: much more of one thing than fits any buffer or small counter, one of which is anything.
//
//verif:steps=200000000 weight=2
func H_huge() {
	n := sym.Concrete(sym.Bound(600, 5000))
	k := sym.Concrete([]int{n - 1, 255, 256, 0, 257}[sym.Choice(sym.Bound(2, 5))]) // which one
	l := &beamlattice.BeamLattice{Radius: 1, CapMode: beamlattice.CapMode(sym.Choice(3))}
	switch sym.Choice(3) {
	case 0:
		for i := 0; i < n; i++ {
			l.Beams.Beam = append(l.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{uint32(i), uint32(i + 1)}, Radius: [2]float32{1, float32(1 + i%2)}})
		}
		l.Beams.Beam[k] = beamlattice.Beam{Indices: [2]uint32{sym.Uint32(), sym.Uint32()}, Radius: [2]float32{2, 3}, CapMode: [2]beamlattice.CapMode{caps(), caps()}}
	case 1:
		for i := 0; i < n; i++ {
			l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, beamlattice.BeamSet{Identifier: "i", Refs: []uint32{uint32(i)}})
		}
		l.BeamSets.BeamSet[k] = beamlattice.BeamSet{Name: lib.OptText(1), Refs: []uint32{1, sym.Uint32()}}
	case 2:
		var s beamlattice.BeamSet
		for i := 0; i < n; i++ {
			s.Refs = append(s.Refs, uint32(i))
		}
		s.Refs[k] = sym.Uint32()
		l.BeamSets.BeamSet = []beamlattice.BeamSet{{}, s, {Refs: []uint32{1}}}
	}
	w := *l
	roundTrip(l, &w)
}
