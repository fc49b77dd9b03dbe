//go:build go1.22

// Package c17: beam lattice validation.
//
//verif:budget quick=40 thorough=600
package c17

import (
	"github.com/hpinc/go3mf"
	bl "github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

const res = "/model/resources/"

var exts = []go3mf.Extension{bl.DefaultExtension}

func lattice() *bl.BeamLattice {
	return &bl.BeamLattice{MinLength: 1, Radius: 1, ClipMode: bl.ClipInside}
}

func mesh(l *bl.BeamLattice) *go3mf.Mesh {
	m := lib.Solid()
	if l != nil {
		m.Any = spec.Any{l}
	}
	return m
}

// H_carrier: object type, minimum length and radius.
func H_carrier() {
	l := lattice()
	l.MinLength, l.Radius = sym.Float32(), sym.Float32()
	t := sym.Choice(5)
	o := &go3mf.Object{ID: 5, Type: go3mf.ObjectType(t), Mesh: mesh(l)}
	if sym.Choice(2) == 1 { // other content first
		o.Mesh.Any = spec.Any{&spec.UnknownTokens{}, l}
	}
	if sym.Choice(2) == 1 {
		o.Mesh.Triangles.Triangle = nil
	}
	m, p := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{o}}, exts...)
	x := res + "object[0]/mesh/beamlattice"
	var w lib.Want
	w.If(t != int(go3mf.ObjectTypeModel) && t != int(go3mf.ObjectTypeSolidSupport), p, x, bl.ErrLatticeObjType)
	if l.MinLength == 0 {
		w.Missing(p, x, "minlength")
	}
	if l.Radius == 0 {
		w.Missing(p, x, "radius")
	}
	w.Check(m.Validate())
}

// H_references: clipping and representation meshes.
func H_references() {
	l := lattice()
	l.ClippingMeshID, l.RepresentationMeshID = sym.Uint32(), sym.Uint32()
	sym.Assume(l.ClippingMeshID != 0)
	l.ClipMode = bl.ClipMode(sym.Choice(3))
	t := sym.Choice(5)
	rs := go3mf.Resources{
		Assets: []go3mf.Asset{lib.Base(9, 1)},
		Objects: []*go3mf.Object{
			{ID: 2, Mesh: mesh(nil)},
			{ID: 3, Mesh: mesh(nil), Type: go3mf.ObjectType(t)},
			{ID: 4, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 2}}}},
			{ID: 6, Mesh: mesh(lattice())},
			{ID: 5, Mesh: mesh(l)},
			{ID: 7, Mesh: mesh(nil)},
		}}
	m, p := lib.Part(rs, exts...)
	x := res + "object[4]/mesh/beamlattice"
	var w lib.Want
	for _, id := range []uint32{l.ClippingMeshID, l.RepresentationMeshID} {
		switch id {
		case 0, 2:
		case 3:
			w.If(t != int(go3mf.ObjectTypeModel), p, x, bl.ErrLatticeInvalidMesh)
		case 4, 6:
			w.Add(p, x, bl.ErrLatticeInvalidMesh)
		case 5:
			w.Add(p, x, errors.ErrRecursion)
		default: // nothing, or an object that comes later
			w.Add(p, x, errors.ErrMissingResource)
		}
	}
	w.Check(m.Validate())
}

// H_otherpart: meshes are looked up in the part of the lattice.
func H_otherpart() {
	l := lattice()
	id := sym.Uint32()
	sym.Assume(id != 0 && id != 5)
	if sym.Choice(2) == 0 {
		l.ClippingMeshID = id
	} else {
		l.RepresentationMeshID = id
	}
	m := &go3mf.Model{Extensions: exts, Childs: map[string]*go3mf.ChildModel{"/c": {}}}
	a, b, p := &m.Resources, &m.Childs["/c"].Resources, "/c"
	if sym.Choice(2) == 1 {
		a, b, p = b, a, ""
	}
	a.Objects = []*go3mf.Object{{ID: 2, Mesh: mesh(nil)}}
	b.Objects = []*go3mf.Object{{ID: 3, Mesh: mesh(nil)}, {ID: 5, Mesh: mesh(l)}}
	var w lib.Want
	w.If(id != 3, p, res+"object[1]/mesh/beamlattice", errors.ErrMissingResource)
	w.Check(m.Validate())
}

// H_beams: vertex indices of beams.
func H_beams() {
	l := lattice()
	nv := 3 + sym.Choice(3)
	n := sym.Choice(sym.Bound(4, 6))
	for i := 0; i < n; i++ {
		l.Beams.Beam = append(l.Beams.Beam, bl.Beam{Indices: [2]uint32{sym.Uint32(), sym.Uint32()}})
	}
	o := &go3mf.Object{ID: 5, Mesh: mesh(l)}
	o.Mesh.Triangles.Triangle = nil
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, nv)
	m, p := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{o}}, exts...)
	var w lib.Want
	for i, b := range l.Beams.Beam {
		x := res + "object[0]/mesh/beamlattice/" + lib.Idx("beam", i)
		if b.Indices[0] == b.Indices[1] {
			w.Add(p, x, bl.ErrLatticeSameVertex)
		} else {
			w.If(b.Indices[0] >= uint32(nv) || b.Indices[1] >= uint32(nv), p, x, errors.ErrIndexOutOfBounds)
		}
	}
	w.Check(m.Validate())
}

// H_radii: a second radius needs a first one; two radii are fine.
func H_radii() {
	l := lattice()
	l.Radius = sym.Float32()
	sym.Assume(l.Radius > 0)
	for i := 0; i < 2; i++ {
		b := bl.Beam{Indices: [2]uint32{0, uint32(i + 1)}, Radius: [2]float32{sym.Float32(), sym.Float32()}}
		sym.Assume(b.Radius[0] >= 0 && b.Radius[1] >= 0)
		sym.Assume(b.Radius[1] != 0 || b.Radius[0] == 0) // see H_firstradius
		l.Beams.Beam = append(l.Beams.Beam, b)
	}
	m, p := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{{ID: 5, Mesh: mesh(l)}}}, exts...)
	var w lib.Want
	for i, b := range l.Beams.Beam {
		w.If(b.Radius[0] == 0 && b.Radius[1] != 0, p, res+"object[0]/mesh/beamlattice/"+lib.Idx("beam", i), bl.ErrLatticeBeamR2)
	}
	w.Check(m.Validate())
}

// H_firstradius: a first radius needs no second one.
//
//verif:known
func H_firstradius() {
	l := lattice()
	b := bl.Beam{Indices: [2]uint32{0, 1}, Radius: [2]float32{sym.Float32(), 0}}
	sym.Assume(b.Radius[0] > 0)
	l.Beams.Beam = append(l.Beams.Beam, b)
	m, _ := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{{ID: 5, Mesh: mesh(l)}}}, exts...)
	sym.Assert(m.Validate() == nil, "a beam with a first radius only is valid")
	sym.Cover("done")
}

// H_clipping: clipping needs a clipping mesh, and only clipping does.
//
//verif:known
func H_clipping() {
	l := lattice()
	l.ClipMode = bl.ClipMode(sym.Choice(3))
	m, _ := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{{ID: 5, Mesh: mesh(l)}}}, exts...)
	err := m.Validate()
	if l.ClipMode == bl.ClipNone {
		sym.Assert(err == nil, "a lattice that is not clipped needs no clipping mesh")
	} else {
		sym.Assert(err != nil, "clipping without a clipping mesh is reported")
	}
	sym.Cover("done")
}

// H_sets: beam sets refer to beams of the lattice.
func H_sets() {
	l := lattice()
	nb := sym.Choice(sym.Bound(4, 6))
	for i := 0; i < nb; i++ {
		l.Beams.Beam = append(l.Beams.Beam, bl.Beam{Indices: [2]uint32{0, 1}})
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		s := bl.BeamSet{}
		for j, k := 0, sym.Choice(sym.Bound(3, 4)); j < k; j++ {
			s.Refs = append(s.Refs, sym.Uint32())
		}
		l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, s)
	}
	m, p := lib.Part(go3mf.Resources{Objects: []*go3mf.Object{{ID: 5, Mesh: mesh(l)}}}, exts...)
	var w lib.Want
	for i, s := range l.BeamSets.BeamSet {
		for _, r := range s.Refs {
			w.If(r >= uint32(nb), p, res+"object[0]/mesh/beamlattice/"+lib.Idx("beamset", i), errors.ErrIndexOutOfBounds)
		}
	}
	w.Check(m.Validate())
}

// H_long: one violated rule, anywhere in a lattice with many beams and sets.
func H_long() {
	const n = 12
	l := lattice()
	o := &go3mf.Object{ID: 5, Mesh: mesh(l)}
	o.Mesh.Triangles.Triangle = nil
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	for i := 0; i < n; i++ {
		l.Beams.Beam = append(l.Beams.Beam, bl.Beam{Indices: [2]uint32{uint32(i), uint32((i + 1) % n)}, Radius: [2]float32{1, 1}})
	}
	for i := 0; i < n; i++ {
		s := bl.BeamSet{}
		for j := 0; j < n; j++ {
			s.Refs = append(s.Refs, uint32(n-1-j))
		}
		l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, s)
	}
	var objs []*go3mf.Object
	for i := 0; i < n; i++ {
		objs = append(objs, &go3mf.Object{ID: uint32(10 + i), Mesh: mesh(nil)})
	}
	m, p := lib.Part(go3mf.Resources{Objects: append(objs, o)}, exts...)
	x := res + lib.Idx("object", n) + "/mesh/beamlattice"
	k := sym.Concrete(sym.Int(0, n-1))
	b := &l.Beams.Beam[k]
	var w lib.Want
	switch sym.Choice(8) {
	case 0:
		b.Indices[1] = n
		w.Add(p, x+"/"+lib.Idx("beam", k), errors.ErrIndexOutOfBounds)
	case 1:
		b.Indices[1] = b.Indices[0]
		w.Add(p, x+"/"+lib.Idx("beam", k), bl.ErrLatticeSameVertex)
	case 2:
		b.Radius[0] = 0
		w.Add(p, x+"/"+lib.Idx("beam", k), bl.ErrLatticeBeamR2)
	case 3:
		l.BeamSets.BeamSet[k].Refs[n-1-k] = n
		w.Add(p, x+"/"+lib.Idx("beamset", k), errors.ErrIndexOutOfBounds)
	case 4:
		l.BeamSets.BeamSet[n-1].Refs[k] = n
		w.Add(p, x+"/"+lib.Idx("beamset", n-1), errors.ErrIndexOutOfBounds)
	case 5:
		l.ClippingMeshID, l.RepresentationMeshID = uint32(10+k), uint32(10+n-1-k)
	case 6:
		l.ClippingMeshID = uint32(10 + k)
		objs[k].Mesh.Any = spec.Any{lattice()}
		w.Add(p, x, bl.ErrLatticeInvalidMesh)
	}
	w.Check(m.Validate())
}

// H_huge: as H_long, with more than fits a small counter.
func H_huge() {
	const r = 12
	n := sym.Concrete(sym.Bound(300, 1000))
	u := uint32(n)
	l := lattice()
	o := &go3mf.Object{ID: 5, Mesh: mesh(l)}
	o.Mesh.Triangles.Triangle = nil
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	for i := 0; i < n; i++ {
		l.Beams.Beam = append(l.Beams.Beam, bl.Beam{Indices: [2]uint32{uint32(i), uint32((i + 1) % n)}, Radius: [2]float32{1, 1}})
	}
	for i := 0; i < n; i++ {
		s := bl.BeamSet{}
		for j := 0; j < r; j++ {
			s.Refs = append(s.Refs, uint32(n-1-j))
		}
		l.BeamSets.BeamSet = append(l.BeamSets.BeamSet, s)
	}
	var objs []*go3mf.Object
	for i := 0; i < n; i++ {
		objs = append(objs, &go3mf.Object{ID: uint32(10 + i), Mesh: mesh(nil)})
	}
	m, p := lib.Part(go3mf.Resources{Objects: append(objs, o)}, exts...)
	x := res + lib.Idx("object", n) + "/mesh/beamlattice"
	k := sym.Concrete([]int{n - 1, 255, 256}[sym.Choice(sym.Bound(2, 3))])
	b := &l.Beams.Beam[k]
	var w lib.Want
	switch sym.Choice(8) {
	case 0:
		b.Indices[1] = u
		w.Add(p, x+"/"+lib.Idx("beam", k), errors.ErrIndexOutOfBounds)
	case 1:
		b.Indices[1] = b.Indices[0]
		w.Add(p, x+"/"+lib.Idx("beam", k), bl.ErrLatticeSameVertex)
	case 2:
		b.Radius[0] = 0
		w.Add(p, x+"/"+lib.Idx("beam", k), bl.ErrLatticeBeamR2)
	case 3:
		l.BeamSets.BeamSet[k].Refs[r-1] = u
		w.Add(p, x+"/"+lib.Idx("beamset", k), errors.ErrIndexOutOfBounds)
	case 4:
		l.BeamSets.BeamSet[n-1].Refs[k%r] = u
		w.Add(p, x+"/"+lib.Idx("beamset", n-1), errors.ErrIndexOutOfBounds)
	case 5:
		l.ClippingMeshID, l.RepresentationMeshID = uint32(10+k), uint32(10+n-1-k)
	case 6:
		l.ClippingMeshID = uint32(10 + k)
		objs[k].Mesh.Any = spec.Any{lattice()}
		w.Add(p, x, bl.ErrLatticeInvalidMesh)
	}
	w.Check(m.Validate())
}
