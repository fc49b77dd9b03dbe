//go:build go1.22

// Package c33: what attributes that are left out mean.
package c33

import (
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=400

func decode(doc string) *go3mf.Model {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(doc), m)
	sym.Assert(err == nil, "a document without optional attributes loads")
	return m
}

// opt is an attribute that may be left out.
func opt(doc *string, name string) (uint32, bool) {
	if sym.Choice(2) == 0 {
		return 0, false
	}
	v := sym.Uint32()
	*doc += ` ` + name + `="` + strconv.FormatUint(uint64(v), 10) + `"`
	return v, true
}

func or(v uint32, has bool, other uint32) uint32 {
	if has {
		return v
	}
	return other
}

// The properties of triangles, which are those of the object and of the first corner.
func H_triangle() {
	doc := `<model ` + lib.Spaces + `><resources><object id="1"`
	opid, _ := opt(&doc, "pid")
	opi, _ := opt(&doc, "pindex")
	doc += `><mesh><triangles>`
	var want []go3mf.Triangle
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		v := sym.Uint32()
		doc += `<triangle v1="` + strconv.FormatUint(uint64(v), 10) + `" v2="1" v3="2"`
		t := go3mf.Triangle{V1: v, V2: 1, V3: 2}
		pid, has := opt(&doc, "pid")
		t.PID = or(pid, has, opid)
		p1, has := opt(&doc, "p1")
		t.P1 = or(p1, has, opi)
		p2, has := opt(&doc, "p2")
		t.P2 = or(p2, has, t.P1)
		p3, has := opt(&doc, "p3")
		t.P3 = or(p3, has, t.P1)
		doc += `/>`
		want = append(want, t)
	}
	doc += `<triangle v1="0" v2="1" v3="2"/></triangles></mesh></object></resources></model>`
	want = append(want, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: opid, P1: opi, P2: opi, P3: opi})
	m := decode(doc)
	got := m.Resources.Objects[0].Mesh.Triangles.Triangle
	sym.Assert(sym.Equal(got, want), "corners without a property have that of the first one, and triangles without one that of the object")
	sym.Cover("triangle")
}

// The properties of the segments of a polygon.
func H_segment() {
	doc := `<model ` + lib.Spaces + `><resources><s:slicestack id="1"><s:slice ztop="1"><s:polygon startv="0">`
	var want []slices.Segment
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		doc += `<s:segment v2="1"`
		s := slices.Segment{V2: 1}
		s.PID, _ = opt(&doc, "pid")
		p1, has1 := opt(&doc, "p1")
		p2, has2 := opt(&doc, "p2")
		sym.Assume(has1 || !has2)
		s.P1 = p1
		s.P2 = or(p2, has2, p1)
		doc += `/>`
		want = append(want, s)
	}
	doc += `<s:segment v2="0"/></s:polygon></s:slice></s:slicestack></resources></model>`
	want = append(want, slices.Segment{})
	m := decode(doc)
	got := m.Resources.Assets[0].(*slices.SliceStack)
	sym.Assert(sym.Equal(got.Slices[0].Polygons[0].Segments, want), "the end of a segment without a property has that of its start")
	sym.Assert(got.BottomZ == 0, "stacks start at zero")
	sym.Cover("segment")
}

// The radii and caps of beams, which are those of the lattice.
func H_beam() {
	caps := []string{"", "sphere", "hemisphere", "butt"}
	modes := []beamlattice.CapMode{0, beamlattice.CapModeSphere, beamlattice.CapModeHemisphere, beamlattice.CapModeButt}
	c := sym.Choice(4)
	radius := sym.IntFloat(1, 100)
	doc := `<model ` + lib.Spaces + `><resources><object id="1"><mesh><b:beamlattice minlength="1" radius="` + strconv.FormatFloat(float64(radius), 'f', 4, 32) + `"`
	mode := beamlattice.CapModeSphere
	if c > 0 {
		doc += ` cap="` + caps[c] + `"`
		mode = modes[c]
	}
	doc += `><b:beams>`
	var want []beamlattice.Beam
	for i, n := 0, 1; i < n; i++ {
		b := beamlattice.Beam{Indices: [2]uint32{sym.Uint32(), 3}, CapMode: [2]beamlattice.CapMode{mode, mode}, Radius: [2]float32{radius, radius}}
		doc += `<b:beam v1="` + strconv.FormatUint(uint64(b.Indices[0]), 10) + `" v2="3"`
		if sym.Choice(2) == 0 {
			b.Radius = [2]float32{7.5, 7.5}
			doc += ` r1="7.5"`
		}
		if sym.Choice(2) == 0 {
			b.Radius[1] = 9
			doc += ` r2="9"`
		}
		if c := sym.Choice(4); c > 0 {
			b.CapMode[0] = modes[c]
			doc += ` cap1="` + caps[c] + `"`
		}
		if c := sym.Choice(4); c > 0 {
			b.CapMode[1] = modes[c]
			doc += ` cap2="` + caps[c] + `"`
		}
		doc += `/>`
		want = append(want, b)
	}
	doc += `<b:beam v1="0" v2="1"/></b:beams></b:beamlattice></mesh></object></resources></model>`
	want = append(want, beamlattice.Beam{Indices: [2]uint32{0, 1}, CapMode: [2]beamlattice.CapMode{mode, mode}, Radius: [2]float32{radius, radius}})
	m := decode(doc)
	got := beamlattice.GetBeamLattice(m.Resources.Objects[0].Mesh)
	sym.Assert(sym.Equal(got.Beams.Beam, want), "beams without radii and caps have those of the lattice, and the second radius is the first one")
	sym.Assert(got.CapMode == mode && got.ClipMode == beamlattice.ClipNone && got.ClippingMeshID == 0 && got.RepresentationMeshID == 0, "caps are spheres and nothing is clipped")
	sym.Cover("beam")
}

func object(m *go3mf.Model) *go3mf.Object { return m.Resources.Objects[0] }
func texture(m *go3mf.Model) *materials.Texture2D {
	return m.Resources.Assets[1].(*materials.Texture2D)
}
func component(m *go3mf.Model) *go3mf.Component {
	return m.Resources.Objects[1].Components.Component[0]
}
func lattice(m *go3mf.Model) *beamlattice.BeamLattice {
	return beamlattice.GetBeamLattice(object(m).Mesh)
}

// optional attributes of the first element of some name in the document with everything, and what
// changes without them.
var optional = []struct {
	elem, attr string
	without    func(m *go3mf.Model)
}{
	{"model", "unit", func(m *go3mf.Model) { m.Units = go3mf.UnitMillimeter }},
	{"model", "xml:lang", func(m *go3mf.Model) { m.Language = "" }},
	{"model", "thumbnail", func(m *go3mf.Model) { m.Thumbnail = "" }},
	{"model", "requiredextensions", func(m *go3mf.Model) {
		for i := range m.Extensions {
			m.Extensions[i].IsRequired = false
		}
	}},
	{"metadata", "preserve", func(m *go3mf.Model) { m.Metadata[0].Preserve = false }},
	{"metadata", "type", func(m *go3mf.Model) { m.Metadata[0].Type = "" }},
	{"m:texture2d", "tilestyleu", func(m *go3mf.Model) { texture(m).TileStyleU = materials.TileWrap }},
	{"m:texture2d", "tilestylev", func(m *go3mf.Model) { texture(m).TileStyleV = materials.TileWrap }},
	{"m:texture2d", "filter", func(m *go3mf.Model) { texture(m).Filter = materials.TextureFilterAuto }},
	{"m:multiproperties", "blendmethods", func(m *go3mf.Model) { m.Resources.Assets[5].(*materials.MultiProperties).BlendMethods = nil }},
	{"s:slicestack", "zbottom", func(m *go3mf.Model) { m.Resources.Assets[6].(*slices.SliceStack).BottomZ = 0 }},
	{"object", "type", func(m *go3mf.Model) { object(m).Type = go3mf.ObjectTypeModel }},
	{"object", "name", func(m *go3mf.Model) { object(m).Name = "" }},
	{"object", "partnumber", func(m *go3mf.Model) { object(m).PartNumber = "" }},
	{"object", "thumbnail", func(m *go3mf.Model) { object(m).Thumbnail = "" }},
	{"object", "pid", func(m *go3mf.Model) { object(m).PID, object(m).Mesh.Triangles.Triangle[1].PID = 0, 0 }},
	{"object", "pindex", func(m *go3mf.Model) {
		t := &object(m).Mesh.Triangles.Triangle[1]
		object(m).PIndex, t.P1, t.P2, t.P3 = 0, 0, 0, 0
	}},
	{"object", "s:meshresolution", func(m *go3mf.Model) { slices.GetObjectAttr(object(m)).MeshResolution = slices.ResolutionFull }},
	{"b:beamlattice", "clippingmode", func(m *go3mf.Model) { lattice(m).ClipMode = beamlattice.ClipNone }},
	{"b:beamlattice", "clippingmesh", func(m *go3mf.Model) { lattice(m).ClippingMeshID = 0 }},
	{"b:beamlattice", "representationmesh", func(m *go3mf.Model) { lattice(m).RepresentationMeshID = 0 }},
	{"b:beamlattice", "cap", func(m *go3mf.Model) {
		l := lattice(m)
		l.CapMode, l.Beams.Beam[1].CapMode = beamlattice.CapModeSphere, [2]beamlattice.CapMode{}
	}},
	{"b:beam", "r2", func(m *go3mf.Model) { lattice(m).Beams.Beam[0].Radius[1] = lattice(m).Beams.Beam[0].Radius[0] }},
	{"b:beamset", "name", func(m *go3mf.Model) { lattice(m).BeamSets.BeamSet[0].Name = "" }},
	{"b:beamset", "identifier", func(m *go3mf.Model) { lattice(m).BeamSets.BeamSet[0].Identifier = "" }},
	{"component", "transform", func(m *go3mf.Model) { component(m).Transform = go3mf.Matrix{} }},
	{"component", "p:path", func(m *go3mf.Model) { production.GetComponentAttr(component(m)).Path = "" }},
	{"item", "transform", func(m *go3mf.Model) { m.Build.Items[0].Transform = go3mf.Matrix{} }},
	{"item", "partnumber", func(m *go3mf.Model) { m.Build.Items[0].PartNumber = "" }},
	{"item", "p:path", func(m *go3mf.Model) { production.GetItemAttr(m.Build.Items[0]).Path = "" }},
}

// Any two optional attributes left out of a document with everything.
func H_rich() {
	doc, want := lib.Rich(), decode(string(lib.Rich().Render(lib.Style{})))
	n := len(optional)
	i := sym.Choice(n)
	j := i + sym.Choice(min(n-i, sym.Bound(8, n)))
	for k, o := range optional {
		if k != i && k != j {
			continue
		}
		for _, e := range doc.Nodes() {
			if e.Name != o.elem {
				continue
			}
			had := len(e.Attrs)
			for l, a := range e.Attrs {
				if a[0] == o.attr {
					e.Attrs = append(e.Attrs[:l:l], e.Attrs[l+1:]...)
					break
				}
			}
			sym.Assert(len(e.Attrs) == had-1, "the attribute is there")
			break
		}
		o.without(want)
	}
	got := decode(string(doc.Render(lib.Style{})))
	sym.Assert(sym.Equal(got, want), "attributes left out have their default, and nothing else changes")
	it, c := got.Build.Items[0], component(got)
	sym.Assert(it.HasTransform() == (it.Transform != go3mf.Matrix{}) && c.HasTransform() == (c.Transform != go3mf.Matrix{}), "there is no transform when it is left out")
	sym.Assert(it.ObjectPath() == production.GetItemAttr(it).Path, "items without a path are of the root model")
	own := lib.RootPath
	if p := production.GetComponentAttr(c).Path; p != "" {
		own = p
	}
	sym.Assert(c.ObjectPath(lib.RootPath) == own, "components without a path are of their own part")
	sym.Cover("rich")
}
