//go:build go1.22

package c01

import (
	"encoding/xml"
	"image/color"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

func roundTrip(m, want *go3mf.Model) {
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, want), "the loaded model equals the saved one")
	sym.Cover("round trip")
}

// texts is k strings one of which is any text of n characters; some of the others are empty.
func texts(k, n int) []string {
	r := make([]string, k)
	for i, odd := 0, sym.Choice(2); i < k; i++ {
		if i%2 == odd {
			r[i] = "q"
		}
	}
	r[sym.Choice(k)] = lib.OptText(n)
	return r
}

// H_model covers the model element itself.
func H_model() {
	t := texts(2, sym.Bound(2, 3))
	m := &go3mf.Model{
		Units:     go3mf.Units(sym.Choice(6)),
		Language:  t[0],
		Thumbnail: t[1],
	}
	want := *m
	roundTrip(m, &want)
}

func metadata(n int, spaces []string) []go3mf.Metadata {
	var r []go3mf.Metadata
	for i := 0; i < n; i++ {
		md := go3mf.Metadata{
			Name:     xml.Name{Local: lib.Word(2), Space: spaces[sym.Choice(len(spaces))]},
			Value:    lib.OptText(2),
			Type:     lib.OptText(1),
			Preserve: sym.Bool(),
		}
		r = append(r, md)
	}
	return r
}

// H_metadata covers metadata of the model.
func H_metadata() {
	m := &go3mf.Model{
		Extensions: []go3mf.Extension{{Namespace: "http://x/a", LocalName: "pa"}},
		Metadata:   metadata(1+sym.Choice(sym.Bound(1, 2)), []string{"", "pa"}),
	}
	want := *m
	roundTrip(m, &want)
}

// H_groups covers metadata groups of objects and items.
func H_groups() {
	k := sym.Choice(2)
	o := &go3mf.Object{ID: sym.Uint32(), Mesh: new(go3mf.Mesh)}
	it := &go3mf.Item{ObjectID: sym.Uint32()}
	if k == 0 {
		o.Metadata.Metadata = metadata(1, []string{""})
	} else {
		it.Metadata.Metadata = metadata(1, []string{""})
	}
	m := &go3mf.Model{
		Resources: go3mf.Resources{Objects: []*go3mf.Object{o}},
		Build:     go3mf.Build{Items: []*go3mf.Item{it}},
	}
	want := *m
	roundTrip(m, &want)
}

// H_basematerials covers base material resources.
func H_basematerials() {
	m := new(go3mf.Model)
	t := texts(3, sym.Bound(1, 2))
	for i, n := 0, sym.Choice(2); i <= n; i++ {
		b := &go3mf.BaseMaterials{ID: sym.Uint32()}
		for j, n := 0, sym.Choice(3-i); j < n; j++ {
			b.Materials = append(b.Materials, go3mf.Base{
				Name:  t[i+j],
				Color: color.RGBA{R: sym.Byte(), G: sym.Byte(), B: sym.Byte(), A: sym.Byte()},
			})
		}
		m.Resources.Assets = append(m.Resources.Assets, b)
	}
	want := *m
	roundTrip(m, &want)
}

// H_object covers the attributes of mesh objects.
func H_object() {
	t := texts(3, sym.Bound(1, 2))
	o := &go3mf.Object{
		ID:         sym.Uint32(),
		Type:       go3mf.ObjectType(sym.Choice(5)),
		Name:       t[0],
		PartNumber: t[1],
		Thumbnail:  t[2],
		PID:        sym.Uint32(),
		PIndex:     sym.Uint32(),
		Mesh:       new(go3mf.Mesh),
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
	want := *m
	roundTrip(m, &want)
}

// H_vertices covers vertex coordinates.
func H_vertices() {
	n := sym.Bound(2, 4)
	mesh, wmesh := new(go3mf.Mesh), new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		x, y, z := sym.Float32(), sym.Float32(), sym.Float32()
		mesh.Vertices.Vertex = append(mesh.Vertices.Vertex, go3mf.Point3D{x, y, z})
		wmesh.Vertices.Vertex = append(wmesh.Vertices.Vertex, go3mf.Point3D{lib.Q4(x), lib.Q4(y), lib.Q4(z)})
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 1, Mesh: mesh}}}}
	want := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 1, Mesh: wmesh}}}}
	roundTrip(m, want)
}

// H_triangles covers triangle indices and properties with their object-level defaults.
func H_triangles() {
	o := &go3mf.Object{ID: 5, PID: sym.Uint32(), PIndex: sym.Uint32(), Mesh: new(go3mf.Mesh)}
	n := 1 + sym.Choice(sym.Bound(2, 3))
	for i := 0; i < n; i++ {
		t := go3mf.Triangle{
			V1: sym.Uint32(), V2: sym.Uint32(), V3: sym.Uint32(),
			PID: sym.Uint32(), P1: sym.Uint32(), P2: sym.Uint32(), P3: sym.Uint32(),
		}
		// a triangle without a property takes the object's
		sym.Assume(t.PID != 0 || o.PID == 0 && t.P1 == o.PIndex && t.P2 == o.PIndex && t.P3 == o.PIndex)
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, t)
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
	want := *m
	roundTrip(m, &want)
}

var identity = go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}

// H_components covers component objects.
func H_components() {
	o, w := &go3mf.Object{ID: sym.Uint32(), Name: lib.OptText(1), Type: go3mf.ObjectType(sym.Choice(5))}, new(go3mf.Object)
	*w = *o
	o.Components, w.Components = new(go3mf.Components), new(go3mf.Components)
	for i, n := 0, sym.Choice(3); i < n; i++ {
		c := &go3mf.Component{ObjectID: sym.Uint32()}
		wc := *c
		if sym.Choice(2) == 1 {
			c.Transform, wc.Transform = lib.Matrix()
			sym.Assume(c.Transform != identity)
		}
		o.Components.Component = append(o.Components.Component, c)
		w.Components.Component = append(w.Components.Component, &wc)
	}
	m := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}
	want := &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{w}}}
	roundTrip(m, want)
}

// H_items covers build items.
func H_items() {
	m, w := new(go3mf.Model), new(go3mf.Model)
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		it := &go3mf.Item{ObjectID: sym.Uint32(), PartNumber: lib.OptText(1)}
		wi := *it
		if sym.Choice(2) == 1 {
			it.Transform, wi.Transform = lib.Matrix()
			sym.Assume(it.Transform != identity)
		}
		m.Build.Items = append(m.Build.Items, it)
		w.Build.Items = append(w.Build.Items, &wi)
	}
	roundTrip(m, w)
}

// symbolic values of every kind in a mesh of several vertices.
func mesh(n int) (m, w *go3mf.Mesh) {
	m, w = new(go3mf.Mesh), new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		var p, q go3mf.Point3D
		if i%3 != 1 { // some vertices are at the origin
			x := sym.Float32()
			p, q = go3mf.Point3D{1.5, x, -2}, go3mf.Point3D{1.5, lib.Q4(x), -2}
		}
		m.Vertices.Vertex = append(m.Vertices.Vertex, p)
		w.Vertices.Vertex = append(w.Vertices.Vertex, q)
	}
	return
}

// H_kinds covers sequences of triangles that get their properties in different ways.
func H_kinds() {
	o := &go3mf.Object{ID: 5, PID: 3, PIndex: uint32(sym.Choice(2)) * 2}
	w := *o
	o.Mesh, w.Mesh = mesh(5)
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		t := go3mf.Triangle{V1: sym.Uint32(), V2: uint32(i), V3: 7, PID: o.PID, P1: o.PIndex, P2: o.PIndex, P3: o.PIndex}
		switch sym.Choice(6) {
		case 1:
			t.PID = 4
		case 2:
			t.P1, t.P2, t.P3 = 1, 1, 1
		case 3:
			t.P1 = 7
		case 4:
			t.P2 = 0xffffffff
		case 5:
			t.P3 = 5
		}
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, t)
	}
	w.Mesh.Triangles = o.Mesh.Triangles
	roundTrip(&go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{o}}}, &go3mf.Model{Resources: go3mf.Resources{Objects: []*go3mf.Object{&w}}})
}

// H_many covers models with several of everything, of kinds that follow each other in any order.
func H_many() {
	m := &go3mf.Model{Units: go3mf.UnitInch, Language: "en", Path: ""}
	for i, n := 0, 4; i < n; i++ {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "http://x/" + string(rune('a'+i)), LocalName: []string{"pc", "pa", "pd", "pb"}[i], IsRequired: true})
	}
	if k := sym.Choice(5); k < 4 {
		m.Extensions[k].IsRequired = false
	}
	for i, s := range []string{"", "pa", "pd", "pc", ""} {
		m.Metadata = append(m.Metadata, go3mf.Metadata{Name: xml.Name{Space: s, Local: string(rune('a' + i))}, Value: []string{" ", "", "x y"}[i%3], Preserve: i%2 == 0, Type: []string{"", "t"}[i/2%2]})
	}
	m.Metadata[2].Name.Local += ":" + sym.StringOf(1, "ab:")
	w := *m
	group := func(k int) (r []go3mf.Metadata) {
		for i := 0; i < k; i++ {
			r = append(r, go3mf.Metadata{Name: xml.Name{Local: string(rune('a' + i))}, Value: []string{"", "&"}[i%2]})
		}
		return
	}
	var mo, wo []*go3mf.Object
	for i, n := 0, 3; i < n; i++ {
		o := &go3mf.Object{ID: sym.Uint32(), Type: go3mf.ObjectType(i), Name: []string{"", "a", ""}[i]}
		o.Metadata.Metadata = group([]int{0, 2, 1}[i])
		c := *o
		if sym.Choice(2) == 0 {
			o.PID, o.PIndex = []uint32{0, 4, 4}[i], []uint32{2, 0, 2}[i]
			c.PID, c.PIndex = o.PID, o.PIndex
			o.Mesh = new(go3mf.Mesh)
			for j, n := 0, 3*i; j < n; j++ {
				o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(j), 0.5, -2})
			}
			c.Mesh = o.Mesh
		} else {
			o.Components, c.Components = new(go3mf.Components), new(go3mf.Components)
			for j, n := 0, 3; j < n; j++ {
				p, q := &go3mf.Component{ObjectID: sym.Uint32()}, new(go3mf.Component)
				if j == i {
					p.Transform = go3mf.Identity().Translate(1, 2, 3)
				}
				*q = *p
				o.Components.Component, c.Components.Component = append(o.Components.Component, p), append(c.Components.Component, q)
			}
		}
		mo, wo = append(mo, o), append(wo, &c)
	}
	if sym.Choice(2) == 0 { // one of them is there twice
		mo, wo = append(mo, mo[2]), append(wo, wo[2])
	}
	m.Resources.Objects, w.Resources.Objects = mo, wo
	m.Resources.Assets = []go3mf.Asset{lib.Base(sym.Uint32(), 3), lib.Base(sym.Uint32(), 0), lib.Base(sym.Uint32(), 1)}
	w.Resources.Assets = m.Resources.Assets
	roundTrip(m, &w)
}

// H_sequence covers items with and without metadata and transforms that follow each other in any order.
func H_sequence() {
	m := new(go3mf.Model)
	for i, n := 0, sym.Bound(3, 4); i < n; i++ {
		it := &go3mf.Item{ObjectID: sym.Uint32()}
		switch sym.Choice(4) {
		case 1:
			it.Metadata.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "a"}, Value: "v"}, {Name: xml.Name{Local: "b"}}}
		case 2:
			it.Transform = go3mf.Identity().Translate(0, 2.5, -3)
			it.PartNumber = "p"
		case 3:
			it.Transform = go3mf.Matrix{2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1}
			it.Metadata.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "c"}, Value: "v", Preserve: true}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	w := *m
	roundTrip(m, &w)
}

// H_huge: much more of one thing than fits any buffer or small counter, one of which is anything.
//
//verif:steps=200000000 weight=1
func H_huge() {
	n := sym.Concrete(sym.Bound(600, 5000))
	k := sym.Concrete([]int{n - 1, 255, 256, 0, 257}[sym.Choice(sym.Bound(2, 5))]) // which one
	m := new(go3mf.Model)
	o := &go3mf.Object{ID: 1, Mesh: new(go3mf.Mesh)}
	m.Resources.Objects = []*go3mf.Object{o}
	var group []go3mf.Metadata
	switch sym.Choice(8) {
	case 0:
		for i := 0; i < n; i++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, go3mf.Point3D{float32(i), float32(-i) / 2, 0.25})
		}
		o.Mesh.Vertices.Vertex[k] = go3mf.Point3D{sym.IntFloat(-9999, 9999), 1, sym.IntFloat(-9999, 9999)}
	case 1:
		o.PID, o.PIndex = 3, 1
		for i := 0; i < n; i++ {
			t := go3mf.Triangle{V1: uint32(i), V2: uint32(i + 1), V3: uint32(2 * i), PID: 4, P1: uint32(i), P2: uint32(i), P3: uint32(i)}
			if i%2 == 1 {
				t.P2, t.P3 = 7, uint32(i+1)
			}
			o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, t)
		}
		o.Mesh.Triangles.Triangle[k].V1, o.Mesh.Triangles.Triangle[k].V3 = sym.Uint32(), sym.Uint32()
	case 2:
		for i := 1; i < n; i++ {
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(i + 1), Mesh: new(go3mf.Mesh)})
		}
		m.Resources.Objects[k].ID = sym.Uint32()
		m.Resources.Objects[k].Name = lib.OptText(1)
	case 3:
		o.Mesh, o.Components = nil, new(go3mf.Components)
		for i := 0; i < n; i++ {
			o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: uint32(i + 2)})
		}
		o.Components.Component[k].ObjectID = sym.Uint32()
	case 4:
		for i := 0; i < n; i++ {
			m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(i)})
		}
		m.Build.Items[k].ObjectID, m.Build.Items[k].PartNumber = sym.Uint32(), lib.OptText(1)
	case 5:
		for i := 0; i < n; i++ {
			m.Resources.Assets = append(m.Resources.Assets, &go3mf.BaseMaterials{ID: uint32(i + 2)})
		}
		m.Resources.Assets[k] = lib.Base(sym.Uint32(), 2)
	case 6:
		b := &go3mf.BaseMaterials{ID: 2}
		for i := 0; i < n; i++ {
			b.Materials = append(b.Materials, go3mf.Base{Name: "n", Color: color.RGBA{R: byte(i), G: byte(i >> 8), B: 1, A: 255}})
		}
		b.Materials[k].Color.A = sym.Byte()
		m.Resources.Assets = []go3mf.Asset{b}
	case 7:
		for i := 0; i < n; i++ {
			group = append(group, go3mf.Metadata{Name: xml.Name{Local: "a"}, Value: "v"})
		}
		group[k].Value = lib.OptText(1)
		switch sym.Choice(3) {
		case 0:
			m.Metadata = group
		case 1:
			o.Metadata.Metadata = group
		case 2:
			m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
			m.Build.Items[0].Metadata.Metadata = group
		}
	}
	w := *m
	roundTrip(m, &w)
}

// H_longtexts: texts longer than any buffer, with any character anywhere.
func H_longtexts() {
	s := func(k int) string {
		n := []int{60, 255, 4090, 9000}[sym.Choice(4)]
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte(i%26)
		}
		p := []int{0, n / 2, n - 1}[sym.Choice(3)]
		return string(b[:p]) + lib.Text(1) + string(b[p:])
	}
	m := new(go3mf.Model)
	o := &go3mf.Object{ID: 1, Mesh: new(go3mf.Mesh)}
	b := lib.Base(2, 1)
	it := &go3mf.Item{ObjectID: 1}
	m.Resources.Objects, m.Resources.Assets, m.Build.Items = []*go3mf.Object{o}, []go3mf.Asset{b}, []*go3mf.Item{it}
	m.Metadata = []go3mf.Metadata{{Name: xml.Name{Local: "a"}}}
	at := []*string{&m.Language, &m.Thumbnail, &o.Name, &o.PartNumber, &o.Thumbnail, &it.PartNumber, &b.Materials[0].Name, &m.Metadata[0].Value, &m.Metadata[0].Type}
	k := sym.Choice(len(at))
	*at[k] = s(k)
	w := *m
	roundTrip(m, &w)
}
