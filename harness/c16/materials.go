//go:build go1.22

// Package c16: material validation.
//
//verif:budget quick=40 thorough=600
package c16

import (
	"image/color"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/zzverif/lib"
)

const res = "/model/resources/"

var exts = []go3mf.Extension{materials.DefaultExtension}

// ids is what every part below holds; id 99 names nothing.
//
//	1 base(2) 2 colors(3) 3 composite(2) 4 texture 5 coords(2) 6 multi(1) 7 colors(1)
func assets() []go3mf.Asset {
	c := color.RGBA{A: 1}
	return []go3mf.Asset{
		lib.Base(1, 2),
		&materials.ColorGroup{ID: 2, Colors: []color.RGBA{c, c, c}},
		&materials.CompositeMaterials{ID: 3, MaterialID: 1, Indices: []uint32{0, 1}, Composites: make([]materials.Composite, 2)},
		&materials.Texture2D{ID: 4, Path: "/t.png", ContentType: materials.TextureTypePNG},
		&materials.Texture2DGroup{ID: 5, TextureID: 4, Coords: make([]materials.TextureCoord, 2)},
		&materials.MultiProperties{ID: 6, PIDs: []uint32{1}, Multis: make([]materials.Multi, 1)},
		&materials.ColorGroup{ID: 7, Colors: []color.RGBA{c}},
	}
}

var lens = map[uint32]uint32{1: 2, 2: 3, 3: 2, 5: 2, 6: 1, 7: 1}

func model(extra ...go3mf.Asset) (*go3mf.Model, string) {
	m, p := lib.Part(go3mf.Resources{Assets: append(assets(), extra...)}, exts...)
	m.Attachments = []go3mf.Attachment{{Path: "/T.png"}}
	return m, p
}

// H_fixture: the surrounding resources are valid.
func H_fixture() {
	m, _ := model()
	var w lib.Want
	w.Check(m.Validate())
}

// H_colors: color groups.
func H_colors() {
	r := &materials.ColorGroup{ID: sym.Uint32()}
	sym.Assume(r.ID == 0 || r.ID > 7)
	for i, n := 0, sym.Choice(4); i < n; i++ {
		r.Colors = append(r.Colors, color.RGBA{R: sym.Byte(), G: sym.Byte(), B: sym.Byte(), A: sym.Byte()})
	}
	m, p := model(r)
	x := res + "colorgroup[7]"
	var w lib.Want
	w.If(r.ID == 0, p, x, errors.ErrMissingID)
	w.If(len(r.Colors) == 0, p, x, errors.ErrEmptyResourceProps)
	for i, c := range r.Colors {
		if c.R == 0 && c.G == 0 && c.B == 0 && c.A == 0 {
			w.Missing(p, x+"/"+lib.Idx("color", i), "color")
		}
	}
	w.Check(m.Validate())
}

// H_coords: texture coordinate groups.
func H_coords() {
	r := &materials.Texture2DGroup{ID: sym.Uint32(), TextureID: sym.Uint32()}
	sym.Assume(r.ID == 0 || r.ID > 7)
	sym.Assume(r.ID != r.TextureID)
	r.Coords = make([]materials.TextureCoord, sym.Choice(3))
	m, p := model(r)
	x := res + "texture2dgroup[7]"
	var w lib.Want
	w.If(r.ID == 0, p, x, errors.ErrMissingID)
	w.If(len(r.Coords) == 0, p, x, errors.ErrEmptyResourceProps)
	if r.TextureID == 0 {
		w.Missing(p, x, "texid")
	} else {
		w.If(r.TextureID != 4, p, x, materials.ErrTextureReference)
	}
	w.Check(m.Validate())
}

// H_texture: textures and their parts.
func H_texture() {
	r := &materials.Texture2D{ID: sym.Uint32(), ContentType: materials.Texture2DType(sym.Int(0, 2))}
	sym.Assume(r.ID == 0 || r.ID > 7)
	n := sym.Choice(sym.Bound(4, 6))
	r.Path = sym.StringOf(n, "/aAbB.")
	m, p := model(r)
	m.Attachments = append(m.Attachments, go3mf.Attachment{Path: "/aB"}, go3mf.Attachment{Path: "/b.A"})
	x := res + "texture2d[7]"
	var w lib.Want
	w.If(r.ID == 0, p, x, errors.ErrMissingID)
	if n == 0 {
		w.Missing(p, x, "path")
	} else {
		same := n == 3 && r.Path[0] == '/' && r.Path[1]|0x20 == 'a' && r.Path[2]|0x20 == 'b' ||
			n == 4 && r.Path[0] == '/' && r.Path[1]|0x20 == 'b' && r.Path[2] == '.' && r.Path[3]|0x20 == 'a'
		w.If(!same, p, x, materials.ErrMissingTexturePart)
	}
	if r.ContentType == 0 {
		w.Missing(p, x, "contenttype")
	}
	w.Check(m.Validate())
}

// H_composite: composite materials.
func H_composite() {
	r := &materials.CompositeMaterials{ID: sym.Uint32(), MaterialID: sym.Uint32()}
	sym.Assume(r.ID == 0 || r.ID > 8)
	sym.Assume(r.ID != r.MaterialID)
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		r.Indices = append(r.Indices, sym.Uint32())
	}
	r.Composites = make([]materials.Composite, sym.Choice(2))
	n := uint32(sym.Choice(4))
	m, p := model(r, lib.Base(8, int(n)))
	x := res + "compositematerials[7]"
	var w lib.Want
	w.If(r.ID == 0, p, x, errors.ErrMissingID)
	w.If(len(r.Composites) == 0, p, x, errors.ErrEmptyResourceProps)
	w.If(n == 0, p, res+"basematerials[8]", errors.ErrEmptyResourceProps)
	if len(r.Indices) == 0 {
		w.Missing(p, x, "matindices")
	}
	switch {
	case r.MaterialID == 0:
		w.Missing(p, x, "matid")
	case r.MaterialID == 1 || r.MaterialID == 8:
		l := n
		if r.MaterialID == 1 {
			l = 2
		}
		for _, i := range r.Indices {
			w.If(i >= l, p, x, errors.ErrIndexOutOfBounds)
		}
	case r.MaterialID <= 7:
		w.Add(p, x, materials.ErrCompositeBase)
	default:
		w.Add(p, x, errors.ErrMissingResource)
	}
	w.Check(m.Validate())
}

// H_layers: which groups may be layered, in which order.
func H_layers() {
	r := &materials.MultiProperties{ID: sym.Uint32(), Multis: make([]materials.Multi, 1)}
	sym.Assume(r.ID == 0 || r.ID > 99)
	n := sym.Choice(sym.Bound(4, 5))
	ids := []uint32{1, 2, 3, 5, 6, 7, 99}
	for i := 0; i < n; i++ {
		r.PIDs = append(r.PIDs, ids[sym.Int(0, len(ids)-1)])
	}
	r.BlendMethods = make([]materials.BlendMethod, sym.Choice(4))
	m, p := model(r)
	x := res + "multiproperties[7]"
	var w lib.Want
	w.If(r.ID == 0, p, x, errors.ErrMissingID)
	if n == 0 {
		w.Missing(p, x, "pids")
	}
	w.If(len(r.BlendMethods) > n-1, p, x, materials.ErrMultiBlend)
	colors := 0
	for i, id := range r.PIDs {
		w.If(i > 0 && (id == 1 || id == 3), p, x, materials.ErrMaterialMulti)
		w.If(id == 6, p, x, materials.ErrMultiRefMulti)
		w.If(id == 99, p, x, errors.ErrMissingResource)
		if id == 2 || id == 7 {
			w.If(colors > 0, p, x, materials.ErrMultiColors)
			colors++
		}
	}
	w.Check(m.Validate())
}

// H_indices: the indices of layered properties.
func H_indices() {
	r := &materials.MultiProperties{ID: 8}
	n := 1 + sym.Choice(2)
	first := []uint32{1, 2, 3, 5, 7}[sym.Choice(5)]
	r.PIDs = []uint32{first, 5}[:n]
	for i, k := 0, sym.Choice(sym.Bound(3, 4)); i < k; i++ {
		mu := materials.Multi{}
		for j, l := 0, sym.Choice(4); j < l; j++ {
			mu.PIndices = append(mu.PIndices, sym.Uint32())
		}
		r.Multis = append(r.Multis, mu)
	}
	m, p := model(r)
	x := res + "multiproperties[7]"
	var w lib.Want
	w.If(len(r.Multis) == 0, p, x, errors.ErrEmptyResourceProps)
	for i, mu := range r.Multis {
		for j, v := range mu.PIndices {
			if j < n {
				w.If(v >= lens[r.PIDs[j]], p, x+"/"+lib.Idx("multi", i), errors.ErrIndexOutOfBounds)
			}
		}
	}
	w.Check(m.Validate())
}

// H_empty: what refers to a group without entries.
func H_empty() {
	l := assets()
	id := []uint32{1, 2, 3, 5, 7}[sym.Choice(5)]
	name := map[uint32]string{1: "basematerials", 2: "colorgroup", 3: "compositematerials", 5: "texture2dgroup", 7: "colorgroup"}[id]
	switch a := l[id-1].(type) {
	case *go3mf.BaseMaterials:
		a.Materials = nil
	case *materials.ColorGroup:
		a.Colors = nil
	case *materials.CompositeMaterials:
		a.Composites = nil
	case *materials.Texture2DGroup:
		a.Coords = nil
	}
	multi := &materials.MultiProperties{ID: 8, PIDs: []uint32{id}, Multis: make([]materials.Multi, 2)}
	v := sym.Uint32()
	multi.Multis[1].PIndices = []uint32{v}
	o := &go3mf.Object{ID: 20, Mesh: lib.Solid(), PID: id, PIndex: v}
	m, p := lib.Part(go3mf.Resources{Assets: append(l, multi), Objects: []*go3mf.Object{o}}, exts...)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
	var w lib.Want
	w.Add(p, res+lib.Idx(name, int(id-1)), errors.ErrEmptyResourceProps)
	if id == 1 { // what the others of the part have in it
		w.Add(p, res+"compositematerials[2]", errors.ErrIndexOutOfBounds)
		w.Add(p, res+"compositematerials[2]", errors.ErrIndexOutOfBounds)
	}
	w.Add(p, res+"multiproperties[7]/multi[1]", errors.ErrIndexOutOfBounds)
	w.Add(p, res+"object[0]", errors.ErrIndexOutOfBounds)
	w.Check(m.Validate())
}

// H_users: meshes that use the properties.
func H_users() {
	pid := []uint32{1, 2, 3, 5, 6, 7}[sym.Choice(6)]
	o := &go3mf.Object{ID: 20, Mesh: lib.Solid(), PID: pid, PIndex: sym.Uint32()}
	t := &o.Mesh.Triangles.Triangle[1]
	t.PID = []uint32{1, 2, 3, 5, 6, 7}[sym.Choice(6)]
	t.P1, t.P2, t.P3 = sym.Uint32(), sym.Uint32(), sym.Uint32()
	m, p := lib.Part(go3mf.Resources{Assets: assets(), Objects: []*go3mf.Object{o}}, exts...)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
	x := res + "object[0]"
	var w lib.Want
	w.If(o.PIndex >= lens[pid], p, x, errors.ErrIndexOutOfBounds)
	if !(t.PID == pid && t.P1 == o.PIndex && t.P2 == o.PIndex && t.P3 == o.PIndex) {
		l := lens[t.PID]
		w.If(t.P1 >= l || t.P2 >= l || t.P3 >= l, p, x+"/mesh/triangle[1]", errors.ErrIndexOutOfBounds)
	}
	w.Check(m.Validate())
}

// H_otherpart: identifiers are looked up in the part they are used in.
func H_otherpart() {
	m := &go3mf.Model{Extensions: exts, Childs: map[string]*go3mf.ChildModel{"/c": {}}}
	a, b := &m.Resources, &m.Childs["/c"].Resources
	pa, pb := "", "/c"
	if sym.Choice(2) == 1 {
		a, b, pa, pb = b, a, pb, pa
	}
	a.Assets = assets()
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
	id := sym.Uint32()
	sym.Assume(id != 0 && id != 50)
	var w lib.Want
	switch sym.Choice(3) {
	case 0:
		b.Assets = []go3mf.Asset{&materials.Texture2DGroup{ID: 50, TextureID: id, Coords: make([]materials.TextureCoord, 1)}}
		w.Add(pb, res+"texture2dgroup[0]", materials.ErrTextureReference)
	case 1:
		b.Assets = []go3mf.Asset{&materials.CompositeMaterials{ID: 50, MaterialID: id, Indices: []uint32{0}, Composites: make([]materials.Composite, 1)}}
		w.Add(pb, res+"compositematerials[0]", errors.ErrMissingResource)
	case 2:
		b.Assets = []go3mf.Asset{&materials.MultiProperties{ID: 50, PIDs: []uint32{id}, Multis: make([]materials.Multi, 1)}}
		w.Add(pb, res+"multiproperties[0]", errors.ErrMissingResource)
	}
	_ = pa
	w.Check(m.Validate())
}

// H_long: one violated rule, anywhere in groups with many entries.
func H_long() { long(12, sym.Concrete(sym.Int(0, 11))) }

// H_huge: as H_long, with more than fits a small counter.
func H_huge() {
	n := sym.Concrete(sym.Bound(300, 2000))
	long(n, sym.Concrete([]int{n - 1, 255, 256}[sym.Choice(sym.Bound(2, 3))]))
}

func long(n, k int) {
	u := uint32(n)
	colors := &materials.ColorGroup{ID: 21}
	base := lib.Base(20, n)
	comp := &materials.CompositeMaterials{ID: 22, MaterialID: 20, Composites: make([]materials.Composite, n)}
	coords := &materials.Texture2DGroup{ID: 23, TextureID: 4, Coords: make([]materials.TextureCoord, n)}
	multi := &materials.MultiProperties{ID: 24, PIDs: []uint32{20, 21}}
	layers := &materials.MultiProperties{ID: 25, Multis: make([]materials.Multi, 1), BlendMethods: make([]materials.BlendMethod, n-1)}
	o := &go3mf.Object{ID: 30, Mesh: lib.Solid()}
	o.Mesh.Triangles.Triangle = nil
	for i := 0; i < n; i++ {
		colors.Colors = append(colors.Colors, color.RGBA{R: byte(i), A: 255})
		comp.Indices = append(comp.Indices, uint32(n-1-i))
		multi.Multis = append(multi.Multis, materials.Multi{PIndices: []uint32{uint32(i), uint32(n - 1 - i)}})
		layers.PIDs = append(layers.PIDs, 5)
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, go3mf.Triangle{V1: 0, V2: 1, V3: 2, PID: uint32(20 + i%5), P1: u - 1})
	}
	m, p := lib.Part(go3mf.Resources{Assets: append(assets(), base, colors, comp, coords, multi, layers), Objects: []*go3mf.Object{o}}, exts...)
	m.Attachments = []go3mf.Attachment{{Path: "/t.png"}}
	over := uint32(sym.Concrete(sym.Int(0, 1)) * 5000)
	var w lib.Want
	switch sym.Choice(8) {
	case 0:
		colors.Colors[k] = color.RGBA{}
		w.Missing(p, res+"colorgroup[8]/"+lib.Idx("color", k), "color")
	case 1:
		comp.Indices[k] = u + over
		w.Add(p, res+"compositematerials[9]", errors.ErrIndexOutOfBounds)
	case 2:
		multi.Multis[k].PIndices[0] = u + over
		w.Add(p, res+"multiproperties[11]/"+lib.Idx("multi", k), errors.ErrIndexOutOfBounds)
	case 3:
		multi.Multis[k].PIndices[1] = u + over
		w.Add(p, res+"multiproperties[11]/"+lib.Idx("multi", k), errors.ErrIndexOutOfBounds)
	case 4:
		layers.PIDs[k] = 99
		w.Add(p, res+"multiproperties[12]", errors.ErrMissingResource)
	case 5:
		layers.PIDs[k] = 6
		w.Add(p, res+"multiproperties[12]", materials.ErrMultiRefMulti)
	case 6:
		t := &o.Mesh.Triangles.Triangle[k]
		t.P2 = u + over
		w.Add(p, res+"object[0]/mesh/"+lib.Idx("triangle", k), errors.ErrIndexOutOfBounds)
	}
	w.Check(m.Validate())
}
