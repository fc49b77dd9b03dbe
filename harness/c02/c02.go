//go:build go1.22

// Package c02: materials come back as they were saved.
package c02

import (
	"bytes"
	"image/color"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/zzverif/lib"
	"github.com/qmuntal/opc"
)

//verif:budget quick=45 thorough=600

// model holds the assets; their extension is declared, in one way or another, or not.
func model(assets ...go3mf.Asset) *go3mf.Model {
	m := &go3mf.Model{Resources: go3mf.Resources{Assets: assets}}
	switch sym.Choice(3) {
	case 0:
		m.Extensions = []go3mf.Extension{materials.DefaultExtension}
	case 1:
		m.Extensions = []go3mf.Extension{{Namespace: "http://other", LocalName: "m"}, {Namespace: materials.Namespace, LocalName: "mm", IsRequired: true}}
	}
	return m
}

// roundTrip saves the assets and loads them: they come back as those wanted.
func roundTrip(assets, want []go3mf.Asset) {
	m := model(assets...)
	w := *m
	w.Resources.Assets = want
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded resources equal the saved ones")
	sym.Cover("round trip")
}

func rgba() color.RGBA {
	return color.RGBA{R: sym.Byte(), G: sym.Byte(), B: sym.Byte(), A: sym.Byte()}
}

// Color groups.
func H_colors() {
	var assets []go3mf.Asset
	for i, n := 0, sym.Choice(2); i <= n; i++ {
		g := &materials.ColorGroup{ID: sym.Uint32()}
		for j, n := 0, sym.Choice(sym.Bound(3, 4)-i); j < n; j++ {
			g.Colors = append(g.Colors, rgba())
		}
		assets = append(assets, g)
	}
	roundTrip(assets, assets)
}

// Textures: every combination of their attributes.
func H_texture() {
	t := &materials.Texture2D{
		ID:          sym.Uint32(),
		Path:        lib.Word(2),
		ContentType: materials.Texture2DType(1 + sym.Choice(2)),
		TileStyleU:  materials.TileStyle(sym.Choice(4)),
		TileStyleV:  materials.TileStyle(sym.Choice(4)),
		Filter:      materials.TextureFilter(sym.Choice(3)),
	}
	roundTrip([]go3mf.Asset{t}, []go3mf.Asset{t})
}

// The paths of textures.
func H_path() {
	t := &materials.Texture2D{ID: 1, Path: lib.OptText(sym.Bound(2, 3)), ContentType: materials.TextureTypePNG}
	roundTrip([]go3mf.Asset{t}, []go3mf.Asset{t})
}

// Several textures, each with its own attributes.
func H_textures() {
	var assets []go3mf.Asset
	for i := 0; i < 2; i++ {
		t := &materials.Texture2D{ID: sym.Uint32(), Path: "/a.png", ContentType: materials.Texture2DType(1 + sym.Choice(2))}
		switch sym.Choice(4) {
		case 0:
			t.TileStyleU = materials.TileClamp
		case 1:
			t.TileStyleV = materials.TileMirror
		case 2:
			t.Filter = materials.TextureFilterNearest
		}
		assets = append(assets, t)
	}
	roundTrip(assets, assets)
}

// Texture coordinates.
func H_coords() {
	g := &materials.Texture2DGroup{ID: sym.Uint32(), TextureID: sym.Uint32()}
	w := *g
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		u, v := sym.Float32(), sym.Float32()
		g.Coords = append(g.Coords, materials.TextureCoord{u, v})
		w.Coords = append(w.Coords, materials.TextureCoord{lib.Q4(u), lib.Q4(v)})
	}
	roundTrip([]go3mf.Asset{g}, []go3mf.Asset{&w})
}

// Composite materials.
func H_composites() {
	c := &materials.CompositeMaterials{ID: sym.Uint32(), MaterialID: sym.Uint32()}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		c.Indices = append(c.Indices, sym.Uint32())
	}
	w := *c
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		var a, b materials.Composite
		for j, n := 0, sym.Choice(3); j < n; j++ {
			f := sym.Float32()
			a.Values = append(a.Values, f)
			b.Values = append(b.Values, lib.Q4(f))
		}
		c.Composites = append(c.Composites, a)
		w.Composites = append(w.Composites, b)
	}
	roundTrip([]go3mf.Asset{c}, []go3mf.Asset{&w})
}

// Multiproperties.
func H_multi() {
	p := &materials.MultiProperties{ID: sym.Uint32()}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		p.PIDs = append(p.PIDs, sym.Uint32())
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		p.BlendMethods = append(p.BlendMethods, materials.BlendMethod(sym.Choice(2)))
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		var x materials.Multi
		for j, n := 0, sym.Choice(3); j < n; j++ {
			x.PIndices = append(x.PIndices, sym.Uint32())
		}
		p.Multis = append(p.Multis, x)
	}
	roundTrip([]go3mf.Asset{p}, []go3mf.Asset{p})
}

// Long lists.
func H_long() {
	const n = 12
	g := &materials.ColorGroup{ID: 1}
	c := &materials.CompositeMaterials{ID: 2, MaterialID: 3}
	p := &materials.MultiProperties{ID: 4}
	x, y := materials.Multi{}, materials.Composite{}
	for i := 0; i < n; i++ {
		g.Colors = append(g.Colors, color.RGBA{R: sym.Byte(), G: sym.Byte(), B: sym.Byte(), A: byte(250 + i/2)})
		c.Indices = append(c.Indices, sym.Uint32())
		p.PIDs = append(p.PIDs, sym.Uint32())
		p.BlendMethods = append(p.BlendMethods, materials.BlendMethod(i%2))
		x.PIndices = append(x.PIndices, sym.Uint32())
		y.Values = append(y.Values, float32(sym.IntFloat(-1000, 1000)))
	}
	p.Multis, c.Composites = []materials.Multi{x, {}, x}, []materials.Composite{y, {}, y}
	assets := []go3mf.Asset{p, c, g}
	roundTrip(assets, assets)
}

// asset is a resource of some kind, and what it comes back as with some number of decimals.
func asset(prec int) (a, w go3mf.Asset) {
	id := sym.Uint32()
	switch sym.Choice(6) {
	case 0:
		a = &materials.ColorGroup{ID: id, Colors: []color.RGBA{rgba()}}
	case 1:
		a = &materials.Texture2D{ID: id, Path: "/3D/t.png", ContentType: materials.TextureTypePNG, Filter: materials.TextureFilter(sym.Choice(3))}
	case 2:
		u, v := sym.Float32(), sym.Float32()
		tex := sym.Uint32()
		return &materials.Texture2DGroup{ID: id, TextureID: tex, Coords: []materials.TextureCoord{{u, v}}},
			&materials.Texture2DGroup{ID: id, TextureID: tex, Coords: []materials.TextureCoord{{sym.QuantizeTo(u, prec), sym.QuantizeTo(v, prec)}}}
	case 3:
		u, v := sym.Float32(), sym.Float32()
		return &materials.CompositeMaterials{ID: id, Composites: []materials.Composite{{Values: []float32{u, v}}}},
			&materials.CompositeMaterials{ID: id, Composites: []materials.Composite{{Values: []float32{sym.QuantizeTo(u, prec), sym.QuantizeTo(v, prec)}}}}
	case 4:
		a = &materials.MultiProperties{ID: id, PIDs: []uint32{sym.Uint32()}, BlendMethods: []materials.BlendMethod{materials.BlendMultiply}, Multis: []materials.Multi{{PIndices: []uint32{sym.Uint32(), sym.Uint32()}}}}
	case 5:
		a = &go3mf.BaseMaterials{ID: id, Materials: []go3mf.Base{{Name: "<", Color: rgba()}}}
	}
	return a, a
}

// Resources of several kinds, in any order, followed by an object whose names need escaping.
func H_order() {
	var assets, want []go3mf.Asset
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		a, w := asset(4)
		assets = append(assets, a)
		want = append(want, w)
	}
	m := model(assets...)
	m.Resources.Objects = []*go3mf.Object{{ID: sym.Uint32(), Name: `<&">`, Mesh: lib.Solid()}}
	w := *m
	w.Resources.Assets = want
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded resources equal the saved ones")
	sym.Cover("order")
}

// rels are the relationships of a part.
func rels(pkg []byte, part string) []*opc.Relationship {
	r, err := opc.NewReader(bytes.NewReader(pkg), int64(len(pkg)))
	if err != nil {
		panic(err)
	}
	for _, f := range r.Files {
		if f.Name == part {
			return f.Relationships
		}
	}
	return nil
}

// children saves resources of a root and of a child model, and loads them.
func children(a, b, wa, wb go3mf.Asset, prec int) {
	m := &go3mf.Model{Path: lib.RootPath, Resources: go3mf.Resources{Assets: []go3mf.Asset{a}}, Extensions: []go3mf.Extension{materials.DefaultExtension}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": {Resources: go3mf.Resources{Assets: []go3mf.Asset{b}}}}
	pkg, err := lib.EncodePrec(m, prec)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got.Resources.Assets, []go3mf.Asset{wa}), "the loaded resources equal the saved ones")
	sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/c.model"] != nil, "the child model is loaded")
	sym.Assert(sym.Equal(got.Childs["/3D/c.model"].Resources.Assets, []go3mf.Asset{wb}), "the loaded resources of the child equal the saved ones")
	sym.Cover("package")
}

// Resources of root and child models, in packages.
//
//verif:sched=first
func H_package() {
	a, wa := asset(4)
	b, wb := asset(4)
	children(a, b, wa, wb, 4)
}

// Any number of decimals.
//
//verif:sched=first
func H_precision() {
	prec := []int{-1, 0, 1, 2, 3, 4, 5, 6, 9}[sym.Choice(9)]
	u, v, tex := sym.Float32(), sym.Float32(), sym.Uint32()
	x, y := sym.QuantizeTo(u, prec), sym.QuantizeTo(v, prec)
	a, wa := &materials.Texture2DGroup{ID: 1, TextureID: tex, Coords: []materials.TextureCoord{{u, v}}}, &materials.Texture2DGroup{ID: 1, TextureID: tex, Coords: []materials.TextureCoord{{x, y}}}
	b, wb := &materials.CompositeMaterials{ID: 2, Composites: []materials.Composite{{Values: []float32{u, v}}}}, &materials.CompositeMaterials{ID: 2, Composites: []materials.Composite{{Values: []float32{x, y}}}}
	if sym.Choice(2) == 0 {
		children(a, b, wa, wb, prec)
	} else {
		children(b, a, wb, wa, prec)
	}
}

// Textures are related to the part that uses them, whose relationships there were before are kept.
//
//verif:sched=first
func H_related() {
	paths := []string{"/3D/a.png", "/3D/b.png"}
	other := sym.Choice(2) == 0
	use := func() (r []go3mf.Asset, used []string) {
		for i, n := 0, sym.Choice(3); i < n; i++ {
			p := paths[sym.Choice(2)]
			t := &materials.Texture2D{ID: uint32(i + 1), Path: p, ContentType: materials.TextureTypePNG}
			if (i == 0) == other {
				t.ContentType, t.TileStyleU, t.Filter = materials.TextureTypeJPEG, materials.TileMirror, materials.TextureFilterNearest
			}
			r = append(r, t)
			used = append(used, p)
		}
		return
	}
	m := model()
	m.Path = "/3D/3dmodel.model"
	var ru, cu []string
	m.Resources.Assets, ru = use()
	child := new(go3mf.ChildModel)
	child.Resources.Assets, cu = use()
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": child}
	before := []go3mf.Relationship{{ID: "x", Type: []string{materials.RelTypeTexture3D, go3mf.RelTypeThumbnail, "http://other"}[sym.Choice(3)], Path: paths[0]}}
	if sym.Choice(2) == 0 {
		m.Relationships = before
	}
	if sym.Choice(2) == 0 {
		child.Relationships = before
	}
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	check := func(part string, used []string) {
		rs := rels(pkg, part)
		for _, u := range used {
			n := 0
			for _, r := range rs {
				if r.Type == materials.RelTypeTexture3D && r.TargetURI == u {
					n++
				}
			}
			sym.Assert(n == 1, "a texture is related once to the model that uses it")
		}
	}
	check("/3D/3dmodel.model", ru)
	check("/3D/c.model", cu)
	sym.Cover("related")
}

// H_huge: much more of one thing than fits any buffer or small counter, one of which is anything.
//
//verif:steps=200000000 weight=2
func H_huge() {
	n := sym.Concrete(sym.Bound(600, 5000))
	k := sym.Concrete([]int{n - 1, 255, 256, 0, 257}[sym.Choice(sym.Bound(2, 5))]) // which one
	var assets []go3mf.Asset
	switch sym.Choice(8) {
	case 0:
		g := &materials.ColorGroup{ID: 1}
		for i := 0; i < n; i++ {
			g.Colors = append(g.Colors, color.RGBA{R: byte(i), G: byte(i >> 8), A: byte(254 + i%2)})
		}
		g.Colors[k] = rgba()
		assets = append(assets, g)
	case 1:
		g := &materials.Texture2DGroup{ID: 1, TextureID: 2}
		for i := 0; i < n; i++ {
			g.Coords = append(g.Coords, materials.TextureCoord{float32(i), float32(-i) / 4})
		}
		g.Coords[k] = materials.TextureCoord{sym.IntFloat(-9999, 9999), 0.5}
		assets = append(assets, g)
	case 2, 3:
		c := &materials.CompositeMaterials{ID: 1, MaterialID: 2}
		if sym.Choice(2) == 0 { // many composites, or many values in one
			for i := 0; i < n; i++ {
				c.Composites = append(c.Composites, materials.Composite{Values: []float32{float32(i), 0.5}})
			}
			c.Composites[k].Values[1] = sym.IntFloat(-9999, 9999)
		} else {
			var v materials.Composite
			for i := 0; i < n; i++ {
				c.Indices = append(c.Indices, uint32(i))
				v.Values = append(v.Values, float32(i)/2)
			}
			c.Indices[k], v.Values[k] = sym.Uint32(), sym.IntFloat(-9999, 9999)
			c.Composites = []materials.Composite{v, {Values: []float32{1}}}
		}
		assets = append(assets, c)
	case 4, 5:
		p := &materials.MultiProperties{ID: 1}
		if sym.Choice(2) == 0 {
			for i := 0; i < n; i++ {
				p.Multis = append(p.Multis, materials.Multi{PIndices: []uint32{uint32(i), uint32(2 * i)}})
			}
			p.Multis[k].PIndices[1] = sym.Uint32()
		} else {
			var v materials.Multi
			for i := 0; i < n; i++ {
				p.PIDs = append(p.PIDs, uint32(i+2))
				p.BlendMethods = append(p.BlendMethods, materials.BlendMethod(i%2))
				v.PIndices = append(v.PIndices, uint32(i))
			}
			p.PIDs[k], v.PIndices[k] = sym.Uint32(), sym.Uint32()
			p.Multis = []materials.Multi{v, {PIndices: []uint32{1}}}
		}
		assets = append(assets, p)
	case 6:
		for i := 0; i < n; i++ {
			assets = append(assets, &materials.Texture2D{ID: uint32(i), Path: "/a.png", ContentType: materials.TextureTypePNG})
		}
		assets[k] = &materials.Texture2D{ID: sym.Uint32(), Path: "/b", ContentType: materials.TextureTypeJPEG, TileStyleU: materials.TileStyle(sym.Choice(4))}
	case 7:
		for i := 0; i < n; i++ {
			assets = append(assets, &materials.ColorGroup{ID: uint32(i)})
		}
		assets[k] = &materials.MultiProperties{ID: sym.Uint32(), PIDs: []uint32{sym.Uint32()}}
	}
	roundTrip(assets, assets)
}
