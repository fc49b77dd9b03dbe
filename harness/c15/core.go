//go:build go1.22

// Package c15: core validation.
package c15

import (
	"encoding/xml"
	"image/color"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

// part puts resources in the root or in a child part.
func part(rs go3mf.Resources) (*go3mf.Model, string) {
	m := new(go3mf.Model)
	if sym.Choice(2) == 0 {
		m.Resources = rs
		return m, ""
	}
	m.Childs = map[string]*go3mf.ChildModel{"/c": {Resources: rs}}
	return m, "/c"
}

const res = "/model/resources/"

func base(id uint32, n int) *go3mf.BaseMaterials {
	b := &go3mf.BaseMaterials{ID: id}
	for i := 0; i < n; i++ {
		b.Materials = append(b.Materials, go3mf.Base{Name: "n", Color: color.RGBA{A: 255}})
	}
	return b
}

var tetra = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}, {V1: 0, V2: 3, V3: 1}, {V1: 0, V2: 2, V3: 3}, {V1: 1, V2: 3, V3: 2}}

func solid() *go3mf.Mesh {
	return &go3mf.Mesh{
		Vertices:  go3mf.Vertices{Vertex: make([]go3mf.Point3D, 4)},
		Triangles: go3mf.Triangles{Triangle: append([]go3mf.Triangle(nil), tetra...)},
	}
}

// H_ids: identifiers are set and unique over assets and objects of a part.
func H_ids() {
	var rs go3mf.Resources
	na, no := sym.Choice(3), sym.Choice(3)
	for i := 0; i < na; i++ {
		rs.Assets = append(rs.Assets, base(sym.Uint32(), 1))
	}
	for i := 0; i < no; i++ {
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: sym.Uint32(), Mesh: solid()})
	}
	m, p := part(rs)
	var w lib.Want
	var ids []uint32
	seen := func(id uint32) bool {
		d := false
		for _, x := range ids {
			d = d || x == id && id != 0
		}
		ids = append(ids, id)
		return d
	}
	for i, a := range rs.Assets {
		x := res + lib.Idx("basematerials", i)
		w.If(a.Identify() == 0, p, x, errors.ErrMissingID)
		w.If(seen(a.Identify()), p, x, errors.ErrDuplicatedID)
	}
	for i, o := range rs.Objects {
		x := res + lib.Idx("object", i)
		w.If(o.ID == 0, p, x, errors.ErrMissingID)
		w.If(seen(o.ID), p, x, errors.ErrDuplicatedID)
	}
	w.Check(m.Validate())
}

// H_samepart: equal ids in different parts do not clash.
func H_samepart() {
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{"/a": {}, "/b": {}}}
	for _, c := range []*go3mf.Resources{&m.Resources, &m.Childs["/a"].Resources, &m.Childs["/b"].Resources} {
		id := sym.Uint32()
		sym.Assume(id != 0)
		c.Objects = append(c.Objects, &go3mf.Object{ID: id, Mesh: solid()})
	}
	var w lib.Want
	w.Check(m.Validate())
}

// H_base: base materials.
func H_base() {
	b := &go3mf.BaseMaterials{ID: 1}
	for i, n := 0, sym.Choice(4); i < n; i++ {
		x := go3mf.Base{Color: color.RGBA{R: sym.Byte(), G: sym.Byte(), B: sym.Byte(), A: sym.Byte()}}
		if sym.Choice(2) == 1 {
			x.Name = lib.Text(1)
		}
		b.Materials = append(b.Materials, x)
	}
	m, p := part(go3mf.Resources{Assets: []go3mf.Asset{base(9, 1), b}})
	x := res + "basematerials[1]"
	var w lib.Want
	w.If(len(b.Materials) == 0, p, x, errors.ErrEmptyResourceProps)
	for i, c := range b.Materials {
		if c.Name == "" {
			w.Missing(p, x+"/"+lib.Idx("base", i), "name")
		}
		if c.Color.R == 0 && c.Color.G == 0 && c.Color.B == 0 && c.Color.A == 0 {
			w.Missing(p, x+"/"+lib.Idx("base", i), "displaycolor")
		}
	}
	w.Check(m.Validate())
}

// H_object: attributes and kind of an object.
func H_object() {
	o := &go3mf.Object{ID: 3, PID: sym.Uint32(), PIndex: sym.Uint32(), Type: go3mf.ObjectType(sym.Choice(5))}
	k := sym.Choice(5)
	if k&1 != 0 {
		o.Mesh = solid()
	}
	if k&2 != 0 {
		o.Components = &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 4}}}
	}
	if k == 4 {
		o.Components = new(go3mf.Components)
	}
	n := sym.Choice(3)
	m, p := part(go3mf.Resources{
		Assets:  []go3mf.Asset{base(1, n+1), base(2, 2)},
		Objects: []*go3mf.Object{{ID: 4, Mesh: solid()}, o},
	})
	x := res + "object[1]"
	var w lib.Want
	if o.PIndex != 0 && o.PID == 0 {
		w.Missing(p, x, "pid")
	}
	w.If(k == 0 || k == 3, p, x, errors.ErrInvalidObject)
	if o.Mesh != nil && o.PID != 0 {
		w.If(o.PID > 2, p, x, errors.ErrMissingResource)
		w.If(o.PID == 1 && o.PIndex >= uint32(n+1) || o.PID == 2 && o.PIndex >= 2, p, x, errors.ErrIndexOutOfBounds)
	}
	w.If(k == 2 && o.PID != 0 || k == 3 && o.PID != 0, p, x, errors.ErrComponentsPID)
	w.Check(m.Validate())
}

// H_sizes: vertex and triangle counts by object type.
func H_sizes() {
	nv, nt := sym.Choice(5), sym.Choice(6)
	t := sym.Choice(5)
	o := &go3mf.Object{ID: 3, Type: go3mf.ObjectType(t), Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: make([]go3mf.Point3D, nv)}}}
	for i := 0; i < nt; i++ {
		o.Mesh.Triangles.Triangle = append(o.Mesh.Triangles.Triangle, tetra[i%4])
	}
	lattice := sym.Choice(2) == 1
	if lattice {
		o.Mesh.Any = append(o.Mesh.Any, &spec.UnknownTokens{})
	}
	m, p := part(go3mf.Resources{Objects: []*go3mf.Object{o}})
	x := res + "object[0]/mesh"
	var w lib.Want
	if t == 0 || t == 3 {
		w.If(nv < 3, p, x, errors.ErrInsufficientVertices)
		w.If(nt < 4 && !lattice, p, x, errors.ErrInsufficientTriangles)
	}
	for i, t := range o.Mesh.Triangles.Triangle {
		n := uint32(nv)
		w.If(t.V1 >= n || t.V2 >= n || t.V3 >= n, p, x+"/"+lib.Idx("triangle", i), errors.ErrIndexOutOfBounds)
	}
	w.Check(m.Validate())
}

// H_triangles: indices of triangles.
func H_triangles() {
	o := &go3mf.Object{ID: 3, Mesh: solid(), Type: go3mf.ObjectType(sym.Choice(5))}
	nv := 3 + sym.Choice(3)
	o.Mesh.Vertices.Vertex = make([]go3mf.Point3D, nv)
	ts := o.Mesh.Triangles.Triangle
	for i := 0; i < sym.Bound(2, 3); i++ {
		ts[i] = go3mf.Triangle{V1: sym.Uint32(), V2: sym.Uint32(), V3: sym.Uint32()}
	}
	m, p := part(go3mf.Resources{Objects: []*go3mf.Object{o}})
	var w lib.Want
	for i, t := range ts {
		x := res + "object[0]/mesh/" + lib.Idx("triangle", i)
		w.If(t.V1 == t.V2 || t.V2 == t.V3 || t.V1 == t.V3, p, x, errors.ErrDuplicatedIndices)
		w.If(t.V1 >= uint32(nv) || t.V2 >= uint32(nv) || t.V3 >= uint32(nv), p, x, errors.ErrIndexOutOfBounds)
	}
	w.Check(m.Validate())
}

// H_properties: property references of triangles.
func H_properties() {
	o := &go3mf.Object{ID: 3, Mesh: solid()}
	if sym.Choice(2) == 1 {
		o.PID, o.PIndex = 1, uint32(sym.Choice(3))
	}
	ts := o.Mesh.Triangles.Triangle
	for i := 0; i < 1+sym.Tier(); i++ {
		t := &ts[2*i]
		t.PID, t.P1, t.P2, t.P3 = sym.Uint32(), sym.Uint32(), sym.Uint32(), sym.Uint32()
	}
	m, p := part(go3mf.Resources{
		Assets:  []go3mf.Asset{base(1, 2), base(2, 1), base(5, 3)},
		Objects: []*go3mf.Object{o},
	})
	lens := map[uint32]uint32{1: 2, 2: 1, 5: 3}
	var w lib.Want
	w.If(o.PID == 1 && o.PIndex >= 2, p, res+"object[0]", errors.ErrIndexOutOfBounds)
	for i, t := range ts {
		x := res + "object[0]/mesh/" + lib.Idx("triangle", i)
		if t.PID == 0 || t.PID == o.PID && t.P1 == o.PIndex && t.P2 == o.PIndex && t.P3 == o.PIndex {
			continue // reported for the object
		}
		l, ok := lens[t.PID]
		w.If(!ok, p, x, errors.ErrMissingResource)
		w.If(ok && (t.P1 >= l || t.P2 >= l || t.P3 >= l), p, x, errors.ErrIndexOutOfBounds)
	}
	w.Check(m.Validate())
}

// H_components: references of components.
func H_components() {
	o := &go3mf.Object{ID: 3, Components: new(go3mf.Components)}
	var w lib.Want
	n := sym.Choice(sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		o.Components.Component = append(o.Components.Component, &go3mf.Component{ObjectID: sym.Uint32()})
	}
	where := make([]string, n)
	if n == 1 {
		where[0] = []string{"", go3mf.DefaultModelPath, "/c", "/d", "/e"}[sym.Choice(5)]
		o.Components.Component[0].AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: where[0]}}
	}
	m, p := part(go3mf.Resources{
		Assets:  []go3mf.Asset{base(1, 2)},
		Objects: []*go3mf.Object{{ID: 2, Mesh: solid()}, o, {ID: 4, Mesh: solid(), Type: go3mf.ObjectTypeOther}},
	})
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 3, Mesh: solid()}, {ID: 7, Mesh: solid()}}}}
	for i, c := range o.Components.Component {
		x := res + "object[1]/components/" + lib.Idx("component", i)
		if c.ObjectID == 0 {
			w.Missing(p, x, "objectid")
			continue
		}
		if where[i] == "/d" {
			w.If(c.ObjectID != 3 && c.ObjectID != 7, p, x, errors.ErrMissingResource)
			continue
		}
		if own := where[i] == "" || where[i] == p || where[i] == go3mf.DefaultModelPath && p == ""; !own {
			w.Add(p, x, errors.ErrMissingResource)
			continue
		}
		w.If(c.ObjectID == 3, p, x, errors.ErrRecursion)
		w.If(c.ObjectID != 2 && c.ObjectID != 3 && c.ObjectID != 4, p, x, errors.ErrMissingResource)
	}
	w.Check(m.Validate())
}

// H_items: build items.
func H_items() {
	m := new(go3mf.Model)
	t := sym.Choice(5)
	m.Resources.Objects = []*go3mf.Object{{ID: 2, Mesh: solid()}, {ID: 4, Mesh: solid(), Type: go3mf.ObjectType(t)}}
	m.Resources.Assets = []go3mf.Asset{base(1, 1)}
	var w lib.Want
	for i, n := 0, sym.Choice(sym.Bound(3, 4)); i < n; i++ {
		it := &go3mf.Item{ObjectID: sym.Uint32()}
		m.Build.Items = append(m.Build.Items, it)
		x := "/model/build/" + lib.Idx("item", i)
		switch {
		case it.ObjectID == 0:
			w.Missing("", x, "objectid")
		case it.ObjectID == 4:
			w.If(t == 1, "", x, errors.ErrOtherItem)
		case it.ObjectID != 2:
			w.Add("", x, errors.ErrMissingResource)
		}
	}
	w.Check(m.Validate())
}

var names = []string{"application", "copyright", "creationdate", "description", "designer", "licenseterms", "modificationdate", "rating", "title"}

// H_metadataname: which names need no namespace.
func H_metadataname() {
	n := []int{5, 6, 8, 9, 11, 12, 16, 4, 10}[sym.Choice(sym.Bound(2, 9))]
	nm := sym.StringOf(n, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	known := false
	for _, k := range names {
		if len(k) == n {
			same := true
			for i := 0; i < n; i++ {
				same = same && nm[i]|0x20 == k[i]
			}
			known = known || same
		}
	}
	m := &go3mf.Model{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: nm}}}}
	var w lib.Want
	w.If(!known, "", "/model/metadata[0]", errors.ErrMetadataName)
	w.Check(m.Validate())
}

// H_metadata: namespaces and duplicates, on the model and on items.
func H_metadata() {
	m := &go3mf.Model{Extensions: []go3mf.Extension{{Namespace: "http://a"}, {Namespace: "http://b"}}}
	pool := []xml.Name{{Local: "Title"}, {Local: "x"}, {Space: "http://a", Local: "x"}, {Space: "http://b", Local: "x"}, {Space: "http://c", Local: "x"}, {Space: "http://a"}, {}}
	var md []go3mf.Metadata
	var w lib.Want
	at := "/model/"
	item := sym.Choice(2) == 1
	if item {
		at = "/model/build/item[0]/"
	}
	n := sym.Choice(sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		k := sym.Int(0, len(pool)-1)
		nm := pool[k]
		if sym.Choice(2) == 1 && nm.Local == "x" {
			nm.Local = lib.Word(1)
		}
		x := at + lib.Idx("metadata", i)
		if nm.Local == "" {
			w.Missing("", x, "name")
		} else {
			w.If(nm.Space == "" && nm.Local != "Title", "", x, errors.ErrMetadataName)
			w.If(nm.Space == "http://c", "", x, errors.ErrMetadataNamespace)
		}
		for _, o := range md {
			if o.Name == nm {
				w.Add("", x, errors.ErrMetadataDuplicated)
			}
		}
		md = append(md, go3mf.Metadata{Name: nm})
	}
	if item {
		m.Resources.Objects = []*go3mf.Object{{ID: 2, Mesh: solid()}}
		m.Build.Items = []*go3mf.Item{{ObjectID: 2, Metadata: go3mf.MetadataGroup{Metadata: md}}}
	} else {
		m.Metadata = md
	}
	w.Check(m.Validate())
}

// H_objectmetadata: metadata groups of objects follow the same rules.
func H_objectmetadata() {
	k := sym.Int(0, 2)
	nm := []xml.Name{{Local: "Title"}, {Local: "x"}, {Space: "http://c", Local: "x"}}[k]
	m, p := part(go3mf.Resources{Objects: []*go3mf.Object{{ID: 2, Mesh: solid(), Metadata: go3mf.MetadataGroup{Metadata: []go3mf.Metadata{{Name: nm}}}}}})
	x := res + "object[0]/metadata[0]"
	var w lib.Want
	w.If(k == 1, p, x, errors.ErrMetadataName)
	w.If(k == 2, p, x, errors.ErrMetadataNamespace)
	w.Check(m.Validate())
}

// H_relationships: root, model and child relationships.
func H_relationships() {
	m := new(go3mf.Model)
	m.Attachments = []go3mf.Attachment{{Path: "/A.xml", ContentType: go3mf.ContentTypePrintTicket}, {Path: "/b.png", ContentType: "image/png"}}
	paths := []string{"/A.xml", "/a.XML", "/b.png", "/c.png", "", "x/y", "/.h", "/d/../a.xml"}
	types := []string{go3mf.RelTypePrintTicket, go3mf.RelTypeThumbnail}
	var rels []go3mf.Relationship
	where := sym.Choice(3)
	p := []string{"", go3mf.DefaultModelPath, "/c"}[where]
	var w lib.Want
	tickets := 0
	n := sym.Choice(sym.Bound(3, 4))
	for i := 0; i < n; i++ {
		r := go3mf.Relationship{Path: paths[sym.Int(0, len(paths)-1)], Type: types[sym.Int(0, 1)]}
		x := "/model/" + lib.Idx("relationship", i)
		ticket, image := r.Path == "/A.xml" || r.Path == "/a.XML", r.Path == "/b.png"
		bad := r.Path == "" || r.Path == "x/y" || r.Path == "/.h" || r.Path == "/d/../a.xml"
		w.If(bad, p, x, errors.ErrOPCPartName)
		if !bad {
			w.If(!ticket && !image, p, x, errors.ErrOPCRelTarget)
			for _, o := range rels {
				w.If(o.Path == r.Path && o.Type == r.Type, p, x, errors.ErrOPCDuplicatedRel)
			}
		}
		if r.Type == go3mf.RelTypePrintTicket && (ticket || image) {
			w.If(image, p, x, errors.ErrOPCContentType)
			w.If(tickets > 0, p, x, errors.ErrOPCDuplicatedTicket)
			tickets++
		}
		rels = append(rels, r)
	}
	switch where {
	case 0:
		m.RootRelationships = rels
	case 1:
		m.Relationships = rels
	case 2:
		m.Childs = map[string]*go3mf.ChildModel{"/c": {Relationships: rels}}
	}
	w.Check(m.Validate())
}

type ext struct{}

func (ext) NewAttrGroup(xml.Name) spec.AttrGroup                 { return nil }
func (ext) NewElementDecoder(xml.Name) spec.GetterElementDecoder { return nil }

// H_required: required extensions must be supported.
func H_required() {
	spec.Register("http://supported", ext{})
	m := new(go3mf.Model)
	bad := false
	for i, n := 0, sym.Choice(4); i < n; i++ {
		e := go3mf.Extension{Namespace: []string{"http://supported", "http://other", "http://more"}[sym.Int(0, 2)], IsRequired: sym.Bool()}
		m.Extensions = append(m.Extensions, e)
		bad = bad || e.IsRequired && e.Namespace != "http://supported"
	}
	var w lib.Want
	w.If(bad, "", "/model", errors.ErrRequiredExt)
	w.Check(m.Validate())
}

// H_paths: model part names are unique.
func H_paths() {
	m := &go3mf.Model{Path: []string{"", "/3D/3dmodel.model", "/x"}[sym.Choice(3)], Childs: map[string]*go3mf.ChildModel{}}
	c := []string{"/3D/3dmodel.model", "/x", "/y"}[sym.Choice(3)]
	m.Childs[c] = new(go3mf.ChildModel)
	root := m.Path
	if root == "" {
		root = "/3D/3dmodel.model"
	}
	var w lib.Want
	w.If(c == root, "", "/model", errors.ErrOPCDuplicatedModelName)
	w.Check(m.Validate())
}

// H_decodedmetadata: a metadata name qualified with a declared prefix is accepted once loaded from a file.
//
//verif:known
func H_decodedmetadata() {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(lib.Doc(`xmlns:v="http://v"`, `<metadata name="v:`+lib.Word(1)+`">x</metadata>`), m)
	sym.Assert(err == nil, "the document loads")
	sym.Assert(m.Validate() == nil, "a loaded metadata name with a declared prefix is valid")
	sym.Cover("done")
}

// H_long: one violated rule, anywhere in a model with many of everything.
func H_long() { long(12, sym.Concrete(sym.Int(0, 11))) }

// H_huge: as H_long, with more than fits a small counter.
//
//verif:steps=200000000
func H_huge() {
	n := sym.Concrete(sym.Bound(300, 700))
	long(n, sym.Concrete([]int{n - 1, 255, 256}[sym.Choice(sym.Bound(2, 3))]))
}

func long(n, k int) {
	u := uint32(n)
	rs := go3mf.Resources{}
	for i := 0; i < n; i++ {
		rs.Assets = append(rs.Assets, base(uint32(1+i), n))
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: uint32(4001 + i), Mesh: solid()})
	}
	mesh := rs.Objects[2].Mesh
	mesh.Triangles.Triangle = nil
	for i := 0; i < n; i++ {
		mesh.Triangles.Triangle = append(mesh.Triangles.Triangle, go3mf.Triangle{V1: uint32(i % 4), V2: uint32((i + 1) % 4), V3: uint32((i + 2) % 4), PID: uint32(1 + i), P1: uint32(i), P2: u - 1})
	}
	comps := &go3mf.Object{ID: 9999, Components: new(go3mf.Components)}
	for i := 0; i < n; i++ {
		comps.Components.Component = append(comps.Components.Component, &go3mf.Component{ObjectID: uint32(4001 + i)})
	}
	rs.Objects = append(rs.Objects, comps)
	m, p := part(rs)
	m.Extensions = []go3mf.Extension{{Namespace: "http://n", LocalName: "q"}}
	md := func() (r []go3mf.Metadata) {
		for i := 0; i < n; i++ {
			r = append(r, go3mf.Metadata{Name: xml.Name{Space: "http://n", Local: "a" + strconv.Itoa(i)}})
		}
		return
	}
	m.Metadata, rs.Objects[1].Metadata.Metadata = md(), md()
	var rels []go3mf.Relationship
	q := min(n, 40)
	for i := 0; i < q; i++ {
		a := go3mf.Attachment{Path: "/" + string(rune('a'+i)) + ".png", ContentType: "image/png"}
		m.Attachments = append(m.Attachments, a)
		rels = append(rels, go3mf.Relationship{Path: a.Path, Type: "t"})
	}
	m.RootRelationships = rels
	for i := 0; i < n; i++ {
		it := &go3mf.Item{ObjectID: uint32(4001 + i)}
		if p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p, UUID: "f47ac10b-58cc-0372-8567-0e02b2c3d479"}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	var w lib.Want
	tri := res + "object[2]/mesh/" + lib.Idx("triangle", k)
	switch sym.Choice(17) {
	case 0:
		rs.Assets[k].(*go3mf.BaseMaterials).ID = 0
		w.Add(p, res+lib.Idx("basematerials", k), errors.ErrMissingID)
		w.Add(p, tri, errors.ErrMissingResource)
	case 1:
		rs.Assets = append(rs.Assets, base(uint32(1+k), 1))
		if p == "" {
			m.Resources = rs
		} else {
			m.Childs[p].Resources = rs
		}
		w.Add(p, res+lib.Idx("basematerials", n), errors.ErrDuplicatedID)
	case 2:
		rs.Assets[3].(*go3mf.BaseMaterials).Materials[k].Name = ""
		w.Missing(p, res+"basematerials[3]/"+lib.Idx("base", k), "name")
	case 3:
		mesh.Triangles.Triangle[k].V2 = 4
		w.Add(p, tri, errors.ErrIndexOutOfBounds)
	case 4:
		mesh.Triangles.Triangle[k].V3 = mesh.Triangles.Triangle[k].V1
		w.Add(p, tri, errors.ErrDuplicatedIndices)
	case 5:
		mesh.Triangles.Triangle[k].PID = 9998
		w.Add(p, tri, errors.ErrMissingResource)
	case 6:
		mesh.Triangles.Triangle[k].P3 = u
		w.Add(p, tri, errors.ErrIndexOutOfBounds)
	case 7:
		comps.Components.Component[k].ObjectID = 9998
		w.Add(p, res+lib.Idx("object", n)+"/components/"+lib.Idx("component", k), errors.ErrMissingResource)
	case 8:
		comps.Components.Component[k].ObjectID = 9999
		w.Add(p, res+lib.Idx("object", n)+"/components/"+lib.Idx("component", k), errors.ErrRecursion)
	case 9:
		m.Build.Items[k].ObjectID = 9998
		w.Add("", "/model/build/"+lib.Idx("item", k), errors.ErrMissingResource)
	case 10:
		rs.Objects[k].Type = go3mf.ObjectTypeOther
		w.Add("", "/model/build/"+lib.Idx("item", k), errors.ErrOtherItem)
	case 11:
		m.Metadata[k].Name.Space = "http://m"
		w.Add("", "/model/"+lib.Idx("metadata", k), errors.ErrMetadataNamespace)
	case 12:
		m.Metadata = append(m.Metadata, m.Metadata[k])
		w.Add("", "/model/"+lib.Idx("metadata", n), errors.ErrMetadataDuplicated)
	case 13:
		rs.Objects[1].Metadata.Metadata[k].Name.Local = ""
		w.Missing(p, res+"object[1]/"+lib.Idx("metadata", k), "name")
	case 14:
		rels[k%q].Path = "/other"
		w.Add("", "/model/"+lib.Idx("relationship", k%q), errors.ErrOPCRelTarget)
	case 15:
		m.RootRelationships = append(rels, rels[k%q])
		w.Add("", "/model/"+lib.Idx("relationship", q), errors.ErrOPCDuplicatedRel)
	case 16:
		rs.Objects[k].Mesh = nil
		w.Add(p, res+lib.Idx("object", k), errors.ErrInvalidObject)
	}
	w.Check(m.Validate())
}
