//go:build go1.22

// Package c31: looking at a model, checking it and saving it do not change it.
package c31

import (
	"bytes"
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=500

const typ1 = "http://example.com/1"

// pkg is a package with two parts and attachments; the value of the root's attribute is v if not empty.
func pkg(attr int, v string) []byte {
	root, child := lib.Rich(), lib.Rich()
	if attr >= 0 {
		s := typed(root)[attr]
		s.Node.Attrs[s.Attr][1] = v
	}
	for i := len(child.Kids) - 1; i >= 0; i-- {
		if child.Kids[i].Name == "build" {
			child.Kids = append(child.Kids[:i:i], child.Kids[i+1:]...)
		}
	}
	return lib.Pack(
		[]go3mf.Relationship{{ID: "a", Type: go3mf.RelType3DModel, Path: lib.RootPath}, {ID: "b", Type: go3mf.RelTypeThumbnail, Path: "/t.png"}},
		lib.ModelFile(lib.RootPath, root.Render(lib.Style{}), go3mf.Relationship{ID: "c", Type: go3mf.RelType3DModel, Path: "/3D/o.model"}, go3mf.Relationship{ID: "d", Type: typ1, Path: "/x.txt"}),
		lib.ModelFile("/3D/o.model", child.Render(lib.Style{}), go3mf.Relationship{ID: "e", Type: typ1, Path: "/x.txt"}, go3mf.Relationship{ID: "f", Type: materials.RelTypeTexture3D, Path: "/3D/t.png"}),
		lib.File{Path: "/x.txt", Type: "text/plain", Data: []byte("x")},
		lib.File{Path: "/t.png", Type: "image/png", Data: []byte("t")},
		lib.File{Path: "/3D/t.png", Type: "image/png", Data: []byte("u")},
	)
}

func typed(n *lib.Node) (r []lib.Site) {
	for _, s := range n.Sites() {
		if s.Typed() {
			r = append(r, s)
		}
	}
	return
}

func load(b []byte) *go3mf.Model {
	m, _ := lib.Decode(b, false)
	for i := range m.Attachments {
		m.Attachments[i].Stream = bytes.NewReader([]byte{byte(i)})
	}
	return m
}

// same asserts that two models are the same but for what was read of their attachments.
func same(a, b *go3mf.Model) {
	for _, m := range []*go3mf.Model{a, b} {
		for i := range m.Attachments {
			m.Attachments[i].Stream = nil
		}
	}
	sym.Assert(sym.Equal(a, b), "the model is as it was")
}

// spare gives slices of a model room for another element, which holds something, and returns
// what tells whether it still does.
func spare(m *go3mf.Model) func() {
	var checks []func() bool
	rels := func(rs *[]go3mf.Relationship) {
		s := go3mf.Relationship{ID: "spare", Type: "spare", Path: "/spare"}
		*rs = append(*rs, s)
		l := (*rs)[len(*rs)-1:]
		*rs = (*rs)[:len(*rs)-1]
		checks = append(checks, func() bool { return l[0] == s })
	}
	anys := func(rs *spec.AnyAttr) {
		s := new(spec.UnknownAttrs)
		*rs = append(*rs, s)
		l := (*rs)[len(*rs)-1:]
		*rs = (*rs)[:len(*rs)-1]
		checks = append(checks, func() bool { return l[0] == s })
	}
	rels(&m.Relationships)
	rels(&m.RootRelationships)
	anys(&m.AnyAttr)
	anys(&m.Build.AnyAttr)
	for _, i := range m.Build.Items {
		anys(&i.AnyAttr)
	}
	exts := append(m.Extensions, go3mf.Extension{Namespace: "spare"})
	m.Extensions = exts[: len(exts)-1 : len(exts)]
	checks = append(checks, func() bool { return exts[len(exts)-1].Namespace == "spare" })
	atts := append(m.Attachments, go3mf.Attachment{Path: "spare"})
	m.Attachments = atts[:len(atts)-1]
	checks = append(checks, func() bool { return atts[len(atts)-1].Path == "spare" })
	objs := func(rs *go3mf.Resources) {
		o := &go3mf.Object{Name: "spare"}
		os := append(rs.Objects, o)
		rs.Objects = os[:len(os)-1]
		checks = append(checks, func() bool { return os[len(os)-1] == o })
		as := append(rs.Assets, go3mf.Asset(lib.Base(77, 1)))
		rs.Assets = as[:len(as)-1]
		checks = append(checks, func() bool { return as[len(as)-1].Identify() == 77 })
		anys(&rs.AnyAttr)
		for _, o := range rs.Objects {
			anys(&o.AnyAttr)
			if o.Components != nil {
				anys(&o.Components.AnyAttr)
				for _, c := range o.Components.Component {
					anys(&c.AnyAttr)
				}
			}
			if m := o.Mesh; m != nil {
				anys(&m.AnyAttr)
				vs := append(m.Vertices.Vertex, go3mf.Point3D{7, 7, 7})
				m.Vertices.Vertex = vs[:len(vs)-1]
				checks = append(checks, func() bool { return vs[len(vs)-1] == go3mf.Point3D{7, 7, 7} })
				ts := append(m.Triangles.Triangle, go3mf.Triangle{V1: 77})
				m.Triangles.Triangle = ts[:len(ts)-1]
				checks = append(checks, func() bool { return ts[len(ts)-1].V1 == 77 })
				if l := beamlattice.GetBeamLattice(m); l != nil {
					bs := append(l.Beams.Beam, beamlattice.Beam{Indices: [2]uint32{77, 77}})
					l.Beams.Beam = bs[:len(bs)-1]
					checks = append(checks, func() bool { return bs[len(bs)-1].Indices[0] == 77 })
				}
			}
		}
		for _, a := range rs.Assets {
			switch a := a.(type) {
			case *materials.MultiProperties:
				ps := append(a.PIDs, 77)
				a.PIDs = ps[:len(ps)-1]
				bs := append(a.BlendMethods, materials.BlendMethod(7))
				a.BlendMethods = bs[:len(bs)-1]
				checks = append(checks, func() bool { return ps[len(ps)-1] == 77 && bs[len(bs)-1] == 7 })
			case *slices.SliceStack:
				rs := append(a.Refs, slices.SliceRef{SliceStackID: 77})
				a.Refs = rs[:len(rs)-1]
				ss := append(a.Slices, slices.Slice{TopZ: 77})
				a.Slices = ss[:len(ss)-1]
				checks = append(checks, func() bool { return rs[len(rs)-1].SliceStackID == 77 && ss[len(ss)-1].TopZ == 77 })
			}
		}
	}
	objs(&m.Resources)
	for _, p := range []string{"/3D/o.model", "/3D/p.model"} {
		if c := m.Childs[p]; c != nil {
			rels(&c.Relationships)
			s := new(spec.UnknownTokens)
			as := append(c.Any, s)
			c.Any = as[:len(as)-1]
			checks = append(checks, func() bool { return as[len(as)-1] == s })
			objs(&c.Resources)
		}
	}
	return func() {
		for _, c := range checks {
			sym.Assert(c(), "what is beyond the ends of the slices of the model is as it was")
		}
	}
}

const nops = 11

func do(op int, m *go3mf.Model) {
	switch op {
	case 0:
		_, err := lib.Encode(m)
		sym.Assert(err == nil, "the model is saved")
	case 1:
		_, err := go3mf.MarshalModel(m)
		sym.Assert(err == nil, "the model is saved")
	case 2:
		m.Validate()
	case 3:
		m.ValidateCoherency()
	case 4:
		m.BoundingBox()
	case 5:
		m.Resources.UnusedID()
	case 6:
		m.FindObject("", 11)
		m.FindObject("/3D/o.model", 10)
		m.FindAsset("/nowhere.model", 3)
		m.FindAsset("", 3)
		m.FindResources("/3D/o.model")
	case 7:
		m.WalkObjects(func(string, *go3mf.Object) error { return nil })
		m.WalkAssets(func(string, go3mf.Asset) error { return nil })
	case 8:
		for _, o := range m.Resources.Objects {
			if o.Mesh != nil {
				o.Mesh.ValidateCoherency()
				o.Mesh.BoundingBox()
				beamlattice.GetBeamLattice(o.Mesh)
			}
		}
	case 9:
		for _, i := range m.Build.Items {
			i.HasTransform()
			i.ObjectPath()
			_ = i.Transform.String()
			i.Transform.Mul(i.Transform)
			i.Transform.Translate(1, 2, 3)
		}
	case 10:
		m.PathOrDefault()
	}
}

// A model with everything.
//
//verif:sched=first
func H_rich() {
	b := pkg(-1, "")
	m, was := load(b), load(b)
	check := spare(m)
	do(sym.Choice(nops), m)
	same(m, was)
	check()
	sym.Cover("rich")
}

// A model one number of which is any, and which is most likely not valid.
//
//verif:sched=first
func H_number() {
	n := len(typed(lib.Rich()))
	i := sym.Choice(n)
	s := typed(lib.Rich())[i]
	if k := s.Kind(); k != lib.Uint {
		return
	}
	b := pkg(i, strconv.FormatUint(uint64(sym.Uint32()), 10))
	m, was := load(b), load(b)
	check := spare(m)
	do(sym.Choice(sym.Bound(4, 5)), m)
	same(m, was)
	check()
	sym.Cover("number")
}

// Parts whose relationships are in the same slice.
//
//verif:sched=first
func H_shared() {
	sym.MapOrder(2)
	all := []go3mf.Relationship{{ID: "a", Type: typ1, Path: "/x.txt"}, {ID: "b", Type: typ1, Path: "/t.png"}, {ID: "c", Type: typ1, Path: "/3D/t.png"}, {ID: "d", Type: typ1, Path: "/y.txt"}}
	copies := append([]go3mf.Relationship(nil), all...)
	k := sym.Choice(3)
	obj := func(id uint32, thumb string) []*go3mf.Object {
		return []*go3mf.Object{{ID: id, Mesh: lib.Solid(), Thumbnail: thumb}}
	}
	m := &go3mf.Model{Relationships: all[:1], RootRelationships: all[3:3]}
	m.Resources.Objects = obj(1, []string{"", "/thumb1.png", "/t.png"}[sym.Choice(3)])
	m.Childs = map[string]*go3mf.ChildModel{
		"/a.model": {Relationships: all[k : k+1], Resources: go3mf.Resources{Objects: obj(2, []string{"", "/thumb2.png"}[sym.Choice(2)])}},
		"/b.model": {Relationships: all[k+1 : k+2], Resources: go3mf.Resources{Objects: obj(3, []string{"", "/thumb3.png"}[sym.Choice(2)])}},
	}
	do(sym.Choice(3), m)
	sym.Assert(sym.Equal(all, copies), "the relationships of the model are as they were")
	sym.Cover("shared")
}

// Doing something twice gives the same twice.
//
//verif:sched=first
func H_again() {
	b := pkg(-1, "")
	m := load(b)
	m.Attachments = nil
	switch sym.Choice(5) {
	case 0:
		p, err := go3mf.MarshalModel(m)
		q, err2 := go3mf.MarshalModel(m)
		sym.Assert(err == nil && err2 == nil && bytes.Equal(p, q), "the same model is saved the same way")
	case 1:
		// the order of the parts of a package does not matter
		p, err := lib.Encode(m)
		q, err2 := lib.Encode(m)
		sym.Assert(err == nil && err2 == nil, "the model is saved")
		for _, n := range []string{lib.RootPath, "/3D/o.model"} {
			x, ok := lib.ReadPart(p, n)
			y, ok2 := lib.ReadPart(q, n)
			sym.Assert(ok && ok2 && bytes.Equal(x, y), "the same model is saved the same way")
		}
	case 2:
		sym.Assert(text(m.Validate()) == text(m.Validate()), "the same model has the same errors")
	case 3:
		sym.Assert(text(m.ValidateCoherency()) == text(m.ValidateCoherency()), "the same model has the same errors")
	case 4:
		sym.Assert(m.BoundingBox() == m.BoundingBox(), "the same model has the same box")
	}
	sym.Cover("again")
}

func text(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}
