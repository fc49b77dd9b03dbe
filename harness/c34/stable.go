//go:build go1.22

// Package c34: what is loaded without errors is saved and loaded again as the same model.
package c34

import (
	"bytes"
	"strconv"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=50 thorough=700

// check loads a document, which may have errors, saves the model and loads it again.
func check(doc *lib.Node, number bool) {
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(doc.Render(lib.Style{}), m); err != nil {
		sym.Cover("errors")
		return
	}
	forget(&m.Resources)
	b, err := go3mf.MarshalModel(m)
	sym.Assert(err == nil, "a model that was loaded is saved")
	got := new(go3mf.Model)
	err = go3mf.UnmarshalModel(b, got)
	sym.Assert(err == nil, "a model that was loaded without errors and saved is loaded without errors")
	sym.Assert(sym.Equal(got, m), "a model that was loaded, saved and loaded again is the same")
	if number {
		sym.Cover("number")
		return
	}
	again, err := go3mf.MarshalModel(got)
	sym.Assert(err == nil && bytes.Equal(again, b), "a model that was saved and loaded is saved the same way")
	sym.Cover("stable")
}

// forget takes away what only means something together with what is not there: properties of
// objects without a mesh and of segments and triangles without a group.
func forget(rs *go3mf.Resources) {
	for _, o := range rs.Objects {
		if o.Mesh == nil {
			o.PID, o.PIndex = 0, 0
			continue
		}
		o.Components = nil // only one of them is allowed
		for i := range o.Mesh.Triangles.Triangle {
			if t := &o.Mesh.Triangles.Triangle[i]; t.PID == 0 {
				t.PID, t.P1, t.P2, t.P3 = o.PID, o.PIndex, o.PIndex, o.PIndex
			}
		}
	}
	for _, a := range rs.Assets {
		if st, ok := a.(*slices.SliceStack); ok {
			for _, sl := range st.Slices {
				for _, p := range sl.Polygons {
					for i := range p.Segments {
						if s := &p.Segments[i]; s.PID == 0 {
							s.P1, s.P2 = 0, 0
						}
					}
				}
			}
		}
	}
}

func remove(doc, n *lib.Node) int {
	p := doc.Parent(n)
	for i, k := range p.Kids {
		if k == n {
			p.Kids = append(p.Kids[:i:i], p.Kids[i+1:]...)
			return i
		}
	}
	panic("not there")
}

// An element is missing.
func H_deleted() {
	doc := lib.Rich()
	l := doc.Nodes()[1:]
	remove(doc, l[sym.Choice(len(l))])
	check(doc, false)
}

// An element is there twice.
func H_twice() {
	doc := lib.Rich()
	l := doc.Nodes()[1:]
	n := l[sym.Choice(len(l))]
	p := doc.Parent(n)
	p.Kids = append(p.Kids, n.Clone())
	check(doc, false)
}

// An element comes later than it should, or has nothing inside.
func H_order() {
	doc := lib.Rich()
	l := doc.Nodes()[1:]
	n := l[sym.Choice(len(l))]
	if sym.Choice(2) == 0 {
		p := doc.Parent(n)
		remove(doc, n)
		p.Kids = append(p.Kids, n)
	} else {
		n.Kids, n.Text = nil, ""
	}
	check(doc, false)
}

// A text or an attribute that is not a number or the like is empty, or another one.
func H_value() {
	doc := lib.Rich()
	var l []*string
	for _, n := range doc.Nodes() {
		if n.Text != "" {
			l = append(l, &n.Text)
		}
	}
	for _, s := range doc.Sites() {
		if !s.Typed() {
			l = append(l, &s.Node.Attrs[s.Attr][1])
		}
	}
	*l[sym.Choice(len(l))] = []string{"", " ", "&#9;x", "a:b", "0", "/", "A&lt;b"}[sym.Choice(7)]
	check(doc, false)
}

// An attribute is missing.
func H_attribute() {
	doc := lib.Rich()
	l := doc.Sites()
	s := l[sym.Choice(len(l))]
	sym.Assume(s.Name() != "contenttype") // there is none to save
	s.Node.Attrs = append(s.Node.Attrs[:s.Attr:s.Attr], s.Node.Attrs[s.Attr+1:]...)
	check(doc, false)
}

// A number is any.
func H_number() {
	doc := lib.Rich()
	var l []lib.Site
	for _, s := range doc.Sites() {
		if s.Typed() && s.Kind() == lib.Uint {
			l = append(l, s)
		}
	}
	s := l[sym.Choice(len(l))]
	s.Node.Attrs[s.Attr][1] = strconv.FormatUint(uint64(sym.Uint32()), 10)
	check(doc, true)
}

// An element is inside another one.
func H_moved() {
	doc := lib.Rich()
	l := doc.Nodes()[1:]
	n := l[sym.Choice(len(l))]
	remove(doc, n)
	l = doc.Nodes()
	p := l[sym.Choice(len(l))]
	sym.Assume(p.Text == "" && p.Name[0] != 'u')
	p.Kids = append(p.Kids, n)
	check(doc, false)
}

// Two attributes are missing.
func H_attributes() {
	doc := lib.Rich()
	var l []lib.Site
	for _, s := range doc.Sites() {
		if s.Name() != "contenttype" && (sym.Tier() == 1 || s.Node.Name == "object" || s.Node.Name == "triangle" || s.Node.Name == "b:beam" || s.Node.Name == "b:beamlattice") {
			l = append(l, s)
		}
	}
	i := sym.Choice(len(l))
	j := sym.Choice(i + 1)
	l[i].Node.Attrs[l[i].Attr][0], l[j].Node.Attrs[l[j].Attr][0] = "", ""
	for _, n := range doc.Nodes() {
		var kept [][2]string
		for _, a := range n.Attrs {
			if a[0] != "" {
				kept = append(kept, a)
			}
		}
		n.Attrs = kept
	}
	check(doc, false)
}

// A part of a package has something missing.
//
//verif:sched=first
func H_package() {
	doc := lib.Rich()
	l := doc.Nodes()[1:]
	remove(doc, l[sym.Choice(len(l))])
	root := lib.Rich()
	root.Kids = root.Kids[:2]
	m, err := lib.Decode(lib.PackRoot(root.Render(lib.Style{}), lib.ModelFile("/3D/o.model", doc.Render(lib.Style{}))), false)
	sym.Assert(err == nil, "the model is loaded")
	forget(&m.Childs["/3D/o.model"].Resources)
	b, err := lib.Encode(m)
	sym.Assert(err == nil, "a model that was loaded is saved")
	got, err := lib.Decode(b, false)
	sym.Assert(err == nil, "a model that was loaded without errors and saved is loaded without errors")
	sym.Assert(got.Childs["/3D/o.model"] != nil, "a part that was loaded and saved is there")
	sym.Assert(sym.Equal(got.Childs["/3D/o.model"].Resources, m.Childs["/3D/o.model"].Resources), "a model that was loaded, saved and loaded again is the same")
	sym.Cover("package")
}
