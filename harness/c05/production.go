//go:build go1.22

// Package c05: production attributes come back as they were saved.
package c05

import (
	"encoding/xml"
	"errors"

	"github.com/hpinc/go3mf"
	specerr "github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=600

const (
	digits = "0123456789abcdefABCDEF"
	sample = "0a1b2c3d-4e5f-6071-8293-a4b5c6d7e8f9"
)

// spelled is one of the spellings of a UUID, given the 32 digits of it in groups.
func spelled(u string) string {
	switch sym.Choice(4) {
	case 0:
		return u
	case 1:
		return "urn:uuid:" + u
	case 2:
		return "{" + u + "}"
	}
	return u[:8] + u[9:13] + u[14:18] + u[19:23] + u[24:]
}

// id is some UUID.
func id() string { return sym.StringOf(2, digits) + sample[2:] }

func roundTrip(m *go3mf.Model) {
	w := *m
	got, err := lib.RoundTrip(m)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got, &w), "the loaded model equals the saved one")
	sym.Cover("round trip")
}

func model() *go3mf.Model {
	return &go3mf.Model{Extensions: []go3mf.Extension{production.DefaultExtension}}
}

// Every UUID, in every spelling.
func H_uuid() {
	u := spelled(sym.StringOf(8, digits) + "-" + sym.StringOf(4, digits) + "-" + sym.StringOf(4, digits) + "-" + sym.StringOf(4, digits) + "-" + sym.StringOf(12, digits))
	m := model()
	o := &go3mf.Object{ID: 1, Mesh: lib.Solid()}
	c := &go3mf.Component{ObjectID: 1}
	it := &go3mf.Item{ObjectID: 1}
	m.Resources.Objects = []*go3mf.Object{o, {ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{c}}}}
	m.Build.Items = []*go3mf.Item{it}
	switch sym.Choice(4) {
	case 0:
		m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: u}}
	case 1:
		it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: u}}
	case 2:
		o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: u}}
	case 3:
		c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: u}}
	}
	roundTrip(m)
}

// Every combination of elements with and without attributes.
func H_elements() {
	m := model()
	if sym.Choice(2) == 0 {
		m.Extensions = []go3mf.Extension{{Namespace: "http://other", LocalName: "p"}, {Namespace: production.Namespace, LocalName: "pp"}}
	}
	if sym.Choice(2) == 0 {
		m.Build.AnyAttr = spec.AnyAttr{&production.BuildAttr{UUID: id()}}
	}
	path := func() string {
		return []string{"", "/3D/c.model"}[sym.Choice(2)]
	}
	for i, n := 0, sym.Choice(sym.Bound(2, 3)+1); i < n; i++ {
		it := &go3mf.Item{ObjectID: sym.Uint32()}
		if sym.Choice(2) == 0 {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: id(), Path: path()}}
			if a := it.AnyAttr[0].(*production.ItemAttr); a.Path != "" && sym.Choice(2) == 0 {
				a.UUID = "" // a path is enough
			}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		o := &go3mf.Object{ID: sym.Uint32()}
		if sym.Choice(2) == 0 {
			o.AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: id()}}
		}
		if i == 0 {
			o.Mesh = lib.Solid()
		} else {
			o.Components = new(go3mf.Components)
			for j, n := 0, 1+sym.Choice(2); j < n; j++ {
				c := &go3mf.Component{ObjectID: sym.Uint32()}
				if sym.Choice(2) == 0 {
					c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: id(), Path: path()}}
					if a := c.AnyAttr[0].(*production.ComponentAttr); a.Path != "" && sym.Choice(2) == 0 {
						a.UUID = ""
					}
				}
				o.Components.Component = append(o.Components.Component, c)
			}
		}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	roundTrip(m)
}

// Paths that need escaping.
func H_paths() {
	m := model()
	m.Resources.Objects = []*go3mf.Object{
		{ID: 1, Mesh: lib.Solid()},
		{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}, {ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: sample, Path: `<&">`}}}}}},
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}, {ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ItemAttr{UUID: sample, Path: `<&">`}}}}
	p := lib.Text(sym.Bound(2, 3))
	if sym.Choice(2) == 0 {
		m.Build.Items[0].AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: sample, Path: p}}
	} else {
		m.Resources.Objects[1].Components.Component[0].AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: sample, Path: p}}
	}
	roundTrip(m)
}

// Next to the other attributes and values of the elements that carry them.
func H_others() {
	m := model()
	m.Extensions = append(m.Extensions, slices.DefaultExtension, go3mf.Extension{Namespace: "http://x", LocalName: "x"})
	unknown := func() spec.AttrGroup {
		return &spec.UnknownAttrs{Space: "http://x", Attr: []xml.Attr{{Name: xml.Name{Space: "http://x", Local: "a"}, Value: "1"}}}
	}
	mix := func(p spec.AttrGroup, others ...spec.AttrGroup) spec.AnyAttr {
		r := append(spec.AnyAttr(nil), others...)
		k := sym.Choice(len(r) + 1)
		return append(append(append(spec.AnyAttr(nil), r[:k]...), p), r[k:]...)
	}
	m.Build.AnyAttr = mix(&production.BuildAttr{UUID: id()}, unknown())
	m.Build.Items = []*go3mf.Item{
		{ObjectID: sym.Uint32(), PartNumber: `"`, AnyAttr: mix(&production.ItemAttr{UUID: id(), Path: "/p"}, unknown())},
		{ObjectID: sym.Uint32()},
	}
	m.Resources.Objects = []*go3mf.Object{
		{ID: sym.Uint32(), Name: `<`, Mesh: lib.Solid(), AnyAttr: mix(&production.ObjectAttr{UUID: id()}, &slices.ObjectAttr{SliceStackID: sym.Uint32()}, unknown())},
		{ID: sym.Uint32(), Mesh: lib.Solid()},
	}
	roundTrip(m)
}

// Items and components resolve to the objects they name.
//
//verif:sched=first
func H_resolve() {
	paths := []string{"", "/3D/a.model", "/3D/b.model"}
	m := model()
	m.Path = lib.RootPath
	m.Childs = map[string]*go3mf.ChildModel{}
	// every part has two objects, with the same identifiers in all of them
	ids := [2]uint32{sym.Uint32(), sym.Uint32()}
	sym.Assume(ids[0] != ids[1])
	parts := map[string]*go3mf.Resources{"": &m.Resources}
	for _, p := range paths[1:] {
		c := new(go3mf.ChildModel)
		m.Childs[p] = c
		parts[p] = &c.Resources
	}
	for _, p := range paths {
		parts[p].Objects = []*go3mf.Object{{ID: ids[0], Name: p + "0", Mesh: lib.Solid()}, {ID: ids[1], Name: p + "1", Mesh: lib.Solid()}}
	}
	type ref struct{ part, object int }
	pick := func() ref { return ref{sym.Choice(3), sym.Choice(2)} }
	asm := &go3mf.Object{ID: 7, Components: new(go3mf.Components)}
	sym.Assume(ids[0] != 7 && ids[1] != 7)
	var items, comps []ref
	for i, n := 0, sym.Bound(1, 2); i < n; i++ {
		r := pick()
		items = append(items, r)
		it := &go3mf.Item{ObjectID: ids[r.object]}
		if r.part != 0 || sym.Choice(2) == 0 {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{UUID: sample, Path: paths[r.part]}}
		}
		m.Build.Items = append(m.Build.Items, it)
		r = pick()
		comps = append(comps, r)
		c := &go3mf.Component{ObjectID: ids[r.object]}
		if r.part != 0 || sym.Choice(2) == 0 {
			c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{UUID: sample, Path: paths[r.part]}}
		}
		asm.Components.Component = append(asm.Components.Component, c)
	}
	m.Resources.Objects = append(m.Resources.Objects, asm)
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(len(got.Childs) == 2 && got.Childs[paths[1]] != nil && got.Childs[paths[2]] != nil && len(got.Build.Items) == len(items) && len(got.Resources.Objects) == 3, "everything is loaded")
	target := func(r ref) *go3mf.Object {
		if r.part == 0 {
			return got.Resources.Objects[r.object]
		}
		return got.Childs[paths[r.part]].Resources.Objects[r.object]
	}
	for i, it := range got.Build.Items {
		o, ok := got.FindObject(it.ObjectPath(), it.ObjectID)
		sym.Assert(ok && o == target(items[i]), "an item is the object of the part it names")
		sym.Assert(o.Name == paths[items[i].part]+string(rune('0'+items[i].object)), "an item is the object it was")
	}
	for i, c := range got.Resources.Objects[2].Components.Component {
		o, ok := got.FindObject(c.ObjectPath(""), c.ObjectID)
		sym.Assert(ok && o == target(comps[i]), "a component is the object of the part it names")
		sym.Assert(o.Name == paths[comps[i].part]+string(rune('0'+comps[i].object)), "a component is the object it was")
	}
	sym.Cover("resolve")
}

// Components of child models refer to objects of their own model.
//
//verif:sched=first
func H_children() {
	m := model()
	m.Path = lib.RootPath
	child := new(go3mf.ChildModel)
	a, b := sym.Uint32(), sym.Uint32()
	sym.Assume(a != b)
	child.Resources.Objects = []*go3mf.Object{
		{ID: a, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&production.ObjectAttr{UUID: id()}}},
		{ID: b, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: a, AnyAttr: spec.AnyAttr{&production.ComponentAttr{UUID: id()}}}}}},
	}
	if sym.Choice(2) == 0 {
		child.Resources.Objects[1].AnyAttr = spec.AnyAttr{&production.ObjectAttr{UUID: id()}}
	}
	m.Resources.Objects = []*go3mf.Object{{ID: a, Name: "other", Mesh: lib.Solid()}}
	m.Childs = map[string]*go3mf.ChildModel{"/3D/c.model": child}
	pkg, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	got, err := lib.Decode(pkg, true)
	sym.Assert(err == nil, "the saved model loads")
	sym.Assert(sym.Equal(got.Resources, m.Resources), "the loaded resources equal the saved ones")
	sym.Assert(len(got.Childs) == 1 && got.Childs["/3D/c.model"] != nil, "the child model is loaded")
	rs := got.Childs["/3D/c.model"].Resources
	sym.Assert(sym.Equal(rs, child.Resources), "the loaded resources of the child equal the saved ones")
	c := rs.Objects[1].Components.Component[0]
	o, ok := got.FindObject(c.ObjectPath("/3D/c.model"), c.ObjectID)
	sym.Assert(ok && o == rs.Objects[0], "a component of a child is an object of the child")
	sym.Cover("children")
}

// A text that is not a UUID is reported, and nothing else is affected.
func H_invalid() {
	u := spelled(sample)
	switch sym.Choice(4) {
	case 0:
		k := sym.Choice(len(u))
		u = u[:k] + sym.StringOf(1, " -0fFgGz{}:_+@`/") + u[k+1:]
	case 1:
		k := sym.Choice(len(u))
		u = u[:k] + u[k+1:]
	case 2:
		k := sym.Choice(len(u) + 1)
		u = u[:k] + sym.StringOf(1, " -0f") + u[k:]
	case 3:
		u = ""
	}
	var at [4]string
	where := sym.Choice(4)
	at[where] = ` p:UUID="` + u + `"`
	doc := lib.Doc(`xmlns:p="`+production.Namespace+`"`, `<resources><object id="1"`+at[0]+`><mesh></mesh></object><object id="2"><components><component objectid="1"`+at[1]+`/></components></object></resources><build`+at[2]+`><item objectid="1"`+at[3]+`/></build>`)
	got := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, got)
	var uuid *string
	if where == 0 {
		if a := production.GetObjectAttr(got.Resources.Objects[0]); a != nil {
			uuid = &a.UUID
		}
	}
	if lib.UUIDText(u) {
		sym.Assert(err == nil, "a UUID is accepted")
		if where == 0 {
			sym.Assert(uuid != nil && *uuid == u, "the UUID is that of the file")
		}
		sym.Cover("valid")
		return
	}
	var pe *specerr.ParseAttrError
	sym.Assert(err != nil && errors.As(err, &pe) && pe.Name == "UUID", "a text that is not a UUID is reported")
	if where == 0 {
		sym.Assert(uuid == nil || *uuid == "", "a text that is not a UUID is not kept")
	}
	sym.Assert(len(got.Resources.Objects) == 2 && got.Resources.Objects[1].ID == 2 && len(got.Build.Items) == 1 && got.Build.Items[0].ObjectID == 1, "the rest is loaded")
	sym.Cover("invalid")
}
