//go:build go1.22

// Package c19: production validation.
//
//verif:budget quick=40 thorough=600
package c19

import (
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	prod "github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"github.com/hpinc/go3mf/zzverif/lib"
)

const good = "f47ac10b-58cc-0372-8567-0e02b2c3d479"

var exts = []go3mf.Extension{prod.DefaultExtension}

// mask is a well formed text in which every byte of a window is arbitrary.
func mask(s string, at, n int) string {
	b := []byte(s)
	for i := at; i < at+n && i < len(b); i++ {
		b[i] = sym.Byte()
		// the text of an error quotes the prefix: one arbitrary byte there is tried by H_lengths
		sym.Assume(n == 1 || len(s) != 45 || i > 8 || b[i] < 0x80)
	}
	return string(b)
}

// H_forms: the four textual forms with any window of arbitrary bytes.
func H_forms() {
	forms := []string{good, "urn:uuid:" + good, "{" + good + "}", "f47ac10b58cc037285670e02b2c3d479"}
	s := forms[sym.Choice(4)]
	n := sym.Bound(3, 4)
	at := sym.Choice((len(s)+n-1)/n) * n
	s = mask(s, at, n)
	sym.Assert((uuid.Validate(s) == nil) == lib.UUIDText(s), "exactly the four textual forms are well formed")
	sym.Cover("form")
}

// H_pairs: two arbitrary bytes anywhere.
//
//verif:tier=thorough
func H_pairs() {
	forms := []string{good, "urn:uuid:" + good, "{" + good + "}", "f47ac10b58cc037285670e02b2c3d479"}
	s := forms[sym.Choice(4)]
	i := sym.Choice(len(s))
	j := sym.Choice(len(s))
	s = mask(mask(s, i, 1), j, 1)
	sym.Assume(len(s) != 45 || i > 8 || j > 8 || s[i] < 0x80 && s[j] < 0x80)
	sym.Assert((uuid.Validate(s) == nil) == lib.UUIDText(s), "exactly the four textual forms are well formed")
	sym.Cover("pair")
}

// H_lengths: any other length is malformed.
func H_lengths() {
	n := sym.Choice(50)
	s := ("urn:uuid:" + good + "00000")[:n]
	if sym.Choice(2) == 1 {
		s = ("{" + good + "}0000000000000")[:n]
	}
	if n > 0 {
		s = mask(s, 0, 1)
	}
	sym.Assert((uuid.Validate(s) == nil) == lib.UUIDText(s), "exactly the four textual forms are well formed")
	sym.Cover("length")
}

// some is an absent, empty, malformed or well formed UUID.
func some() (s string, ok bool) {
	switch sym.Choice(4) {
	case 0:
		return "", false
	case 1:
		return good[:35] + string([]byte{sym.Byte() | 0x80}), false
	case 2:
		return good[1:], false
	}
	return good, true
}

// H_build: the build and its items.
func H_build() {
	m := &go3mf.Model{Extensions: exts}
	m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}}}
	m.Childs = map[string]*go3mf.ChildModel{"/c": {Resources: go3mf.Resources{Objects: []*go3mf.Object{
		{ID: 1, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}}}}}}
	var w lib.Want
	if sym.Choice(2) == 0 {
		w.Missing("", "/model/build", "UUID")
	} else {
		u, ok := some()
		m.Build.AnyAttr = spec.AnyAttr{&prod.BuildAttr{UUID: u}}
		w.If(!ok, "", "/model/build", prod.ErrUUID)
	}
	for i, n := 0, sym.Choice(sym.Bound(2, 4)); i < n; i++ {
		it := &go3mf.Item{ObjectID: 1}
		m.Build.Items = append(m.Build.Items, it)
		x := "/model/build/" + lib.Idx("item", i)
		if sym.Choice(2) == 0 {
			w.Missing("", x, "UUID")
			continue
		}
		u, ok := some()
		a := &prod.ItemAttr{UUID: u}
		if sym.Choice(2) == 1 {
			a.Path = "/c"
		}
		it.AnyAttr = spec.AnyAttr{a}
		if u == "" {
			w.Missing("", x, "UUID")
		} else {
			w.If(!ok, "", x, prod.ErrUUID)
		}
	}
	w.Check(m.Validate())
}

// H_objects: objects and components of root and other parts.
func H_objects() {
	o := &go3mf.Object{ID: 2}
	where := sym.Choice(3) // root, root with its own name, another part
	rs := go3mf.Resources{Objects: []*go3mf.Object{{ID: 1, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}}, o}}
	m := &go3mf.Model{Extensions: exts}
	m.Build.AnyAttr = spec.AnyAttr{&prod.BuildAttr{UUID: good}}
	m.Childs = map[string]*go3mf.ChildModel{"/d": {Resources: go3mf.Resources{Objects: []*go3mf.Object{
		{ID: 1, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}}}}}}
	p := ""
	switch where {
	case 0:
		m.Resources = rs
	case 1:
		m.Path = "/x.model"
		m.Resources = rs
	case 2:
		p = "/c"
		m.Childs[p] = &go3mf.ChildModel{Resources: rs}
	}
	x := "/model/resources/object[1]"
	var w lib.Want
	if sym.Choice(2) == 0 {
		w.Missing(p, x, "UUID")
	} else {
		u, ok := some()
		o.AnyAttr = spec.AnyAttr{&prod.ObjectAttr{UUID: u}}
		w.If(!ok, p, x, prod.ErrUUID)
	}
	if sym.Choice(2) == 0 {
		o.Mesh = lib.Solid()
		w.Check(m.Validate())
		return
	}
	o.Components = new(go3mf.Components)
	for i, n := 0, 1+sym.Choice(sym.Bound(1, 2)); i < n; i++ {
		c := &go3mf.Component{ObjectID: 1}
		o.Components.Component = append(o.Components.Component, c)
		cx := x + "/components/" + lib.Idx("component", i)
		if sym.Choice(2) == 0 {
			w.Missing(p, cx, "UUID")
			continue
		}
		u, ok := some()
		a := &prod.ComponentAttr{UUID: u}
		c.AnyAttr = spec.AnyAttr{a}
		if u == "" {
			w.Missing(p, cx, "UUID")
		} else {
			w.If(!ok, p, cx, prod.ErrUUID)
		}
		switch sym.Choice(3) {
		case 1:
			a.Path = "/d"
			w.If(where == 2, p, cx, prod.ErrProdRefInNonRoot)
		case 2:
			a.Path = []string{"/3D/3dmodel.model", "/x.model", "/c"}[where]
			w.If(where == 2, p, cx, prod.ErrProdRefInNonRoot)
		}
	}
	w.Check(m.Validate())
}

// H_undeclared: without the extension nothing is required.
func H_undeclared() {
	m := &go3mf.Model{}
	m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: lib.Solid()}}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	if sym.Choice(2) == 1 {
		m.Extensions = []go3mf.Extension{{Namespace: "http://" + lib.Word(2)}}
	}
	var w lib.Want
	w.Check(m.Validate())
	_ = errors.ErrMissingID
}

// H_long: one UUID is missing, anywhere in a model with many of everything.
func H_long() {
	const n = 12
	m := &go3mf.Model{Extensions: exts, Childs: map[string]*go3mf.ChildModel{}}
	m.Build.AnyAttr = spec.AnyAttr{&prod.BuildAttr{UUID: good}}
	fill := func(rs *go3mf.Resources) {
		c := new(go3mf.Components)
		for i := 0; i < n; i++ {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: uint32(i + 1), Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}})
			c.Component = append(c.Component, &go3mf.Component{ObjectID: uint32(i + 1), AnyAttr: spec.AnyAttr{&prod.ComponentAttr{UUID: good}}})
		}
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: n + 1, Components: c, AnyAttr: spec.AnyAttr{&prod.ObjectAttr{UUID: good}}})
	}
	fill(&m.Resources)
	for _, p := range []string{"/a", "/b", "/c"} {
		c := new(go3mf.ChildModel)
		fill(&c.Resources)
		m.Childs[p] = c
	}
	for i := 0; i < n; i++ {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(i + 1), AnyAttr: spec.AnyAttr{&prod.ItemAttr{UUID: good}}})
	}
	k := sym.Concrete(sym.Int(0, n-1))
	p := []string{"", "/a", "/b", "/c"}[sym.Choice(4)]
	rs, _ := m.FindResources(p)
	bad := good[:35]
	var w lib.Want
	o, c := rs.Objects[k], rs.Objects[n].Components.Component[k]
	ox, cx := "/model/resources/"+lib.Idx("object", k), "/model/resources/"+lib.Idx("object", n)+"/components/"+lib.Idx("component", k)
	switch sym.Choice(8) {
	case 0:
		o.AnyAttr = nil
		w.Missing(p, ox, "UUID")
	case 1:
		o.AnyAttr[0].(*prod.ObjectAttr).UUID = bad
		w.Add(p, ox, prod.ErrUUID)
	case 2:
		c.AnyAttr = nil
		w.Missing(p, cx, "UUID")
	case 3:
		c.AnyAttr[0].(*prod.ComponentAttr).UUID = bad
		w.Add(p, cx, prod.ErrUUID)
	case 4:
		c.AnyAttr[0].(*prod.ComponentAttr).Path = "/a"
		w.If(p != "", p, cx, prod.ErrProdRefInNonRoot)
	case 5:
		m.Build.Items[k].AnyAttr = nil
		w.Missing("", "/model/build/"+lib.Idx("item", k), "UUID")
	case 6:
		m.Build.Items[k].AnyAttr[0].(*prod.ItemAttr).UUID = bad
		w.Add("", "/model/build/"+lib.Idx("item", k), prod.ErrUUID)
	}
	w.Check(m.Validate())
}

// H_separators: whatever stands in all the places of the separators at once.
func H_separators() {
	off := []int{0, 9, 1}[sym.Choice(3)]
	b := []byte([]string{0: good, 9: "urn:uuid:" + good, 1: "{" + good + "}"}[off])
	for _, i := range []int{8, 13, 18, 23} {
		b[off+i] = sym.Byte()
	}
	s := string(b)
	sym.Assert((uuid.Validate(s) == nil) == lib.UUIDText(s), "exactly the four textual forms are well formed")
	sym.Cover("separators")
}

// H_braces: both ends of the text at once.
func H_braces() {
	b := []byte("{" + good + "}")
	b[0], b[len(b)-1] = sym.Byte(), sym.Byte()
	s := string(b)
	sym.Assert((uuid.Validate(s) == nil) == lib.UUIDText(s), "exactly the four textual forms are well formed")
	sym.Cover("braces")
}
