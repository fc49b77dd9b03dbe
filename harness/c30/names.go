//go:build go1.22

// Package c30: namespaces, not prefixes, decide how content is decoded.
package c30

import (
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=700

var labels = []string{"m", "b", "s", "p", "u"}

// declare writes the declarations of a style, in the order of labels.
func declare(prefix map[string]string) string {
	d := ` xmlns`
	if p := prefix[""]; p != "" {
		d += ":" + p
	}
	d += `="` + lib.CoreNS + `"`
	for _, l := range labels {
		d += " xmlns:" + prefix[l] + `="` + lib.Namespaces[l] + `"`
	}
	return d[1:]
}

func root(n *lib.Node, attr string) *string {
	for i := range n.Attrs {
		if n.Attrs[i][0] == attr {
			return &n.Attrs[i][1]
		}
	}
	panic(attr)
}

func decode(b []byte) *go3mf.Model {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(b, m)
	if err != nil {
		sym.ObserveStr("error", err.Error())
	}
	sym.Assert(err == nil, "the document is readable")
	return m
}

// std is the document with the usual prefixes; its extensions and the prefix of its qualified metadata are left out.
func std() *go3mf.Model {
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(lib.Rich().Render(lib.Style{}), m); err != nil {
		panic(err)
	}
	m.Extensions = nil
	m.Metadata[1].Name.Space = ""
	return m
}

func checkStyle(prefix map[string]string) {
	doc := lib.Rich()
	doc.Kids[1].Attrs[0][1] = prefix["u"] + ":k"
	*root(doc, "requiredextensions") = prefix["p"] + " " + prefix["b"]
	m := decode(doc.Render(lib.Style{Prefix: prefix, Decl: declare(prefix)}))
	i := 0
	if prefix[""] != "" {
		i = 1
	}
	sym.Assert(len(m.Extensions) == len(labels)+i, "exactly the declared extensions are recorded")
	for k, l := range labels {
		e := m.Extensions[k+i]
		sym.Assert(e.Namespace == lib.Namespaces[l] && e.LocalName == prefix[l], "an extension is recorded with its namespace and prefix")
		sym.Assert(e.IsRequired == (l == "p" || l == "b"), "an extension is required when the document says so")
	}
	sym.Assert(m.Metadata[1].Name.Space == prefix["u"], "the names of metadata keep their prefix")
	m.Metadata[1].Name.Space = ""
	m.Extensions = nil
	sym.Assert(sym.Equal(m, std()), "the prefixes do not change the content")
	sym.Cover("styles")
}

// Any prefixes, with or without a default namespace.
func H_prefixes() {
	prefix := map[string]string{"": "", "m": "m", "b": "b", "s": "s", "p": "p", "u": "u"}
	letters := "abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	if sym.Choice(2) == 1 {
		prefix[""] = "c"
	}
	l := labels[sym.Choice(len(labels))]
	n := sym.Choice(sym.Bound(2, 3)) + 1
	p := []string{"", "\u00e9", "\u4e2d"}[sym.Choice(3)] + sym.StringOf(1, letters) + sym.StringOf(n-1, letters+"0123456789-.")
	for _, o := range []string{"m", "b", "s", "p", "u", "c"} {
		sym.Assume(o == l || p != o)
	}
	prefix[l] = p
	checkStyle(prefix)
}

// The usual prefixes, each one for another namespace.
func H_permuted() {
	prefix := map[string]string{}
	used := [5]bool{}
	for i, n := 0, sym.Bound(3, 5); i < len(labels); i++ {
		k := i
		if i < n {
			k = sym.Choice(n)
		}
		sym.Assume(!used[k])
		used[k] = true
		prefix[labels[i]] = labels[(k+2)%5]
	}
	prefix[""] = []string{"", "x"}[sym.Choice(2)]
	checkStyle(prefix)
}

// Two prefixes for one namespace, and declarations where they are needed instead of on the model.
func H_aliases() {
	doc := lib.Rich()
	nodes := doc.Nodes()
	n := nodes[1+sym.Choice(len(nodes)-1)]
	sym.Assume(strings.IndexByte(n.Name, ':') > 0)
	l, local := n.Name[:1], n.Name[2:]
	n.Name = "alias:" + local
	decl := lib.Spaces
	if sym.Choice(2) == 0 {
		decl += ` xmlns:alias="` + lib.Namespaces[l] + `"`
	} else {
		n.Attrs = append([][2]string{{"xmlns:alias", lib.Namespaces[l]}}, n.Attrs...)
	}
	m := decode(doc.Render(lib.Style{Decl: decl}))
	if l == "u" {
		sym.Assert(len(m.Resources.Assets) == len(std().Resources.Assets), "an alias of a namespace is the same namespace")
		return
	}
	m.Extensions = nil
	m.Metadata[1].Name.Space = ""
	sym.Assert(sym.Equal(m, std()), "an alias of a namespace is the same namespace")
	sym.Cover("aliases")
}

// A namespace that differs from the one of a specification in any character.
func H_foreign() {
	l := []string{"", "m", "b", "s", "p"}[sym.Choice(5)]
	ns := lib.Namespaces[l]
	at := sym.Choice(len(ns))
	c := sym.StringOf(1, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/.:-_ ")
	sym.Assume(c != ns[at:at+1])
	other := ns[:at] + c + ns[at+1:]
	if sym.Choice(2) == 0 && at == 0 {
		other = ns + c
	}
	checkForeign(l, other)
}

func checkForeign(l, other string) {
	decl := strings.Replace(lib.Spaces, `"`+lib.Namespaces[l]+`"`, `"`+other+`"`, 1)
	m := decode(lib.Rich().Render(lib.Style{Decl: decl}))
	if l == "" {
		sym.Assert(len(m.Extensions) == 0 && len(m.Metadata) == 0 && len(m.Resources.Objects) == 0 && len(m.Resources.Assets) == 0 && len(m.Build.Items) == 0,
			"nothing of another namespace is decoded as core content")
		sym.Cover("not core")
		return
	}
	for _, a := range m.Resources.Assets {
		switch a.(type) {
		case *materials.Texture2D, *materials.Texture2DGroup, *materials.ColorGroup, *materials.CompositeMaterials, *materials.MultiProperties:
			sym.Assert(l != "m", "nothing of another namespace is decoded as extension content")
		case *slices.SliceStack:
			sym.Assert(l != "s", "nothing of another namespace is decoded as extension content")
		}
	}
	o := m.Resources.Objects[0]
	it := m.Build.Items[0]
	sym.Assert((beamlattice.GetBeamLattice(o.Mesh) == nil) == (l == "b"), "nothing of another namespace is decoded as extension content")
	sym.Assert((slices.GetObjectAttr(o) == nil) == (l == "s"), "nothing of another namespace is decoded as extension content")
	sym.Assert((production.GetObjectAttr(o) == nil) == (l == "p"), "nothing of another namespace is decoded as extension content")
	sym.Assert((production.GetItemAttr(it) == nil) == (l == "p"), "nothing of another namespace is decoded as extension content")
	sym.Assert((production.GetBuildAttr(&m.Build) == nil) == (l == "p"), "nothing of another namespace is decoded as extension content")
	sym.Assert((production.GetComponentAttr(m.Resources.Objects[1].Components.Component[0]) == nil) == (l == "p"), "nothing of another namespace is decoded as extension content")
	sym.Assert(len(m.Resources.Assets) == 9, "content of an unsupported namespace is kept")
	sym.Cover("foreign")
}

// Which prefixes are required.
func H_required() {
	sep := []string{" ", "  ", "\t", "\n", " \r\n "}
	names := []string{"m", "b", "s", "p", "u", "x", "mm", "M", ""}
	n := sym.Choice(sym.Bound(3, 4))
	text := ""
	listed := map[string]bool{}
	if n > 0 {
		text = []string{"", " "}[sym.Choice(2)]
		s := sep[sym.Choice(len(sep))]
		for i := 0; i < n; i++ {
			p := names[sym.Choice(len(names))]
			listed[p] = true
			text += p + s
		}
	}
	req := ` requiredextensions="` + text + `"`
	doc := "<model " + lib.Spaces + req + "/>"
	if sym.Choice(2) == 0 {
		doc = "<model" + req + " " + lib.Spaces + "/>"
	}
	m := decode([]byte(doc))
	sym.Assert(len(m.Extensions) == len(labels), "exactly the declared extensions are recorded")
	for i, l := range labels {
		sym.Assert(m.Extensions[i].IsRequired == listed[l], "an extension is required when the document says so")
	}
	sym.Cover("required")
}

// drop removes the attributes kept for a namespace.
func drop(a spec.AnyAttr, ns string) (r spec.AnyAttr) {
	for _, g := range a {
		if g.Namespace() != ns {
			r = append(r, g)
		}
	}
	return
}

func dropAll(m *go3mf.Model, ns string) {
	m.AnyAttr = drop(m.AnyAttr, ns)
	m.Build.AnyAttr = drop(m.Build.AnyAttr, ns)
	for _, it := range m.Build.Items {
		it.AnyAttr = drop(it.AnyAttr, ns)
		it.Metadata.AnyAttr = drop(it.Metadata.AnyAttr, ns)
	}
	rs := &m.Resources
	rs.AnyAttr = drop(rs.AnyAttr, ns)
	for _, a := range rs.Assets {
		if b, ok := a.(*go3mf.BaseMaterials); ok {
			b.AnyAttr = drop(b.AnyAttr, ns)
			for i := range b.Materials {
				b.Materials[i].AnyAttr = drop(b.Materials[i].AnyAttr, ns)
			}
		}
	}
	for _, o := range rs.Objects {
		o.AnyAttr = drop(o.AnyAttr, ns)
		o.Metadata.AnyAttr = drop(o.Metadata.AnyAttr, ns)
		if o.Mesh != nil {
			o.Mesh.AnyAttr = drop(o.Mesh.AnyAttr, ns)
			o.Mesh.Vertices.AnyAttr = drop(o.Mesh.Vertices.AnyAttr, ns)
			o.Mesh.Triangles.AnyAttr = drop(o.Mesh.Triangles.AnyAttr, ns)
			for i := range o.Mesh.Triangles.Triangle {
				t := &o.Mesh.Triangles.Triangle[i]
				t.AnyAttr = drop(t.AnyAttr, ns)
			}
		}
		if o.Components != nil {
			o.Components.AnyAttr = drop(o.Components.AnyAttr, ns)
			for _, c := range o.Components.Component {
				c.AnyAttr = drop(c.AnyAttr, ns)
			}
		}
	}
}

// An attribute of another namespace with the name of a specified one, before or after it.
func H_qualified() {
	doc := lib.Rich()
	s := doc.Sites()
	k := sym.Choice(len(s))
	n, name := s[k].Node, s[k].Name()
	sym.Assume(n.Name[0] != 'u' && name != "lang")
	p := []string{"u", "c", "m"}[sym.Choice(3)]
	if n.Name == "model" && sym.Choice(3) == 0 {
		name = "xmlns"
	}
	extra := [2]string{p + ":" + name, "?"}
	if sym.Choice(2) == 0 {
		n.Attrs = append([][2]string{extra}, n.Attrs...)
	} else {
		n.Attrs = append(n.Attrs, extra)
	}
	m := decode(doc.Render(lib.Style{Decl: lib.Spaces + ` xmlns:c="` + lib.CoreNS + `"`}))
	m.Extensions = nil
	m.Metadata[1].Name.Space = ""
	ns := lib.CoreNS
	if p != "c" {
		ns = lib.Namespaces[p]
	}
	dropAll(m, ns)
	sym.Assert(sym.Equal(m, std()), "an attribute of another namespace is not the specified one")
	sym.Cover("qualified")
}

// An element with the name of a specified one and the namespace of another specification is not it.
func H_moved() {
	doc, want := lib.Rich(), lib.Rich()
	nodes, others := doc.Nodes(), want.Nodes()
	k := 1 + sym.Choice(len(nodes)-1)
	n := nodes[k]
	local := n.Name[strings.IndexByte(n.Name, ':')+1:]
	l := []string{"", "m:", "b:", "s:", "p:", "q:", "u:"}[sym.Choice(7)]
	name := l + local
	sym.Assume(name != n.Name && n.Name[0] != 'u')
	p, at := parent(want, others[k])
	if l == "q:" || l == "u:" {
		sym.Assume(p.Name != "model" && p.Name != "resources" && p.Name != "mesh")
	}
	if p.Name == "u:x" {
		return
	}
	n.Name = name
	p.Kids = append(p.Kids[:at:at], p.Kids[at+1:]...)
	m := decode(doc.Render(lib.Style{}))
	w := decode(want.Render(lib.Style{}))
	sym.Assert(sym.Equal(m, w), "an element of another namespace is not the specified one")
	sym.Cover("moved")
}

// An element with another name of the same namespace, be it none or that of an element which belongs elsewhere.
func H_renamed() {
	doc, want := lib.Rich(), lib.Rich()
	nodes, others := doc.Nodes(), want.Nodes()
	k := 1 + sym.Choice(len(nodes)-1)
	n := nodes[k]
	sym.Assume(n.Name[0] != 'u')
	p, at := parent(want, others[k])
	space := n.Name[:strings.IndexByte(n.Name, ':')+1]
	belong := map[string]bool{}
	for _, o := range nodes {
		if o.Name == p.Name {
			for _, kid := range o.Kids {
				belong[kid.Name] = true
			}
		}
	}
	names := []string{n.Name + "x", space + "x", strings.ToUpper(n.Name)[len(space):]}
	names[2] = space + names[2]
	// Elements of extensions are decoded wherever unknown ones are kept.
	if space == "" || p.Name != "model" && p.Name != "resources" && p.Name != "mesh" {
		for _, o := range nodes {
			if !belong[o.Name] && o.Name[:strings.IndexByte(o.Name, ':')+1] == space {
				belong[o.Name] = true
				names = append(names, o.Name)
			}
		}
	}
	if sym.Tier() == 0 {
		// every third name, so that siblings get different ones
		var some []string
		for i := k % 3; i < len(names); i += 3 {
			some = append(some, names[i])
		}
		names = some
	}
	n.Name = names[sym.Choice(len(names))]
	p.Kids = append(p.Kids[:at:at], p.Kids[at+1:]...)
	m := decode(doc.Render(lib.Style{}))
	w := decode(want.Render(lib.Style{}))
	sym.Assert(sym.Equal(m, w), "an element of another name is not the specified one")
	sym.Cover("renamed")
}

func parent(doc, n *lib.Node) (*lib.Node, int) {
	for _, p := range doc.Nodes() {
		for i, k := range p.Kids {
			if k == n {
				return p, i
			}
		}
	}
	panic("no parent")
}

// A child model with prefixes of its own, which mean something else in the root model.
func H_child() {
	doc := lib.Rich()
	prefix := map[string]string{"": "", "m": "b", "b": "m", "s": "s", "p": "u", "u": "p"}
	prefix[labels[sym.Choice(len(labels))]] = "c" + sym.StringOf(1, "abmpsu0_")
	prefix[""] = []string{"", "x"}[sym.Choice(2)]
	nodes := doc.Nodes()
	for _, n := range nodes {
		if n.Name == "metadata" && n.Attrs[0][1] == "Designer" {
			n.Attrs[0][1] = prefix["u"] + ":k"
		}
	}
	child := doc.Render(lib.Style{Prefix: prefix, Decl: declare(prefix)})
	m, err := lib.Decode(lib.PackRoot(lib.Rich().Render(lib.Style{}), lib.ModelFile("/3D/o.model", child)), true)
	sym.Assert(err == nil, "the document is readable")
	got := m.Childs["/3D/o.model"].Resources
	sym.Assert(got.Objects[0].Metadata.Metadata[0].Name.Space == prefix["u"] && got.Objects[0].Metadata.Metadata[0].Name.Local == "k", "the names of metadata keep their prefix")
	w := std()
	got.Objects[0].Metadata.Metadata[0].Name = w.Resources.Objects[0].Metadata.Metadata[0].Name
	sym.Assert(sym.Equal(got, w.Resources), "the prefixes do not change the content")
	sym.Cover("child")
}
