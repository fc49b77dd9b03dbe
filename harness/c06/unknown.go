//go:build go1.22

// Package c06: content of unsupported extensions survives loading and saving.
package c06

import (
	"encoding/xml"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=60 thorough=780

const (
	nsU = "http://u"
	nsV = "http://v"
)

var decl = lib.Spaces + ` xmlns:v="` + nsV + `"`

func unknown(ns string) bool { return ns == nsU || ns == nsV }

// item is a piece of unknown content: an attribute or a token of an element, and where it is.
type item struct {
	at   string
	attr xml.Attr
	tok  xml.Token
}

// content lists the unknown content of a document, as read by the standard library.
func content(doc []byte) (r []item) {
	toks, err := lib.Tokens(doc)
	sym.Assert(err == nil, "the document is well formed")
	type level struct {
		path  string
		count map[string]int
	}
	stack := []level{{"", map[string]int{}}}
	depth := 0
	for _, t := range toks {
		top := &stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			var attrs []xml.Attr
			for _, a := range t.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					attrs = append(attrs, a)
				}
			}
			if depth > 0 || unknown(t.Name.Space) {
				depth++
				t.Attr = attrs
				r = append(r, item{at: top.path, tok: t})
				continue
			}
			i := top.count[t.Name.Local]
			top.count[t.Name.Local]++
			p := top.path + "/" + lib.Idx(t.Name.Local, i)
			for _, a := range attrs {
				if unknown(a.Name.Space) {
					r = append(r, item{at: p, attr: a})
				}
			}
			stack = append(stack, level{p, map[string]int{}})
		case xml.EndElement:
			if depth > 0 {
				depth--
				r = append(r, item{at: top.path, tok: t})
				continue
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if depth > 0 && strings.Trim(string(t), " \t\r\n") != "" {
				r = append(r, item{at: top.path, tok: t})
			}
		}
	}
	return
}

// of selects the content of a place.
func of(l []item, at string, attr bool) (r []item) {
	for _, x := range l {
		if x.at == at && (x.tok == nil) == attr {
			r = append(r, x)
		}
	}
	return
}

func same(a, b []item) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].tok == nil {
			if a[i].attr != b[i].attr {
				return false
			}
		} else if !lib.SameTokens([]xml.Token{a[i].tok}, []xml.Token{b[i].tok}) {
			return false
		}
	}
	return true
}

// attrsSame compares attributes whatever the order of their name spaces.
func attrsSame(a, b []item) bool {
	return len(a) == len(b) && same(bySpace(a, nsU), bySpace(b, nsU)) && same(bySpace(a, nsV), bySpace(b, nsV))
}

func bySpace(a []item, ns string) (r []item) {
	for _, x := range a {
		if x.attr.Name.Space == ns {
			r = append(r, x)
		}
	}
	return
}

func compare(want, got []item) {
	sym.ObserveInt("items", len(want))
	sym.Assert(len(want) == len(got), "unknown content is neither lost nor added")
	for _, x := range want {
		sym.Assert(attrsSame(of(want, x.at, true), of(got, x.at, true)), "unknown attributes come back with their element, names and values")
		sym.Assert(same(of(want, x.at, false), of(got, x.at, false)), "unknown elements come back with their names, values, text and nesting, in order")
	}
}

func check(doc []byte) {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	sym.Assert(err == nil, "a document with unknown content is read")
	out, err := go3mf.MarshalModel(m)
	sym.Assert(err == nil, "a model with unknown content is written")
	want, got := content(doc), content(out)
	compare(want, got)
	again := new(go3mf.Model)
	err = go3mf.UnmarshalModel(out, again)
	sym.Assert(err == nil, "a document with unknown content is read")
	sym.Assert(sym.Equal(m, again), "loading what was saved gives the same model")
	sym.Cover("checked")
}

// carriers are the elements that keep the attributes they do not know.
var carriers = " model metadatagroup resources basematerials base object mesh vertices triangles triangle components component build item "

func pick() (doc, n *lib.Node) {
	doc = lib.Rich()
	var c []*lib.Node
	seen := map[string]int{}
	for _, n := range doc.Nodes() {
		if strings.Contains(carriers, " "+n.Name+" ") {
			if seen[n.Name]++; seen[n.Name] <= sym.Bound(1, 2) {
				c = append(c, n)
			}
		}
	}
	return doc, c[sym.Choice(len(c))]
}

var pieces = []string{"", "&lt;", "&amp;", "&quot;", "&gt;", "&#xA;", "&#9;", "&apos;", "\u00e9", "&#x20AC;", "'", ">"}

func value() string {
	return pieces[sym.Choice(len(pieces))] + sym.StringOf(1, " !#$%()*+,-./0123456789:;=?@ABCXYZ[\\]^_`abcxyz{|}~")
}

// An attribute on any element.
func H_attr() {
	doc, n := pick()
	n.With("u:"+sym.StringOf(1, "aid_")+sym.StringOf(sym.Choice(2), "a-.1"), value())
	check(doc.Render(lib.Style{Decl: decl}))
}

// Several attributes on an element, of two unknown name spaces.
func H_attrs() {
	doc, n := pick()
	for i, k := 0, sym.Choice(sym.Bound(3, 4)); i <= k; i++ {
		n.With([]string{"u:", "v:"}[sym.Choice(2)]+[]string{"id", "b", "path", "d"}[i], []string{"1", "", "x y"}[i%3])
	}
	check(doc.Render(lib.Style{Decl: decl}))
}

// tree is any small unknown element.
func tree(depth int) *lib.Node {
	n := &lib.Node{Name: []string{"u:e", "v:e", "u:resources"}[sym.Choice(3)]}
	for i, a := range [][]string{{}, {"a"}, {"id"}, {"u:a"}, {"v:x"}, {"p:path"}, {"a", "u:a", "v:a"}, {"v:id", "u:id", "id", "p:id"}}[sym.Choice(8)] {
		n.With(a, string(rune('7'-i)))
	}
	if depth > 0 {
		for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
			n.Kids = append(n.Kids, tree(depth-1))
		}
		if sym.Choice(4) == 0 {
			n.Kids = append(n.Kids, &lib.Node{Name: []string{"vertex", "m:color", "object"}[sym.Choice(3)], Attrs: [][2]string{{"x", "?"}}, Text: "t"})
		}
	}
	return n
}

func place(doc *lib.Node) *lib.Node {
	name := []string{"model", "resources", "mesh"}[sym.Choice(3)]
	for _, n := range doc.Nodes() {
		if n.Name == name {
			return n
		}
	}
	panic(name)
}

// Small is a document with a place for every unknown element.
func small() *lib.Node {
	return &lib.Node{Name: "model", Kids: []*lib.Node{
		{Name: "resources", Kids: []*lib.Node{{Name: "object", Attrs: [][2]string{{"id", "1"}}, Kids: []*lib.Node{{Name: "mesh"}}}}}, {Name: "build"}}}
}

// Any nesting of unknown elements.
func H_nesting() {
	doc := small()
	p := place(doc)
	p.Kids = append(p.Kids, tree(sym.Bound(1, 2)))
	check(doc.Render(lib.Style{Decl: decl}))
}

// Several unknown elements, with known ones around.
func H_order() {
	doc := lib.Rich()
	k := 1 + sym.Choice(sym.Bound(2, 3))
	p := place(doc)
	for i := 0; i < k; i++ {
		n := &lib.Node{Name: []string{"u:a", "v:a"}[sym.Choice(2)], Text: string(rune('0' + i))}
		n.With("id", string(rune('5'+i)))
		at := sym.Choice(2) * len(p.Kids)
		p.Kids = append(p.Kids[:at:at], append([]*lib.Node{n}, p.Kids[at:]...)...)
	}
	check(doc.Render(lib.Style{Decl: decl}))
}

// Text and attribute values inside unknown elements.
func H_text() {
	doc := small()
	p := place(doc)
	n := &lib.Node{Name: "u:e", Attrs: [][2]string{{"a", value()}}}
	in := &lib.Node{Name: "v:e", Text: "t"}
	in.Text = []string{"x", "\n x", "]"}[sym.Choice(3)] + value()
	n.Kids = []*lib.Node{in}
	p.Kids = append(p.Kids, n)
	check(doc.Render(lib.Style{Decl: decl}))
}

// Any character, alone or next to white space: only that of XML is white space.
func H_wide() {
	doc := small()
	p := place(doc)
	v := lib.Wide()
	n := &lib.Node{Name: "u:e"}
	switch sym.Choice(3) {
	case 0:
		n.Text = v
	case 1:
		n.Text = "\n " + v + " "
	default:
		n.With("a", v)
	}
	p.Kids = append(p.Kids, n)
	check(doc.Render(lib.Style{Decl: decl}))
}

// Name spaces declared by the unknown content itself.
func H_declared() {
	doc := small()
	p := place(doc)
	n := &lib.Node{Name: "w:e", Attrs: [][2]string{{"xmlns:w", nsV}, {"w:a", "1"}}}
	switch sym.Choice(4) {
	case 0:
		n.Kids = []*lib.Node{{Name: "w:i", Attrs: [][2]string{{"w:b", "2"}}}}
	case 1:
		n.Kids = []*lib.Node{{Name: "x:i", Attrs: [][2]string{{"xmlns:x", nsU}, {"x:b", "2"}}}}
	case 2:
		n.Kids = []*lib.Node{{Name: "i", Attrs: [][2]string{{"xmlns", nsU}}, Kids: []*lib.Node{{Name: "j"}}}}
	}
	p.Kids = append(p.Kids, n)
	check(doc.Render(lib.Style{Decl: []string{decl, `xmlns="` + lib.CoreNS + `"`}[sym.Choice(2)]}))
}

// H_shadow: prefixes bound to the same name space and bound anew further in.
func H_shadow() {
	spaces := []string{nsV, "http://w", nsU}[:sym.Bound(2, 3)]
	name := []string{"u:", "v:", "a:"}
	elem := func(name string) *lib.Node {
		n := &lib.Node{Name: name + "e"}
		if sym.Choice(2) == 0 {
			n.Attrs = append(n.Attrs, [2]string{"xmlns:" + []string{"u", "a"}[sym.Choice(2)], spaces[sym.Choice(len(spaces))]})
		}
		return n
	}
	doc := small()
	p := doc
	if sym.Tier() > 0 {
		p = place(doc)
	}
	top := elem("v:")
	for i, n := 0, sym.Choice(sym.Bound(1, 2)); i <= n; i++ {
		in := elem(name[sym.Choice(3)])
		in.With(name[sym.Choice(3)]+"x", "1")
		in.Kids = []*lib.Node{{Name: name[sym.Choice(3)] + "i"}}
		top.Kids = append(top.Kids, in)
	}
	p.Kids = append(p.Kids, top)
	extra := ` xmlns:a="` + nsU + `"`
	check(doc.Render(lib.Style{Decl: []string{decl + extra, extra + decl}[sym.Choice(2)]}))
}

// H_default: default name spaces of unknown content, which may be bound to a prefix as well.
func H_default() {
	spaces := []string{"", nsU, "http://w", lib.CoreNS}
	if sym.Tier() == 0 {
		spaces = spaces[:3]
	}
	names := []string{"", "u:", "w:", "c:"}
	elem := func(name string, k int) *lib.Node {
		n := &lib.Node{Name: name + string(rune('e'+k))}
		d := sym.Choice(len(spaces) + 1)
		if d < len(spaces) {
			n.Attrs = append(n.Attrs, [2]string{"xmlns", spaces[d]})
		}
		return n
	}
	doc := small()
	top := elem("u:", 0)
	kid := elem(names[sym.Choice(sym.Bound(3, 4))], 1)
	kid.Attrs = append(kid.Attrs, [][2]string{{"w:a", "1"}, {"a", "2"}, {"c:a", "3"}}[sym.Choice(3)])
	top.Kids = []*lib.Node{kid, {Name: "u:g"}}
	kid.Kids = []*lib.Node{{Name: names[sym.Choice(4)] + "f"}}
	doc.Kids = append(doc.Kids, top)
	extra := ` xmlns:c="` + lib.CoreNS + `" xmlns:w="http://w"`
	own := [2]string{"xmlns:w", "http://w"}
	switch sym.Choice(3) {
	case 0: // bound anew before the default name space
		top.Attrs = append([][2]string{own}, top.Attrs...)
	case 1: // and after it
		top.Attrs = append(top.Attrs, own)
	}
	check(doc.Render(lib.Style{Decl: decl + extra}))
}

// The identifier of an unknown resource, which other attributes are not.
func H_identity() {
	id := sym.Uint32()
	n := &lib.Node{Name: "u:x"}
	other := [2]string{[]string{"u:id", "v:id", "m:id", "p:id", "ID", "pid"}[sym.Choice(6)], "77"}
	own := [2]string{"id", strconv.FormatUint(uint64(id), 10)}
	n.Attrs = [][2]string{own, other}
	if sym.Choice(2) == 0 {
		n.Attrs = [][2]string{other, own}
	}
	if sym.Choice(2) == 0 {
		n.Kids = []*lib.Node{{Name: "u:y", Attrs: [][2]string{{"id", "78"}}}}
	}
	doc := small()
	doc.Kids[0].Kids = append([]*lib.Node{n}, doc.Kids[0].Kids...)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc.Render(lib.Style{Decl: decl}), m)
	sym.Assert(err == nil && len(m.Resources.Assets) == 1, "a document with unknown content is read")
	sym.Assert(m.Resources.Assets[0].Identify() == id, "an unknown resource has the identifier it is given")
	a, ok := m.FindAsset("", id)
	sym.Assert(ok && a == m.Resources.Assets[0], "an unknown resource is found by its identifier")
	sym.Cover("identity")
}

// Unknown attributes of triangles, some of which have properties.
func H_triangles() {
	doc := small()
	list := &lib.Node{Name: "triangles"}
	for i, k := 0, sym.Bound(3, 4); i < k; i++ {
		t := (&lib.Node{Name: "triangle"}).With("v1", "0", "v2", "1", "v3", "2")
		kind := sym.Choice(4)
		if kind > 0 {
			t.With("pid", string(rune('1'+i)))
		}
		if kind > 1 {
			t.With("p1", "4")
		}
		if kind > 2 {
			t.With("p2", "5", "p3", "6")
		}
		for j, n := 0, sym.Choice(sym.Bound(2, 3)); j < n; j++ {
			t.With([]string{"u:a", "v:pid"}[j], string(rune('a'+i)))
		}
		list.Kids = append(list.Kids, t)
	}
	mesh := doc.Kids[0].Kids[0].Kids[0]
	mesh.Kids = []*lib.Node{list}
	check(doc.Render(lib.Style{Decl: decl}))
}

// Unknown elements anywhere leave the known content as it is.
func H_around() {
	doc := lib.Rich()
	nodes := doc.Nodes()
	n := nodes[sym.Choice(len(nodes))]
	sym.Assume(n.Name[0] != 'u')
	kid := &lib.Node{Name: "u:e", Text: n.Text, Kids: []*lib.Node{
		{Name: "vertex", Attrs: [][2]string{{"x", "?"}}}, {Name: "u:item", Attrs: [][2]string{{"objectid", "?"}}, Text: "z"},
		{Name: "m:color", Attrs: [][2]string{{"color", "?"}}}}}
	if sym.Bool() {
		kid.Kids[1].Kids = []*lib.Node{{Name: "u:f", Kids: []*lib.Node{{Name: "object", Kids: []*lib.Node{{Name: "u:e", Text: "y"}}}, {Name: "u:e"}}}}
	}
	if n.Name != "resources" {
		kid.With("id", "?")
	}
	at := sym.Choice(2) * len(n.Kids)
	n.Kids = append(n.Kids[:at:at], append([]*lib.Node{kid}, n.Kids[at:]...)...)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc.Render(lib.Style{}), m)
	sym.Assert(err == nil, "a document with unknown content is read")
	switch n.Name {
	case "model":
		m.Any = m.Any[1:]
	case "mesh":
		a := m.Resources.Objects[0].Mesh
		a.Any = append(a.Any[:0:0], a.Any[1-min(at, 1)])
	case "resources":
		i := 0
		if at > 0 {
			i = len(m.Resources.Assets) - 1
		}
		m.Resources.Assets = append(m.Resources.Assets[:i:i], m.Resources.Assets[i+1:]...)
	}
	if len(m.Any) == 0 {
		m.Any = nil
	}
	want := new(go3mf.Model)
	err = go3mf.UnmarshalModel(lib.Rich().Render(lib.Style{}), want)
	sym.Assert(err == nil && sym.Equal(m, want), "unknown content does not change how known content is read")
	sym.Cover("around")
}

// Unknown content of a child model, whose namespaces only the child declares.
func H_child() {
	doc := small()
	p := place(doc)
	n := &lib.Node{Name: "v:e", Attrs: [][2]string{{"v:a", value()}}, Kids: []*lib.Node{{Name: "u:i", Text: "x"}}}
	p.Kids = append(p.Kids, n)
	if sym.Choice(2) == 0 {
		doc.Kids[0].With("v:a", "2")
	}
	rootDecl := []string{decl, lib.Spaces, lib.Spaces + ` xmlns:v="http://w"`}[sym.Choice(3)]
	child := doc.Render(lib.Style{Decl: decl})
	m, err := lib.Decode(lib.PackRoot(small().Render(lib.Style{Decl: rootDecl}), lib.ModelFile("/3D/o.model", child)), true)
	sym.Assert(err == nil, "a document with unknown content is read")
	out, err := lib.Encode(m)
	sym.Assert(err == nil, "a model with unknown content is written")
	again, err := lib.Decode(out, true)
	sym.Assert(err == nil, "a document with unknown content is read")
	part, ok := lib.ReadPart(out, "/3D/o.model")
	sym.Assert(ok, "the unknown content of a child model comes back in it")
	compare(content(child), content(part))
	sym.Assert(len(again.Any) == 0 && len(again.Resources.Assets) == 0, "the unknown content of a child model comes back in it")
	sym.Cover("child")
}

// Much unknown content: deep, wide and long.
func H_much() {
	doc := small()
	p := place(doc)
	n := sym.Bound(70, 300)
	k := []int{n - 1, 0, 63, 64}[sym.Choice(sym.Bound(2, 4))]
	value := func() string { return "&lt;" + sym.StringOf(1, " !#[]abcxyz") + "\u00e9" }
	switch sym.Choice(5) {
	case 0: // elements in a row
		for i := 0; i < n; i++ {
			e := &lib.Node{Name: []string{"u:a", "v:a"}[i%2]}
			if i == k {
				e.With("b", value())
			}
			p.Kids = append(p.Kids, e)
		}
	case 1: // elements in each other
		for i := 0; i < n; i++ {
			e := &lib.Node{Name: []string{"u:a", "v:a", "u:b"}[i%3]}
			if i == k {
				e.With("b", value())
			}
			p.Kids = append(p.Kids, e)
			p = e
		}
	case 2: // attributes of an unknown element
		e := &lib.Node{Name: "u:a"}
		for i := 0; i < n; i++ {
			v := "v"
			if i == k {
				v = value()
			}
			e.With([]string{"", "u:", "v:"}[i%3]+"a"+strconv.Itoa(i), v)
		}
		p.Kids = append(p.Kids, e)
	case 3: // attributes of a known one
		var c *lib.Node
		doc, c = pick()
		for i := 0; i < n; i++ {
			v := "v"
			if i == k {
				v = value()
			}
			c.With([]string{"u:", "v:"}[i%2]+"a"+strconv.Itoa(i), v)
		}
	case 4: // text
		t := strings.Repeat("x y", 2000)
		k *= 20
		p.Kids = append(p.Kids, &lib.Node{Name: "u:a", Text: t[:k] + value() + t[k:]})
	}
	check(doc.Render(lib.Style{Decl: decl}))
}
