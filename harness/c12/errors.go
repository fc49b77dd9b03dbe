//go:build go1.22

// Package c12: which errors strict and lenient decoding report, where, and what they keep.
package c12

import (
	"bytes"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=700

func typed(doc *lib.Node) (r []lib.Site) {
	for _, s := range doc.Sites() {
		if s.Typed() {
			r = append(r, s)
		}
	}
	return
}

// spoil makes the text of an attribute one that is malformed whatever its type.
func spoil(s lib.Site) { s.Node.Attrs[s.Attr][1] = sym.StringOf(1, "xyz!") }

// blank replaces unreadable attributes: numbers by zero and others by nothing.
func blank(bad []lib.Site) {
	for i := len(bad) - 1; i >= 0; i-- {
		n := bad[i].Node
		switch bad[i].Kind() {
		case lib.Uint, lib.Float:
			n.Attrs[bad[i].Attr][1] = "0"
		case lib.Color:
			n.Attrs[bad[i].Attr][1] = "#00000000"
		default:
			n.Attrs = append(n.Attrs[:bad[i].Attr:bad[i].Attr], n.Attrs[bad[i].Attr+1:]...)
		}
	}
}

func is(e *errors.Error, s lib.Site) bool {
	p, ok := e.Err.(*errors.ParseAttrError)
	return ok && p.Name == s.Name() && p.Required == s.Required() && e.XPath() == s.XPath
}

func check(doc *lib.Node, bad []lib.Site) {
	for _, s := range bad {
		spoil(s)
	}
	b := doc.Render(lib.Style{})

	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(b, m)
	errs := lib.Flatten(err)
	sym.Assert(len(errs) == len(bad), "lenient decoding returns every error once")
	for i, e := range errs {
		if !is(e, bad[i]) {
			sym.ObserveStr("error", e.Error())
		}
		sym.Assert(is(e, bad[i]), "lenient decoding returns the errors in document order, each at its element")
	}

	got, serr := lib.Decode(lib.PackRoot(b), true)
	if len(bad) == 0 {
		sym.Assert(serr == nil, "a readable document has no errors")
		got.Path = m.Path
		sym.Assert(sym.Equal(got, m), "both modes read the same from a readable document")
		return
	}
	first, ok := serr.(*errors.Error)
	sym.Assert(ok, "strict decoding returns exactly one error")
	sym.Assert(is(first, bad[0]), "strict decoding returns the first error of the document")

	for _, s := range bad {
		if !comparable(s) {
			sym.Cover("errors")
			return
		}
	}
	blank(bad)
	want := new(go3mf.Model)
	err = go3mf.UnmarshalModel(doc.Render(lib.Style{}), want)
	sym.Assert(err == nil, "a readable document has no errors")
	sym.Assert(sym.Equal(m, want), "lenient decoding keeps everything that is readable")
	sym.Cover("errors")
}

// comparable tells whether what is read besides the attribute is that of the document without its value.
func comparable(s lib.Site) bool {
	switch s.Kind() {
	case lib.Uints, lib.Floats, lib.Enums, lib.UUID:
		return false
	}
	return s.Node.Name != "u:x" && (s.Node.Name != "triangle" || s.Name()[0] == 'v')
}

// One or two unreadable attributes anywhere in a document with everything.
func H_pairs() {
	doc := lib.Rich()
	s := typed(doc)
	i := sym.Choice(len(s))
	bad := []lib.Site{s[i]}
	if j := sym.Choice(min(len(s)-i, sym.Bound(12, 1000))); j > 0 {
		bad = append(bad, s[i+j])
	}
	check(doc, bad)
}

// Any number of elements of its kind before one whose attributes are all unreadable, as are those of
// the elements inside: each error is at the index of its element.
//
//verif:steps=100000000
func H_index() {
	doc := lib.Rich()
	var nodes []*lib.Node
	for _, n := range doc.Nodes() {
		if n != doc && strings.HasSuffix(lib.Level(n.Name), "]") {
			nodes = append(nodes, n)
		}
	}
	n := nodes[sym.Choice(len(nodes))]
	p := doc.Parent(n)
	at := 0
	for p.Kids[at] != n {
		at++
	}
	kids := append([]*lib.Node(nil), p.Kids[:at]...)
	for i, k := 0, []int{1, 2, 300, 3, 4, 5, 6, 9, 10, 11, 256, 1000}[sym.Choice(sym.Bound(3, 12))]; i < k; i++ {
		kids = append(kids, n.Clone())
	}
	p.Kids = append(kids, p.Kids[at:]...)
	inside := map[*lib.Node]bool{}
	for _, k := range n.Nodes() {
		inside[k] = true
	}
	var bad []lib.Site
	for _, s := range typed(doc) {
		if inside[s.Node] {
			s.Node.Attrs[s.Attr][1] = "?"
			bad = append(bad, s)
		}
	}
	m := new(go3mf.Model)
	errs := lib.Flatten(go3mf.UnmarshalModel(doc.Render(lib.Style{}), m))
	sym.Assert(len(errs) == len(bad), "lenient decoding returns every error once")
	for i, e := range errs {
		if !is(e, bad[i]) {
			sym.ObserveStr("error", e.Error())
		}
		sym.Assert(is(e, bad[i]), "lenient decoding returns the errors in document order, each at its element")
	}
	sym.Cover("index")
}

// Every attribute is unreadable.
func H_all() {
	doc := lib.Rich()
	bad := typed(doc)
	if k := sym.Choice(3); k > 0 {
		bad = bad[len(bad)*(k-1)/2 : len(bad)*k/2]
	}
	check(doc, bad)
}

// No unreadable attribute.
func H_none() { check(lib.Rich(), nil) }

// legal tells whether an element may be found inside another one and read there.
func legal(parent, kid string) bool {
	switch kid {
	case "m:texture2d", "m:texture2dgroup", "m:colorgroup", "m:compositematerials", "m:multiproperties", "b:beamlattice", "s:slicestack":
		return parent == "model" || parent == "mesh" || parent == "resources"
	case "u:x", "u:resources", "q:x":
		return parent != "metadata"
	}
	for _, n := range lib.Rich().Nodes() {
		if n.Name == parent {
			for _, k := range n.Kids {
				if k.Name == kid {
					return true
				}
			}
		}
	}
	return false
}

// Elements out of their place are skipped with everything inside: they report nothing and move no other error.
func H_ignored() {
	doc := lib.Rich()
	nodes := doc.Nodes()
	n := nodes[sym.Choice(len(nodes))]
	kid := lib.Vocab[sym.Choice(len(lib.Vocab))]
	sym.Assume(!legal(n.Name, kid) && (n.Text == "" || kid[0] != 'u' && kid[0] != 'q') && n.Name[0] != 'u')
	extra := &lib.Node{Name: kid, Kids: []*lib.Node{{Name: "resources"}, {Name: "vertex", Attrs: [][2]string{{"x", "?"}}}, {Name: "item", Text: "t"}}}
	extra.With("id", "?", "v1", "?", "p:UUID", "?", "transform", "?")
	at := sym.Choice(sym.Bound(1, 2))
	if at > len(n.Kids) {
		at = len(n.Kids)
	}
	n.Kids = append(n.Kids[:at:at], append([]*lib.Node{extra}, n.Kids[at:]...)...)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc.Render(lib.Style{}), m)
	if err != nil {
		sym.ObserveStr("error", err.Error())
	}
	sym.Assert(err == nil, "elements out of their place report nothing")
	want := new(go3mf.Model)
	err = go3mf.UnmarshalModel(lib.Rich().Render(lib.Style{}), want)
	sym.Assert(err == nil, "a readable document has no errors")
	sym.Assert(sym.Equal(m, want), "elements out of their place change nothing")
	sym.Cover("ignored")
}

// A document that ends early or is not well formed after an unreadable attribute.
func H_syntax() {
	doc := lib.Rich()
	s := typed(doc)
	site := s[sym.Choice(len(s))]
	spoil(site)
	b := doc.Render(lib.Style{})
	var cut []byte
	switch sym.Choice(3) {
	case 0:
		cut = b[:len(b)-len("</model>")]
	case 1:
		cut = append(b[:len(b)-len("</model>"):len(b)-len("</model>")], "</x>"...)
	default:
		cut = append([]byte("<a b>"), b...)
	}
	_, err := lib.Decode(lib.PackRoot(cut), true)
	e, ok := err.(*errors.Error)
	sym.Assert(ok == bytes.HasPrefix(cut, []byte("<model")) && (!ok || is(e, site)), "strict decoding returns the first error of the document")
	err = go3mf.UnmarshalModel(cut, new(go3mf.Model))
	sym.Assert(err != nil, "a document that is not well formed is an error")
	sym.Cover("syntax")
}

// Packages of a root and two child models, any of them with unreadable attributes.
//
//verif:preempt=0
func H_package() {
	strict := sym.Choice(2) == 0
	var parts [3][]byte
	var bad [3]bool
	for i, n := 0, 3; i < n; i++ {
		doc := lib.Rich()
		k := sym.Choice(3)
		s := typed(doc)
		for j := 0; j < k; j++ {
			x := s[20*i+5+j]
			x.Node.Attrs[x.Attr][1] = "x"
		}
		bad[i] = k > 0
		parts[i] = doc.Render(lib.Style{})
	}
	pkg := lib.PackRoot(parts[0], lib.ModelFile("/3D/a.model", parts[1]), lib.ModelFile("/3D/b.model", parts[2]))
	_, err := lib.Decode(pkg, strict)
	sym.Assert((err != nil) == (bad[0] || bad[1] || bad[2]), "a package is read without errors when all its parts are readable")
	if err == nil {
		return
	}
	for i, n := range []int{1, 2, 0} {
		if i == 2 && (bad[1] || bad[2]) || !bad[n] {
			continue
		}
		for j, s := range typed(lib.Rich()) {
			if j == 20*n+5 {
				errs := lib.Flatten(err)
				sym.Assert(!strict || len(errs) == 1, "strict decoding returns exactly one error")
				if is(errs[0], s) {
					sym.Cover("package")
					return
				}
			}
		}
	}
	sym.Assert(false, "the error of a package is the one of an unreadable part")
}
