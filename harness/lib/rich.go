//go:build go1.22

package lib

import (
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
)

// Node is an element of a document. Its names have the prefixes of Spaces, whatever they are written with.
type Node struct {
	Name  string
	Attrs [][2]string
	Kids  []*Node
	Text  string
}

func el(name string, kids ...*Node) *Node { return &Node{Name: name, Kids: kids} }

// With adds attributes, given as name, value pairs.
func (n *Node) With(attrs ...string) *Node {
	for i := 0; i < len(attrs); i += 2 {
		n.Attrs = append(n.Attrs, [2]string{attrs[i], attrs[i+1]})
	}
	return n
}

func text(name, s string) *Node { return &Node{Name: name, Text: s} }

const (
	UUID1 = "00000000-0000-0000-0000-000000000001"
	UUID2 = "f0000000-0000-4000-8000-0000000000A2"
)

// Rich is a document with every element and attribute of the supported specifications.
func Rich() *Node {
	return el("model",
		text("metadata", "a b").With("name", "Title", "preserve", "1", "type", "t"),
		text("metadata", "v").With("name", "u:k"),
		el("resources",
			el("basematerials",
				el("base").With("name", "a", "displaycolor", "#010203"),
				el("base").With("name", "b", "displaycolor", "#a1B2c3D4"),
			).With("id", "1"),
			el("m:texture2d").With("id", "2", "path", "/3D/t.png", "contenttype", "image/png", "tilestyleu", "mirror", "tilestylev", "clamp", "filter", "nearest"),
			el("m:texture2dgroup",
				el("m:tex2coord").With("u", "1", "v", "2"),
				el("m:tex2coord").With("u", "0.5", "v", "-3"),
			).With("id", "3", "texid", "2"),
			el("m:colorgroup",
				el("m:color").With("color", "#040506"),
				el("m:color").With("color", "#04050607"),
			).With("id", "4"),
			el("m:compositematerials",
				el("m:composite").With("values", "0.5 0.25"),
				el("m:composite").With("values", "1 0"),
			).With("id", "5", "matid", "1", "matindices", "0 1"),
			el("m:multiproperties",
				el("m:multi").With("pindices", "0 1"),
				el("m:multi").With("pindices", "1"),
			).With("id", "6", "pids", "1 4", "blendmethods", "multiply"),
			el("s:slicestack",
				el("s:slice",
					el("s:vertices",
						el("s:vertex").With("x", "1", "y", "2"),
						el("s:vertex").With("x", "3", "y", "4"),
					),
					el("s:polygon",
						el("s:segment").With("v2", "1", "pid", "1", "p1", "0", "p2", "1"),
						el("s:segment").With("v2", "0"),
					).With("startv", "1"),
				).With("ztop", "2"),
				el("s:slice").With("ztop", "3"),
			).With("id", "7", "zbottom", "1"),
			el("u:x", el("u:y").With("a", "b")).With("id", "9"),
			el("s:slicestack",
				el("s:sliceref").With("slicestackid", "7", "slicepath", "/3D/o.model"),
				el("s:sliceref").With("slicestackid", "8", "slicepath", "/3D/o.model"),
			).With("id", "8"),
			el("object",
				el("metadatagroup",
					text("metadata", "x").With("name", "Designer", "preserve", "0"),
				),
				el("mesh",
					el("vertices",
						el("vertex").With("x", "1", "y", "2", "z", "3"),
						el("vertex").With("x", "4", "y", "5", "z", "6"),
						el("vertex").With("x", "7", "y", "8", "z", "9"),
					),
					el("triangles",
						el("triangle").With("v1", "0", "v2", "1", "v3", "2", "pid", "4", "p1", "1", "p2", "0", "p3", "1"),
						el("triangle").With("v1", "2", "v2", "1", "v3", "0"),
					),
					el("b:beamlattice",
						el("b:beams",
							el("b:beam").With("v1", "0", "v2", "1", "r1", "2", "r2", "3", "cap1", "butt", "cap2", "hemisphere"),
							el("b:beam").With("v1", "1", "v2", "2"),
						),
						el("b:beamsets",
							el("b:beamset",
								el("b:ref").With("index", "1"),
								el("b:ref").With("index", "0"),
							).With("name", "n", "identifier", "i"),
						),
					).With("minlength", "0.5", "radius", "1", "clippingmode", "inside", "clippingmesh", "20", "representationmesh", "21", "cap", "hemisphere"),
				),
			).With("id", "10", "type", "other", "name", "o", "partnumber", "p", "thumbnail", "/t.png", "pid", "1", "pindex", "1",
				"s:slicestackid", "7", "s:meshresolution", "lowres", "p:UUID", UUID1),
			el("object",
				el("components",
					el("component").With("objectid", "10", "transform", "1 0 0 0 1 0 0 0 1 2 3 4", "p:UUID", UUID2, "p:path", "/3D/o.model"),
					el("component").With("objectid", "10"),
				),
			).With("id", "11"),
		),
		el("build",
			el("item",
				el("metadatagroup",
					text("metadata", "y").With("name", "Copyright"),
				),
			).With("objectid", "11", "transform", "2 0 0 0 2 0 0 0 2 0 0 1", "partnumber", "q", "p:UUID", UUID1, "p:path", "/3D/o.model"),
			el("item").With("objectid", "10"),
		).With("p:UUID", UUID2),
	).With("unit", "micron", "xml:lang", "en", "thumbnail", "/t.png", "requiredextensions", "p b")
}

// Site is an attribute of a document, and where errors about it are located.
type Site struct {
	Node  *Node
	Attr  int
	XPath string
}

// Name is the name of the attribute without prefix.
func (s Site) Name() string {
	n := s.Node.Attrs[s.Attr][0]
	return n[strings.IndexByte(n, ':')+1:]
}

// Typed tells whether the text of the attribute denotes something else than itself.
func (s Site) Typed() bool {
	switch s.Name() {
	case "name", "preserve", "path", "slicepath", "partnumber", "thumbnail", "identifier", "lang", "requiredextensions", "foo", "a":
		return false
	case "type":
		return s.Node.Name == "object"
	}
	return true
}

// Required tells whether the specification requires the attribute.
func (s Site) Required() bool { return s.attr().Required }

// Kind is the type of the value.
func (s Site) Kind() int { return s.attr().Kind() }

func (s Site) attr() *Attr {
	for i := range TypedAttrs {
		a := &TypedAttrs[i]
		if c := a.Chain(); a.Name == s.Node.Attrs[s.Attr][0] && (c[len(c)-1] == s.Node.Name || a.Place == "" && s.Node.Name == "model") {
			return a
		}
	}
	panic("unknown attribute")
}

// Sites lists the attributes of a document in order.
func (n *Node) Sites() (r []Site) {
	n.walk("/model", func(n *Node, xpath string) {
		for i := range n.Attrs {
			r = append(r, Site{n, i, xpath})
		}
	})
	return
}

// Clone copies an element with everything inside.
func (n *Node) Clone() *Node {
	c := &Node{Name: n.Name, Text: n.Text, Attrs: append([][2]string(nil), n.Attrs...)}
	for _, k := range n.Kids {
		c.Kids = append(c.Kids, k.Clone())
	}
	return c
}

// Parent is the element another one is directly inside of.
func (n *Node) Parent(kid *Node) *Node {
	for _, p := range n.Nodes() {
		for _, k := range p.Kids {
			if k == kid {
				return p
			}
		}
	}
	return nil
}

// Nodes lists the elements of a document in order.
func (n *Node) Nodes() (r []*Node) {
	n.walk("", func(n *Node, _ string) { r = append(r, n) })
	return
}

// Places lists the elements of a document in order and where they are.
func (n *Node) Places() (nodes []*Node, paths []string) {
	n.walk("/model", func(n *Node, xpath string) { nodes, paths = append(nodes, n), append(paths, xpath) })
	return
}

func (n *Node) walk(xpath string, f func(n *Node, xpath string)) {
	f(n, xpath)
	count := map[string]int{}
	for _, k := range n.Kids {
		group := k.Name
		if n.Name == "resources" && k.Name != "object" {
			group = "asset"
		}
		l := Level(k.Name)
		if strings.HasSuffix(l, "[0]") {
			l = Idx(l[:len(l)-3], count[group])
		}
		count[group]++
		k.walk(xpath+"/"+l, f)
	}
}

// Style is how the namespaces of a document are written.
type Style struct {
	Prefix map[string]string // by the prefix in the names of nodes; the default is the same
	Decl   string            // the declarations, instead of those of Spaces
}

func (st Style) name(n string, attr bool) string {
	p, l := "", n
	if i := strings.IndexByte(n, ':'); i >= 0 {
		p, l = n[:i], n[i+1:]
	} else if attr {
		return n
	}
	if q, ok := st.Prefix[p]; ok {
		p = q
	}
	if p == "" {
		return l
	}
	return p + ":" + l
}

// Render writes a document.
func (n *Node) Render(st Style) []byte {
	if st.Decl == "" {
		st.Decl = Spaces
	}
	return n.render(st, nil, " "+st.Decl)
}

func (n *Node) render(st Style, b []byte, decl string) []byte {
	name := st.name(n.Name, false)
	b = append(b, '<')
	b = append(b, name...)
	b = append(b, decl...)
	for _, a := range n.Attrs {
		b = append(b, ' ')
		b = append(b, st.name(a[0], true)...)
		b = append(b, '=', '"')
		b = append(b, a[1]...)
		b = append(b, '"')
	}
	if len(n.Kids) == 0 && n.Text == "" {
		return append(b, '/', '>')
	}
	b = append(b, '>')
	b = append(b, n.Text...)
	for _, k := range n.Kids {
		b = k.render(st, b, "")
	}
	b = append(b, '<', '/')
	b = append(b, name...)
	return append(b, '>')
}

// Namespaces of the prefixes of Spaces.
var Namespaces = map[string]string{"": CoreNS, "m": materials.Namespace, "b": beamlattice.Namespace, "s": slices.Namespace, "p": production.Namespace, "u": "http://u"}

var _ go3mf.Model
