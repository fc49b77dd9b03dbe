//go:build go1.22

// Package c07: every encoded model is a well-formed XML document that holds the strings of the model.
package c07

import (
	"bytes"
	"encoding/xml"
	"image/color"
	"io"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"

	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=700

// mark is in no document but for the strings of the model.
const mark = "Zz7"

const (
	nsU = "http://u"
	nsW = "http://w?a&b='1'"
)

// attrs is unknown attributes, after those of an extension.
func attrs(v string, more ...spec.AttrGroup) spec.AnyAttr {
	return append(more, &spec.UnknownAttrs{Space: nsU, Attr: []xml.Attr{
		{Name: xml.Name{Space: nsU, Local: "k"}, Value: v}, {Name: xml.Name{Space: nsU, Local: "k2"}, Value: "<&\""}}})
}

func metadata(v string) []go3mf.Metadata {
	return []go3mf.Metadata{
		{Name: xml.Name{Local: "n" + v}, Type: "t" + v, Value: "v" + v, Preserve: true},
		{Name: xml.Name{Space: "s" + v, Local: v}, Value: v},
	}
}

func group(v string) go3mf.MetadataGroup {
	return go3mf.MetadataGroup{AnyAttr: attrs("mg" + v), Metadata: metadata("g" + v)}
}

func tokens(v string) spec.UnknownTokens {
	e := xml.StartElement{Name: xml.Name{Space: nsU, Local: "e"}, Attr: []xml.Attr{{Name: xml.Name{Local: "a"}, Value: "a" + v}, {Name: xml.Name{Space: nsW, Local: "w"}, Value: v}}}
	i := xml.StartElement{Name: xml.Name{Space: "http://v", Local: "i"}}
	return spec.UnknownTokens{Token: []xml.Token{e, xml.CharData("c" + v), i, xml.CharData(v), i.End(), e.End()}}
}

// resources has v in every string of the resources of a model.
func resources(v, path string) go3mf.Resources {
	mesh := lib.Solid()
	mesh.AnyAttr, mesh.Vertices.AnyAttr, mesh.Triangles.AnyAttr = attrs("m"+v), attrs("vs"+v), attrs("ts"+v)
	mesh.Triangles.Triangle[1].AnyAttr = attrs("t1" + v)
	mesh.Triangles.Triangle[2].AnyAttr = attrs("t2" + v)
	mesh.Triangles.Triangle[2].PID = 1
	mesh.Triangles.Triangle[2].P3 = 1
	mesh.Any = spec.Any{tokens("mesh" + v), &beamlattice.BeamLattice{Radius: 1, MinLength: 1,
		Beams:    beamlattice.Beams{Beam: []beamlattice.Beam{{Indices: [2]uint32{0, 1}, Radius: [2]float32{2, 3}, CapMode: [2]beamlattice.CapMode{1, 2}}}},
		BeamSets: beamlattice.BeamSets{BeamSet: []beamlattice.BeamSet{{Name: "bn" + v, Identifier: "bi" + v, Refs: []uint32{0}}, {Name: v, Identifier: v}}},
	}, tokens("last" + v)}
	slice := slices.Slice{TopZ: 1, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 2)}, Polygons: []slices.Polygon{{Segments: []slices.Segment{{V2: 1}, {PID: 1, P2: 1}}}}}
	return go3mf.Resources{
		AnyAttr: attrs("rs" + v),
		Assets: []go3mf.Asset{
			&go3mf.BaseMaterials{ID: 1, AnyAttr: attrs("bm" + v), Materials: []go3mf.Base{{Name: "b" + v, AnyAttr: attrs("ba" + v)}, {Name: v}}},
			&materials.Texture2D{ID: 2, Path: path, ContentType: materials.TextureTypePNG, TileStyleU: 1, TileStyleV: 2, Filter: 1},
			&materials.ColorGroup{ID: 3, Colors: make([]color.RGBA, 1)},
			&materials.Texture2D{ID: 4, Path: path, ContentType: materials.TextureTypePNG},
			&materials.Texture2DGroup{ID: 5, Coords: make([]materials.TextureCoord, 1)},
			&go3mf.BaseMaterials{ID: 6, Materials: []go3mf.Base{{Name: "c" + v}}},
			&materials.CompositeMaterials{ID: 7, Indices: []uint32{1, 2}, Composites: []materials.Composite{{Values: []float32{1, 2}}}},
			&go3mf.BaseMaterials{ID: 8, Materials: []go3mf.Base{{Name: "d" + v}}},
			&materials.MultiProperties{ID: 9, PIDs: []uint32{1, 2}, BlendMethods: []materials.BlendMethod{0}, Multis: []materials.Multi{{PIndices: []uint32{1, 2}}}},
			&go3mf.UnknownAsset{UnknownTokens: tokens("asset" + v)},
			&slices.SliceStack{ID: 10, BottomZ: 1, Slices: []slices.Slice{slice}, Refs: []slices.SliceRef{{SliceStackID: 1, Path: "sr" + v}, {SliceStackID: 2, Path: v}}},
			&go3mf.BaseMaterials{ID: 11, Materials: []go3mf.Base{{Name: "e" + v}}},
		},
		Objects: []*go3mf.Object{
			{ID: 12, Name: "on" + v, PartNumber: "op" + v, Thumbnail: path, Type: go3mf.ObjectTypeSupport, PID: 1, PIndex: 1, Metadata: group("o" + v), Mesh: mesh,
				AnyAttr: attrs("o"+v, &production.ObjectAttr{UUID: "u" + v}, &slices.ObjectAttr{SliceStackID: 10})},
			{ID: 13, Name: v, AnyAttr: attrs("oc" + v), Components: &go3mf.Components{AnyAttr: attrs("cs" + v), Component: []*go3mf.Component{
				{ObjectID: 12, Transform: go3mf.Identity().Translate(1, 2, 3), AnyAttr: attrs("ct"+v, &production.ComponentAttr{UUID: "cu" + v, Path: "cp" + v})},
				{ObjectID: 12, AnyAttr: attrs(v)},
			}}},
		},
	}
}

// every has v in every string of a model.
func every(v, path string) *go3mf.Model {
	return &go3mf.Model{
		Language:  "l" + v,
		Thumbnail: path,
		Units:     go3mf.UnitInch,
		Extensions: []go3mf.Extension{
			{Namespace: materials.Namespace, LocalName: "m", IsRequired: true}, {Namespace: production.Namespace, LocalName: "p"}, {Namespace: beamlattice.Namespace, LocalName: "b"},
			{Namespace: slices.Namespace, LocalName: "s", IsRequired: true}, {Namespace: nsU, LocalName: "u"}, {Namespace: "x" + v, LocalName: "x"},
		},
		Metadata:  metadata(v),
		Resources: resources(v, path),
		Build: go3mf.Build{AnyAttr: attrs("b"+v, &production.BuildAttr{UUID: "bu" + v}), Items: []*go3mf.Item{
			{ObjectID: 12, PartNumber: "ip" + v, Metadata: group("i" + v), AnyAttr: attrs("i"+v, &production.ItemAttr{UUID: "iu" + v, Path: "ia" + v})},
			{ObjectID: 13, PartNumber: v, AnyAttr: attrs("j" + v)},
		}},
		AnyAttr: attrs("m" + v),
		Any:     spec.Any{tokens("model" + v)},
	}
}

// wellFormed checks what the standard reader does not.
func wellFormed(doc []byte) {
	d := xml.NewDecoder(bytes.NewReader(doc))
	var scopes [][]string
	roots := 0
	declared := func(p string) bool {
		for _, s := range scopes {
			for _, q := range s {
				if p == q {
					return true
				}
			}
		}
		return p == "" || p == "xml"
	}
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		sym.Assert(err == nil, "the document is well formed")
		switch t := t.(type) {
		case xml.StartElement:
			if len(scopes) == 0 {
				roots++
			}
			var names []xml.Name
			var scope []string
			for _, a := range t.Attr {
				if a.Name.Space == "xmlns" {
					scope = append(scope, a.Name.Local)
					sym.Assert(a.Value != "", "prefixes stand for a name space")
				}
			}
			scopes = append(scopes, scope)
			sym.Assert(declared(t.Name.Space), "prefixes are declared")
			for _, a := range t.Attr {
				for _, n := range names {
					sym.Assert(a.Name != n, "attribute names are distinct")
				}
				names = append(names, a.Name)
				sym.Assert(a.Name.Space == "xmlns" || declared(a.Name.Space), "prefixes are declared")
			}
		case xml.EndElement:
			scopes = scopes[:len(scopes)-1]
		case xml.CharData:
			sym.Assert(len(scopes) > 0 || strings.TrimSpace(string(t)) == "", "text is inside the root element")
		}
	}
	sym.Assert(roots == 1, "there is one root element")
}

// read gives the tokens of a document, without name space declarations.
func read(doc []byte) []xml.Token {
	toks, err := lib.Tokens(doc)
	sym.Assert(err == nil, "the document is well formed")
	for i, t := range toks {
		if s, ok := t.(xml.StartElement); ok {
			var attrs []xml.Attr
			for _, a := range s.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					for _, b := range attrs {
						sym.Assert(a.Name != b.Name, "attribute names are distinct")
					}
					attrs = append(attrs, a)
				}
			}
			s.Attr = attrs
			toks[i] = s
		}
	}
	return toks
}

// put replaces the mark.
func put(toks []xml.Token, v string) {
	for i, t := range toks {
		switch t := t.(type) {
		case xml.StartElement:
			for j := range t.Attr {
				t.Attr[j].Value = strings.ReplaceAll(t.Attr[j].Value, mark, v)
			}
		case xml.CharData:
			toks[i] = xml.CharData(strings.ReplaceAll(string(t), mark, v))
		}
	}
}

func write(m *go3mf.Model) []byte {
	doc, err := go3mf.MarshalModel(m)
	sym.Assert(err == nil, "the model is written")
	return doc
}

func check(v string) {
	want := read(write(every(mark, "/"+mark)))
	put(want, v)
	doc := write(every(v, "/"+v))
	sym.Assert(lib.SameTokens(want, read(doc)), "the strings of the model are those of the document, whose structure does not depend on them")
	wellFormed(doc)
	sym.Cover("checked")
}

// The same string everywhere.
func H_ascii() {
	check(lib.Text(1 + sym.Choice(sym.Bound(2, 3))))
}

// Any character.
func H_wide() {
	m := &go3mf.Model{Metadata: []go3mf.Metadata{{Name: xml.Name{Local: "n"}}}}
	s := []string{"", "<", "a"}[sym.Choice(3)] + lib.Wide() + []string{"", "\"", "&#"}[sym.Choice(3)]
	k := sym.Choice(2)
	if k == 0 {
		m.Language = s
	} else {
		m.Metadata[0].Value = s
	}
	doc := write(m)
	toks := read(doc)
	got := ""
	for _, t := range toks {
		switch t := t.(type) {
		case xml.CharData:
			if k == 1 {
				got += string(t)
			}
		case xml.StartElement:
			for _, a := range t.Attr {
				if k == 0 && a.Name.Local == "lang" {
					got += a.Value
				}
			}
		}
	}
	sym.Assert(got == s, "characters that are not ASCII come back")
	wellFormed(doc)
	sym.Cover("wide")
}

// Any name for the prefix of an extension.
func H_names() {
	m := every(mark, "/"+mark)
	name := sym.StringOf(1, "abxyz_ABXYZ") + sym.StringOf(sym.Choice(2), "abxyz_ABXYZ-.019")
	m.Extensions[4].LocalName = name
	sym.Assume(name != "m" && name != "p" && name != "b" && name != "s" && name != "x")
	want := read(write(every(mark, "/"+mark)))
	doc := write(m)
	sym.Assert(lib.SameTokens(want, read(doc)), "prefixes do not change the document")
	wellFormed(doc)
	sym.Cover("names")
}

// Any choice of declared name spaces, under any of some prefixes.
func H_spaces() {
	base := every(mark, "/"+mark)
	m := every(mark, "/"+mark)
	m.Extensions = nil
	n := sym.Bound(2, 3)
	prefixes := []string{"ns1", "ns2", "q", "ns10"}
	for i, e := range base.Extensions[:5] {
		e.IsRequired = false
		if len(m.Extensions) < n && sym.Choice(2) == 0 {
			e.LocalName = prefixes[sym.Choice(len(prefixes))]
			for _, o := range m.Extensions {
				sym.Assume(o.LocalName != e.LocalName)
			}
			m.Extensions = append(m.Extensions, e)
		}
		base.Extensions[i].IsRequired = false
	}
	doc := write(m)
	sym.Assert(lib.SameTokens(read(write(base)), read(doc)), "names that are not declared by the model keep their name space")
	wellFormed(doc)
	sym.Cover("spaces")
}

// Unknown elements and attributes of any of some name spaces.
func H_unknown() {
	spaces := []string{"", nsU, nsW, "http://www.w3.org/XML/1998/namespace", lib.CoreNS, materials.Namespace}
	local := func(i int) string { return string(rune('a' + i)) }
	var attr []xml.Attr
	for i, n := 0, sym.Choice(sym.Bound(2, 3)); i <= n; i++ {
		attr = append(attr, xml.Attr{Name: xml.Name{Space: spaces[sym.Choice(len(spaces))], Local: local(i)}, Value: "1"})
	}
	e := xml.StartElement{Name: xml.Name{Space: spaces[sym.Choice(3)], Local: "e"}, Attr: attr}
	i := xml.StartElement{Name: xml.Name{Space: spaces[sym.Choice(3)], Local: "i"}}
	m := &go3mf.Model{Any: spec.Any{spec.UnknownTokens{Token: []xml.Token{e, i, i.End(), e.End()}}}}
	switch sym.Choice(3) {
	case 0:
		m.Extensions = []go3mf.Extension{{Namespace: nsU, LocalName: "ns1"}}
	case 1:
		m.Extensions = []go3mf.Extension{{Namespace: nsW, LocalName: "u"}, {Namespace: nsU, LocalName: "ns2"}}
	}
	doc := write(m)
	toks := read(doc)
	ns := func(n xml.Name) xml.Name {
		if n.Space == "" {
			n.Space = lib.CoreNS // the default of the document
		}
		return n
	}
	found := 0
	for _, t := range toks {
		if s, ok := t.(xml.StartElement); ok {
			switch s.Name.Local {
			case "e":
				found++
				sym.Assert(s.Name == ns(e.Name), "unknown elements keep their name")
				sym.Assert(len(s.Attr) == len(attr), "unknown elements keep their attributes")
				for j := range attr {
					sym.Assert(s.Attr[j].Name.Local == attr[j].Name.Local && s.Attr[j].Name.Space == attr[j].Name.Space, "unknown attributes keep their name")
				}
			case "i":
				found++
				sym.Assert(s.Name == ns(i.Name), "unknown elements keep their name")
			}
		}
	}
	sym.Assert(found == 2, "unknown elements are written")
	wellFormed(doc)
	sym.Cover("unknown")
}

// Child models are documents too.
func H_child() {
	pack := func(v string) []byte {
		m := every(v, "/t.png")
		m.Extensions[5].Namespace = "http://x"
		m.Childs = map[string]*go3mf.ChildModel{"/3D/o.model": {Resources: resources("ch"+v, "/t.png"), Any: spec.Any{tokens("chm" + v)}}}
		b, err := lib.Encode(m)
		sym.Assert(err == nil, "the model is written")
		return b
	}
	base := pack(mark)
	v := lib.Text(sym.Bound(1, 2))
	b := pack(v)
	for _, path := range []string{lib.RootPath, "/3D/o.model"} {
		doc, ok := lib.ReadPart(base, path)
		sym.Assert(ok, "the part is written")
		want := read(doc)
		put(want, v)
		doc, ok = lib.ReadPart(b, path)
		sym.Assert(ok, "the part is written")
		sym.Assert(lib.SameTokens(want, read(doc)), "the strings of the model are those of the document, whose structure does not depend on them")
		wellFormed(doc)
	}
	sym.Cover("child")
}
