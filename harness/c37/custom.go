//go:build go1.22

// Package c37: extensions of the user's own get their content, and it is written and validated like that of any other.
package c37

import (
	"encoding/xml"
	stderrors "errors"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=40 thorough=600

const ns = "http://own"

var decl = lib.Spaces + ` xmlns:x="` + ns + `"`

// ---- a recording extension

// own is an extension that notes what it is given.
type own struct {
	log    []string
	groups []*group
	refuse string // the elements it has no attributes for
	elems  []*elem
	errs   []error
	seen   []validated
	answer []error
}

func (o *own) note(kind string, what ...string) {
	o.log = append(o.log, kind+"|"+strings.Join(what, "|"))
}

func (o *own) NewAttrGroup(parent xml.Name) spec.AttrGroup {
	if parent.Local == o.refuse {
		return nil
	}
	g := &group{o: o, parent: parent}
	o.groups = append(o.groups, g)
	return g
}

func (o *own) NewElementDecoder(name xml.Name) spec.GetterElementDecoder {
	o.note("new", name.Space, name.Local)
	if name.Local == "n" {
		return nil
	}
	e := &elem{o: o, name: name}
	if name.Local != "o" {
		o.elems = append(o.elems, e)
	}
	d := decoder{o: o, local: name.Local, e: e}
	switch name.Local {
	case "t":
		return &chars{d}
	case "c":
		return &kids{d}
	case "b":
		return &both{kids{d}}
	case "r":
		return &raw{d}
	}
	return &d
}

type group struct {
	o      *own
	parent xml.Name
	attrs  []xml.Attr
}

func (g *group) Unmarshal3MFAttr(a spec.XMLAttr) error {
	g.attrs = append(g.attrs, xml.Attr{Name: a.Name, Value: string(a.Value)})
	if string(a.Value) == "bad" {
		return g.o.fail(a.Name.Local)
	}
	return nil
}

func (g *group) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	start.Attr = append(start.Attr, g.attrs...)
	return nil
}

func (g *group) Namespace() string { return ns }

func (o *own) fail(what string) error {
	err := stderrors.New(what)
	o.errs = append(o.errs, err)
	return err
}

// elem is what an element of the extension is decoded into.
type elem struct {
	o     *own
	name  xml.Name
	id    uint32
	toks  []xml.Token
	rel   spec.Relationship
	prec  int
	close bool
}

func (e *elem) XMLName() xml.Name { return e.name }
func (e *elem) Identify() uint32  { return e.id }

func (e *elem) Marshal3MF(x spec.Encoder, _ *xml.StartElement) error {
	e.prec = x.FloatPresicion()
	if e.rel.Path != "" {
		x.AddRelationship(e.rel)
	}
	for i, t := range e.toks {
		_, start := t.(xml.StartElement)
		if e.close && start && i+1 < len(e.toks) {
			if _, ok := e.toks[i+1].(xml.EndElement); ok {
				x.SetAutoClose(true)
			}
		}
		if _, ok := t.(xml.EndElement); ok && e.close && i > 0 {
			if _, ok := e.toks[i-1].(xml.StartElement); ok {
				x.SetAutoClose(false)
				continue // which wrote it already
			}
		}
		x.EncodeToken(t)
	}
	return nil
}

type decoder struct {
	o     *own
	local string
	e     *elem
}

func (d *decoder) Element() interface{} {
	if d.local == "o" {
		return d // which is not to be written
	}
	return d.e
}

func attrsText(attrs []xml.Attr) (s string) {
	for _, a := range attrs {
		s += a.Name.Space + ">" + a.Name.Local + "=" + a.Value + ";"
	}
	return
}

func (d *decoder) Start(attrs []spec.XMLAttr) error {
	var l []xml.Attr
	for _, a := range attrs {
		l = append(l, xml.Attr{Name: a.Name, Value: string(a.Value)})
	}
	d.o.note("start", d.local, attrsText(l))
	if d.e == nil {
		for _, a := range l {
			if a.Value == "bad" {
				return d.o.fail(a.Name.Local)
			}
		}
	}
	return nil
}

func (d *decoder) End() { d.o.note("end", d.local) }

type chars struct{ decoder }

func (d *chars) CharData(b []byte) { d.o.char(string(b)) }

func (o *own) char(s string) {
	if n := len(o.log); n > 0 && strings.HasPrefix(o.log[n-1], "char|") {
		o.log[n-1] += s
		return
	}
	o.note("char", s)
}

type kids struct{ decoder }

func (d *kids) Child(name xml.Name) (int, spec.ElementDecoder) {
	d.o.note("child", name.Space, name.Local)
	if name.Space != ns {
		return -1, nil
	}
	in := decoder{o: d.o, local: name.Local}
	i := int(name.Local[0]) // any number
	switch name.Local {
	case "n":
		return -1, nil
	case "p":
		return -1, &in
	case "t":
		return i, &chars{in}
	case "c":
		return i, &kids{in}
	case "b":
		return i, &both{kids{in}}
	case "r":
		return i, &raw{in}
	}
	return i, &in
}

type both struct{ kids }

func (d *both) CharData(b []byte) { d.o.char(string(b)) }

type raw struct{ decoder }

func (d *raw) AppendToken(t xml.Token) {
	switch t := t.(type) {
	case xml.StartElement:
		d.o.note("token", t.Name.Space, t.Name.Local, attrsText(t.Attr))
	case xml.EndElement:
		d.o.note("token end", t.Name.Space, t.Name.Local)
	case xml.CharData:
		d.o.note("token char", string(t))
	}
}

// ---- elements

// node is an element of the extension, or a text.
type node struct {
	name  string // with its prefix
	attrs [][2]string
	kids  []*node
	text  string
}

func (n *node) render() string {
	if n.name == "" {
		return n.text
	}
	s := "<" + n.name
	for _, a := range n.attrs {
		s += " " + a[0] + `="` + a[1] + `"`
	}
	s += ">"
	for _, k := range n.kids {
		s += k.render()
	}
	return s + "</" + n.name + ">"
}

func split(name string) (space, local string) {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return ns, name[i+1:]
	}
	return lib.CoreNS, name
}

func (n *node) attrText() (s string) {
	for _, a := range n.attrs {
		space, local := "", a[0]
		if i := strings.IndexByte(local, ':'); i >= 0 {
			space, local = ns, local[i+1:]
		}
		s += space + ">" + local + "=" + a[1] + ";"
	}
	return
}

// content gives what the decoder of an element is told.
func (n *node) content(o *own) {
	_, kind := split(n.name)
	o.note("start", kind, n.attrText())
	for _, k := range n.kids {
		switch {
		case k.name == "" && (kind == "t" || kind == "b"):
			o.char(k.text)
		case k.name == "" && kind == "r" && strings.Trim(k.text, " \n\t\r") != "":
			o.note("token char", k.text)
		case k.name != "" && (kind == "c" || kind == "b"):
			space, local := split(k.name)
			o.note("child", space, local)
			if space == ns && local != "n" {
				k.content(o)
			}
		case k.name != "" && kind == "r":
			k.tokens(o)
		}
	}
	o.note("end", kind)
}

func (n *node) tokens(o *own) {
	if n.name == "" {
		if strings.Trim(n.text, " \n\t\r") != "" {
			o.note("token char", n.text)
		}
		return
	}
	space, local := split(n.name)
	o.note("token", space, local, n.attrText())
	for _, k := range n.kids {
		k.tokens(o)
	}
	o.note("token end", space, local)
}

func letter() string { return sym.StringOf(1, "abcz019 .-_") }

// tree is any small element.
func tree(depth int, kinds ...string) *node {
	n := &node{name: kinds[sym.Choice(len(kinds))]}
	switch sym.Choice(sym.Bound(min(2+depth, 3), 3)) {
	case 1:
		n.attrs = [][2]string{{"a", "1" + letter()}}
	case 2:
		n.attrs = [][2]string{{"x:a", "2"}, {"a", ""}, {"id", "3"}}
	}
	if sym.Choice(2) == 0 {
		n.kids = append(n.kids, &node{text: "t" + letter()})
	}
	if depth > 0 {
		for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
			n.kids = append(n.kids, tree(depth-1, kinds...))
			if depth > 1 || i == 0 {
				n.kids = append(n.kids, &node{text: string(rune('u' + i))})
			}
		}
	}
	return n
}

// document places content in a document.
func document(place int, content string) []byte {
	in := [3]string{}
	in[place] = content
	return []byte(`<model ` + decl + `><resources><object id="8"><mesh>` + in[0] + `</mesh></object>` + in[1] + `</resources><build/>` + in[2] + `</model>`)
}

func held(m *go3mf.Model, place int) (r []interface{}) {
	switch place {
	case 0:
		for _, e := range m.Resources.Objects[0].Mesh.Any {
			r = append(r, e)
		}
	case 1:
		for _, e := range m.Resources.Assets {
			r = append(r, e)
		}
	case 2:
		for _, e := range m.Any {
			r = append(r, e)
		}
	}
	return
}

func sameLog(got, want []string) {
	for i := 0; i < len(got) && i < len(want); i++ {
		if got[i] != want[i] {
			sym.ObserveStr("got", got[i])
			sym.ObserveStr("want", want[i])
		}
		sym.Assert(got[i] == want[i], "an extension is told exactly its content, in order")
	}
	sym.Assert(len(got) == len(want), "an extension is told exactly its content, in order")
}

// Any elements, at any place for them.
func H_elements() {
	o, w := new(own), new(own)
	spec.Register(ns, o)
	place := sym.Choice(3)
	kinds := []string{"x:c", "x:b", "x:t", "x:r", "x:p", "x:n", "vertex"}
	top := kinds[:6]
	top = append(top[:6:6], "x:o")
	n := &node{name: top[sym.Choice(7)]}
	for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
		n.kids = append(n.kids, &node{text: "t" + string(rune('0'+i))}, tree(1, kinds...))
	}
	n.kids = append(n.kids, &node{name: "x:t", kids: []*node{{text: "last"}}}, &node{text: "end"})
	w.note("new", ns, n.name[2:])
	count := 0
	if n.name != "x:n" && n.name != "x:o" {
		n.content(w)
		count = 1
	}
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(document(place, n.render()), m)
	sym.Assert(err == nil, "the document is read")
	sameLog(o.log, w.log)
	h := held(m, place)
	sym.Assert(len(h) == count && len(o.elems) == count, "the elements of an extension are kept where they are")
	if count > 0 {
		sym.Assert(h[0] == interface{}(o.elems[0]), "the elements of an extension are kept where they are")
	}
	sym.Assert(len(m.Resources.Objects) == 1 && m.Resources.Objects[0].ID == 8 && len(m.Resources.Objects[0].Mesh.Vertices.Vertex) == 0, "extensions do not change how the rest is read")
	sym.Cover("elements")
}

// Several elements, at several places.
func H_several() {
	o, w := new(own), new(own)
	spec.Register(ns, o)
	kinds := []string{"x:c", "x:r", "x:n", "x:t"}
	var text [3]string
	var count [3]int
	for place := range text {
		for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
			n := &node{name: kinds[sym.Choice(len(kinds))], attrs: [][2]string{{"a", strconv.Itoa(3*place + i)}}}
			if sym.Choice(2) == 0 {
				n.kids = []*node{{text: "u"}, {name: "x:p"}}
			}
			text[place] += n.render()
			w.note("new", ns, n.name[2:])
			if n.name != "x:n" {
				count[place]++
				n.content(w)
			}
		}
	}
	doc := []byte(`<model ` + decl + `><resources><object id="8"><mesh>` + text[0] + `</mesh></object>` + text[1] + `</resources><build/>` + text[2] + `</model>`)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	sym.Assert(err == nil, "the document is read")
	sameLog(o.log, w.log)
	i := 0
	for place := range text {
		h := held(m, place)
		sym.Assert(len(h) == count[place], "the elements of an extension are kept where they are")
		for _, e := range h {
			sym.Assert(e == interface{}(o.elems[i]), "the elements of an extension are kept where they are")
			i++
		}
	}
	sym.Cover("several")
}

// The errors of an extension are reported at its elements.
func H_errors() {
	o := new(own)
	spec.Register(ns, o)
	var w lib.Want
	place := sym.Choice(3)
	path := []string{"/model/resources/object[0]/mesh/c", "/model/resources/c[0]", "/model/c"}[place]
	n := &node{name: "x:c"}
	for i, k := 0, 1+sym.Choice(2); i < k; i++ {
		kid := &node{name: []string{"x:c", "x:p", "x:t"}[sym.Choice(3)]}
		at := path + "/" + lib.Idx(kid.name[2:], int(kid.name[2]))
		if kid.name == "x:p" {
			at = path + "/p"
		}
		if sym.Choice(2) == 0 {
			kid.attrs = [][2]string{{"e" + strconv.Itoa(i), "bad"}}
			w.Add("", at, nil)
		}
		if kid.name == "x:c" && sym.Choice(2) == 0 {
			kid.kids = []*node{{name: "x:t", attrs: [][2]string{{"f" + strconv.Itoa(i), "bad"}}}}
			w.Add("", at+"/"+lib.Idx("t", 't'), nil)
		}
		n.kids = append(n.kids, kid)
	}
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(document(place, n.render()), m)
	sym.Assert(len(o.errs) == len(w.L), "an extension is told exactly its content, in order")
	for i := range w.L {
		w.L[i].Err = o.errs[i]
	}
	w.Check(err)
	sym.Cover("errors")
}

// ---- attributes

// carriers are the elements that have attributes of extensions.
const carriers = " model metadatagroup resources basematerials base object mesh vertices triangles triangle components component build item "

// places lists the attributes of the elements of a model, as their elements come in a document.
func places(m *go3mf.Model) (r []*spec.AnyAttr) {
	r = append(r, &m.AnyAttr, &m.Resources.AnyAttr)
	for _, a := range m.Resources.Assets {
		if b, ok := a.(*go3mf.BaseMaterials); ok {
			r = append(r, &b.AnyAttr)
			for i := range b.Materials {
				r = append(r, &b.Materials[i].AnyAttr)
			}
		}
	}
	for _, o := range m.Resources.Objects {
		r = append(r, &o.AnyAttr)
		if len(o.Metadata.Metadata) > 0 {
			r = append(r, &o.Metadata.AnyAttr)
		}
		if o.Mesh != nil {
			r = append(r, &o.Mesh.AnyAttr, &o.Mesh.Vertices.AnyAttr, &o.Mesh.Triangles.AnyAttr)
			for i := range o.Mesh.Triangles.Triangle {
				r = append(r, &o.Mesh.Triangles.Triangle[i].AnyAttr)
			}
		}
		if o.Components != nil {
			r = append(r, &o.Components.AnyAttr)
			for _, c := range o.Components.Component {
				r = append(r, &c.AnyAttr)
			}
		}
	}
	r = append(r, &m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		r = append(r, &it.AnyAttr)
		if len(it.Metadata.Metadata) > 0 {
			r = append(r, &it.Metadata.AnyAttr)
		}
	}
	return
}

// carrying lists the elements of a document that have attributes of extensions, and where they are.
func carrying(doc *lib.Node) (nodes []*lib.Node, paths []string) {
	n, p := doc.Places()
	for i := range n {
		if strings.Contains(carriers, " "+n[i].Name+" ") {
			nodes, paths = append(nodes, n[i]), append(paths, p[i])
		}
	}
	return
}

// Attributes of any element that can have them.
func H_attrs() {
	o := new(own)
	spec.Register(ns, o)
	doc := lib.Rich()
	c, paths := carrying(doc)
	first := sym.Choice(len(c))
	want := make([][]xml.Attr, len(c))
	var w lib.Want
	add := func(k, i int) {
		v := "v" + string(rune('0'+i))
		switch sym.Choice(3) {
		case 0:
			v = "bad"
			w.Add("", paths[k], nil)
		case 1:
			v = "w" + letter()
		}
		local := []string{"a", "id", "UUID"}[i]
		at := len(c[k].Attrs)
		if i == 0 {
			at *= sym.Choice(2)
		}
		a := [2]string{"x:" + local, v}
		x := xml.Attr{Name: xml.Name{Space: ns, Local: local}, Value: v}
		if at == 0 {
			c[k].Attrs = append([][2]string{a}, c[k].Attrs...)
			want[k] = append([]xml.Attr{x}, want[k]...)
		} else {
			c[k].Attrs = append(c[k].Attrs, a)
			want[k] = append(want[k], x)
		}
	}
	for i, n := 0, sym.Choice(sym.Bound(2, 3)); i <= n; i++ {
		add(first, i)
	}
	if k := (first + 1) % len(c); sym.Choice(2) == 0 {
		c[k].With("x:a", "z")
		want[k] = []xml.Attr{attr(ns, "a", "z")}
	}
	if sym.Choice(2) == 0 {
		o.refuse = c[first].Name
	}
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc.Render(lib.Style{Decl: decl}), m)
	all := places(m)
	sym.Assert(len(all) == len(c), "the document is read")
	i := 0
	var errs []lib.Loc
	for k, a := range all {
		g := a.Get(ns)
		if len(want[k]) == 0 {
			sym.Assert(g == nil, "the attributes of an extension are kept with their element")
			continue
		}
		if c[k].Name == o.refuse {
			u, ok := g.(*spec.UnknownAttrs)
			sym.Assert(ok && sym.Equal(u.Attr, want[k]), "attributes an extension does not know are kept with their element")
			continue
		}
		sym.Assert(i < len(o.groups), "the attributes of an extension are kept with their element")
		own := o.groups[i]
		i++
		sym.Assert(g == spec.AttrGroup(own), "the attributes of an extension are kept with their element")
		sym.Assert(own.parent == xml.Name{Space: lib.CoreNS, Local: c[k].Name}, "an extension is told the element its attributes belong to")
		sym.Assert(sym.Equal(own.attrs, want[k]), "an extension is told exactly its content, in order")
		for _, x := range want[k] {
			if x.Value == "bad" && len(errs) < len(o.errs) {
				errs = append(errs, lib.Loc{XPath: paths[k], Err: o.errs[len(errs)]})
			}
		}
	}
	sym.Assert(i == len(o.groups), "the attributes of an extension are kept with their element")
	w.L = errs
	w.Check(err)
	sym.Cover("attributes")
}

// ---- writing

// item is a piece of the extension's content in a document: an attribute or a token, and where it is.
type item struct {
	at  string
	tok xml.Token
}

func content(doc []byte) (r []item) {
	toks, err := lib.Tokens(doc)
	sym.Assert(err == nil, "the document is well formed")
	type level struct {
		path  string
		count map[string]int
	}
	stack := []level{{"", map[string]int{}}}
	depth := 0
	for _, t := range toks {
		top := &stack[len(stack)-1]
		switch t := t.(type) {
		case xml.StartElement:
			var attrs []xml.Attr
			for _, a := range t.Attr {
				if a.Name.Space != "xmlns" && a.Name.Local != "xmlns" {
					attrs = append(attrs, a)
				}
			}
			if depth > 0 || t.Name.Space == ns {
				depth++
				r = append(r, item{top.path, xml.StartElement{Name: t.Name, Attr: attrs}})
				continue
			}
			p := top.path + "/" + lib.Idx(t.Name.Local, top.count[t.Name.Local])
			top.count[t.Name.Local]++
			for _, a := range attrs {
				if a.Name.Space == ns {
					r = append(r, item{p, xml.StartElement{Attr: []xml.Attr{a}}})
				}
			}
			stack = append(stack, level{p, map[string]int{}})
		case xml.EndElement:
			if depth > 0 {
				depth--
				r = append(r, item{top.path, t})
				continue
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if depth > 0 {
				r = append(r, item{top.path, t})
			}
		}
	}
	return
}

func sameItems(got, want []item) {
	sym.Assert(len(got) == len(want), "the content of an extension is written as it is, in its place")
	for i := range got {
		sym.Assert(got[i].at == want[i].at && lib.SameTokens([]xml.Token{got[i].tok}, []xml.Token{want[i].tok}), "the content of an extension is written as it is, in its place")
	}
}

func start(name string, attrs ...xml.Attr) xml.StartElement {
	return xml.StartElement{Name: xml.Name{Space: ns, Local: name}, Attr: attrs}
}

func attr(space, local, v string) xml.Attr {
	return xml.Attr{Name: xml.Name{Space: space, Local: local}, Value: v}
}

// delicate is text with characters that mean something in a document.
func delicate() string {
	return []string{"", "<", "&", `"`, "'", ">", "\n", "\t", "]]>", "é"}[sym.Choice(sym.Bound(4, 10))] + letter() + "."
}

func rich() *go3mf.Model {
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel(lib.Rich().Render(lib.Style{Decl: decl}), m); err != nil {
		panic(err)
	}
	return m
}

// Elements of any content, where there can be some.
func H_write() {
	o := new(own)
	m := rich()
	e := &elem{o: o, name: xml.Name{Space: ns, Local: "e"}, id: 99, close: sym.Choice(2) == 0}
	top := start("e")
	d := delicate()
	switch sym.Choice(3) {
	case 1:
		top.Attr = []xml.Attr{attr(ns, "a", d)}
	case 2:
		top.Attr = []xml.Attr{attr("", "a", d), attr(ns, "a", "1")}
	}
	toks := []xml.Token{top}
	for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
		if sym.Choice(2) == 0 {
			toks = append(toks, xml.CharData("u"+d))
		}
		kid := start(string(rune('f'+i)), attr("", "b", "2"))
		toks = append(toks, kid)
		if sym.Choice(2) == 0 {
			toks = append(toks, start("g"), kid0("g"))
		}
		toks = append(toks, kid.End())
	}
	toks = append(toks, top.End())
	e.toks = toks
	place := sym.Choice(4)
	at := ""
	switch place {
	case 0:
		at = "/model[0]/resources[0]/object[0]/mesh[0]"
		mesh := m.Resources.Objects[0].Mesh
		if sym.Choice(2) == 0 {
			mesh.Any = append(spec.Any{e}, mesh.Any...)
		} else {
			mesh.Any = append(mesh.Any, e)
		}
	case 1:
		at = "/model[0]/resources[0]"
		k := sym.Choice(2) * len(m.Resources.Assets)
		m.Resources.Assets = append(m.Resources.Assets[:k:k], append([]go3mf.Asset{e}, m.Resources.Assets[k:]...)...)
	default:
		at = "/model[0]"
		m.Any = append(m.Any, e)
		if place == 3 { // more than one
			m.Any = append(m.Any, &elem{o: o, toks: []xml.Token{start("z"), kid0("z")}})
		}
	}
	out, err := go3mf.MarshalModel(m)
	sym.Assert(err == nil, "the model is written")
	var want []item
	for _, t := range toks {
		want = append(want, item{at, t})
	}
	if place == 3 {
		want = append(want, item{at, start("z")}, item{at, kid0("z")})
	}
	sameItems(content(out), want)
	// The rest is as it would be without.
	got := new(go3mf.Model)
	spec.Register(ns, ignore{})
	err = go3mf.UnmarshalModel(out, got)
	sym.Assert(err == nil && sym.Equal(got, rich()), "extensions do not change how the rest is written")
	sym.Cover("written")
}

func kid0(name string) xml.EndElement { return xml.EndElement{Name: xml.Name{Space: ns, Local: name}} }

// ignore is an extension that knows nothing.
type ignore struct{}

func (ignore) NewAttrGroup(xml.Name) spec.AttrGroup                 { return new(group) }
func (ignore) NewElementDecoder(xml.Name) spec.GetterElementDecoder { return nil }

// Attributes of any element that can have them.
func H_writeattrs() {
	o := new(own)
	m := rich()
	c, _ := carrying(lib.Rich())
	all := places(m)
	sym.Assert(len(all) == len(c), "the document is read")
	k := sym.Choice(len(c))
	var at [2]string
	for i := range at {
		at[i] = position(c, (k+i)%len(c))
	}
	g := &group{o: o, attrs: []xml.Attr{attr(ns, "a", delicate())}}
	if sym.Choice(2) == 0 {
		g.attrs = append(g.attrs, attr(ns, "b", "&"))
	}
	if sym.Choice(2) == 0 {
		*all[k] = append(*all[k], g)
	} else {
		*all[k] = append(spec.AnyAttr{g}, *all[k]...)
	}
	other := sym.Choice(2) == 0
	h := &group{o: o, attrs: []xml.Attr{attr(ns, "a", "3")}}
	if other {
		n := (k + 1) % len(c)
		*all[n] = append(*all[n], h)
	}
	out, err := go3mf.MarshalModel(m)
	sym.Assert(err == nil, "the model is written")
	got := content(out)
	var want []item
	for _, a := range g.attrs {
		want = append(want, item{at[0], xml.StartElement{Attr: []xml.Attr{a}}})
	}
	if other {
		x := item{at[1], xml.StartElement{Attr: []xml.Attr{h.attrs[0]}}}
		if k == len(c)-1 {
			want = append([]item{x}, want...)
		} else {
			want = append(want, x)
		}
	}
	sameItems(got, want)
	sym.Cover("written")
}

// position is where the k-th element that carries attributes is.
func position(c []*lib.Node, k int) string {
	doc := lib.Rich()
	nodes, _ := carrying(doc)
	n := nodes[k]
	p := ""
	for n != nil {
		up := doc.Parent(n)
		i := 0
		if up != nil {
			for _, s := range up.Kids {
				if s == n {
					break
				}
				if s.Name == n.Name {
					i++
				}
			}
		}
		p = "/" + lib.Idx(n.Name, i) + p
		n = up
	}
	return p
}

// Relationships an extension adds, and the precision it is told.
func H_package() {
	o := new(own)
	m := rich()
	m.Childs = map[string]*go3mf.ChildModel{"/3D/o.model": {}}
	m.Attachments = append(m.Attachments, go3mf.Attachment{Path: "/own.bin", ContentType: "a/b", Stream: strings.NewReader("own")})
	e := &elem{o: o, name: xml.Name{Space: ns, Local: "e"}, id: 99, toks: []xml.Token{start("e"), kid0("e")}, rel: spec.Relationship{Path: "/own.bin", Type: "t" + sym.StringOf(1, "abc"), ID: []string{"", "own"}[sym.Choice(2)]}}
	child := sym.Choice(2) == 0
	r := &m.Resources
	if child {
		r = &m.Childs["/3D/o.model"].Resources
	}
	switch place := sym.Choice(3); {
	case place == 0:
		r.Assets = append(r.Assets, e)
	case place == 1:
		r.Objects = append(r.Objects, &go3mf.Object{ID: 50, Mesh: &go3mf.Mesh{Any: spec.Any{e}}})
	case child:
		m.Childs["/3D/o.model"].Any = spec.Any{e}
	default:
		m.Any = append(m.Any, e)
	}
	prec := 2 + sym.Choice(5)
	out, err := lib.EncodePrec(m, prec)
	sym.Assert(err == nil, "the model is written")
	sym.Assert(e.prec == prec, "an extension is told the precision to write with")
	spec.Register(ns, ignore{})
	got, err := lib.Decode(out, true)
	sym.Assert(err == nil, "the document is read")
	has := func(l []go3mf.Relationship) (n int) {
		for _, x := range l {
			if x.Path == "/own.bin" && x.Type == e.rel.Type && (x.ID == e.rel.ID || e.rel.ID == "") {
				n++
			}
		}
		return
	}
	inRoot, inChild := has(got.Relationships), has(got.Childs["/3D/o.model"].Relationships)
	sym.Assert(inRoot == 1 && !child && inChild == 0 || inChild == 1 && child && inRoot == 0, "the relationships of an extension are those of the part it is in")
	sym.Cover("package")
}

// ---- validation

type validated struct {
	path string
	what interface{}
}

// judge is an extension that validates.
type judge struct {
	own
	ns  string
	at  int // the call it objects to, or all
	how int
}

func (j *judge) Validate(model interface{}, path string, e interface{}) error {
	j.seen = append(j.seen, validated{path, e})
	sym.Assert(model.(*go3mf.Model) != nil, "an extension validates the model")
	k := len(j.seen) - 1
	how := j.how
	if j.at >= 0 && j.at != k {
		how = 0
	}
	switch how {
	case 1:
		err := j.fail(j.ns + strconv.Itoa(k))
		j.answer = append(j.answer, err)
		return err
	case 2:
		err := errors.Append(errors.Wrap(j.fail("w"), "deep"), j.fail("z"))
		j.answer = append(j.answer, err)
		return err
	}
	j.answer = append(j.answer, nil)
	return nil
}

// The models, assets and objects of any part are validated by the extensions of the model.
func H_validate() {
	a, b := &judge{ns: "http://a"}, &judge{ns: "http://b"}
	m := new(go3mf.Model)
	var on []*judge
	for _, j := range []*judge{a, b} {
		spec.Register(j.ns, j)
		if sym.Choice(2) == 0 {
			m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: j.ns, LocalName: j.ns[7:], IsRequired: sym.Choice(2) == 0})
			on = append(on, j)
		}
	}
	spec.Register("http://c", ignore{})
	if sym.Choice(2) == 0 {
		m.Extensions = append(m.Extensions, go3mf.Extension{Namespace: "http://c", LocalName: "c"})
	}
	m.Path = []string{"", "/root.model"}[sym.Choice(2)]
	type spot struct {
		path, errPath, xpath string
		what                 interface{}
	}
	root := m.Path
	if root == "" {
		root = lib.RootPath
	}
	spots := []spot{{m.Path, "", "/model", m}}
	fill := func(r *go3mf.Resources, path, errPath string) {
		n := sym.Choice(2)
		for i := 0; i < n; i++ {
			b := lib.Base(uint32(i+1), 1)
			r.Assets = append(r.Assets, b)
			spots = append(spots, spot{path, errPath, "/model/resources/" + lib.Idx("basematerials", i), b})
		}
		if sym.Choice(2) == 0 {
			u := &go3mf.UnknownAsset{UnknownTokens: spec.UnknownTokens{Token: []xml.Token{xml.StartElement{Name: xml.Name{Space: "http://u", Local: "u"}}}}}
			r.Assets = append(r.Assets, u)
			spots = append(spots, spot{path, errPath, "/model/resources/" + lib.Idx("u", n), u})
		}
		for i, k := 0, sym.Choice(sym.Bound(2, 3)); i < k; i++ {
			o := &go3mf.Object{ID: uint32(10 + i), Mesh: lib.Solid()}
			r.Objects = append(r.Objects, o)
			spots = append(spots, spot{path, errPath, "/model/resources/" + lib.Idx("object", i), o})
		}
	}
	if sym.Choice(2) == 0 {
		c := new(go3mf.ChildModel)
		m.Childs = map[string]*go3mf.ChildModel{"/3D/child.model": c}
		fill(&c.Resources, "/3D/child.model", "/3D/child.model")
	}
	fill(&m.Resources, root, "")
	for i, j := range on {
		if i > 0 && sym.Tier() == 0 {
			j.how, j.at = 1, -1
			continue
		}
		if j.how = sym.Choice(3); j.how > 0 {
			j.at = sym.Choice(len(spots)+1) - 1
		}
	}
	err := m.Validate()
	var w lib.Want
	for _, j := range []*judge{a, b} {
		active := false
		for _, x := range on {
			active = active || x == j
		}
		if !active {
			sym.Assert(len(j.seen) == 0, "only the extensions of the model validate it")
			continue
		}
		sym.Assert(len(j.seen) == len(spots), "an extension validates the model, its assets and its objects once each")
		for _, s := range spots {
			n := 0
			for k, v := range j.seen {
				if v.what == s.what {
					n++
					sym.Assert(v.path == s.path || s.what == interface{}(m) && v.path == root, "an extension is told the part of what it validates")
					expect(&w, s.errPath, s.xpath, j.answer[k])
				}
			}
			sym.Assert(n == 1, "an extension validates the model, its assets and its objects once each")
		}
	}
	w.Check(err)
	sym.Cover("validate")
}

func expect(w *lib.Want, path, xpath string, err error) {
	switch e := err.(type) {
	case *errors.List:
		w.Add(path, xpath+"/deep", e.Errors[0].(*errors.Error).Err)
		last := e.Errors[1]
		if x, ok := last.(*errors.Error); ok {
			last = x.Err
		}
		w.Add(path, xpath, last)
	case nil:
	default:
		w.Add(path, xpath, err)
	}
}

// What is registered last counts, and only for its namespace.
func H_register() {
	a, b := new(own), new(own)
	i, k := sym.Choice(2), sym.Choice(2)
	base := "http://own/" + strconv.Itoa(2*i+k)
	names := []string{base + "x", base + "y"}
	first, second := names[i], names[k]
	doc := []byte(`<model ` + lib.Spaces + ` xmlns:x="` + names[0] + `" xmlns:y="` + names[1] + `"><x:r a="1"/><y:r a="2"/></model>`)
	_, ok := spec.Load(base)
	sym.Assert(!ok, "an extension is found by its namespace")
	spec.Register(first, a)
	spec.Register(second, b)
	s, ok := spec.Load(second)
	sym.Assert(ok && s == spec.Spec(b), "an extension is found by its namespace")
	s, ok = spec.Load(first)
	sym.Assert(ok && (s == spec.Spec(a)) == (first != second), "the last extension of a namespace is the one in use")
	_, ok = spec.LoadValidator(first)
	sym.Assert(!ok, "extensions that do not validate are not asked to")
	v := &judge{ns: "http://j"}
	spec.Register("http://j", v)
	j, ok := spec.LoadValidator("http://j")
	sym.Assert(ok && j == spec.ValidateSpec(v), "an extension is found by its namespace")
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(doc, m)
	sym.Assert(err == nil && len(m.Any) == 2, "the document is read")
	used := func(n string) *own {
		switch n {
		case second:
			return b
		case first:
			return a
		}
		return nil
	}
	for i, n := range names {
		o := used(n)
		if o == nil {
			_, ok := m.Any[i].(*spec.UnknownTokens)
			sym.Assert(ok, "the elements of a namespace nothing is registered for are kept")
			continue
		}
		w := new(own)
		w.note("new", n, "r")
		w.note("start", "r", ">a="+strconv.Itoa(i+1)+";")
		w.note("end", "r")
		sameLog(o.log, w.log)
	}
	sym.Cover("register")
}

// Any history of registrations, each of which counts from then on.
func H_history() {
	type op struct{ kind, ns int }
	ops := make([]op, sym.Bound(3, 4))
	base := "http://own/h"
	for i := range ops {
		ops[i] = op{sym.Choice(3), sym.Choice(2)}
		base += strconv.Itoa(2*ops[i].kind + ops[i].ns)
	}
	names := [2]string{base + "x", base + "y"}
	var want [2]spec.Spec
	m := &go3mf.Model{Extensions: []go3mf.Extension{{Namespace: names[0], LocalName: "x"}, {Namespace: names[1], LocalName: "y"}}}
	doc := []byte(`<model ` + lib.Spaces + ` xmlns:x="` + names[0] + `" xmlns:y="` + names[1] + `"><x:r/><y:r/></model>`)
	for _, p := range ops {
		switch p.kind {
		case 0:
			want[p.ns] = new(own)
			spec.Register(names[p.ns], want[p.ns])
		case 1:
			want[p.ns] = &judge{ns: names[p.ns], at: -1, how: 1}
			spec.Register(names[p.ns], want[p.ns])
		}
		count := 0
		for i, n := range names {
			s, ok := spec.Load(n)
			sym.Assert(ok == (want[i] != nil) && s == want[i], "the last extension of a namespace is the one in use")
			w, valid := want[i].(*judge)
			v, ok := spec.LoadValidator(n)
			sym.Assert(ok == valid, "extensions that do not validate are not asked to")
			if valid {
				sym.Assert(v == spec.ValidateSpec(w), "the last extension of a namespace is the one in use")
				count++
			}
		}
		err := m.Validate()
		got := lib.Flatten(err)
		sym.Assert(len(got) == count, "only the extensions of the model validate it")
		for i, e := range got {
			x := want[i]
			if count == 1 {
				x = want[0]
				if _, ok := x.(*judge); !ok {
					x = want[1]
				}
			}
			j := x.(*judge)
			sym.Assert(e.Err == j.errs[len(j.errs)-1], "the last extension of a namespace is the one in use")
		}
		r := new(go3mf.Model)
		err = go3mf.UnmarshalModel(doc, r)
		sym.Assert(err == nil && len(r.Any) == 2, "the document is read")
		for i := range names {
			switch w := want[i].(type) {
			case *own:
				sym.Assert(r.Any[i] == spec.Marshaler(w.elems[len(w.elems)-1]), "the last extension of a namespace is the one in use")
			case *judge:
				sym.Assert(r.Any[i] == spec.Marshaler(w.elems[len(w.elems)-1]), "the last extension of a namespace is the one in use")
			default:
				_, ok := r.Any[i].(*spec.UnknownTokens)
				sym.Assert(ok, "the elements of a namespace nothing is registered for are kept")
			}
		}
	}
	sym.Cover("history")
}
