//go:build go1.22

// Package c32: how a document is written down does not change what it says.
package c32

import (
	"strings"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=50 thorough=700

// Ways of writing an element.
const (
	plain = iota
	comments
	markup // comments that look like elements
	instructions
	spaces
	open   // <a></a> instead of <a/>
	quotes // single ones
	equals // spaces around the equals sign
	breaks // line breaks in tags
	reversed
	rotated
	hexref
	decref
	everything
	nways
)

func is(way int, ways ...int) bool {
	for _, w := range ways {
		if way == w || way == everything && w != reversed && w != decref && w != comments {
			return true
		}
	}
	return false
}

const hexDigits = "0123456789aBcDeF"

func ref(c byte) string { return "&#x" + hexDigits[c>>4:c>>4+1] + hexDigits[c&15:c&15+1] + ";" }

func decimal(c byte) string {
	return "&#" + string([]byte{'0' + c/100, '0' + c/10%10, '0' + c%10}) + ";"
}

// refs writes some of the characters of a text as references.
func refs(way int, s string) string {
	if strings.Contains(s, "&") || !is(way, hexref, decref) {
		return s
	}
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case i%2 == 1 && len(s) > 2:
			b.WriteByte(s[i])
		case way == decref:
			b.WriteString(decimal(s[i]))
		default:
			b.WriteString(ref(s[i]))
		}
	}
	return b.String()
}

// between is what is written before and after the children.
func between(way int, b []byte) []byte {
	if is(way, comments) {
		b = append(b, "<!---->"...)
	}
	if is(way, spaces) {
		b = append(b, " \r\n\t"...)
	}
	if is(way, markup) {
		b = append(b, "<!-- <object id='77'/> </model> & <![CDATA[ -->"...)
	}
	if is(way, instructions) {
		b = append(b, `<?go <metadata name="z">x</metadata> ?>`...)
	}
	return b
}

// order is the order the attributes are written in: those of extensions stay in order.
func order(way int, attrs [][2]string) [][2]string {
	var own, ext [][2]string
	for _, a := range attrs {
		if strings.Contains(a[0], ":") {
			ext = append(ext, a)
		} else {
			own = append(own, a)
		}
	}
	switch {
	case is(way, reversed):
		for i, j := 0, len(own)-1; i < j; i, j = i+1, j-1 {
			own[i], own[j] = own[j], own[i]
		}
		return append(ext, own...)
	case is(way, rotated) && len(own) > 0:
		r := append([][2]string(nil), own[1:]...)
		r = append(r, ext...)
		return append(r, own[0])
	}
	return attrs
}

// spelling is how each element is written.
type spelling func(n *lib.Node) int

func render(n *lib.Node, how spelling, b []byte, decl string) []byte {
	way := how(n)
	b = append(b, '<')
	b = append(b, n.Name...)
	b = append(b, decl...)
	for _, a := range order(way, n.Attrs) {
		if is(way, breaks) {
			b = append(b, "\r\n\t "...)
		} else {
			b = append(b, ' ')
		}
		b = append(b, a[0]...)
		if is(way, equals) {
			b = append(b, " = "...)
		} else {
			b = append(b, '=')
		}
		q := byte('"')
		if is(way, quotes) {
			q = '\''
		}
		b = append(b, q)
		b = append(b, refs(way, a[1])...)
		b = append(b, q)
	}
	if is(way, breaks) {
		b = append(b, '\n')
	}
	foreign := strings.HasPrefix(n.Name, "u:")
	if len(n.Kids) == 0 && n.Text == "" {
		if !is(way, open, comments, markup, instructions, spaces) || foreign {
			return append(b, '/', '>')
		}
	}
	b = append(b, '>')
	if n.Text != "" {
		b = append(b, text(way, n.Text)...)
	} else if !foreign {
		b = between(way, b)
	}
	for _, k := range n.Kids {
		b = render(k, how, b, "")
		if !foreign {
			b = between(way, b)
		}
	}
	b = append(b, '<', '/')
	b = append(b, n.Name...)
	if is(way, breaks) {
		b = append(b, '\n')
	}
	return append(b, '>')
}

// text writes a text in pieces.
func text(way int, s string) string {
	switch way {
	case comments, markup:
		return s[:1] + "<!-- x -->" + s[1:] + "<!---->"
	case instructions:
		return "<?x y?>" + s[:1] + "<?x?>" + s[1:]
	case spaces:
		return "<![CDATA[" + s + "]]>"
	case open:
		return s[:1] + "<![CDATA[" + s[1:] + "]]>"
	case everything:
		return "<![CDATA[]]>" + refs(hexref, s[:1]) + "<!--x-->" + s[1:] + "<![CDATA[]]>"
	}
	return refs(way, s)
}

func spell(n *lib.Node, how spelling) []byte { return render(n, how, nil, " "+lib.Spaces) }

func decode(b []byte) *go3mf.Model {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel(b, m)
	sym.Assert(err == nil, "the document loads")
	return m
}

func same(b []byte, doc *lib.Node) {
	sym.Assert(sym.Equal(decode(b), decode(doc.Render(lib.Style{}))), "the model is the same however the document is written")
	sym.Cover("same")
}

// One element is written in some other way.
func H_element() {
	doc := lib.Rich()
	l := doc.Nodes()
	at := l[sym.Choice(len(l))]
	way := 1 + sym.Choice(nways-1)
	same(spell(doc, func(n *lib.Node) int {
		if n == at {
			return way
		}
		return plain
	}), doc)
}

// All elements are.
func H_all() {
	doc := lib.Rich()
	way := 1 + sym.Choice(nways-1)
	b := spell(doc, func(*lib.Node) int { return way })
	same(b, doc)
}

// Elements are written in two ways by turns.
//
//verif:tier=thorough
func H_mixed() {
	doc := lib.Rich()
	w1, w2 := sym.Choice(nways), sym.Choice(nways)
	i := 0
	same(spell(doc, func(*lib.Node) int {
		if i++; i%2 == 0 {
			return w1
		}
		return w2
	}), doc)
}

// What is around the root element.
func H_around() {
	doc := lib.Rich()
	b := doc.Render(lib.Style{})
	before := []string{"", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='UTF-8'?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\" standalone=\"yes\"?>", " \n", "<!-- c -->"}[sym.Choice(6)]
	middle := []string{"", "\n", "<!-- <model/> -->", "<?pi?>"}[sym.Choice(4)]
	after := []string{"", "\n", "<!-- <model/> -->", "<?pi x?>\n"}[sym.Choice(4)]
	same([]byte(before+middle+string(b)+after), doc)
}

// A character of a text, written in any way.
func H_chars() {
	c := sym.Byte()
	sym.Assume(c >= 0x20 && c < 0x7f)
	d := `"'&<>`
	raw := string([]byte{c})
	esc := raw
	for i, e := range []string{"&quot;", "&apos;", "&amp;", "&lt;", "&gt;"} {
		if c == d[i] {
			esc = e
		}
	}
	way := func() string {
		switch sym.Choice(3) {
		case 0:
			return ref(c)
		case 1:
			return decimal(c)
		}
		return esc
	}
	set := func(name string, s string) []byte {
		doc := lib.Rich()
		for _, n := range doc.Nodes() {
			if n.Text == "a b" && name == "" {
				n.Text = s
				break
			}
			for i := range n.Attrs {
				if n.Attrs[i][0] == name {
					n.Attrs[i][1] = s
					return doc.Render(lib.Style{})
				}
			}
		}
		return doc.Render(lib.Style{})
	}
	at := []string{"", "name", "partnumber", "type", "path", "identifier", "thumbnail", "slicepath", "xml:lang"}[sym.Choice(9)]
	a := set(at, "a"+esc+"b")
	b := "a" + way() + "b"
	if at == "" && sym.Choice(2) == 0 {
		b = "a<![CDATA[" + raw + "]]>b"
	}
	sym.Assert(sym.Equal(decode(set(at, b)), decode(a)), "the model is the same however its texts are escaped")
	sym.Cover("chars")
}

// Line ends of a text.
func H_lines() {
	ends := []string{"\n", "\r\n", "\r", "&#10;", "&#xA;"}
	write := func(e string) *go3mf.Model {
		return decode([]byte(`<model ` + lib.Spaces + `><metadata name="Title">a` + e + `b` + e + e + `c` + e + `</metadata></model>`))
	}
	m := write(ends[sym.Choice(len(ends))])
	sym.Assert(sym.Equal(m, write("\n")), "a line ends the same way however that is written")
	sym.Assert(m.Metadata[0].Value == "a\nb\n\nc\n", "a text keeps its lines")
	sym.Cover("lines")
}

// A child part is read the same way.
//
//verif:sched=first
func H_child() {
	child := &lib.Node{Name: "model", Kids: []*lib.Node{lib.Rich().Kids[2]}}
	way := 1 + sym.Choice(nways-1)
	root := []byte(`<model ` + lib.Spaces + `/>`)
	load := func(b []byte) *go3mf.Model {
		m, err := lib.Decode(lib.PackRoot(root, lib.ModelFile("/c.model", b)), false)
		sym.Assert(err == nil, "the document loads")
		return m
	}
	b := spell(child, func(*lib.Node) int { return way })
	sym.Assert(sym.Equal(load(b), load(child.Render(lib.Style{}))), "the model is the same however the document is written")
	sym.Cover("child")
}

// What separates the values of a list.
func H_lists() {
	doc := lib.Rich()
	seps := []string{"  ", "\t", "\n", "\r\n", " \t \n ", "&#9;", "&#10;"}
	sep, around := seps[sym.Choice(len(seps))], []string{"", " ", "\n", "\t  "}[sym.Choice(4)]
	names := []string{"requiredextensions", "transform", "matindices", "values", "pids", "pindices", "blendmethods"}
	name := names[sym.Choice(len(names))]
	ref := decode(doc.Render(lib.Style{}))
	n := 0
	for _, e := range doc.Nodes() {
		for i := range e.Attrs {
			if a := &e.Attrs[i]; a[0] == name {
				a[1] = around + strings.Join(strings.Fields(a[1]), sep) + around
				n++
			}
		}
	}
	sym.Assert(n > 0, "the document has the list")
	sym.Assert(sym.Equal(decode(doc.Render(lib.Style{})), ref), "the model is the same whatever separates the values of a list")
	sym.Cover("lists")
}
