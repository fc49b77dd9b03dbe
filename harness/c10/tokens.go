//go:build go1.22

// Package c10 compares what the decoder keeps of a document with what encoding/xml reads in it.
package c10

import (
	"encoding/xml"
	"strings"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=800

const (
	pre  = `<model xmlns="` + lib.CoreNS + `" xmlns:u="u1"><u:r `
	post = `</u:r></model>`
)

// kept is the content of the only unknown element of the model.
func kept(m *go3mf.Model) (toks []xml.Token) {
	if len(m.Any) != 1 {
		return nil
	}
	u, ok := m.Any[0].(*spec.UnknownTokens)
	if !ok {
		return nil
	}
	for _, t := range u.Token {
		toks = lib.AppendToken(toks, t)
	}
	return
}

func check(doc string) {
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(doc), m)
	want, werr := lib.Marked([]byte(doc))
	if err != nil {
		sym.Cover("rejected")
		sym.Assert(werr != nil, "a well-formed document is accepted")
		return
	}
	sym.Assert(werr == nil, "a document that is not well formed is rejected")
	sym.Cover("accepted")
	// The content is what follows the start tag of the model, up to its end.
	var in []xml.Token
	depth := 0
	for _, t := range want {
		if _, ok := t.(xml.StartElement); ok {
			depth++
		}
		if depth > 1 {
			in = append(in, t)
		}
		if _, ok := t.(xml.EndElement); ok {
			depth--
		}
	}
	sym.Assert(lib.SameTokens(kept(m), in), "elements, attributes and text are those of the document")
}

// Markup and text inside an element.
func H_content() {
	n := sym.Bound(6, 8)
	check(pre + ">" + sym.StringOf(n, "<>/=\"'& a\ru?") + post)
}

// What follows the name of an element in its start tag.
func H_tag() {
	n := sym.Bound(5, 7)
	end := []string{">", "/>", "></u:a>", ">t</u:aa>"}[sym.Choice(4)]
	check(pre + "><u:a" + sym.StringOf(n, "<>/=\"' a\nu") + end + post)
}

// The value of an attribute.
func H_value() {
	n := sym.Bound(5, 7)
	q := []string{`"`, `'`}[sym.Choice(2)]
	check(pre + "><a b=" + q + sym.StringOf(n, "<>/=\"'&;atl\r\n\t") + q + "/>" + post)
}

// References to characters and entities, in text and in values.
func H_reference() {
	n := sym.Bound(4, 8)
	s := "&" + []string{"#", "#x", ""}[sym.Choice(3)]
	if len(s) == 1 {
		s += sym.StringOf(n, "&;<ltgampquos")
	} else {
		s += sym.StringOf(n, "&;<x 0123456789abcdefABCDEF")
	}
	if sym.Choice(2) == 0 {
		check(pre + ">" + s + post)
	} else {
		check(pre + "b='" + s + "'>" + post)
	}
}

// References to any character, and to what is none.
func H_codepoint() {
	s, digits, base := "&#x", "", 16
	if sym.Choice(2) == 0 {
		digits = sym.StringOf([]int{2, 4, 5, 6, 9}[sym.Choice(sym.Bound(3, 5))], []string{"0178dDeEfF", "0123456789abcdefABCDEF"}[sym.Tier()])
	} else {
		s, base = "&#", 10
		digits = sym.StringOf([]int{2, 5, 7, 10}[sym.Choice(sym.Bound(2, 4))], "0123456789")
	}
	n := uint64(0)
	for i := 0; i < len(digits); i++ {
		c := digits[i]
		if c > '9' {
			c = c&0xf + 9
		}
		n = n*uint64(base) + uint64(c&0xf)
	}
	doc := pre + ">" + s + digits + ";" + post
	if n == 9 || n == 10 || n == 13 || n >= 0x20 && n <= 0xd7ff || n >= 0xe000 && n <= 0xfffd || n >= 0x10000 && n <= 0x10ffff {
		check(doc)
		return
	}
	err := go3mf.UnmarshalModel([]byte(doc), new(go3mf.Model))
	sym.Assert(err != nil, "a reference to what is not a character is rejected")
	sym.Cover("rejected")
}

// The named references.
func H_entity() {
	e := []string{"lt", "gt", "amp", "apos", "quot"}[sym.Choice(5)]
	i := sym.Choice(len(e))
	e = e[:i] + sym.StringOf(1, "ltgampoqus;X") + e[i+1:]
	check(pre + "b='&" + e + ";'>&" + e + ";" + post)
}

// End tags.
func H_end() {
	n := sym.Bound(4, 6)
	check(pre + "><u:ab><a>t</" + sym.StringOf(n, "<>/= abu\n") + "</u:ab" + sym.StringOf(1, "> /ab") + ">" + post)
}

// Processing instructions, before, inside and after the model.
func H_instruction() {
	n := sym.Bound(4, 6)
	s := "<?u" + sym.StringOf(n, "<>?& u'/") + "?>"
	switch sym.Choice(3) {
	case 0:
		check(s + pre + ">" + post)
	case 1:
		check(pre + ">t" + s + "t" + post)
	default:
		check(pre + ">" + post + s)
	}
}

// Any byte where white space may stand.
func H_space() {
	s := string(sym.Bytes(1))
	sym.Assume(s[0] < 0x80 && s[0] != '\t' && s[0] >= ' ' || s[0] == '\t' || s[0] == '\n' || s[0] == '\r')
	sym.Assume(!(s[0] >= '0' && s[0] <= '9') && s[0] != '-' && s[0] != '.' && s[0] != ':' && s[0] != '!')
	switch sym.Choice(6) {
	case 0:
		check(pre + "><a" + s + "b='c'/>" + post)
	case 1:
		check(pre + "><a b" + s + "='c'/>" + post)
	case 2:
		check(pre + "><a b=" + s + "'c'/>" + post)
	case 3:
		check(pre + "><a b='c'" + s + "/>" + post)
	case 4:
		check(pre + "><a></a" + s + ">" + post)
	default:
		check(pre + "><" + s + "a/>" + post)
	}
}

// Namespaces: declarations, redeclarations and what is in scope after an element ends.
func H_scope() {
	decls := []string{"", ` xmlns:u="u2"`, ` xmlns="d"`, ` xmlns:v='u1'`, ` xmlns:u="u3" xmlns:v="u2"`, ` xmlns=""`}
	names := []string{"a", "u:a", "v:a"}
	// The default name space is that of the model, or there is none.
	pre, post := pre, post
	if sym.Choice(2) == 0 {
		pre, post = `<c:model xmlns:c="`+lib.CoreNS+`" xmlns:u="u1"><u:r `, `</u:r></c:model>`
	}
	d := func() string { return decls[sym.Choice(len(decls))] }
	n := func() string { return names[sym.Choice(len(names))] }
	switch sym.Choice(sym.Bound(2, 3)) {
	case 0:
		a, b := n(), n()
		check(pre + d() + "><" + a + d() + " " + n() + "='1'><" + b + "/></" + a + "><" + b + " " + n() + "='1'/>" + post)
	case 1:
		a, b, c := n(), n(), n()
		check(pre + "><" + a + d() + "/><" + b + d() + "><" + c + "></" + c + "></" + b + "><" + c + "/>" + post)
	default:
		a, b, c := n(), n(), n()
		check(pre + d() + "><" + a + d() + "><" + b + d() + "><" + c + "/></" + b + "><" + c + "/></" + a + "><" + c + "/>" + post)
	}
}

// Names of any length and characters beyond ASCII.
func H_words() {
	words := []string{"a", "x", "v1", "p3", "pid", "vertex", "triangle", "color", "triangles", "vertexvertex", "é", "v4", "p0", "w", "a\u20ac", "long-name_with.signs0", "abcdefgh", "abcdefghi"}
	a, b := words[sym.Choice(len(words))], words[sym.Choice(len(words))]
	if b == "a\u20ac" {
		b = "z"
	}
	if a == "a\u20ac" {
		check(pre + "><" + b + " " + b + "='\u20ac\U0001F600'>\u00e9" + a + "</" + b + ">" + post)
		return
	}
	check(pre + "><" + a + " " + b + "='1' u:" + a + "='2'><u:" + b + "/></" + a + ">" + post)
}

// Elements with many attributes, and several such elements.
func H_many() {
	doc := ""
	for e, m := 0, sym.Choice(3); e <= m; e++ {
		doc += "<a"
		k := []int{0, 1, 9, 10, 11, 21}[sym.Choice(6)]
		for i := 0; i < k; i++ {
			doc += " a" + string(rune('a'+i)) + "='" + sym.StringOf(1, "xyz\"<\r&") + "'"
		}
		doc += "/>"
	}
	check(pre + ">" + doc + post)
}

// Anything across the places where the reader's buffer ends.
func H_buffer() {
	s := "<u:a b='c&amp;&#xe9;' c=\"\r\n\" ><a>t&lt;\r\nt</a><?u v?><u:b/></u:a >"
	s += sym.StringOf(1, "<t&\r")
	start := pre + ">"
	size := 4096 * (1 + sym.Choice(sym.Bound(1, 2)))
	cut := sym.Choice(len(s) + 1)
	pad := make([]byte, size-len(start)-cut)
	for i := range pad {
		pad[i] = ' '
	}
	check(start + string(pad) + s + post)
}

// Comments, inside and around the model.
func H_comment() {
	s := "<!-" + []string{"-", ""}[sym.Choice(2)] + sym.StringOf(sym.Bound(4, 6), "<>&-! u'/") + []string{"-->", "->", ""}[sym.Choice(3)]
	switch sym.Choice(4) {
	case 0:
		check(s + pre + ">" + post)
	case 1:
		check(pre + ">t" + s + "t" + post)
	case 2:
		check(pre + "><a>" + s + "</a>" + post)
	default:
		check(pre + ">" + post + s)
	}
}

// Sections whose text is not markup.
func H_cdata() {
	in := sym.StringOf(sym.Bound(4, 6), "<>&];\ra!\n")
	sym.Assume(!strings.Contains(in, "]]>")) // not allowed outside
	switch sym.Choice(3) {
	case 0:
		check(pre + ">t<![CDATA[" + in + "]]>&lt;" + post)
	case 1:
		check(pre + "><a><![CDATA[" + in + "]]><![CDATA[" + in + "]]></a>" + post)
	default:
		n := 2 + sym.Choice(len("[CDATA["))
		c := sym.StringOf(1, "<![CDAT>-a]")
		sym.Assume(n > 2 || c == "[" || c == "-") // declarations are not allowed
		check(pre + "><a>" + "<![CDATA["[:n] + c + "<![CDATA["[n+1:] + "t]]></a>" + post)
	}
}

// Names, values, texts and nestings longer than any buffer.
func H_long() {
	n := []int{300, 9, 64, 255, 4096, 9000}[sym.Choice(sym.Bound(4, 6))]
	p := []int{n - 1, 1, 0, n / 2}[sym.Choice(sym.Bound(2, 4))]
	with := func(alphabet string) string {
		return strings.Repeat("ab", n/2+1)[:p] + sym.StringOf(1, alphabet) + strings.Repeat("cd", n/2+1)[:n-1-p]
	}
	const name, text = "axyz", "a<&]>\r'\""
	switch sym.Choice(10) {
	case 0:
		s := with(name)
		check(pre + "><" + s + ">t</" + s + ">" + post)
	case 1:
		s := with(name)
		check(pre + "><" + s + "></" + s[:n-1] + "x>" + post)
	case 2:
		check(pre + "><a " + with(name) + "='v'/>" + post)
	case 3:
		s := with(name)
		check(pre + "><a xmlns:" + s + "='u2'><" + s + ":b " + s + ":c='v'/></a>" + post)
	case 4:
		check(pre + "><a xmlns='" + with(text) + "'/>" + post)
	case 5:
		check(pre + "><a b='" + with(text) + "'/>" + post)
	case 6:
		check(pre + ">" + with(text) + post)
	case 7:
		check(pre + "><!--" + with(name) + "--><a/><?" + with(name) + "?><a/>" + post)
	case 8:
		k := min(n, sym.Bound(300, 1000))
		b := []byte(strings.Repeat("a", k))
		b[p%k] = sym.StringOf(1, "ab")[0]
		doc := ""
		for _, c := range b {
			doc += "<" + string(rune(c)) + ">"
		}
		for range b {
			doc += "</a>"
		}
		check(pre + ">" + doc + post)
	case 9:
		k := min(n, sym.Bound(300, 1000))
		doc := "<a"
		for i := 0; i < k; i++ {
			v := "v"
			if i == p%k {
				v = sym.StringOf(1, text)
			}
			doc += " " + lib.Idx("a", i)[:1] + strings.Trim(lib.Idx("b", i), "[]b") + "='" + v + "&amp;'"
		}
		check(pre + ">" + doc + "/>" + post)
	}
}
