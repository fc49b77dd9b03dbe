//go:build go1.22

package c09

import (
	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=40 thorough=800

const open = "<model " + lib.Spaces + ">"

func decode(doc string) {
	sym.MustTerminate(200000)
	m := new(go3mf.Model)
	err := go3mf.UnmarshalModel([]byte(doc), m)
	sym.Assert(true, "decoding returns")
	if err != nil {
		sym.Cover("rejected")
	} else {
		sym.Cover("accepted")
	}
}

// Any bytes where a document starts, inside a tag, inside a value, in text and in an end tag.
func H_bytes() {
	n := sym.Bound(3, 5)
	pre := []string{"", open + "<", open + "<metadata ", open + `<metadata name="`, open + "<metadata>", open + "</", open + "<resources><?", open + "<!", open + "<metadata><!-", open + "<metadata><![CDATA["}
	post := []string{"", `"/></model>`, "></metadata></model>"}
	decode(pre[sym.Choice(len(pre))] + string(sym.Bytes(n)) + post[sym.Choice(len(post))])
}

// Any two elements, nested or one after the other, anywhere in a document.
func H_tree() {
	place := lib.Places[sym.Choice(len(lib.Places))]
	a, b := lib.Vocab[sym.Choice(len(lib.Vocab))], lib.Vocab[sym.Choice(len(lib.Vocab))]
	body := "<" + a + "/><" + b + ">t</" + b + ">"
	switch sym.Choice(sym.Bound(1, 3)) {
	case 1:
		body = "<" + a + "><" + b + "/></" + a + ">"
	case 2:
		body = "<" + a + "><" + b + ">" // truncated
	}
	decode(open + lib.Open(place) + body + lib.Close(place) + "</model>")
}

// Any element repeated inside or after itself.
func H_repeat() {
	place := lib.Places[sym.Choice(len(lib.Places))]
	n := 1 + sym.Choice(2)
	after := sym.Choice(2) == 1
	last := ""
	if len(place) > 0 {
		last = place[len(place)-1]
	} else {
		last = "model"
	}
	body := ""
	for i := 0; i < n; i++ {
		if after {
			body += "</" + last + "><" + last + ">"
		} else {
			body += "<" + last + "><" + last + "/></" + last + ">"
		}
	}
	decode(open + lib.Open(place) + body + lib.Close(place) + "</model>")
}

// Any attribute with any value on any element.
func H_attrs() {
	place := lib.Leaves[sym.Choice(len(lib.Leaves))]
	q := sym.Choice(len(lib.Attrs) + len(lib.Qualified))
	name := ""
	if q < len(lib.Attrs) {
		name = lib.Attrs[q]
	} else {
		name = lib.Qualified[q-len(lib.Attrs)]
	}
	v := string(sym.Bytes(sym.Bound(1, 2)))
	if len(place) == 0 {
		decode("<model " + lib.Spaces + " " + name + `="` + v + `"/>`)
		return
	}
	decode(open + lib.Open(place[:len(place)-1]) + "<" + place[len(place)-1] + " " + name + `="` + v + `"/>` + lib.Close(place[:len(place)-1]) + "</model>")
}

// Values of each shape, cut short or too long, for each attribute that is parsed.
func H_lengths() {
	a := lib.TypedAttrs[sym.Choice(len(lib.TypedAttrs))]
	shapes := []string{"#0a1B2c3D4e5F", "-12.5e+300000000", "99999999999999999999", "urn:uuid:f47ac10b-58cc-0372-8567-0e02b2c3d479-0", "{f47ac10b-58cc-0372-8567-0e02b2c3d479}-", "1 0 0 0 1 0 0 0 1 0 0 0 1 0"}
	s := shapes[sym.Choice(len(shapes))]
	s = s[:sym.Choice(len(s)+1)]
	if a.Name == "transform" || sym.Bound(0, 1) == 1 {
		if sym.Choice(2) == 0 {
			s += "0 "
		}
	}
	doc := open
	if a.Place == "" {
		doc = "<model " + lib.Spaces + " " + a.Name + `="` + s + `">`
	} else {
		chain := a.Chain()
		last := len(chain) - 1
		doc += lib.Open(chain[:last]) + "<" + chain[last] + " " + a.Name + `="` + s + `"/>` + lib.Close(chain[:last])
	}
	decode(doc + "</model>")
}
