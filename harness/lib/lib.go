//go:build go1.22

// Package lib holds what the harnesses share.
package lib

import (
	"bytes"
	"image/color"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

// Encode saves a model as a package.
func Encode(m *go3mf.Model) ([]byte, error) {
	var b bytes.Buffer
	err := go3mf.NewEncoder(&b).Encode(m)
	return b.Bytes(), err
}

// EncodePrec saves a model with a number of decimals other than the usual one.
func EncodePrec(m *go3mf.Model, prec int) ([]byte, error) {
	var b bytes.Buffer
	e := go3mf.NewEncoder(&b)
	e.FloatPrecision = prec
	err := e.Encode(m)
	return b.Bytes(), err
}

// Decode loads a package.
func Decode(b []byte, strict bool) (*go3mf.Model, error) {
	m := new(go3mf.Model)
	d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
	d.Strict = strict
	err := d.Decode(m)
	return m, err
}

// XML round trip of the root model document.
func RoundTrip(m *go3mf.Model) (*go3mf.Model, error) {
	b, err := go3mf.MarshalModel(m)
	if err != nil {
		return nil, err
	}
	got := new(go3mf.Model)
	err = go3mf.UnmarshalModel(b, got)
	return got, err
}

const ascii = " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\n\r"

// Text is any string of n characters XML can carry (ASCII).
func Text(n int) string { return sym.StringOf(n, ascii) }

// Word is any string of n letters, digits and a few signs that need no escaping.
func Word(n int) string {
	return sym.StringOf(n, "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_-./")
}

// Wide is any character XML can carry which is not ASCII.
func Wide() string {
	cont := func(lo, hi int) string { return string([]byte{byte(sym.Int(lo, hi))}) }
	lead := func(lo, hi int) string { return cont(lo, hi) }
	switch sym.Choice(7) {
	case 0:
		return lead(0xC2, 0xDF) + cont(0x80, 0xBF)
	case 1:
		return "\xE0" + cont(0xA0, 0xBF) + cont(0x80, 0xBF)
	case 2:
		return lead(0xE1, 0xEC) + cont(0x80, 0xBF) + cont(0x80, 0xBF)
	case 3:
		return "\xED" + cont(0x80, 0x9F) + cont(0x80, 0xBF)
	case 4:
		s := lead(0xEE, 0xEF) + cont(0x80, 0xBF) + cont(0x80, 0xBF)
		sym.Assume(s != "\xEF\xBF\xBE" && s != "\xEF\xBF\xBF")
		return s
	case 5:
		return "\xF0" + cont(0x90, 0xBF) + cont(0x80, 0xBF) + cont(0x80, 0xBF)
	default:
		return lead(0xF1, 0xF3) + cont(0x80, 0xBF) + cont(0x80, 0xBF) + cont(0x80, 0xBF)
	}
}

// OptText is the empty string or a text of n characters.
func OptText(n int) string {
	if sym.Choice(2) == 0 {
		return ""
	}
	return Text(n)
}

// Q4 is a float after being written with four decimals and read back.
func Q4(f float32) float32 { return sym.QuantizeTo(f, 4) }

// Q3 is a float after being written with three decimals and read back.
func Q3(f float32) float32 { return sym.QuantizeTo(f, 3) }

// Matrix is any affine transform; the second result is what it reads back as.
func Matrix() (m, q go3mf.Matrix) {
	for r := 0; r < 4; r++ {
		for c := 0; c < 3; c++ {
			m[r*4+c] = sym.Float32()
			q[r*4+c] = Q3(m[r*4+c])
		}
	}
	m[15], q[15] = 1, 1
	return
}

// Doc wraps a body in a model element with the given extra attributes.
func Doc(attrs, body string) []byte {
	return []byte(`<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" ` + attrs + `>` + body + `</model>`)
}

// Part puts resources in the root or in a child part; the second result is the part's name, "" for the root.
func Part(rs go3mf.Resources, exts ...go3mf.Extension) (*go3mf.Model, string) {
	m := &go3mf.Model{Extensions: exts}
	if sym.Choice(2) == 0 {
		m.Resources = rs
		return m, ""
	}
	m.Childs = map[string]*go3mf.ChildModel{"/c": {Resources: rs}}
	return m, "/c"
}

// Base is a base materials group of n materials.
func Base(id uint32, n int) *go3mf.BaseMaterials {
	b := &go3mf.BaseMaterials{ID: id}
	for i := 0; i < n; i++ {
		b.Materials = append(b.Materials, go3mf.Base{Name: "n", Color: color.RGBA{A: 255}})
	}
	return b
}

// Tetra is the triangles of a tetrahedron.
var Tetra = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}, {V1: 0, V2: 3, V3: 1}, {V1: 0, V2: 2, V3: 3}, {V1: 1, V2: 3, V3: 2}}

// Solid is a valid mesh.
func Solid() *go3mf.Mesh {
	return &go3mf.Mesh{
		Vertices:  go3mf.Vertices{Vertex: make([]go3mf.Point3D, 4)},
		Triangles: go3mf.Triangles{Triangle: append([]go3mf.Triangle(nil), Tetra...)},
	}
}
