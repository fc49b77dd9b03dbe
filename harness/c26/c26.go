//go:build go1.22

// Package c26: importing STL files.
package c26

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"

	sym "github.com/hpinc/go3mf/internal/verifsym"
)

//verif:budget quick=45 thorough=700

type point = [3]float32
type facet = [3]point

// facets is n facets whose vertices are all different.
func facets(n int) (r []facet) {
	for i := 0; i < n; i++ {
		var f facet
		for j := range f {
			f[j] = point{float32(i), float32(j) * 2, -0.5}
		}
		r = append(r, f)
	}
	return
}

func binarySTL(header []byte, count uint32, fs []facet) []byte {
	b := make([]byte, 80, 84+50*len(fs))
	copy(b, header)
	b = binary.LittleEndian.AppendUint32(b, count)
	for _, f := range fs {
		b = append(b, make([]byte, 12)...)
		for _, p := range f {
			for _, x := range p {
				b = binary.LittleEndian.AppendUint32(b, math.Float32bits(x))
			}
		}
		b = append(b, 0, 0)
	}
	return b
}

// line is a line of an ASCII file.
type line struct {
	words []string
}

func asciiLines(fs []facet, num func(float32) string) (r []line) {
	add := func(w ...string) { r = append(r, line{w}) }
	add("solid", "name")
	for _, f := range fs {
		add("facet", "normal", "0", "0", "1")
		add("outer", "loop")
		for _, p := range f {
			add("vertex", num(p[0]), num(p[1]), num(p[2]))
		}
		add("endloop")
		add("endfacet")
	}
	add("endsolid", "name")
	return
}

func text(ls []line, indent, sep, end string) []byte {
	var b []byte
	for _, l := range ls {
		b = append(b, indent...)
		for i, w := range l.words {
			if i > 0 {
				b = append(b, sep...)
			}
			b = append(b, w...)
		}
		b = append(b, end...)
	}
	return b
}

func shortest(f float32) string { return strconv.FormatFloat(float64(f), 'f', -1, 32) }

func load(r io.Reader, m *go3mf.Model) error {
	sym.AllocLimit(1 << 22)
	sym.MustTerminate(4000000)
	return stl.NewDecoder(r).Decode(m)
}

// before is a model that already has something.
func before() *go3mf.Model {
	return &go3mf.Model{
		Resources: go3mf.Resources{
			Assets:  []go3mf.Asset{&go3mf.BaseMaterials{ID: 2}},
			Objects: []*go3mf.Object{{ID: 1, Mesh: new(go3mf.Mesh)}},
		},
		Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}},
	}
}

// near compares coordinates up to the grid on which the mesh builder joins vertices.
func near(a, b float32) bool {
	if a == b {
		return true
	}
	d := float64(a) - float64(b)
	return d <= 1e-6 && d >= -1e-6
}

// imported tells whether m is the model before the import with the facets added.
func imported(m *go3mf.Model, fs []facet) {
	sym.Assert(len(m.Resources.Objects) == 2 && len(m.Build.Items) == 2 && len(m.Resources.Assets) == 1, "one object and one item are added")
	o, it := m.Resources.Objects[1], m.Build.Items[1]
	sym.Assert(o.ID == 3 && it.ObjectID == 3 && o.Mesh != nil && o.Components == nil && o.Type == go3mf.ObjectTypeModel && !it.HasTransform(), "the item is that of the object, whose ID is new")
	sym.Assert(len(o.Mesh.Triangles.Triangle) == len(fs), "the triangles are as many as those of the file")
	for i, t := range o.Mesh.Triangles.Triangle {
		for j, v := range []uint32{t.V1, t.V2, t.V3} {
			sym.Assert(int(v) < len(o.Mesh.Vertices.Vertex), "triangles have vertices")
			p := o.Mesh.Vertices.Vertex[v]
			for k := range p {
				sym.Assert(near(p[k], fs[i][j][k]), "vertices have the coordinates of the file")
			}
		}
		sym.Assert(t.PID == 0 && t.P1 == 0 && t.P2 == 0 && t.P3 == 0 && len(t.AnyAttr) == 0, "triangles have no properties")
	}
	m.Resources.Objects, m.Build.Items = m.Resources.Objects[:1], m.Build.Items[:1]
	sym.Assert(sym.Equal(m, before()), "the rest of the model is left as it was")
}

func failed(m *go3mf.Model, err error) {
	sym.Assert(err != nil, "incomplete and malformed files end with an error")
	sym.Assert(sym.Equal(m, before()), "files that end with an error leave the model as it was")
}

// A coordinate of a binary file is any finite number.
func H_binary() {
	fs := make([]facet, 6) // the first ones are where the format is detected
	fs[5] = facet{{1, 2, 3}, {-1, 0, 5}, {1, 2, 3}}
	fs[5][sym.Choice(3)][sym.Choice(3)] = sym.Float32()
	m := before()
	err := load(bytes.NewReader(binarySTL(nil, 6, fs)), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("binary")
}

// The same, where the format is detected.
//
//verif:tier=thorough
func H_first() {
	fs := facets(1)
	fs[0][sym.Choice(3)][sym.Choice(3)] = sym.Float32()
	m := before()
	err := load(bytes.NewReader(binarySTL(nil, 1, fs)), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("first")
}

// Shared vertices.
func H_shared() {
	n := 1 + sym.Choice(2)
	pts := []point{{0, 0, 0}, {1, 0, 0}, {0, 1, -2}, {0, 1, 2}}
	var fs []facet
	for i := 0; i < n; i++ {
		fs = append(fs, facet{pts[sym.Choice(4)], pts[sym.Choice(4)], pts[sym.Choice(3)]})
	}
	m := before()
	b := binarySTL(nil, uint32(n), fs)
	if sym.Choice(2) == 0 {
		b = text(asciiLines(fs, shortest), "", " ", "\n")
	}
	err := load(bytes.NewReader(b), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("shared")
}

// The header of a binary file, which may look like that of an ASCII one, and the bytes without meaning.
func H_header() {
	odd := []string{"", "\x00", " ", "\n", "a", "\xff", "\xc3\xa9", "\r\nfacet", " x\nendsolid\n"}
	h := "SOLID"[:sym.Choice(6)]
	if sym.Choice(2) == 0 {
		h = "solid"
	}
	h += odd[sym.Choice(len(odd))] + odd[sym.Choice(sym.Bound(3, len(odd)))]
	fs := []facet{{{2, 0, 2}, {0, 2, 0}, {0, 0, 2}}}
	if sym.Choice(2) == 0 {
		fs = facets(1 + sym.Choice(6))
	}
	b := binarySTL([]byte(h), uint32(len(fs)), fs)
	m := before()
	err := load(bytes.NewReader(b), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("header")
}

// The bytes of a binary file that mean nothing: those after the first of the header, the normal and
// the attributes of facets, and what follows the facets.
func H_ignored() {
	n := 1 + 5*sym.Choice(2)
	fs := facets(n)
	b := binarySTL(nil, uint32(n), fs)
	last := 84 + 50*(n-1)
	switch sym.Choice(5) {
	case 0:
		copy(b[last+48:], sym.Bytes(2))
	case 1:
		// not where the format is detected
		sym.Assume(n > 1)
		copy(b[last:], sym.Bytes(12))
		copy(b[last+48:], sym.Bytes(2))
	case 2:
		sym.Assume(n > 1)
		copy(b[last-50+48:], sym.Bytes(2))
		copy(b[last+48:], sym.Bytes(2))
	case 3:
		at := []int{79, 40, 5, 0, 20}[sym.Choice(sym.Bound(3, 5))]
		b[at] = sym.Byte()
	case 4:
		b = append(b, sym.Bytes(1+sym.Choice(2))...)
	}
	m := before()
	err := load(bytes.NewReader(b), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("ignored")
}

// Any count of facets in the header, whatever the file has.
func H_count() {
	n := sym.Choice(3)
	fs := facets(n)
	count := uint32(sym.Choice(n + 2))
	if sym.Choice(2) == 0 {
		count += uint32(sym.Byte()) << uint(8+8*sym.Choice(3))
	}
	m := before()
	err := load(bytes.NewReader(binarySTL(nil, count, fs)), m)
	if count > uint32(n) {
		failed(m, err)
		sym.Cover("short")
		return
	}
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs[:count])
	sym.Cover("complete")
}

// A truncated file.
func H_truncated() {
	fs := facets(2)
	ascii := sym.Choice(2) == 0
	b := binarySTL(nil, 2, fs)
	end := len(b)
	if ascii {
		b = text(asciiLines(fs, shortest), "", " ", "\n")
		end = bytes.Index(b, []byte("endsolid")) + len("endsolid")
	}
	cut := sym.Choice(end)
	m := before()
	failed(m, load(bytes.NewReader(b[:cut]), m))
	sym.Cover("truncated")
}

// failing is a reader that fails after some bytes, read in pieces of some size.
type failing struct {
	b    []byte
	size int
	err  error
	rest []byte // what can be read after it failed
}

func (f *failing) Read(p []byte) (int, error) {
	if len(f.b) == 0 {
		err := f.err
		if f.rest != nil {
			f.b, f.rest, f.err = f.rest, nil, io.EOF
		}
		return 0, err
	}
	n := len(p)
	if n > f.size {
		n = f.size
	}
	n = copy(p[:n], f.b)
	f.b = f.b[n:]
	return n, nil
}

// A read error, at any point.
func H_read() {
	fs := facets(8)
	b := binarySTL(nil, 8, fs)
	if sym.Choice(2) == 0 {
		b = text(asciiLines(fs[:4], shortest), "", " ", "\n")
	}
	f := &failing{size: []int{1 << 20, 100}[sym.Choice(2)], err: errors.New("read")}
	at := sym.Choice(len(b))
	f.b = b[:at]
	if sym.Choice(2) == 0 {
		f.rest = b[at:]
	}
	m := before()
	err := load(f, m)
	failed(m, err)
	sym.Cover("read")
}

// Pieces of any size make no difference.
func H_pieces() {
	n := 2
	fs := facets(n)
	b := binarySTL(nil, uint32(n), fs)
	if sym.Choice(2) == 0 {
		b = text(asciiLines(fs, shortest), "", " ", "\n")
	}
	f := &failing{b: b, size: 1 + sym.Choice(sym.Bound(12, 100)), err: io.EOF}
	m := before()
	err := load(f, m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("pieces")
}

// A coordinate of an ASCII file is any finite number.
func H_ascii() {
	n := 1 + sym.Choice(sym.Bound(1, 2))
	fs := facets(n)
	fs[sym.Choice(n)][sym.Choice(3)][sym.Choice(3)] = sym.Float32()
	m := before()
	err := load(bytes.NewReader(text(asciiLines(fs, shortest), "", " ", "\n")), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("ascii")
}

// Ways of writing numbers.
func H_numbers() {
	forms := []struct {
		s string
		f float32
	}{{"1", 1}, {"+1.5", 1.5}, {"-2.5e+00", -2.5}, {"1E2", 100}, {".5", 0.5}, {"5.", 5}, {"-0", 0}, {"0.1", 0.1}, {"1.25e-3", 0.00125}, {"16777217", 16777216},
		{"x", 0}, {"1,5", 0}, {"1.5.2", 0}, {"--1", 0}, {"e5", 0}, {"1e", 0}, {"1e99", 0}}
	k := sym.Choice(len(forms))
	fs := facets(1)
	j, c := sym.Choice(3), sym.Choice(3)
	fs[0][j][c] = forms[k].f
	ls := asciiLines(fs, shortest)
	ls[3+j].words[1+c] = forms[k].s
	m := before()
	err := load(bytes.NewReader(text(ls, "", " ", "\n")), m)
	if k >= 10 {
		failed(m, err)
		sym.Cover("malformed")
		return
	}
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("number")
}

// A word for a coordinate which is not a number.
func H_words() {
	w := sym.StringOf(1+sym.Choice(sym.Bound(2, 3)), "0159.+-eExX_,ag")
	ls := asciiLines(facets(1), shortest)
	ls[3+sym.Choice(3)].words[1+sym.Choice(3)] = w
	digits, dots := 0, 0
	number := true
	i := 0
	if w[0] == '+' || w[0] == '-' {
		i++
	}
	for ; i < len(w) && (w[i] >= '0' && w[i] <= '9' || w[i] == '.'); i++ {
		if w[i] == '.' {
			dots++
		} else {
			digits++
		}
	}
	if i < len(w) && (w[i] == 'e' || w[i] == 'E') {
		i++
		if i < len(w) && (w[i] == '+' || w[i] == '-') {
			i++
		}
		number = i < len(w)
		for i < len(w) && w[i] >= '0' && w[i] <= '9' {
			i++
		}
	}
	number = number && digits > 0 && dots <= 1 && i == len(w)
	sym.Assume(!number)
	m := before()
	failed(m, load(bytes.NewReader(text(ls, "", " ", "\n")), m))
	sym.Cover("words")
}

// White space and letter case.
func H_layout() {
	fs := facets(1 + sym.Choice(2))
	ls := asciiLines(fs, shortest)
	up := sym.Choice(3)
	for i, l := range ls {
		for j, w := range l.words {
			if up == 1 || up == 2 && j == 0 {
				l.words[j] = string(bytes.ToUpper([]byte(w)))
			}
		}
		ls[i] = l
	}
	switch sym.Choice(4) {
	case 0:
		ls[0].words = ls[0].words[:1]
		ls[len(ls)-1].words = ls[len(ls)-1].words[:1]
	case 1:
		ls[0].words = []string{"solid", "facet", "of", "vertex"}
	case 2:
		at := 1 + sym.Choice(len(ls)-1)
		ls = append(ls[:at:at], append([]line{{}}, ls[at:]...)...)
	}
	indent := []string{"", " ", "\t"}[sym.Choice(3)]
	b := text(ls, indent, []string{" ", "\t", "   "}[sym.Choice(3)], []string{"\n", "\r\n", " \n"}[sym.Choice(3)])
	b = b[len(indent):]
	if sym.Choice(2) == 0 {
		b = bytes.TrimRight(b, "\r\n ")
	}
	m := before()
	err := load(bytes.NewReader(b), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("layout")
}

// H_long: a line of any length, be it its name, white space or digits.
//
//verif:steps=60000000
func H_long() {
	fs := facets(2)
	ls := asciiLines(fs, shortest)
	n := []int{40, 100, 250, 300, 1000, 4080, 9000, 40000}[sym.Choice(8)] + sym.Choice(sym.Bound(1, 20))
	at := []int{0, 1, 3, 9, len(ls) - 1}[sym.Choice(5)]
	w := ls[at].words
	switch sym.Choice(4) {
	case 0:
		w[len(w)-1] += strings.Repeat(" ", n)
	case 1:
		w[len(w)-1] = strings.Repeat("\t", n) + w[len(w)-1]
	case 2:
		w[0] += strings.Repeat(" ", n)
	default:
		switch w[0] {
		case "vertex":
			if !strings.Contains(w[3], ".") {
				w[3] += "."
			}
			w[3] += strings.Repeat("0", n)
		case "solid", "endsolid":
			w[1] += strings.Repeat("n", n)
		}
	}
	m := before()
	err := load(bytes.NewReader(text(ls, "", " ", "\n")), m)
	sym.Assert(err == nil, "complete files are imported")
	imported(m, fs)
	sym.Cover("long")
}

// Lines left out, repeated or swapped: the triangles are still those of the loops, or there is an error.
func H_lines() {
	fs := facets(2)
	ls := asciiLines(fs, shortest)
	for i := 0; i < sym.Bound(1, 2); i++ {
		at := sym.Choice(len(ls))
		switch sym.Choice(3) {
		case 0:
			ls = append(ls[:at:at], ls[at+1:]...)
		case 1:
			ls = append(ls[:at+1:at+1], ls[at:]...)
		case 2:
			sym.Assume(at+1 < len(ls))
			ls = append(append(ls[:at:at], ls[at+1], ls[at]), ls[at+2:]...)
		}
	}
	m := before()
	err := load(bytes.NewReader(text(ls, "", " ", "\n")), m)
	// what the file has
	var want []facet
	var loop []point
	state, opened, closed := "", false, false
	good, broken := true, false
	for i, l := range ls {
		w := l.words[0]
		follows := ""
		switch w {
		case "solid":
			good = good && i == 0
			opened, closed = true, false
		case "facet":
			follows = "solid endfacet"
		case "outer":
			follows = "facet"
		case "vertex":
			follows = "outer vertex"
			var p point
			for j := range p {
				f, _ := strconv.ParseFloat(l.words[1+j], 32)
				p[j] = float32(f)
			}
			loop = append(loop, p)
		case "endloop":
			follows = "vertex"
			if len(loop) != 3 {
				broken = true
				break
			}
			want = append(want, facet{loop[0], loop[1], loop[2]})
			loop = nil
		case "endfacet":
			follows = "endloop"
		case "endsolid":
			follows = "solid endfacet"
			good = good && i == len(ls)-1
			closed = true
		}
		good = good && strings.Contains(" "+follows+" ", " "+state+" ")
		state = w
	}
	if broken || !opened || !closed || len(loop) != 0 {
		failed(m, err)
		sym.Cover("malformed")
		return
	}
	if err != nil {
		sym.Assert(!good, "complete files are imported")
		sym.Assert(sym.Equal(m, before()), "files that end with an error leave the model as it was")
		sym.Cover("error")
		return
	}
	imported(m, want)
	sym.Cover("lines")
}

// Vertices with too few or too many coordinates.
func H_arity() {
	ls := asciiLines(facets(2), shortest)
	at := 3 + sym.Choice(3) + 7*sym.Choice(2)
	n := sym.Choice(6)
	sym.Assume(n != 3)
	ls[at].words = append([]string{"vertex"}, []string{"1", "2", "3", "4", "5"}[:n]...)
	m := before()
	failed(m, load(bytes.NewReader(text(ls, "", " ", "\n")), m))
	sym.Cover("arity")
}

// Any small file ends with an error, without much memory.
func H_any() {
	n := sym.Choice(sym.Bound(4, 8))
	b := sym.Bytes(n)
	if sym.Choice(2) == 0 {
		b = append([]byte("solid"), b...)
	}
	m := before()
	err := load(bytes.NewReader(b), m)
	failed(m, err)
	sym.Cover("any")
}

// H_id: whatever IDs the resources of the model have, that of the new object is another one.
func H_id() {
	fs := facets(1)
	m := new(go3mf.Model)
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: sym.Uint32(), Mesh: new(go3mf.Mesh)})
	}
	for i, n := 0, sym.Choice(3); i < n; i++ {
		m.Resources.Assets = append(m.Resources.Assets, &go3mf.BaseMaterials{ID: sym.Uint32()})
	}
	n := len(m.Resources.Objects)
	err := load(bytes.NewReader(binarySTL(nil, 1, fs)), m)
	sym.Assert(err == nil && len(m.Resources.Objects) == n+1 && len(m.Build.Items) == 1, "one object and one item are added")
	id := m.Resources.Objects[n].ID
	sym.Assert(id != 0 && m.Build.Items[0].ObjectID == id, "the item is that of the object")
	for _, o := range m.Resources.Objects[:n] {
		sym.Assert(o.ID != id, "the ID is new")
	}
	for _, a := range m.Resources.Assets {
		sym.Assert(a.Identify() != id, "the ID is new")
	}
	sym.Cover("id")
}

// H_huge: more facets than any buffer or preallocation, complete and cut somewhere.
func H_huge() {
	const n = 2300
	k := sym.Concrete([]int{0, 999, 1000, 1001, 2000, n - 1}[sym.Choice(6)]) // which one
	fs := facets(n)
	fs[k][1] = point{-7, 7, 9.25}
	m := before()
	ascii, cut := sym.Choice(2) == 1, sym.Choice(2) == 1
	var b []byte
	if ascii {
		ls := asciiLines(fs, shortest)
		if cut {
			ls = ls[:1+7*k+sym.Choice(7)]
		}
		b = text(ls, "", " ", "\n")
	} else {
		b = binarySTL([]byte("h"), n, fs)
		if cut {
			b = b[:84+50*k+[]int{0, 1, 25, 49}[sym.Choice(4)]]
		}
	}
	err := stl.NewDecoder(bytes.NewReader(b)).Decode(m)
	if cut {
		failed(m, err)
		sym.Cover("cut")
		return
	}
	sym.Assert(err == nil, "the file is read")
	imported(m, fs)
	sym.Cover("huge")
}
