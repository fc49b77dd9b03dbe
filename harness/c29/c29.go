//go:build go1.22

// Package c29: failures of what is read from and written to are reported.
package c29

import (
	"archive/zip"
	"bytes"
	"encoding/xml"
	"errors"
	"io"
	"strings"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
	"github.com/qmuntal/opc"
)

//verif:budget quick=45 thorough=600

var errFault = errors.New("fault")

// fault is an error something may fail with; ends are those that also mean that the data is over.
func fault(ends bool) error {
	if ends {
		switch sym.Choice(3) {
		case 0:
			return io.EOF
		case 1:
			return io.ErrUnexpectedEOF
		}
	}
	return errFault
}

// ---- writing

// sink fails at a write.
type sink struct {
	n      int // writes
	at     int
	always bool // and at all that follow
	some   bool // after having written some data
	failed bool
}

func (w *sink) Write(b []byte) (int, error) {
	n := w.n
	w.n++
	if n == w.at || w.always && n > w.at {
		w.failed = true
		if w.some {
			return len(b) / 2, errFault
		}
		return 0, errFault
	}
	return len(b), nil
}

// noise is what a compressor cannot make smaller.
func noise(n int) []byte {
	b := make([]byte, n)
	x := uint32(1)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

// saved has root and child models and attachments, of some size if big.
func saved(big bool) *go3mf.Model {
	size := 3
	if big {
		size = 80000
	}
	m := &go3mf.Model{
		Thumbnail: "/t.png",
		Metadata:  []go3mf.Metadata{{Name: xml.Name{Local: "Title"}, Value: "v"}},
		Resources: go3mf.Resources{
			Assets: []go3mf.Asset{&go3mf.BaseMaterials{ID: 2, Materials: []go3mf.Base{{Name: "n"}}}},
			Objects: []*go3mf.Object{
				{ID: 1, Mesh: lib.Solid()},
				{ID: 3, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}}}},
			},
		},
		Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}},
		Attachments: []go3mf.Attachment{
			{Path: "/t.png", ContentType: "image/png", Stream: bytes.NewReader(noise(size))},
			{Path: "/u.bin", ContentType: "a/b", Stream: strings.NewReader("abcdef")},
		},
	}
	m.Childs = map[string]*go3mf.ChildModel{
		"/3D/a.model": {Resources: go3mf.Resources{Objects: []*go3mf.Object{{ID: 4, Mesh: lib.Solid()}}}},
	}
	return m
}

// A destination that fails at some write.
func H_write() {
	w := &sink{at: sym.Int(0, sym.Bound(40, 60)), always: sym.Choice(2) == 0, some: sym.Choice(2) == 0}
	err := go3mf.NewEncoder(w).Encode(saved(sym.Choice(2) == 0))
	sym.Assert(!w.failed || err != nil, "saving fails when a write fails")
	sym.Assert(w.failed || err == nil, "saving does not fail when no write does")
	sym.Cover("written")
	if w.failed {
		sym.Cover("failed")
	}
}

// stream fails at an offset.
type stream struct {
	data   []byte
	at     int
	size   int // of the pieces
	err    error
	some   bool // the error comes along with the last data
	failed bool
}

func (r *stream) Read(b []byte) (int, error) {
	if len(b) > r.size {
		b = b[:r.size]
	}
	if len(b) > r.at {
		b = b[:r.at]
	}
	n := copy(b, r.data)
	r.data, r.at = r.data[n:], r.at-n
	if r.at == 0 && (r.some || n == 0) {
		r.failed = true
		return n, r.err
	}
	return n, nil
}

// An attachment whose content cannot be read.
func H_stream() {
	const n = 10
	r := &stream{data: noise(n), at: sym.Int(0, n), size: 1 + sym.Choice(2)*20, some: sym.Choice(2) == 0, err: errFault}
	whole := sym.Choice(3) == 0
	if whole {
		r.err = io.EOF
	}
	m := saved(false)
	i := sym.Choice(2)
	m.Attachments[i].Stream = r
	var b bytes.Buffer
	err := go3mf.NewEncoder(&b).Encode(m)
	sym.Assert(r.failed, "attachments are read until they end")
	if whole {
		sym.Assert(err == nil, "saving does not fail when nothing does")
		sym.Cover("whole")
	} else {
		sym.Assert(err != nil, "saving fails when an attachment cannot be read")
		sym.Cover("failed")
	}
}

// Parts the package cannot have.
func H_create() {
	m := saved(false)
	names := []string{"/x.png", "/T.PNG", "/t.png", "/3D/a.model", "/3D/3dmodel.model", "", "/", "/3D/", "/a/./b", "/3D/3dmodel.model/x", "/x?y", "/x/../u.bin", "x"}
	name, ct := names[sym.Choice(len(names))], "a/b"
	if sym.Choice(2) == 0 {
		ct = []string{"", "a", "a b", "a/b; c=d"}[sym.Choice(4)]
	}
	m.Attachments = append(m.Attachments, go3mf.Attachment{Path: name, ContentType: ct, Stream: strings.NewReader("x")})
	// What the package format has to say.
	var b bytes.Buffer
	w := opc.NewWriter(&b)
	var want error
	for _, p := range [][2]string{{"/t.png", "image/png"}, {"/u.bin", "a/b"}, {name, ct}, {"/3D/3dmodel.model", go3mf.ContentType3DModel}, {"/3D/a.model", go3mf.ContentType3DModel}} {
		if _, err := w.CreatePart(&opc.Part{Name: opc.NormalizePartName(p[0]), ContentType: p[1]}, opc.CompressionNormal); err != nil && want == nil {
			want = err
		}
	}
	_, err := lib.Encode(m)
	sym.Assert(want == nil || err != nil, "saving fails when a part cannot be made")
	if want == nil {
		sym.Assert(err == nil, "saving does not fail when nothing does")
		sym.Cover("made")
	} else {
		sym.Cover("failed")
	}
}

// Models the package cannot hold.
func H_model_path() {
	m := saved(false)
	m.Childs = map[string]*go3mf.ChildModel{"/3D/b.model": {}}
	switch sym.Choice(4) {
	case 0:
		m.Path = "/t.png"
	case 1:
		m.Path = "/3D/B.model"
	case 2:
		m.Childs["/u.bin"] = new(go3mf.ChildModel)
	case 3:
		m.Path = "/3D/b.model"
	}
	_, err := lib.Encode(m)
	sym.Assert(err != nil, "saving fails when a part cannot be made")
	sym.Cover("failed")
}

// Relationships the package cannot hold.
func H_relationships() {
	m := saved(false)
	bad := [][]go3mf.Relationship{
		{{ID: "a", Type: "t", Path: "/t.png"}, {ID: "a", Type: "t", Path: "/u.bin"}},
		{{ID: "a", Type: "", Path: "/t.png"}},
	}[sym.Choice(2)]
	switch sym.Choice(3) {
	case 0:
		m.RootRelationships = bad
	case 1:
		m.Relationships = bad
	case 2:
		m.Childs["/3D/a.model"].Relationships = bad
	}
	_, err := lib.Encode(m)
	sym.Assert(err != nil, "saving fails when a relationship cannot be written")
	sym.Cover("failed")
}

// ext is extension content that fails to write itself.
type ext struct {
	n, at int
	done  bool
}

func (e *ext) Namespace() string                   { return "http://z" }
func (e *ext) Unmarshal3MFAttr(spec.XMLAttr) error { return nil }
func (e *ext) XMLName() xml.Name                   { return xml.Name{Space: "http://z", Local: "z"} }
func (e *ext) Identify() uint32                    { return 99 }
func (e *ext) Marshal3MF(x spec.Encoder, start *xml.StartElement) error {
	e.n++
	if e.n-1 == e.at {
		e.done = true
		return errFault
	}
	return nil
}

// plant adds extension content to everything that can have it.
func plant(m *go3mf.Model, e *ext, child bool) {
	attr := func(a *spec.AnyAttr) { *a = append(*a, e) }
	resources := func(r *go3mf.Resources) {
		attr(&r.AnyAttr)
		for _, a := range r.Assets {
			if b, ok := a.(*go3mf.BaseMaterials); ok {
				attr(&b.AnyAttr)
				for i := range b.Materials {
					attr(&b.Materials[i].AnyAttr)
				}
			}
		}
		r.Assets = append(r.Assets, e, &materials.ColorGroup{ID: 77})
		for _, o := range r.Objects {
			attr(&o.AnyAttr)
			attr(&o.Metadata.AnyAttr)
			if o.Mesh != nil {
				attr(&o.Mesh.AnyAttr)
				attr(&o.Mesh.Vertices.AnyAttr)
				attr(&o.Mesh.Triangles.AnyAttr)
				for i := range o.Mesh.Triangles.Triangle {
					attr(&o.Mesh.Triangles.Triangle[i].AnyAttr)
				}
				o.Mesh.Any = append(o.Mesh.Any, e, &beamlattice.BeamLattice{})
			}
			if o.Components != nil {
				attr(&o.Components.AnyAttr)
				for _, c := range o.Components.Component {
					attr(&c.AnyAttr)
				}
			}
		}
	}
	c := m.Childs["/3D/a.model"]
	if child {
		resources(&c.Resources)
		c.Any = append(c.Any, e, spec.UnknownTokens{})
		return
	}
	resources(&m.Resources)
	attr(&m.Build.AnyAttr)
	for _, it := range m.Build.Items {
		attr(&it.AnyAttr)
		attr(&it.Metadata.AnyAttr)
	}
	m.Any = append(m.Any, e, spec.UnknownTokens{})
}

// Extension content that cannot be written.
func H_marshal() {
	m := saved(false)
	e := &ext{at: sym.Int(0, 40)}
	child := sym.Choice(2) == 0
	plant(m, e, child)
	var err error
	if !child && sym.Choice(2) == 0 {
		_, err = go3mf.MarshalModel(m)
	} else {
		_, err = lib.Encode(m)
	}
	sym.Assert(!e.done || err != nil, "saving fails when extension content cannot be written")
	sym.Assert(e.done || err == nil, "saving does not fail when nothing does")
	sym.Assert(e.done || e.n > 10, "everything is written")
	sym.Cover("marshalled")
	if e.done {
		sym.Cover("failed")
	}
}

// The attributes of the model element itself, which every model part has.
func H_marshal_model() {
	m := saved(false)
	e := &ext{at: sym.Int(0, 3)}
	m.AnyAttr = spec.AnyAttr{e}
	var err error
	if sym.Choice(2) == 0 {
		_, err = go3mf.MarshalModel(m)
	} else {
		_, err = lib.Encode(m)
	}
	sym.Assert(!e.done || err != nil, "saving fails when extension content cannot be written")
	sym.Assert(e.done || err == nil, "saving does not fail when nothing does")
	sym.Cover("marshalled")
}

// ---- reading

// offset is any number below n; in the quick tier only one of each few.
func offset(n, few int) int {
	step := sym.Bound(few, 1)
	n = (n + step - 1) / step
	const page = 128
	i := sym.Choice((n+page-1)/page) * page
	last := i + page - 1
	if last >= n {
		last = n - 1
	}
	return (i + sym.Int(0, last-i)) * step
}

// source fails at a read, or when some byte is read.
type source struct {
	ra     io.ReaderAt
	n, at  int // reads; -1 when none fails
	always bool
	bad    int64 // -1 when none
	some   bool  // after having read what comes before that byte
	err    error
	failed bool
}

func (s *source) ReadAt(b []byte, off int64) (int, error) {
	n := s.n
	s.n++
	if s.at >= 0 && (n == s.at || s.always && n > s.at) {
		s.failed = true
		return 0, s.err
	}
	if s.bad >= off && s.bad < off+int64(len(b)) {
		s.failed = true
		if s.some {
			k, _ := s.ra.ReadAt(b[:s.bad-off], off)
			return k, s.err
		}
		return 0, s.err
	}
	return s.ra.ReadAt(b, off)
}

const head = `<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" unit="inch" xml:lang="l">`

var (
	rootDoc  = []byte(head + `<resources><object id="3"/></resources><build><item objectid="3"/></build></model>`)
	childDoc = []byte(head + `<resources><object id="4"/></resources></model>`)
	text     = []byte("an attachment of the root")
	text2    = []byte("another one, of the child")
	text3    = []byte("a third one, of the package")
)

func loaded() []byte {
	root := lib.ModelFile(lib.RootPath, rootDoc, go3mf.Relationship{ID: "m", Type: go3mf.RelType3DModel, Path: "/3D/a.model"}, go3mf.Relationship{ID: "t", Type: "t", Path: "/x.txt"})
	child := lib.ModelFile("/3D/a.model", childDoc, go3mf.Relationship{ID: "t", Type: "t", Path: "/y.txt"})
	return lib.Pack([]go3mf.Relationship{{ID: "m", Type: go3mf.RelType3DModel, Path: lib.RootPath}, {ID: "z", Type: "t", Path: "/z.txt"}}, root, child,
		lib.File{Path: "/x.txt", Type: "a/b", Data: text}, lib.File{Path: "/y.txt", Type: "a/b", Data: text2}, lib.File{Path: "/z.txt", Type: "a/b", Data: text3})
}

// plain is a package whose parts are not compressed, so that the bytes of its parts are bytes of it.
func plain(b []byte) []byte {
	if sym.Symbolic() {
		return b
	}
	r, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		panic(err)
	}
	var out bytes.Buffer
	w := zip.NewWriter(&out)
	for _, f := range r.File {
		fw, err := w.CreateHeader(&zip.FileHeader{Name: f.Name, Method: zip.Store})
		if err != nil {
			panic(err)
		}
		fr, err := f.Open()
		if err != nil {
			panic(err)
		}
		if _, err := io.Copy(fw, fr); err != nil {
			panic(err)
		}
	}
	if err := w.Close(); err != nil {
		panic(err)
	}
	return out.Bytes()
}

func load(s *source, size int, strict bool) error {
	d := go3mf.NewDecoder(s, int64(size))
	d.Strict = strict
	return d.Decode(new(go3mf.Model))
}

// From some read on all fail.
func H_read() {
	b := loaded()
	s := &source{ra: bytes.NewReader(b), at: -1, bad: -1}
	strict := sym.Choice(2) == 0
	sym.Assert(load(s, len(b), strict) == nil, "loading does not fail when nothing does")
	total := s.n
	// The last one may be reading ahead.
	s = &source{ra: bytes.NewReader(b), at: sym.Int(0, total-2), always: true, bad: -1, err: fault(true)}
	err := load(s, len(b), strict)
	sym.Assert(err != nil, "loading fails when reads do")
	sym.Cover("failed")
}

// A byte of a part cannot be read.
func H_part() {
	b := plain(loaded())
	data := [][]byte{rootDoc, childDoc, text, text2, text3}[sym.Choice(5)]
	at := bytes.Index(b, data)
	if at < 0 {
		panic("not found")
	}
	s := &source{ra: bytes.NewReader(b), at: -1, bad: int64(at + offset(len(data), 9)), some: sym.Choice(2) == 0, err: fault(true)}
	err := load(s, len(b), sym.Choice(2) == 0)
	sym.Assert(err != nil, "loading fails when a part cannot be read")
	sym.Cover("failed")
}

// A byte far inside a part cannot be read, when the first ones could.
func H_far() {
	data := make([]byte, 9001)
	for i := range data {
		data[i] = byte(i * i >> 3)
	}
	doc := []byte(head + `<resources><object id="3"/></resources><build>` + strings.Repeat(`<item objectid="3"/>`, 300) + `</build></model>`)
	root := lib.ModelFile(lib.RootPath, rootDoc, go3mf.Relationship{ID: "m", Type: go3mf.RelType3DModel, Path: "/3D/a.model"}, go3mf.Relationship{ID: "t", Type: "t", Path: "/x.txt"})
	child := lib.ModelFile("/3D/a.model", doc)
	b := plain(lib.Pack([]go3mf.Relationship{{ID: "m", Type: go3mf.RelType3DModel, Path: lib.RootPath}}, root, child, lib.File{Path: "/x.txt", Type: "a/b", Data: data}))
	part := [][]byte{data, doc}[sym.Choice(2)]
	at := bytes.Index(b, part)
	if at < 0 {
		panic("not found")
	}
	s := &source{ra: bytes.NewReader(b), at: -1, bad: int64(at + []int{1, 4000, 4097, 5000, len(part) - 1}[sym.Concrete(sym.Choice(5))]), some: sym.Choice(2) == 0, err: fault(true)}
	err := load(s, len(b), sym.Choice(2) == 0)
	sym.Assert(err != nil, "loading fails when a part cannot be read")
	sym.Cover("failed")
}

// ends gives where the start tag of the root and the root element of a document end.
func ends(doc string) (start, end int) {
	start = strings.Index(doc, "<model")
	return start, len(strings.TrimRight(doc, " \n"))
}

// The document of a model ends early.
func H_truncated() {
	doc := string(lib.Rich().Render(lib.Style{})) + " \n"
	start, end := ends(doc)
	k := len(doc) - offset(len(doc)-start, 11)
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel([]byte(doc[:k]), m); k < end {
		sym.Assert(err != nil, "loading fails when a part ends early")
		sym.Cover("early")
	} else {
		sym.Assert(err == nil, "loading does not fail when nothing is missing")
		sym.Cover("whole")
	}
}

// A document with comments and the like ends early.
func H_truncated_markup() {
	doc := `<?xml version="1.0"?><!-- c --><model xmlns="` + lib.CoreNS + `"><?go x?><metadata name="Title">a<!-- b -->c<![CDATA[ <d> ]]></metadata><resources><!-- - --></resources></model><!-- e -->`
	start, end := strings.Index(doc, "<model"), strings.Index(doc, "<!-- e")
	k := sym.Int(start+1, len(doc))
	sym.Assume(k <= end || k == len(doc)) // an end after the model may go unnoticed or not
	m := new(go3mf.Model)
	if err := go3mf.UnmarshalModel([]byte(doc[:k]), m); k < end {
		sym.Assert(err != nil, "loading fails when a part ends early")
		sym.Cover("early")
	} else {
		sym.Assert(err == nil, "loading does not fail when nothing is missing")
		sym.Cover("whole")
	}
}

// One of the parts of a package ends early.
func H_truncated_part() {
	root, child := string(rootDoc)+" ", string(childDoc)+"\n"
	var early bool
	cut := func(doc string) string {
		start, end := ends(doc)
		k := len(doc) - offset(len(doc)-start, 5)
		early = early || k < end
		return doc[:k]
	}
	if sym.Choice(2) == 0 {
		root = cut(root)
	} else {
		child = cut(child)
	}
	b := lib.PackRoot([]byte(root), lib.ModelFile("/3D/a.model", []byte(child)), lib.ModelFile("/3D/b.model", childDoc))
	_, err := lib.Decode(b, sym.Choice(2) == 0)
	sym.Assert(early == (err != nil), "loading fails when a part ends early, and only then")
	sym.Cover("cut")
}
