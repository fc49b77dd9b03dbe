//go:build go1.22

// Package c14: cancelling the context stops decoding.
package c14

import (
	"bytes"
	"context"
	"encoding/xml"
	"io"
	"strings"
	"time"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/importer/stl"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=45 thorough=700

const head = `<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" unit="inch" xml:lang="l">`

var (
	childA = []byte(head + `<resources><object id="1"/></resources><build/></model>`)
	childB = []byte(head + `<resources><object id="2"/></resources></model>`)
	rootM  = []byte(head + `<resources><object id="3"/></resources><build><item objectid="3"/></build></model>`)
	broken = []byte(head + `<resources><object id="x"/></resources></model>`)
)

// stop is a context that ends, in one of the ways contexts do, when told to.
type stop struct {
	context.Context
	cancel func()
	err    error
}

// ended is a context which is over for some other reason than being cancelled.
type ended struct {
	done chan struct{}
	err  error
}

func (e *ended) Deadline() (t time.Time, ok bool)  { return }
func (e *ended) Value(key interface{}) interface{} { return nil }
func (e *ended) Done() <-chan struct{}             { return e.done }
func (e *ended) Err() error {
	select {
	case <-e.done:
		return e.err
	default:
		return nil
	}
}

func newCancel() stop {
	ctx, cancel := context.WithCancel(context.Background())
	return stop{ctx, cancel, context.Canceled}
}

func newStop() stop {
	if sym.Choice(2) == 0 {
		return newCancel()
	}
	e := &ended{make(chan struct{}), context.DeadlineExceeded}
	closed := false
	return stop{e, func() {
		if !closed {
			closed = true
			close(e.done)
		}
	}, e.err}
}

// reader ends the context at some read.
type reader struct {
	r     io.Reader
	ra    io.ReaderAt
	at    int
	s     stop
	n     int // reads
	fired bool
	after int // bytes read after that
}

func (r *reader) tick(n int) {
	if r.fired {
		r.after += n
	}
	if r.n == r.at {
		r.s.cancel()
		r.fired = true
	}
	r.n++
}

func (r *reader) ReadAt(p []byte, off int64) (int, error) {
	r.tick(len(p))
	return r.ra.ReadAt(p, off)
}

func (r *reader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.tick(n)
	return n, err
}

func pack(root []byte, childs ...[]byte) []byte {
	var files []lib.File
	for i, c := range childs {
		files = append(files, lib.ModelFile("/3D/"+string(rune('a'+i))+".model", c))
	}
	return lib.PackRoot(root, files...)
}

func packages() []byte {
	switch sym.Choice(4) {
	case 0:
		return pack(rootM)
	case 1:
		return pack(rootM, childA)
	case 2:
		return pack(rootM, childA, childB)
	default:
		return lib.Pack([]go3mf.Relationship{lib.ChildRel(lib.RootPath), {Path: "/t.png", Type: go3mf.RelTypeThumbnail, ID: "t"}},
			lib.ModelFile(lib.RootPath, rootM), lib.File{Path: "/t.png", Type: "image/png", Data: []byte("png")})
	}
}

// A context that is over from the start.
//
//verif:preempt=0
func H_before() {
	s := newStop()
	s.cancel()
	strict := sym.Choice(2) == 0
	r := &reader{ra: bytes.NewReader(packages()), at: -1}
	m := new(go3mf.Model)
	d := go3mf.NewDecoder(r, int64(r.ra.(*bytes.Reader).Len()))
	d.Strict = strict
	err := d.DecodeContext(s, m)
	sym.Assert(err == s.err, "a context that is over makes decoding end with its error")
	sym.Assert(r.n == 0, "nothing is read once the context is over")
	sym.Cover("before")
}

// A context that ends at any read.
//
//verif:preempt=1
func H_during() {
	b := packages()
	s := newStop()
	r := &reader{ra: bytes.NewReader(b), s: s, at: sym.Int(0, sym.Bound(5, 15))}
	d := go3mf.NewDecoder(r, int64(len(b)))
	d.Strict = sym.Choice(2) == 0
	err := d.DecodeContext(s, new(go3mf.Model))
	sym.Assume(r.fired)
	sym.Assert(err == s.err, "a context that ends while decoding makes it end with its error")
	sym.Cover("during")
}

// Parts that cannot be read, and a context that ends at any read: there is an error, of one of them.
//
//verif:preempt=1
func H_broken() {
	var b []byte
	if sym.Choice(2) == 0 {
		b = pack(broken, childA)
	} else {
		b = pack(rootM, childA, broken)
	}
	s := newStop()
	r := &reader{ra: bytes.NewReader(b), s: s, at: sym.Int(0, sym.Bound(4, 11))}
	err := go3mf.NewDecoder(r, int64(len(b))).DecodeContext(s, new(go3mf.Model))
	sym.Assert(err != nil && (err == s.err || strings.Contains(err.Error(), "id")), "the error is that of the context or that of a part")
	sym.Assert(r.fired || err != s.err, "a context that is not over does not affect the result")
	sym.Cover("broken")
}

// A context that never ends.
//
//verif:preempt=0
func H_never() {
	b := packages()
	if sym.Choice(2) == 0 {
		b = pack(rootM, broken)
	}
	want, werr := lib.Decode(b, true)
	s := newStop()
	got, err := lib.DecodeContext(s, b, true)
	sym.Assert((err == nil) == (werr == nil) && (err == nil || err.Error() == werr.Error()), "a context that is not over does not affect the result")
	sym.Assert(sym.Equal(got, want), "a context that is not over does not affect the result")
	sym.Cover("never")
}

// ---- points of the documents

const ns = "http://z"

// events is an extension whose content, in the order it is decoded, is numbered.
type events struct {
	n, at int
	s     stop
	fired bool
	after int
}

func (e *events) NewAttrGroup(xml.Name) spec.AttrGroup { return &group{e} }
func (e *events) NewElementDecoder(xml.Name) spec.GetterElementDecoder {
	return &element{e: e}
}

func (e *events) next() {
	if e.fired {
		e.after++
	}
	if e.n == e.at {
		e.fired = true
		e.s.cancel()
	}
	e.n++
}

type group struct{ e *events }

func (g *group) Unmarshal3MFAttr(spec.XMLAttr) error              { g.e.next(); return nil }
func (g *group) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }
func (g *group) Namespace() string                                { return ns }

type element struct {
	e *events
	nothing
}

type nothing struct{}

func (nothing) Marshal3MF(spec.Encoder, *xml.StartElement) error { return nil }

func (e *element) Start([]spec.XMLAttr) error { e.e.next(); return nil }
func (e *element) End()                       { e.e.next() }
func (e *element) Element() interface{}       { return &e.nothing }

const zhead = `<model xmlns="http://schemas.microsoft.com/3dmanufacturing/core/2015/02" xmlns:z="http://z" xml:lang="l" z:a="1">`

var zroot = []byte(zhead + `<resources z:a="1"><z:e id="1"/><object id="1" z:a="1"><mesh z:a="1"><vertices z:a="1"><vertex x="1" y="2" z="3"/></vertices><triangles z:a="1"><triangle v1="0" v2="1" v3="2" z:a="1"/></triangles><z:e/></mesh></object></resources>` +
	`<build z:a="1"><item objectid="1" z:a="1"><metadatagroup z:a="1"><metadata name="n">v</metadata></metadatagroup></item></build><z:e/></model>`)

var zchild = []byte(zhead + `<resources z:a="1"><object id="1" z:a="1"><components z:a="1"><component objectid="2" z:a="1"/></components></object><z:e/></resources><z:e/></model>`)

// A context that ends at any point of the documents.
//
//verif:preempt=0
func H_points() {
	e := &events{s: newStop(), at: sym.Int(0, 39)}
	spec.Register(ns, e)
	var b []byte
	switch sym.Choice(5) {
	case 0:
		b = pack(zroot)
	case 1:
		b = pack(rootM, zchild)
	case 2:
		b = pack(zroot, childA)
	case 3:
		b = pack(rootM, zchild, childA)
	default:
		b = pack(zroot, childA, zchild)
	}
	err := dec(b, sym.Choice(2) == 0).DecodeContext(e.s, new(go3mf.Model))
	if !e.fired {
		sym.Assert(err == nil, "a context that is not over does not affect the result")
		sym.Cover("late")
		return
	}
	sym.Assert(err == e.s.err, "a context that ends while decoding makes it end with its error")
	sym.Cover("points")
}

func dec(b []byte, strict bool) *go3mf.Decoder {
	d := go3mf.NewDecoder(bytes.NewReader(b), int64(len(b)))
	d.Strict = strict
	return d
}

// Decoding a long part ends soon after the context.
//
//verif:preempt=0
//verif:steps=80000000
func H_soon() {
	const n = 5000
	var doc []byte
	switch sym.Choice(2) {
	case 0:
		doc = []byte(zhead + `<resources><object id="1"><mesh><triangles>` + strings.Repeat(`<triangle v1="0" v2="1" v3="2" z:a="1"/>`, n) + `</triangles></mesh></object></resources></model>`)
	case 1:
		doc = []byte(zhead + strings.Repeat(`<z:e/>`, n) + `<resources/></model>`)
	}
	// Child parts are decoded under a derived context, which learns that a
	// foreign one is over only when another goroutine gets to run.
	var b []byte
	s := newCancel()
	if sym.Choice(2) == 0 {
		b = pack(rootM, doc)
	} else {
		s = newStop()
		b = pack(doc)
	}
	e := &events{s: s, at: 1 + sym.Choice(2)*100}
	spec.Register(ns, e)
	err := dec(b, true).DecodeContext(e.s, new(go3mf.Model))
	sym.Assert(e.fired && err == e.s.err, "a context that ends while decoding makes it end with its error")
	sym.Assert(e.after < n*2/3, "little more is decoded once the context is over")
	sym.Cover("soon")
}

// ---- STL

func stlFile(ascii bool, n int) []byte {
	if ascii {
		return []byte("solid a\n" + strings.Repeat("facet normal 0 0 1\nouter loop\nvertex 0 0 0\nvertex 1 0 0\nvertex 0 1 0\nendloop\nendfacet\n", n) + "endsolid a\n")
	}
	b := make([]byte, 84+50*n)
	b[80], b[81], b[82] = byte(n), byte(n>>8), byte(n>>16)
	return b
}

// A context that is over before an STL mesh is read.
func H_stl_before() {
	b := stlFile(sym.Choice(2) == 0, sym.Choice(3))
	s := newStop()
	s.cancel()
	m := new(go3mf.Model)
	err := stl.NewDecoder(bytes.NewReader(b)).DecodeContext(s, m)
	sym.Assert(err == s.err, "a context that is over makes decoding end with its error")
	sym.Assert(sym.Equal(m, new(go3mf.Model)), "the model is left as it was")
	sym.Cover("stl")
}

// pieces reads a few bytes at a time.
type pieces struct {
	r    io.Reader
	size int
}

func (p pieces) Read(b []byte) (int, error) {
	if len(b) > p.size {
		b = b[:p.size]
	}
	return p.r.Read(b)
}

// A context that ends at any read of an STL mesh.
func H_stl_during() {
	b := stlFile(sym.Choice(2) == 0, 4)
	s := newStop()
	r := &reader{r: pieces{bytes.NewReader(b), 40}, s: s, at: sym.Int(0, 11)}
	m := new(go3mf.Model)
	err := stl.NewDecoder(r).DecodeContext(s, m)
	sym.Assume(r.fired)
	sym.Assert(err == s.err, "a context that ends while decoding makes it end with its error")
	sym.Assert(sym.Equal(m, new(go3mf.Model)), "the model is left as it was")
	sym.Cover("stl")
}

// A context that never ends.
func H_stl_never() {
	b := stlFile(sym.Choice(2) == 0, sym.Choice(3))
	if sym.Choice(2) == 0 {
		b = b[:len(b)-1-sym.Choice(3)*5]
	}
	want, got := new(go3mf.Model), new(go3mf.Model)
	werr := stl.NewDecoder(bytes.NewReader(b)).Decode(want)
	err := stl.NewDecoder(bytes.NewReader(b)).DecodeContext(newStop(), got)
	sym.Assert(err == werr && sym.Equal(got, want), "a context that is not over does not affect the result")
	sym.Cover("stl")
}

// Reading a long STL mesh ends soon after the context.
func H_stl_soon() {
	n := 3000
	b := stlFile(sym.Choice(2) == 0, n)
	s := newStop()
	r := &reader{r: bytes.NewReader(b), s: s, at: 1}
	m := new(go3mf.Model)
	err := stl.NewDecoder(r).DecodeContext(s, m)
	sym.Assert(r.fired && err == s.err, "a context that ends while decoding makes it end with its error")
	sym.Assert(r.after < len(b)*2/3, "little more is read once the context is over")
	sym.Assert(sym.Equal(m, new(go3mf.Model)), "the model is left as it was")
	sym.Cover("soon")
}
