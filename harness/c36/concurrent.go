//go:build go1.22

// Package c36: what different goroutines do at the same time, with models of their own or
// looking at the same one, gives what it gives when it is done alone.
package c36

import (
	"bytes"
	"encoding/xml"
	"sort"
	"strings"
	"sync"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/errors"
	"github.com/hpinc/go3mf/importer/stl"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
	"github.com/hpinc/go3mf/zzverif/lib"
)

//verif:budget quick=50 thorough=700

const typ1 = "http://example.com/1"

const child = "/3D/o.model"

// rich is a package with one of everything in two parts, and an attachment.
func rich() []byte {
	root, c := lib.Rich(), lib.Rich()
	for i := len(c.Kids) - 1; i >= 0; i-- {
		if c.Kids[i].Name == "build" {
			c.Kids = append(c.Kids[:i:i], c.Kids[i+1:]...)
		}
	}
	return lib.Pack(
		[]go3mf.Relationship{{ID: "a", Type: go3mf.RelType3DModel, Path: lib.RootPath}, {ID: "b", Type: go3mf.RelTypeThumbnail, Path: "/t.png"}},
		lib.ModelFile(lib.RootPath, root.Render(lib.Style{}), go3mf.Relationship{ID: "c", Type: go3mf.RelType3DModel, Path: child}, go3mf.Relationship{ID: "d", Type: typ1, Path: "/t.png"}),
		lib.ModelFile(child, c.Render(lib.Style{})),
		lib.File{Path: "/t.png", Type: "image/png", Data: []byte("t")},
	)
}

// valid is a package with two valid parts, the errors of which are none.
func valid(n int) []byte {
	m := new(go3mf.Model)
	m.Path = lib.RootPath
	objs := func(id uint32) (os []*go3mf.Object) {
		for i := 0; i < n; i++ {
			os = append(os, &go3mf.Object{ID: id + uint32(i), Mesh: lib.Solid()})
		}
		return
	}
	m.Resources.Objects = objs(1)
	m.Childs = map[string]*go3mf.ChildModel{child: {Resources: go3mf.Resources{Objects: objs(1)}}}
	m.Relationships = []go3mf.Relationship{{ID: "c", Type: go3mf.RelType3DModel, Path: child}}
	for i := 0; i < n; i++ {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(i + 1)})
	}
	b, err := lib.Encode(m)
	sym.Assert(err == nil, "the model is saved")
	return b
}

func load(b []byte) *go3mf.Model {
	m, _ := lib.Decode(b, false)
	// streams can be read only once
	m.Attachments = nil
	return m
}

// text is that of an error, whose parts can come in any order.
func text(err error) string {
	if err == nil {
		return ""
	}
	if l, ok := err.(*errors.List); ok {
		var ss []string
		for _, e := range l.Errors {
			ss = append(ss, e.Error())
		}
		sort.Strings(ss)
		return strings.Join(ss, "\n")
	}
	return err.Error()
}

// parts are those of a package.
func parts(b []byte) string {
	x, _ := lib.ReadPart(b, lib.RootPath)
	y, _ := lib.ReadPart(b, child)
	return string(x) + "\n" + string(y)
}

type result struct {
	Text  string
	Box   go3mf.Box
	ID    uint32
	Paths []string
	Model *go3mf.Model
	Any   interface{}
}

const nlooks = 10

// look does something with a model that does not change it.
func look(op int, m *go3mf.Model) (r result) {
	switch op {
	case 0:
		b, err := lib.Encode(m)
		r.Text = text(err) + parts(b)
	case 1:
		b, err := go3mf.MarshalModel(m)
		r.Text = text(err) + string(b)
	case 2:
		r.Text = text(m.Validate())
	case 3:
		r.Text = text(m.ValidateCoherency())
	case 4:
		r.Box = m.BoundingBox()
	case 5:
		r.ID = m.Resources.UnusedID()
		for _, p := range []string{"", child, "/no"} {
			for id := uint32(1); id < 12; id++ {
				o, ok := m.FindObject(p, id)
				a, ok2 := m.FindAsset(p, id)
				if ok {
					r.Text += o.Name + ","
				}
				if ok2 {
					r.ID += a.Identify() << 8
				}
			}
		}
	case 6:
		m.WalkObjects(func(p string, o *go3mf.Object) error { r.Paths = append(r.Paths, p); r.ID += o.ID; return nil })
		m.WalkAssets(func(p string, a go3mf.Asset) error { r.Paths = append(r.Paths, p); r.ID += a.Identify(); return nil })
	case 7:
		for _, o := range m.Resources.Objects {
			if o.Mesh != nil {
				r.Text += text(o.Mesh.ValidateCoherency())
				b := o.Mesh.BoundingBox()
				for k := range b.Min {
					r.Box.Min[k] += b.Min[k]
					r.Box.Max[k] += b.Max[k]
				}
				if l := beamlattice.GetBeamLattice(o.Mesh); l != nil {
					r.ID += uint32(len(l.Beams.Beam))
				}
			}
		}
	case 8:
		for _, i := range m.Build.Items {
			t := i.Transform.Mul(i.Transform).Translate(1, 2, 3)
			b := t.MulBox(go3mf.Box{Max: go3mf.Point3D{1, 2, 3}})
			r.Text += t.String() + i.ObjectPath()
			r.Box.Max[0] += b.Max[0]
		}
	case 9:
		b, err := xml.Marshal(&struct {
			A []go3mf.Point3D
		}{m.Resources.Objects[0].Mesh.Vertices.Vertex})
		_ = b
		r.Text = text(err) + m.PathOrDefault()
	}
	return
}

// both does two things at the same time.
func both(f, g func() result) (a, b result) {
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		a = f()
	}()
	b = g()
	wg.Wait()
	return
}

func check(f, g func() result, wf, wg result) {
	a, b := both(f, g)
	sym.Assert(sym.Equal(a, wf) && sym.Equal(b, wg), "what is done at the same time gives what it gives when done alone")
}

// Two goroutines that look at the same model, in any two ways.
//
//verif:race
//verif:sched=first
func H_same() {
	m := load([][]byte{rich(), valid(2)}[sym.Choice(sym.Bound(1, 2))])
	i, j := sym.Choice(nlooks-1), sym.Choice(nlooks-1)
	if j < i {
		return
	}
	f, g := func() result { return look(i, m) }, func() result { return look(j, m) }
	wf, wg := f(), g()
	check(f, g, wf, wg)
	sym.Cover("same")
}

// Any coordinates, indices, names and identifiers.
//
//verif:race
//verif:preempt=0
func H_values() {
	o := &go3mf.Object{ID: 1 + sym.Uint32()%8, Name: lib.Text(1), Mesh: lib.Solid()}
	o.Mesh.Vertices.Vertex[1][0] = sym.Float32()
	o.Mesh.Triangles.Triangle[0].V1 = sym.Uint32()
	m := &go3mf.Model{Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: sym.Uint32() % 8}}}}
	m.Resources.Objects = []*go3mf.Object{o}
	i, j := 2+sym.Choice(4), 2+sym.Choice(4)
	if j < i {
		return
	}
	f, g := func() result { return look(i, m) }, func() result { return look(j, m) }
	wf, wg := f(), g()
	check(f, g, wf, wg)
	sym.Cover("values")
}

// The same, with any order of what they do.
//
//verif:race
//verif:preempt=1
func H_order() {
	m := load(valid(1))
	n := sym.Bound(4, 5)
	i, j := sym.Choice(n), sym.Choice(n)
	if j < i {
		return
	}
	f, g := func() result { return look(i, m) }, func() result { return look(j, m) }
	wf, wg := f(), g()
	check(f, g, wf, wg)
	sym.Cover("order")
}

const binary = "\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00"

const ascii = `solid a
facet normal 0 0 1
outer loop
vertex 0 0 0
vertex 1 0 0
vertex 0 1 0
endloop
endfacet
endsolid a
`

type counter struct {
	mu sync.Mutex
	n  byte
}

func (c *counter) Read(b []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.n++
	for i := range b {
		b[i] = c.n
	}
	return len(b), nil
}

const nacts = 11

// act does something with what it makes itself.
func act(op int, pkg []byte) (r result) {
	switch op {
	case 0, 1:
		m, err := lib.Decode(pkg, op == 1)
		m.Attachments = nil
		r.Text, r.Model = text(err), m
	case 2:
		m := new(go3mf.Model)
		r.Text = text(go3mf.UnmarshalModel(lib.Rich().Render(lib.Style{}), m))
		r.Model = m
	case 3:
		m := load(pkg)
		b, err := lib.Encode(m)
		r.Text = text(err) + parts(b)
	case 4:
		m := load(pkg)
		r.Text = text(m.Validate())
		r.Model = m
	case 5:
		m := load(pkg)
		r.Text = text(m.ValidateCoherency())
		r.Box = m.BoundingBox()
	case 6:
		mesh := new(go3mf.Mesh)
		b := go3mf.NewMeshBuilder(mesh)
		for i := 0; i < 6; i++ {
			b.AddVertex(go3mf.Point3D{float32(i % 3), 1, 2})
		}
		r.Any = mesh
	case 7:
		m := new(go3mf.Model)
		r.Text = text(stl.NewDecoder(strings.NewReader(ascii)).Decode(m))
		r.Model = m
	case 8:
		m := new(go3mf.Model)
		b := []byte(binary + "\x01\x00\x00\x00" + strings.Repeat("\x00\x00\x80\x3f", 12) + "\x00\x00")
		r.Text = text(stl.NewDecoder(bytes.NewReader(b)).Decode(m))
		r.Model = m
	case 9:
		var err error
		for i := 0; i < 3; i++ {
			err = errors.Append(err, errors.WrapIndex(errors.Wrap(errors.ErrMissingID, "a"), "b", i))
		}
		err = errors.WrapPath(err, "c", "/d")
		r.Text = text(err)
	case 10:
		for _, s := range []string{uuid.New(), uuid.New()} {
			if uuid.Validate(s) != nil {
				r.Text += s
			}
			// every byte comes from one reading of the source
			if strings.Count(s, s[:2]) < 7 {
				r.Text += s
			}
		}
		m := &go3mf.Model{Build: go3mf.Build{Items: []*go3mf.Item{{ObjectID: 1}}}}
		m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: lib.Solid()}}
		production.SetMissingUUIDs(m)
		if uuid.Validate(production.GetBuildAttr(&m.Build).UUID) != nil {
			r.Text += "build"
		}
	}
	return
}

// Two goroutines, each with what is its own, that do any two things.
//
//verif:race
//verif:sched=first
func H_apart() {
	uuid.SetRand(new(counter))
	pkg := rich()
	i, j := sym.Choice(nacts), sym.Choice(nacts)
	if j < i {
		return
	}
	f, g := func() result { return act(i, pkg) }, func() result { return act(j, pkg) }
	if sym.Choice(2) == 0 {
		// nothing was done before
		a, b := both(f, g)
		wf, wg := f(), g()
		sym.Assert(sym.Equal(a, wf) && sym.Equal(b, wg), "what is done at the same time gives what it gives when done alone")
		sym.Cover("first")
		return
	}
	wf, wg := f(), g()
	check(f, g, wf, wg)
	sym.Cover("apart")
}

type reg struct{}

func (reg) NewAttrGroup(parent xml.Name) spec.AttrGroup                  { return nil }
func (reg) NewElementDecoder(name xml.Name) spec.GetterElementDecoder    { return nil }
func (reg) Validate(model interface{}, path string, e interface{}) error { return nil }

// A specification that becomes known while models are loaded, saved and validated.
//
//verif:race
//verif:preempt=1
func H_register() {
	pkg := valid(1)
	i := sym.Choice(6)
	f := func() result { return act(i, pkg) }
	wf := f()
	a, _ := both(f, func() (r result) {
		spec.Register("http://reg.example.com", reg{})
		_, ok := spec.Load("http://reg.example.com")
		_, ok2 := spec.LoadValidator("http://reg.example.com")
		sym.Assert(ok && ok2, "what was registered is found")
		return
	})
	sym.Assert(sym.Equal(a, wf), "what is done at the same time gives what it gives when done alone")
	sym.Cover("register")
}
