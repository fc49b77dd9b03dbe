//go:build go1.22

// Package c20: component graphs.
package c20

import (
	"strconv"

	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/beamlattice"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/materials"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
)

type edge struct{ obj, comp, to int }

// graph is a model whose objects refer to each other in any way.
type graph struct {
	m     *go3mf.Model
	objs  []*go3mf.Object
	paths []string
	edges []edge
}

const root = go3mf.DefaultModelPath

// build makes n objects, with transforms if moved is 1, over the given parts; every object has 0..2 components with any target.
func build(n, parts, comps, moved int) *graph {
	g := &graph{m: &go3mf.Model{Childs: map[string]*go3mf.ChildModel{}}}
	m := g.m
	names := []string{"", "/a", "/b"}[:parts]
	for _, p := range names[1:] {
		m.Childs[p] = new(go3mf.ChildModel)
	}
	for i := 0; i < n; i++ {
		p := names[i%parts]
		o := &go3mf.Object{ID: uint32(i/parts + 1)}
		g.objs = append(g.objs, o)
		g.paths = append(g.paths, p)
		if p == "" {
			m.Resources.Objects = append(m.Resources.Objects, o)
		} else {
			m.Childs[p].Resources.Objects = append(m.Childs[p].Resources.Objects, o)
		}
	}
	both := &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{1, 2, 3}, {4, 5, 6}}}}
	for i, o := range g.objs {
		k := 0
		if i > 0 {
			k = sym.Choice(2)
		} else if moved == 2 {
			o.Mesh = both // not valid, and no reason to overlook its components
		}
		if k == 1 {
			o.Mesh = &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{1, 2, 3}, {4, 5, 6}}}}
			continue
		}
		o.Components = new(go3mf.Components)
		nc := 1
		if comps > 1 {
			nc += sym.Choice(comps)
		}
		for j := 0; j < nc; j++ {
			c := &go3mf.Component{ObjectID: uint32(sym.Int(1, (n+parts-1)/parts))}
			if moved == 1 {
				c.Transform = go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 2, 3, 0, 1}
			}
			to := 0
			if parts > 1 {
				to = sym.Choice(parts + 1) // the last: no path
			} else {
				to = 1
			}
			where := g.paths[i]
			if to < parts {
				where = names[to]
				if where == "" {
					where = root
				}
				c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{Path: where, UUID: "f47ac10b-58cc-0372-8567-0e02b2c3d479"})
			}
			o.Components.Component = append(o.Components.Component, c)
			for t := range g.objs {
				same := g.paths[t] == where || g.paths[t] == "" && where == root
				if same && uint32(t/parts+1) == c.ObjectID {
					g.edges = append(g.edges, edge{i, j, t})
				}
			}
		}
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	if parts > 1 && sym.Choice(2) == 1 {
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: 1, AnyAttr: spec.AnyAttr{&production.ItemAttr{Path: "/a", UUID: "f47ac10b-58cc-0372-8567-0e02b2c3d479"}}})
	}
	return g
}

// extensions declares every supported extension and binds every object to a slice stack.
func (g *graph) extensions() {
	g.m.Extensions = []go3mf.Extension{slices.DefaultExtension, production.DefaultExtension, materials.DefaultExtension, beamlattice.DefaultExtension}
	st := &slices.SliceStack{ID: 9, Slices: []slices.Slice{{TopZ: 1}}}
	g.m.Resources.Assets = append(g.m.Resources.Assets, st)
	for _, c := range g.m.Childs {
		c.Resources.Assets = append(c.Resources.Assets, st)
	}
	for _, o := range g.objs {
		o.AnyAttr = append(o.AnyAttr, &slices.ObjectAttr{SliceStackID: 9})
	}
}

func (g *graph) xpath(e edge) (string, string) {
	p := g.paths[e.obj]
	parts := 1 + len(g.m.Childs)
	return p, "/model/resources/object[" + strconv.Itoa(e.obj/parts) + "]/components/component[" + strconv.Itoa(e.comp) + "]"
}

func reported(err error, path, xpath string) bool {
	l, ok := err.(*errors.List)
	if !ok {
		return false
	}
	for _, e := range l.Errors {
		if e, ok := e.(*errors.Error); ok && e.Err == errors.ErrRecursion && e.Path == path && e.XPath() == xpath {
			return true
		}
	}
	return false
}

// reach tells whether b can be reached from a.
func (g *graph) reach(a, b int) bool {
	seen := make([]bool, len(g.objs))
	seen[a] = true
	for range g.objs {
		for _, e := range g.edges {
			if seen[e.obj] {
				seen[e.to] = true
			}
		}
	}
	return seen[b]
}

func (g *graph) check() {
	sym.MustTerminate(400000)
	err := g.m.Validate()
	n := 0
	for _, e := range g.edges {
		p, x := g.xpath(e)
		if e.obj == e.to {
			sym.Assert(reported(err, p, x), "a component that refers to its own object is reported")
			sym.Cover("self")
		} else if !g.reach(e.to, e.obj) {
			sym.Assert(!reported(err, p, x), "a component that is not recursive is not reported")
			sym.Cover("tree")
		} else {
			n++
		}
	}
	if n > 0 {
		sym.Cover("indirect")
	}
	g.m.BoundingBox()
	sym.Cover("terminates")
}

// H_core: one part, core only.
func H_core() {
	g := build(sym.Bound(3, 4), 1, 2, sym.Choice(3))
	g.check()
}

// H_extensions: one part with every extension declared and used.
func H_extensions() {
	g := build(3, 1, 2, sym.Choice(sym.Bound(2, 3)))
	g.extensions()
	g.check()
}

// H_parts: several parts referring to each other.
func H_parts() {
	moved := sym.Choice(sym.Bound(2, 3))
	g := build(4, 2, 1, moved)
	if moved == 1 || sym.Tier() == 1 && sym.Choice(2) == 1 {
		g.extensions()
	}
	g.check()
}

// H_paths: objects that can be reached in very many ways, as every one has
// several components with the next ones, and in circles.
func H_paths() {
	n := sym.Concrete(sym.Bound(30, 60))
	far := 1 + sym.Choice(3)
	circle := sym.Bool()
	parts := 1 + sym.Choice(2)
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{"/a": {}}}
	for i := 0; i < n; i++ {
		o := &go3mf.Object{ID: uint32(i + 1)}
		if i%parts == 0 {
			m.Resources.Objects = append(m.Resources.Objects, o)
		} else {
			m.Childs["/a"].Resources.Objects = append(m.Childs["/a"].Resources.Objects, o)
		}
		if i >= n-3 && !(circle && i == n-1) {
			o.Mesh = &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{1, 2, 3}, {4, 5, 6}}}}
			continue
		}
		o.Components = new(go3mf.Components)
		for _, to := range []int{i + 1, i + far, i + 1} {
			to %= n
			c := &go3mf.Component{ObjectID: uint32(to + 1)}
			if i == n-1 && far == 1 {
				// back to the object that is built, which adds nothing
				c.Transform = go3mf.Identity().Translate(sym.Float32(), 7, 7)
			}
			if to%parts != i%parts {
				c.AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: []string{root, "/a"}[to%parts]}}
			}
			o.Components.Component = append(o.Components.Component, c)
		}
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}, {ObjectID: 1}}
	g := &graph{m: m, objs: m.Resources.Objects}
	if sym.Bool() {
		g.extensions()
	}
	sym.MustTerminate(3000000)
	m.Validate()
	box := m.BoundingBox()
	sym.Assert(box == go3mf.Box{Min: go3mf.Point3D{1, 2, 3}, Max: go3mf.Point3D{4, 5, 6}}, "the box is the one of the meshes")
}

// H_back: a component that leads back to the object it is in adds nothing to the box, wherever it is placed.
func H_back() {
	mesh := func(x float32) *go3mf.Mesh {
		return &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{{x, 2, 3}, {x + 1, 5, 6}}}}
	}
	t := go3mf.Identity().Translate(sym.Float32(), 7, -7)
	t[0], t[5] = []float32{1, -1, 3}[sym.Choice(3)], 2
	n := 1 + sym.Choice(3) // objects in the circle
	m := new(go3mf.Model)
	var want go3mf.Box
	has := false
	for i := 0; i < n; i++ {
		o := &go3mf.Object{ID: uint32(i + 1), Components: new(go3mf.Components)}
		next := &go3mf.Component{ObjectID: uint32((i+1)%n + 1)}
		if i == n-1 {
			next.Transform = t
		}
		o.Components.Component = []*go3mf.Component{next}
		if sym.Choice(2) == 1 {
			id := uint32(10 + i)
			c := &go3mf.Component{ObjectID: id}
			at := sym.Choice(2)
			o.Components.Component = append(o.Components.Component[:at:at], append([]*go3mf.Component{c}, o.Components.Component[at:]...)...)
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: id, Mesh: mesh(float32(i))})
			if !has {
				want = go3mf.Box{Min: go3mf.Point3D{float32(i), 2, 3}, Max: go3mf.Point3D{float32(i), 5, 6}}
			}
			has = true
			want.Max[0] = float32(i + 1)
		}
		m.Resources.Objects = append(m.Resources.Objects, o)
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	sym.MustTerminate(100000)
	sym.Assert(m.BoundingBox() == want, "the box is the one of the meshes")
	sym.Cover("back")
}

// H_threeparts: three parts with one object each.
//
//verif:tier=thorough
func H_threeparts() {
	g := build(3, 3, 2, sym.Choice(2))
	g.extensions()
	g.check()
}

// H_indirect: recursion through other objects is reported too.
//
//verif:known
func H_indirect() {
	g := build(3, 1, 1, 0)
	err := g.m.Validate()
	for _, e := range g.edges {
		if e.obj != e.to && g.reach(e.to, e.obj) {
			p, x := g.xpath(e)
			sym.Assert(reported(err, p, x), "a component that leads back to its own object through others is reported")
		}
	}
	sym.Cover("done")
}
