//go:build go1.22

// Package c22: bounding boxes.
package c22

import (
	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
)

// H_mesh: the box of a mesh over all finite coordinates.
func H_mesh() {
	n := 1 + sym.Choice(sym.Bound(3, 4))
	m := new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		m.Vertices.Vertex = append(m.Vertices.Vertex, go3mf.Point3D{sym.Float32(), sym.Float32(), sym.Float32()})
	}
	b := m.BoundingBox()
	for a := 0; a < 3; a++ {
		lo, hi := false, false
		for _, v := range m.Vertices.Vertex {
			sym.Assert(b.Min[a] <= v[a] && v[a] <= b.Max[a], "the box of a mesh contains its vertices")
			lo, hi = lo || v[a] == b.Min[a], hi || v[a] == b.Max[a]
		}
		sym.Assert(lo && hi, "the box of a mesh is tight")
	}
	sym.Cover("mesh")
}

const lim = 1000

func pt() go3mf.Point3D {
	return go3mf.Point3D{sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim)}
}

// linear parts: diagonal ones (tightness is required) first
var linear = [][9]float32{
	{1, 0, 0, 0, 1, 0, 0, 0, 1}, {-1, 0, 0, 0, 1, 0, 0, 0, 1}, {2, 0, 0, 0, -3, 0, 0, 0, -1}, {0, 0, 0, 0, 1, 0, 0, 0, -2},
	// quarter turns and axis permutations
	{0, 1, 0, -1, 0, 0, 0, 0, 1}, {0, 0, 1, 1, 0, 0, 0, 1, 0}, {1, 0, 0, 0, 0, 2, 0, -2, 0},
	// rotation and shear
	{3, 4, 0, -4, 3, 0, 0, 0, 5}, {1, 0, 0, 2, 1, 0, 0, -3, 1}, {1, 2, 2, 2, 1, -2, 2, -2, 1},
}

const axisAligned = 7

func matrix(k int) go3mf.Matrix {
	l := linear[k]
	return go3mf.Matrix{l[0], l[1], l[2], 0, l[3], l[4], l[5], 0, l[6], l[7], l[8], 0, sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim), 1}
}

func within(b go3mf.Box, v go3mf.Point3D) bool {
	return b.Min[0] <= v[0] && v[0] <= b.Max[0] && b.Min[1] <= v[1] && v[1] <= b.Max[1] && b.Min[2] <= v[2] && v[2] <= b.Max[2]
}

func tight(b go3mf.Box, vs []go3mf.Point3D) bool {
	for a := 0; a < 3; a++ {
		lo, hi := false, false
		for _, v := range vs {
			lo, hi = lo || v[a] == b.Min[a], hi || v[a] == b.Max[a]
		}
		if !lo || !hi {
			return false
		}
	}
	return true
}

// H_mulbox: transforming a box keeps every point of the box inside.
func H_mulbox() {
	k := sym.Choice(len(linear))
	m := matrix(k)
	lo, hi := pt(), pt()
	sym.Assume(lo[0] <= hi[0] && lo[1] <= hi[1] && lo[2] <= hi[2])
	b := m.MulBox(go3mf.Box{Min: lo, Max: hi})
	p := pt()
	sym.Assume(lo[0] <= p[0] && p[0] <= hi[0] && lo[1] <= p[1] && p[1] <= hi[1] && lo[2] <= p[2] && p[2] <= hi[2])
	sym.Assert(within(b, m.Mul3D(p)), "the transformed box contains every transformed point")
	if k < axisAligned {
		var cs []go3mf.Point3D
		for i := 0; i < 8; i++ {
			c := lo
			for a := 0; a < 3; a++ {
				if i>>uint(a)&1 == 1 {
					c[a] = hi[a]
				}
			}
			cs = append(cs, m.Mul3D(c))
		}
		sym.Assert(tight(b, cs), "an axis-aligned transform keeps the box tight")
	}
	sym.Assert(go3mf.Matrix{}.MulBox(go3mf.Box{Min: lo, Max: hi}) == go3mf.Box{Min: lo, Max: hi}, "an unset transform changes nothing")
	sym.Cover("mulbox")
}

type placed struct {
	vs      []go3mf.Point3D
	aligned bool
}

// chain builds an object that nests depth component levels over a mesh, across parts.
func mesh(n int) *go3mf.Mesh {
	m := new(go3mf.Mesh)
	for i := 0; i < n; i++ {
		m.Vertices.Vertex = append(m.Vertices.Vertex, pt())
	}
	return m
}

func apply(k int, vs []go3mf.Point3D) (go3mf.Matrix, []go3mf.Point3D) {
	var m go3mf.Matrix
	if k < 0 {
		return m, vs
	}
	m = matrix(k)
	r := make([]go3mf.Point3D, len(vs))
	for i, v := range vs {
		r[i] = m.Mul3D(v)
	}
	return m, r
}

func kind() int { return sym.Choice(sym.Bound(2, 4))*3 - 1 } // -1, 2, 5, 8

func expect(m *go3mf.Model, all []go3mf.Point3D, aligned bool) {
	b := m.BoundingBox()
	if len(all) == 0 {
		sym.Assert(b == go3mf.Box{}, "nothing built gives the empty box")
		return
	}
	for _, v := range all {
		sym.Assert(within(b, v), "the model box contains every built vertex")
	}
	if aligned {
		sym.Assert(tight(b, all), "the model box is tight for axis-aligned placements")
	}
	sym.Cover("model")
}

// H_items: items of meshes, missing references and empty meshes.
func H_items() {
	m := new(go3mf.Model)
	n1 := sym.Choice(3)
	m.Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: mesh(n1)}, {ID: 2, Mesh: mesh(1)}}
	var all []go3mf.Point3D
	aligned := true
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		it := &go3mf.Item{ObjectID: uint32(1 + sym.Choice(3))}
		var vs []go3mf.Point3D
		if it.ObjectID < 3 {
			vs = m.Resources.Objects[it.ObjectID-1].Mesh.Vertices.Vertex
		}
		k := kind()
		aligned = aligned && k < axisAligned
		it.Transform, vs = apply(k, vs)
		all = append(all, vs...)
		m.Build.Items = append(m.Build.Items, it)
	}
	expect(m, all, aligned)
}

// H_tree: nested components within and across parts.
func H_tree() {
	leaf := &go3mf.Object{ID: 1, Mesh: mesh(2)}
	decoy := &go3mf.Object{ID: 1, Mesh: mesh(1)}
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{"/a": {}, "/b": {}}}
	m.Resources.Objects = []*go3mf.Object{decoy}
	all := leaf.Mesh.Vertices.Vertex
	aligned := true
	comp := func(id uint32, path string) *go3mf.Component {
		c := &go3mf.Component{ObjectID: id}
		k := kind()
		aligned = aligned && k < axisAligned
		c.Transform, all = apply(k, all)
		if path != "" {
			c.AnyAttr = append(c.AnyAttr, &production.ComponentAttr{Path: path})
		}
		return c
	}
	// /b holds the leaf, /a an object over it, the root one over /a or an item path straight to it
	m.Childs["/b"].Resources.Objects = []*go3mf.Object{leaf}
	mid := &go3mf.Object{ID: 1}
	switch sym.Choice(3) {
	case 0:
		mid.ID = 2
		mid.Components = &go3mf.Components{Component: []*go3mf.Component{comp(1, "/b")}}
		m.Childs["/a"].Resources.Objects = []*go3mf.Object{mid}
	case 1:
		// a component without path stays in the part it was found in
		mid.ID = 2
		mid.Components = &go3mf.Components{Component: []*go3mf.Component{comp(1, "")}}
		m.Childs["/b"].Resources.Objects = append(m.Childs["/b"].Resources.Objects, mid)
	case 2:
		mid.ID = 2
		mid.Components = &go3mf.Components{Component: []*go3mf.Component{comp(1, "/b"), {ObjectID: 77}, {ObjectID: 1, AnyAttr: nil}}}
		m.Childs["/a"].Resources.Objects = []*go3mf.Object{{ID: 1, Mesh: new(go3mf.Mesh)}, mid}
	}
	where := "/a"
	if len(m.Childs["/a"].Resources.Objects) == 0 {
		where = "/b"
	}
	it := &go3mf.Item{ObjectID: 2}
	if sym.Choice(2) == 0 {
		it.AnyAttr = append(it.AnyAttr, &production.ItemAttr{Path: where})
	} else {
		top := &go3mf.Object{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{comp(2, where)}}}
		m.Resources.Objects = append(m.Resources.Objects, top)
	}
	k := sym.Choice(2)*2 - 1
	it.Transform, all = apply(k, all)
	m.Build.Items = []*go3mf.Item{it}
	expect(m, all, aligned)
}

// H_many: much more of one thing than fits a small counter, one of which is anywhere.
func H_many() {
	n := sym.Concrete(sym.Bound(300, 3000))
	k := sym.Concrete([]int{n - 1, 255, 256, 0}[sym.Choice(sym.Bound(2, 4))])
	p := pt()
	m := new(go3mf.Model)
	at := func(i int) go3mf.Point3D {
		if i == k {
			return p
		}
		return go3mf.Point3D{float32(i % 2), 2, -3}
	}
	one := func(id uint32, p go3mf.Point3D) *go3mf.Object {
		return &go3mf.Object{ID: id, Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{p}}}}
	}
	m.Build.Items = []*go3mf.Item{{ObjectID: 1}}
	var all []go3mf.Point3D
	switch sym.Choice(3) {
	case 0: // vertices
		o := one(1, at(0))
		for i := 1; i < n; i++ {
			o.Mesh.Vertices.Vertex = append(o.Mesh.Vertices.Vertex, at(i))
		}
		m.Resources.Objects = []*go3mf.Object{o}
		all = o.Mesh.Vertices.Vertex
	case 1: // components
		c := &go3mf.Object{ID: 1, Components: new(go3mf.Components)}
		for i := 0; i < n; i++ {
			m.Resources.Objects = append(m.Resources.Objects, one(uint32(i+2), at(i)))
			c.Components.Component = append(c.Components.Component, &go3mf.Component{ObjectID: uint32(i + 2)})
			all = append(all, at(i))
		}
		m.Resources.Objects = append(m.Resources.Objects, c)
	case 2: // levels
		v := p
		m.Resources.Objects = []*go3mf.Object{one(1, p)}
		n = min(n, 700)
		for i := 1; i < n; i++ {
			t := go3mf.Matrix{}
			if i == n/2 {
				t = go3mf.Identity().Translate(0, 0, 7)
				v[2] += 7
			}
			m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(i + 1), Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: uint32(i), Transform: t}}}})
		}
		m.Build.Items[0].ObjectID = uint32(n)
		all = []go3mf.Point3D{v}
	}
	expect(m, all, true)
}

// H_schedules: the items are measured at the same time, whatever the schedule.
//
//verif:race
//verif:preempt=2
func H_schedules() {
	m := new(go3mf.Model)
	pts := []go3mf.Point3D{{1, 2, 3}, {-4, 5, -6}, {7, -8, 9}}
	for i, p := range pts {
		m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: uint32(1 + i), Mesh: &go3mf.Mesh{Vertices: go3mf.Vertices{Vertex: []go3mf.Point3D{p}}}})
	}
	m.Resources.Objects = append(m.Resources.Objects, &go3mf.Object{ID: 4, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1}, {ObjectID: 2}}}})
	var all []go3mf.Point3D
	for i, n := 0, sym.Bound(2, 3); i < n; i++ {
		id := 1 + sym.Choice(4)
		m.Build.Items = append(m.Build.Items, &go3mf.Item{ObjectID: uint32(id)})
		if id == 4 {
			all = append(all, pts[0], pts[1])
		} else {
			all = append(all, pts[id-1])
		}
	}
	expect(m, all, true)
}
