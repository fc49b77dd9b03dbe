//go:build go1.22

// Package c21: mesh coherency.
package c21

import (
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

func edges(t go3mf.Triangle) [3][2]uint32 {
	return [3][2]uint32{{t.V1, t.V2}, {t.V2, t.V3}, {t.V3, t.V1}}
}

// coherent: every edge is used by exactly two triangles, once in each direction.
func coherent(ts []go3mf.Triangle) bool {
	ok := true
	for i := range ts {
		for _, e := range edges(ts[i]) {
			same, opposite := 0, 0
			for j := range ts {
				for _, f := range edges(ts[j]) {
					if f == e {
						same++
					}
					if f[0] == e[1] && f[1] == e[0] && e[0] != e[1] {
						opposite++
					}
				}
			}
			ok = ok && same == 1 && opposite == 1
		}
	}
	return ok
}

func tri() go3mf.Triangle {
	return go3mf.Triangle{V1: sym.Uint32(), V2: sym.Uint32(), V3: sym.Uint32()}
}

func vertices(n int) go3mf.Vertices { return go3mf.Vertices{Vertex: make([]go3mf.Point3D, n)} }

var tetra = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}, {V1: 0, V2: 3, V3: 1}, {V1: 0, V2: 2, V3: 3}, {V1: 1, V2: 3, V3: 2}}

var octa = []go3mf.Triangle{{V1: 0, V2: 1, V3: 2}, {V1: 0, V2: 2, V3: 3}, {V1: 0, V2: 3, V3: 4}, {V1: 0, V2: 4, V3: 1}, {V1: 5, V2: 2, V3: 1}, {V1: 5, V2: 3, V3: 2}, {V1: 5, V2: 4, V3: 3}, {V1: 5, V2: 1, V3: 4}}

func verdict(m *go3mf.Mesh) {
	err := m.ValidateCoherency()
	switch {
	case len(m.Vertices.Vertex) < 3:
		sym.Assert(err == errors.ErrInsufficientVertices, "fewer than three vertices")
	case len(m.Triangles.Triangle) < 4:
		sym.Assert(err == errors.ErrInsufficientTriangles, "fewer than four triangles")
	default:
		ok := coherent(m.Triangles.Triangle)
		sym.Assert((err == nil) == ok, "accepted exactly when every edge joins two triangles in opposite directions")
		sym.Assert(ok || err == errors.ErrMeshConsistency, "an incoherent mesh gives the consistency error")
		if ok {
			sym.Cover("coherent")
		} else {
			sym.Cover("incoherent")
		}
	}
}

// H_counts: too few vertices or triangles.
func H_counts() {
	m := &go3mf.Mesh{Vertices: vertices(sym.Choice(5))}
	m.Triangles.Triangle = append(m.Triangles.Triangle, tetra[:sym.Choice(5)]...)
	verdict(m)
}

// H_perturbed: closed meshes with some corners replaced by any index.
func H_perturbed() {
	n := sym.Bound(2, 3)
	base := tetra
	if sym.Choice(2) == 1 {
		base, n = octa, n-1
	}
	m := &go3mf.Mesh{Vertices: vertices(6)}
	m.Triangles.Triangle = append([]go3mf.Triangle(nil), base...)
	for k := 0; k < n; k++ {
		i := k
		if k == 0 {
			i = sym.Choice(len(base))
		}
		t := &m.Triangles.Triangle[i]
		switch sym.Choice(3) {
		case 0:
			t.V1 = sym.Uint32()
		case 1:
			t.V2 = sym.Uint32()
		case 2:
			t.V3 = sym.Uint32()
		}
	}
	verdict(m)
}

// H_free: wholly arbitrary triangles next to fixed ones.
func H_free() {
	m := &go3mf.Mesh{Vertices: vertices(6)}
	m.Triangles.Triangle = append(m.Triangles.Triangle, tetra[:sym.Bound(3, 2)]...)
	for len(m.Triangles.Triangle) < 4 {
		m.Triangles.Triangle = append(m.Triangles.Triangle, tri())
	}
	if sym.Choice(2) == 1 {
		m.Triangles.Triangle = append(m.Triangles.Triangle, tetra[3])
	}
	verdict(m)
}

func mesh(kind int) *go3mf.Mesh {
	switch kind {
	case 0:
		return nil
	case 1: // coherent
		return &go3mf.Mesh{Vertices: vertices(4), Triangles: go3mf.Triangles{Triangle: tetra}}
	case 2: // too few vertices
		return &go3mf.Mesh{Vertices: vertices(2), Triangles: go3mf.Triangles{Triangle: tetra}}
	case 3:
		return &go3mf.Mesh{Vertices: vertices(4), Triangles: go3mf.Triangles{Triangle: tetra[:3]}}
	}
	bad := append([]go3mf.Triangle(nil), tetra...)
	bad[3].V2, bad[3].V3 = bad[3].V3, bad[3].V2
	return &go3mf.Mesh{Vertices: vertices(4), Triangles: go3mf.Triangles{Triangle: bad}}
}

var reasons = []error{nil, nil, errors.ErrInsufficientVertices, errors.ErrInsufficientTriangles, errors.ErrMeshConsistency}

// H_model: every incoherent solid mesh is reported under its own path, whatever the schedule.
//
//verif:race
//verif:preempt=1
func H_model() {
	sym.MapOrder(3)
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{}}
	type want struct {
		path, xpath string
		err         error
	}
	var ws []want
	add := func(path string, rs *go3mf.Resources) {
		i := len(rs.Objects)
		k := sym.Choice(5)
		if i > 0 {
			k = 3 + sym.Choice(2)
		}
		t := go3mf.ObjectType([]int{0, 3, 2}[sym.Choice(3)])
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: uint32(i + 1), Mesh: mesh(k), Type: t})
		if k > 1 && (t == go3mf.ObjectTypeModel || t == go3mf.ObjectTypeSolidSupport) {
			x := "/model/resources/object[0]/mesh"
			if i == 1 {
				x = "/model/resources/object[1]/mesh"
			}
			ws = append(ws, want{path, x, reasons[k]})
		}
	}
	a := new(go3mf.ChildModel)
	switch sym.Choice(3) {
	case 0:
		add("", &m.Resources)
		add("", &m.Resources)
	case 1:
		add("", &m.Resources)
		m.Childs["/a"] = a
		add("/a", &a.Resources)
	case 2:
		b := new(go3mf.ChildModel)
		m.Childs["/a"], m.Childs["/b"] = a, b
		add("/b", &b.Resources)
		add("/a", &a.Resources)
	}
	err := m.ValidateCoherency()
	if len(ws) == 0 {
		sym.Assert(err == nil, "coherent models are accepted")
		return
	}
	l, ok := err.(*errors.List)
	sym.Assert(ok && l.Len() == len(ws), "one error for each incoherent solid mesh")
	for _, w := range ws {
		found := false
		for _, e := range l.Errors {
			if e, ok := e.(*errors.Error); ok && e.Path == w.path && e.XPath() == w.xpath && e.Err == w.err {
				found = true
			}
		}
		sym.Assert(found, "each incoherent solid mesh is reported under its own path")
	}
	sym.Cover("model")
}

// H_double: two closed tetrahedra whose corners may coincide in any way.
func H_double() {
	m := &go3mf.Mesh{Vertices: vertices(8)}
	m.Triangles.Triangle = append(m.Triangles.Triangle, tetra...)
	v := [4]uint32{sym.Uint32(), sym.Uint32(), 8, 9}
	if sym.Tier() == 1 {
		v[2] = sym.Uint32()
	}
	for _, t := range tetra {
		m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: v[t.V1], V2: v[t.V2], V3: v[t.V3]})
	}
	verdict(m)
}

// H_many: many closed shapes whose vertices are far apart in the list, one of whose triangles may be turned.
func H_many() {
	n := sym.Concrete(sym.Bound(300, 3000))
	stride := sym.Concrete([]int{4, 256, 65536, 1 << 20}[sym.Choice(4)])
	m := &go3mf.Mesh{Vertices: vertices(4)}
	for i := 0; i < n; i++ {
		for _, t := range tetra {
			o := uint32(i * stride)
			m.Triangles.Triangle = append(m.Triangles.Triangle, go3mf.Triangle{V1: o + t.V1, V2: o + t.V2, V3: o + t.V3})
		}
	}
	k := sym.Concrete([]int{0, 255, 256, n - 1}[sym.Choice(4)])
	t := &m.Triangles.Triangle[4*k+sym.Choice(4)]
	switch sym.Choice(4) {
	case 0:
		sym.Assert(m.ValidateCoherency() == nil, "accepted exactly when every edge joins two triangles in opposite directions")
		sym.Cover("coherent")
		return
	case 1:
		t.V1, t.V2 = t.V2, t.V1
	case 2:
		t.V3 += 1 << 16
	case 3:
		t.V2 = uint32((n + 1) * stride)
	}
	sym.Assert(m.ValidateCoherency() == errors.ErrMeshConsistency, "an incoherent mesh gives the consistency error")
	sym.Cover("incoherent")
}
