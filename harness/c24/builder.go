//go:build go1.22

// Package c24: the mesh builder.
package c24

import (
	"math"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

const grid = 1e-6

func far(a, b float32) bool {
	d := float64(a) - float64(b)
	return d > grid || d < -grid
}

func apart(p, q go3mf.Point3D) bool { return far(p[0], q[0]) || far(p[1], q[1]) || far(p[2], q[2]) }

func pair(axis int, x, y float32) {
	var p, q go3mf.Point3D
	p[axis], q[axis] = x, y
	mesh := new(go3mf.Mesh)
	mb := go3mf.NewMeshBuilder(mesh)
	i := mb.AddVertex(p)
	sym.Assert(i == 0 && len(mesh.Vertices.Vertex) == 1 && mesh.Vertices.Vertex[0] == p, "the first vertex is stored")
	j := mb.AddVertex(q)
	sym.Assert(int(j) < len(mesh.Vertices.Vertex), "the index is in range")
	if p == q {
		sym.Assert(j == i && len(mesh.Vertices.Vertex) == 1, "a coordinate added twice keeps its index")
		sym.Cover("same")
		return
	}
	if j == i {
		sym.Assert(!apart(mesh.Vertices.Vertex[j], q), "vertices farther apart than the grid never share an index")
	} else {
		sym.Assert(j == 1 && len(mesh.Vertices.Vertex) == 2 && mesh.Vertices.Vertex[1] == q, "a new vertex is appended as given")
		sym.Cover("two")
	}
}

// biased exponents: denormal range to the largest finite one
var exps = []uint32{127, 139, 137, 140, 160, 106, 120, 254, 0, 107, 128, 133, 138, 145, 151, 200, 80}

// coord has a chosen exponent and 6 (thorough: 10) free leading mantissa bits.
func coord(e, sign uint32) float32 {
	return math.Float32frombits(sign<<31 | e<<23 | (uint32(sym.Uint16())&uint32(sym.Bound(0x3f, 0x3ff)))<<uint(sym.Bound(17, 13)))
}

// H_leading: two additions of points that differ in one coordinate of any magnitude, the leading mantissa bits free.
func H_leading() {
	axis := sym.Choice(3)
	e := exps[sym.Choice(sym.Bound(6, len(exps)))]
	s := uint32(sym.Choice(2))
	x := coord(e, s)
	if sym.Choice(2) == 1 && e > 0 {
		e--
	} else if sym.Tier() == 1 && sym.Choice(2) == 1 {
		s = 1 - s
	}
	pair(axis, x, coord(e, s))
}

// H_trailing: coordinates that share their leading mantissa bits and differ in the last ones.
func H_trailing() {
	axis := sym.Choice(sym.Bound(1, 3))
	e := []uint32{140, 160, 254, 145, 151, 200}[sym.Choice(sym.Bound(3, 6))]
	k := uint32(1)<<uint(sym.Bound(5, 7)) - 1
	hi := []uint32{0x7fffff, 0, 0x2aaaaa, 0x431bde}[sym.Choice(4)] &^ k
	s := uint32(sym.Choice(2)) << 31
	pair(axis, math.Float32frombits(s|e<<23|hi|sym.Uint32()&k), math.Float32frombits(s|e<<23|hi|sym.Uint32()&k))
}

// H_any: two additions over all finite coordinates; the distance query may be out of the solver's reach.
//
//verif:tier=thorough
func H_any() {
	pair(sym.Choice(3), sym.Float32(), sym.Float32())
}

// H_many: many vertices, all of which are added again, in another order.
func H_many() {
	n := sym.Concrete(sym.Bound(5000, 20000))
	step := float32([]float64{1, 0.0009765625, 1e6}[sym.Concrete(sym.Choice(3))])
	mesh := new(go3mf.Mesh)
	mb := go3mf.NewMeshBuilder(mesh)
	at := func(i int) go3mf.Point3D {
		return go3mf.Point3D{float32(i%17) * step, float32(i/17%31) * step, float32(i/527) * step}
	}
	for i := 0; i < n; i++ {
		sym.Assert(mb.AddVertex(at(i)) == uint32(i), "a new vertex is appended")
	}
	for i := n - 1; i >= 0; i-- {
		sym.Assert(mb.AddVertex(at(i)) == uint32(i), "a coordinate added twice keeps its index")
	}
	sym.Assert(len(mesh.Vertices.Vertex) == n, "the mesh grows only for new vertices")
	for i, v := range mesh.Vertices.Vertex {
		sym.Assert(v == at(i), "indices handed out stay valid")
	}
	sym.Cover("many")
}

// H_history: sequences of additions with connectivity turned on and off, integral coordinates.
func H_history() {
	const lim = 1 << 22
	mesh := new(go3mf.Mesh)
	mb := go3mf.NewMeshBuilder(mesh)
	type entry struct {
		p  go3mf.Point3D
		on bool
	}
	var log []entry // what the mesh must hold
	n := sym.Bound(3, 4)
	for k := 0; k < n; k++ {
		p := go3mf.Point3D{sym.IntFloat(-lim, lim), 0, 0}
		if sym.Tier() == 1 || k == 1 {
			p[1] = sym.IntFloat(-lim, lim)
		}
		p[2] = sym.IntFloat(0, 1)
		mb.CalculateConnectivity = sym.Choice(2) == 0
		i := mb.AddVertex(p)
		if mb.CalculateConnectivity {
			for j := range log {
				if log[j].on && log[j].p == p {
					sym.Assert(i == uint32(j), "a coordinate added twice keeps its index")
					sym.Cover("found")
					goto check
				}
			}
		}
		sym.Assert(i == uint32(len(log)), "a new vertex is appended")
		log = append(log, entry{p, mb.CalculateConnectivity})
	check:
		sym.Assert(len(mesh.Vertices.Vertex) == len(log), "the mesh grows only for new vertices")
		for j := range log {
			sym.Assert(mesh.Vertices.Vertex[j] == log[j].p, "indices handed out stay valid")
		}
	}
	sym.Cover("done")
}

// H_large: a mesh that already has more vertices than fit a small counter.
func H_large() {
	n := sym.Concrete([]int{65536, 255, 256, 65535, 65534, 100}[sym.Choice(6)])
	mesh := new(go3mf.Mesh)
	mesh.Vertices.Vertex = make([]go3mf.Point3D, n)
	for i := range mesh.Vertices.Vertex {
		mesh.Vertices.Vertex[i][2] = -1
	}
	mb := go3mf.NewMeshBuilder(mesh)
	x := sym.IntFloat(2, 1000)
	for k := 0; k < 2; k++ {
		for i := 0; i < 3; i++ {
			p := go3mf.Point3D{float32(i), 1, float32(2 * i)}
			if i == 2 {
				p[0] = x
			}
			sym.Assert(mb.AddVertex(p) == uint32(n+i), "a coordinate added twice keeps its index")
			if k == 0 {
				sym.Assert(len(mesh.Vertices.Vertex) == n+i+1 && mesh.Vertices.Vertex[n+i] == p, "a new vertex is appended as given")
			}
		}
	}
	sym.Assert(len(mesh.Vertices.Vertex) == n+3, "the mesh grows only for new vertices")
	sym.Cover("large")
}
