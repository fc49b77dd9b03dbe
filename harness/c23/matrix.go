//go:build go1.22

// Package c23: matrix algebra.
package c23

import (
	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

const lim = 32

func any(affine bool) (m go3mf.Matrix) {
	for i := range m {
		if affine && i%4 == 3 {
			continue
		}
		m[i] = sym.IntFloat(-lim, lim)
	}
	if affine {
		m[15] = 1
	}
	return
}

func point() go3mf.Point3D {
	return go3mf.Point3D{sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim), sym.IntFloat(-lim, lim)}
}

// H_compose: the product applies the factors in turn.
func H_compose() {
	a, b, p := any(true), any(true), point()
	sym.Assert(a.Mul(b).Mul3D(p) == a.Mul3D(b.Mul3D(p)), "a product applies its factors in turn")
	ab := a.Mul(b)
	sym.Assert(ab[3] == 0 && ab[7] == 0 && ab[11] == 0 && ab[15] == 1, "the product of affine matrices is affine")
	sym.Cover("done")
}

// H_algebra: associativity and neutral element over all 4x4 matrices.
func H_algebra() {
	a, b, c := any(false), any(false), any(false)
	sym.Assert(a.Mul(b).Mul(c) == a.Mul(b.Mul(c)), "products associate")
	id := go3mf.Identity()
	sym.Assert(a.Mul(id) == a && id.Mul(a) == a, "the identity is neutral")
	sym.Cover("done")
}

// H_entries: every entry of the product is the row by column sum of the transposed layout.
func H_entries() {
	a, b := any(false), any(false)
	p := a.Mul(b)
	for r := 0; r < 4; r++ {
		for c := 0; c < 4; c++ {
			var s float32
			for k := 0; k < 4; k++ {
				s += b[4*r+k] * a[4*k+c]
			}
			sym.Assert(p[4*r+c] == s, "entries are row by column sums")
		}
	}
	sym.Cover("done")
}

// H_translate: translating composes with a pure translation.
func H_translate() {
	a, d, p := any(true), point(), point()
	t := go3mf.Identity()
	t[12], t[13], t[14] = d[0], d[1], d[2]
	sym.Assert(t == go3mf.Identity().Translate(d[0], d[1], d[2]), "translating the identity is the pure translation")
	sym.Assert(a.Translate(d[0], d[1], d[2]) == t.Mul(a), "translating composes with a pure translation")
	q := a.Mul3D(p)
	sym.Assert(a.Translate(d[0], d[1], d[2]).Mul3D(p) == go3mf.Point3D{q[0] + d[0], q[1] + d[1], q[2] + d[2]}, "translation moves points by the offset")
	sym.Cover("done")
}

// H_planar: 2D and 3D products agree on planar points.
func H_planar() {
	a, p := any(true), point()
	q2 := a.Mul2D(go3mf.Point2D{p[0], p[1]})
	q3 := a.Mul3D(go3mf.Point3D{p[0], p[1], 0})
	sym.Assert(q2[0] == q3[0] && q2[1] == q3[1], "2D and 3D products agree on planar points")
	sym.Cover("done")
}

// H_text: the textual form parses back.
func H_text() {
	m, q := lib.Matrix()
	got, ok := spec.ParseMatrix(m.String())
	sym.Assert(ok, "the textual form parses")
	sym.Assert(got == q, "the textual form is the same matrix")
	sym.Cover("done")
}
