//go:build go1.22

// Package c18: slice validation.
//
//verif:budget quick=40 thorough=600
package c18

import (
	"github.com/hpinc/go3mf"
	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/slices"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/zzverif/lib"
)

const res = "/model/resources/"

var exts = []go3mf.Extension{slices.DefaultExtension}

func height() float32 {
	f := sym.Float32()
	sym.Assume(f > -3e38)
	return f
}

func closed() []slices.Polygon {
	return []slices.Polygon{{StartV: 1, Segments: []slices.Segment{{V2: 0}, {V2: 1}}}}
}

func slice(z float32) slices.Slice {
	return slices.Slice{TopZ: z, Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 2)}, Polygons: closed()}
}

// H_heights: heights increase from the bottom on; a zero height counts as absent.
func H_heights() {
	st := &slices.SliceStack{ID: sym.Uint32(), BottomZ: sym.Float32()}
	n := sym.Choice(sym.Bound(4, 5))
	for i := 0; i < n; i++ {
		st.Slices = append(st.Slices, slice(height()))
	}
	if sym.Choice(2) == 1 {
		st.Refs = []slices.SliceRef{{SliceStackID: 1, Path: "/d"}}
	}
	m, p := lib.Part(go3mf.Resources{Assets: []go3mf.Asset{st}}, exts...)
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: go3mf.Resources{Assets: []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(1)}}}}}
	x := res + "slicestack[0]"
	var w lib.Want
	w.If(st.ID == 0, p, x, errors.ErrMissingID)
	w.If((n == 0) == (len(st.Refs) == 0), p, x, slices.ErrSlicesAndRefs)
	for i, s := range st.Slices {
		sx := x + "/" + lib.Idx("slice", i)
		if s.TopZ == 0 {
			w.Missing(p, sx, "ztop")
		} else {
			w.If(s.TopZ < st.BottomZ, p, sx, slices.ErrSliceSmallTopZ)
		}
		w.If(i > 0 && s.TopZ <= st.Slices[i-1].TopZ, p, sx, slices.ErrSliceNoMonotonic)
	}
	w.Check(m.Validate())
}

// H_content: vertices, polygons and segments.
func H_content() {
	st := &slices.SliceStack{ID: 1}
	x := res + "slicestack[0]"
	var w lib.Want
	type loc struct {
		x   string
		err error
	}
	var ls []loc
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		s := slices.Slice{TopZ: float32(i + 1)}
		nv, np := sym.Choice(4), sym.Choice(3)
		s.Vertices.Vertex = make([]go3mf.Point2D, nv)
		sx := x + "/" + lib.Idx("slice", i)
		for k := 0; k < np; k++ {
			pl := slices.Polygon{Segments: make([]slices.Segment, sym.Choice(3))}
			if len(pl.Segments) == 0 {
				ls = append(ls, loc{sx + "/" + lib.Idx("polygon", k), slices.ErrSliceInsufficientSegments})
			}
			s.Polygons = append(s.Polygons, pl)
		}
		if nv+np > 0 {
			if nv < 2 {
				ls = append(ls, loc{sx, slices.ErrSliceInsufficientVertices})
			}
			if np < 1 {
				ls = append(ls, loc{sx, slices.ErrSliceInsufficientPolygons})
			}
		}
		st.Slices = append(st.Slices, s)
	}
	m, p := lib.Part(go3mf.Resources{Assets: []go3mf.Asset{st}}, exts...)
	for _, l := range ls {
		w.Add(p, l.x, l.err)
	}
	w.Check(m.Validate())
}

// H_refs: references to the stacks of other parts.
func H_refs() {
	a1, ai, a2, b1 := height(), height(), height(), height()
	sym.Assume(a1 > 0 && a1 < ai && ai < a2 && b1 > 0)
	m := &go3mf.Model{Extensions: exts, Childs: map[string]*go3mf.ChildModel{}}
	d := go3mf.Resources{Assets: []go3mf.Asset{
		&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(a1), slice(ai), slice(a2)}},
		&slices.SliceStack{ID: 2, Slices: []slices.Slice{slice(b1)}},
		&slices.SliceStack{ID: 3, Refs: []slices.SliceRef{{SliceStackID: 1, Path: "/e"}}},
		lib.Base(4, 1),
	}}
	e := go3mf.Resources{Assets: []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(1)}}}}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: d}
	m.Childs["/e"] = &go3mf.ChildModel{Resources: e}
	st := &slices.SliceStack{ID: 9}
	own, p := go3mf.DefaultModelPath, ""
	if sym.Choice(2) == 0 {
		m.Resources.Assets = []go3mf.Asset{st}
	} else {
		own, p = "/c", "/c"
		m.Childs["/c"] = &go3mf.ChildModel{Resources: go3mf.Resources{Assets: []go3mf.Asset{st}}}
	}
	paths := []string{"/d", own, "", "/missing"}
	n := 1 + sym.Choice(sym.Bound(2, 3))
	var w lib.Want
	last, has := float32(0), false
	for i := 0; i < n; i++ {
		r := slices.SliceRef{SliceStackID: sym.Uint32(), Path: paths[sym.Choice(4)]}
		st.Refs = append(st.Refs, r)
		x := res + "slicestack[0]/" + lib.Idx("sliceref", i)
		if r.Path == "" {
			w.Missing(p, x, "slicepath")
		}
		if r.SliceStackID == 0 {
			w.Missing(p, x, "slicestackid")
		}
		w.If(r.Path == own, p, x, slices.ErrSliceRefSamePart)
		if r.Path == "" || r.Path == own || r.SliceStackID == 0 {
			continue
		}
		if r.Path != "/d" || r.SliceStackID > 4 {
			w.Add(p, x, errors.ErrMissingResource)
			continue
		}
		switch r.SliceStackID {
		case 1:
			w.If(has && a1 <= last, p, x, slices.ErrSliceNoMonotonic)
			last, has = a2, true
		case 2:
			w.If(has && b1 <= last, p, x, slices.ErrSliceNoMonotonic)
			last, has = b1, true
		case 3:
			w.Add(p, x, slices.ErrSliceRefRef)
		case 4:
			w.Add(p, x, slices.ErrNonSliceStack)
		}
	}
	w.Check(m.Validate())
}

// H_closed: polygons of solid objects are closed, also in referenced stacks.
func H_closed() {
	st := &slices.SliceStack{ID: 1}
	ref := &slices.SliceStack{ID: 2}
	t := sym.Choice(5)
	open := false
	where := st
	if sym.Choice(2) == 1 {
		where = ref
		st.Refs = []slices.SliceRef{{SliceStackID: 2, Path: "/d"}}
	} else {
		ref.Slices = []slices.Slice{slice(1)}
	}
	for i, n := 0, 1+sym.Choice(2); i < n; i++ {
		s := slices.Slice{TopZ: float32(i + 1), Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, 3)}}
		for k, np := 0, 1+sym.Choice(2); k < np; k++ {
			pl := slices.Polygon{StartV: sym.Uint32()}
			for j, ns := 0, 1+sym.Choice(2); j < ns; j++ {
				pl.Segments = append(pl.Segments, slices.Segment{V2: sym.Uint32()})
			}
			if pl.StartV != pl.Segments[len(pl.Segments)-1].V2 {
				open = true
			}
			s.Polygons = append(s.Polygons, pl)
		}
		where.Slices = append(where.Slices, s)
	}
	o := &go3mf.Object{ID: 7, Type: go3mf.ObjectType(t), Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1}}}
	m, p := lib.Part(go3mf.Resources{Assets: []go3mf.Asset{st}, Objects: []*go3mf.Object{o}}, exts...)
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: go3mf.Resources{Assets: []go3mf.Asset{ref}}}
	var w lib.Want
	w.If(open && (t == int(go3mf.ObjectTypeModel) || t == int(go3mf.ObjectTypeSolidSupport)), p, res+"object[0]", slices.ErrSlicePolygonNotClosed)
	w.Check(m.Validate())
}

// H_binding: the stack an object names and its mesh resolution.
func H_binding() {
	a := &slices.ObjectAttr{SliceStackID: sym.Uint32(), MeshResolution: slices.MeshResolution(sym.Int(0, 1))}
	o := &go3mf.Object{ID: 7, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{a}}
	es := []go3mf.Extension{{Namespace: "http://x"}, {Namespace: slices.Namespace, LocalName: "s", IsRequired: sym.Bool()}}
	m, p := lib.Part(go3mf.Resources{
		Assets:  []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(1)}}, lib.Base(2, 1)},
		Objects: []*go3mf.Object{{ID: 3, Mesh: lib.Solid()}, o},
	}, es...)
	x := res + "object[1]"
	var w lib.Want
	switch {
	case a.SliceStackID == 0:
		w.Missing(p, x, "slicestackid")
	case a.SliceStackID == 2:
		w.Add(p, x, slices.ErrNonSliceStack)
	case a.SliceStackID != 1:
		w.Add(p, x, errors.ErrMissingResource)
	}
	w.If(a.MeshResolution == slices.ResolutionLow && !es[1].IsRequired, p, x, slices.ErrSliceExtRequired)
	w.Check(m.Validate())
}

// transform is none, the identity or any matrix.
func transform() (t go3mf.Matrix, planar bool) {
	switch sym.Choice(3) {
	case 0:
		return t, true
	case 1:
		return go3mf.Identity(), true
	}
	for i := range t {
		t[i] = sym.Float32()
	}
	t[3], t[7], t[11], t[15] = 0, 0, 0, 1
	return t, t[2] == 0 && t[6] == 0 && t[8] == 0 && t[9] == 0 && t[10] == 1
}

// H_item: the transform of the item that builds the object.
func H_item() {
	o := &go3mf.Object{ID: 7, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1}}}
	m, p := lib.Part(go3mf.Resources{
		Assets:  []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(1)}}},
		Objects: []*go3mf.Object{o},
	}, exts...)
	bad := false
	for i, n := 0, 1+sym.Choice(sym.Bound(1, 2)); i < n; i++ {
		t, planar := transform()
		it := &go3mf.Item{ObjectID: 7, Transform: t}
		if p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
		}
		m.Build.Items = append(m.Build.Items, it)
		bad = bad || !planar
	}
	var w lib.Want
	w.If(bad, p, res+"object[0]", slices.ErrSliceInvalidTranform)
	w.Check(m.Validate())
}

// H_nested: transforms anywhere on the way from the build to the object.
func H_nested() {
	mk := func(i int) go3mf.Matrix { // 0 none, 1 planar, 2 and 3 not planar
		t := go3mf.Identity()
		switch i {
		case 0:
			return go3mf.Matrix{}
		case 1:
			t[0], t[1], t[12], t[14] = 2, 3, 4, 5
		case 2:
			t[2] = sym.Float32()
			sym.Assume(t[2] != 0)
		}
		return t
	}
	k0, k1, k2 := sym.Choice(3), sym.Choice(3), sym.Choice(3)
	attr := func() spec.AnyAttr { return spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 1}} }
	// item -> 3 -> 2 -> 1, with slices on any of them
	objs := []*go3mf.Object{
		{ID: 1, Mesh: lib.Solid()},
		{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1, Transform: mk(k2)}}}},
		{ID: 3, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 2, Transform: mk(k1)}}}},
	}
	bad := []bool{k0 == 2 || k1 == 2 || k2 == 2, k0 == 2 || k1 == 2, k0 == 2}
	m := &go3mf.Model{Extensions: exts}
	rs := go3mf.Resources{Assets: []go3mf.Asset{&slices.SliceStack{ID: 1, Slices: []slices.Slice{slice(1)}}}}
	rs.Assets[0].(*slices.SliceStack).ID = 20
	for i := range objs {
		if sym.Choice(2) == 1 {
			objs[i].AnyAttr = attr()
			objs[i].AnyAttr[0].(*slices.ObjectAttr).SliceStackID = 20
		}
	}
	var w lib.Want
	p := ""
	split := sym.Choice(2)
	m.Build.Items = []*go3mf.Item{{ObjectID: 3, Transform: mk(k0)}}
	if split == 1 { // 3 in the root, the others in another part
		p = "/c"
		objs[2].Components.Component[0].AnyAttr = spec.AnyAttr{&production.ComponentAttr{Path: "/c"}}
		m.Childs = map[string]*go3mf.ChildModel{"/c": {Resources: go3mf.Resources{Assets: rs.Assets, Objects: objs[:2]}}}
		m.Resources = go3mf.Resources{Assets: rs.Assets, Objects: objs[2:]}
	} else {
		rs.Objects = objs
		m.Resources = rs
	}
	for i, o := range objs {
		if len(o.AnyAttr) == 0 {
			continue
		}
		if split == 1 && i == 2 {
			w.If(bad[i], "", res+"object[0]", slices.ErrSliceInvalidTranform)
		} else {
			w.If(bad[i], p, res+lib.Idx("object", i), slices.ErrSliceInvalidTranform)
		}
	}
	w.Check(m.Validate())
}

// H_ways: an object that is placed in several ways, in any order, some of which are not planar.
func H_ways() {
	n := 0
	mk := func() (t go3mf.Matrix, bad bool) {
		n++
		switch sym.Choice(2) {
		case 0:
			if n%2 == 0 {
				t = go3mf.Matrix{2, 3, 0, 0, 4, 5, 0, 0, 0, 0, 1, 0, 6, 7, 8, 1}
			}
			return t, false
		}
		t = go3mf.Matrix{1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1}
		t[[]int{2, 6, 8, 9, 10}[n%5]] = 3
		return t, true
	}
	m := &go3mf.Model{Extensions: exts}
	part, path := &m.Resources, ""
	if sym.Choice(2) == 1 {
		path = "/c"
		m.Childs = map[string]*go3mf.ChildModel{path: {}}
		part = &m.Childs[path].Resources
	}
	part.Assets = []go3mf.Asset{&slices.SliceStack{ID: 20, Slices: []slices.Slice{slice(1)}}}
	attr := spec.AnyAttr{&slices.ObjectAttr{SliceStackID: 20}}
	// 1 is in 2 and 3, which are in 4
	t12, b12 := mk()
	t13, b13 := mk()
	t24, b24 := mk()
	t34, b34 := mk()
	comps := []*go3mf.Component{{ObjectID: 2, Transform: t24}, {ObjectID: 3, Transform: t34}}
	if sym.Choice(2) == 1 {
		comps[0], comps[1] = comps[1], comps[0]
	}
	part.Objects = []*go3mf.Object{
		{ID: 1, Mesh: lib.Solid(), AnyAttr: attr},
		{ID: 2, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1, Transform: t12}}}, AnyAttr: attr},
		{ID: 3, Components: &go3mf.Components{Component: []*go3mf.Component{{ObjectID: 1, Transform: t13}}}},
		{ID: 4, Components: &go3mf.Components{Component: comps}},
	}
	bad1, bad2 := false, false
	for i, k := 0, 1+sym.Choice(2); i < k; i++ {
		id := uint32(4 - sym.Choice(3))
		t, b := mk()
		it := &go3mf.Item{ObjectID: id, Transform: t}
		if path != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: path}}
		}
		m.Build.Items = append(m.Build.Items, it)
		bad2 = bad2 || id != 3 && b || id == 4 && b24
		bad1 = bad1 || b || id != 3 && b12 || id != 2 && b13 || id == 4 && (b24 || b34)
	}
	var w lib.Want
	w.If(bad1, path, res+"object[0]", slices.ErrSliceInvalidTranform)
	w.If(bad2, path, res+"object[1]", slices.ErrSliceInvalidTranform)
	w.Check(m.Validate())
}

// H_long: one violated rule, anywhere in a stack with many slices.
func H_long() {
	const n = 12
	st, own, far := &slices.SliceStack{ID: 1, BottomZ: 1}, &slices.SliceStack{ID: 2}, go3mf.Resources{}
	for i := 0; i < n; i++ {
		s := slices.Slice{TopZ: float32(i + 1), Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, n)}}
		for j := 0; j < 3; j++ {
			pl := slices.Polygon{StartV: uint32(j)}
			for k := n - 1; k >= 0; k-- {
				pl.Segments = append(pl.Segments, slices.Segment{V2: uint32(k)})
			}
			pl.Segments[n-1].V2 = uint32(j)
			s.Polygons = append(s.Polygons, pl)
		}
		st.Slices = append(st.Slices, s)
		own.Refs = append(own.Refs, slices.SliceRef{SliceStackID: uint32(i + 1), Path: "/d"})
		far.Assets = append(far.Assets, &slices.SliceStack{ID: uint32(i + 1), Slices: []slices.Slice{slice(float32(2*i + 1)), slice(float32(2*i + 2))}})
	}
	object := func(id, stack uint32) *go3mf.Object {
		return &go3mf.Object{ID: id, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: stack}}}
	}
	m, p := lib.Part(go3mf.Resources{Assets: []go3mf.Asset{st, own}, Objects: []*go3mf.Object{object(11, 1), object(12, 2)}}, exts...)
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: far}
	for i := 0; i < n; i++ {
		it := &go3mf.Item{ObjectID: uint32(11 + i%2), Transform: go3mf.Identity().Translate(1, 2, 3)}
		if p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	k, j := sym.Concrete(sym.Int(0, n-1)), sym.Concrete(sym.Int(0, 2))
	s, x := &st.Slices[k], res+"slicestack[0]/"+lib.Idx("slice", k)
	away := far.Assets[k].(*slices.SliceStack)
	var w lib.Want
	switch sym.Choice(11) {
	case 0:
		s.TopZ = 0.5
		w.Add(p, x, slices.ErrSliceSmallTopZ)
		w.If(k > 0, p, x, slices.ErrSliceNoMonotonic)
	case 1:
		s.Vertices.Vertex = s.Vertices.Vertex[:1]
		w.Add(p, x, slices.ErrSliceInsufficientVertices)
	case 2:
		s.Polygons = nil
		w.Add(p, x, slices.ErrSliceInsufficientPolygons)
	case 3:
		s.Polygons[j].Segments = nil
		w.Add(p, x+"/"+lib.Idx("polygon", j), slices.ErrSliceInsufficientSegments)
	case 4:
		s.Polygons[j].StartV = n
		w.Add(p, res+"object[0]", slices.ErrSlicePolygonNotClosed)
	case 5:
		away.Slices[j%2].Polygons[0].StartV = 7
		w.Add(p, res+"object[1]", slices.ErrSlicePolygonNotClosed)
	case 6:
		own.Refs[k].SliceStackID = 9999
		w.Add(p, res+"slicestack[1]/"+lib.Idx("sliceref", k), errors.ErrMissingResource)
	case 7:
		own.Refs[k].Path = ""
		w.Missing(p, res+"slicestack[1]/"+lib.Idx("sliceref", k), "slicepath")
	case 8:
		m.Build.Items[k].Transform[2] = 1
		w.Add(p, res+lib.Idx("object", k%2), slices.ErrSliceInvalidTranform)
	case 9:
		own.Refs = append(own.Refs, own.Refs[k])
		w.Add(p, res+"slicestack[1]/"+lib.Idx("sliceref", n), slices.ErrSliceNoMonotonic)
	}
	w.Check(m.Validate())
}

// H_huge: as H_long, with more than fits a small counter.
//
//verif:steps=100000000
func H_huge() {
	const r = 4
	n := sym.Concrete(sym.Bound(300, 1000))
	st, own, far := &slices.SliceStack{ID: 1, BottomZ: 1}, &slices.SliceStack{ID: 2}, go3mf.Resources{}
	for i := 0; i < n; i++ {
		s := slices.Slice{TopZ: float32(i + 1), Vertices: slices.Vertices{Vertex: make([]go3mf.Point2D, r)}}
		for j := 0; j < 3; j++ {
			pl := slices.Polygon{StartV: uint32(j)}
			for k := r - 1; k >= 0; k-- {
				pl.Segments = append(pl.Segments, slices.Segment{V2: uint32(k)})
			}
			pl.Segments[r-1].V2 = uint32(j)
			s.Polygons = append(s.Polygons, pl)
		}
		st.Slices = append(st.Slices, s)
		own.Refs = append(own.Refs, slices.SliceRef{SliceStackID: uint32(i + 1), Path: "/d"})
		far.Assets = append(far.Assets, &slices.SliceStack{ID: uint32(i + 1), Slices: []slices.Slice{slice(float32(2*i + 1)), slice(float32(2*i + 2))}})
	}
	object := func(id, stack uint32) *go3mf.Object {
		return &go3mf.Object{ID: id, Mesh: lib.Solid(), AnyAttr: spec.AnyAttr{&slices.ObjectAttr{SliceStackID: stack}}}
	}
	m, p := lib.Part(go3mf.Resources{Assets: []go3mf.Asset{st, own}, Objects: []*go3mf.Object{object(11, 1), object(12, 2)}}, exts...)
	if m.Childs == nil {
		m.Childs = map[string]*go3mf.ChildModel{}
	}
	m.Childs["/d"] = &go3mf.ChildModel{Resources: far}
	for i := 0; i < n; i++ {
		it := &go3mf.Item{ObjectID: uint32(11 + i%2), Transform: go3mf.Identity().Translate(1, 2, 3)}
		if p != "" {
			it.AnyAttr = spec.AnyAttr{&production.ItemAttr{Path: p}}
		}
		m.Build.Items = append(m.Build.Items, it)
	}
	k, j := sym.Concrete([]int{n - 1, 255, 256}[sym.Choice(sym.Bound(2, 3))]), sym.Concrete(sym.Int(0, 2))
	s, x := &st.Slices[k], res+"slicestack[0]/"+lib.Idx("slice", k)
	away := far.Assets[k].(*slices.SliceStack)
	var w lib.Want
	switch sym.Choice(11) {
	case 0:
		s.TopZ = 0.5
		w.Add(p, x, slices.ErrSliceSmallTopZ)
		w.If(k > 0, p, x, slices.ErrSliceNoMonotonic)
	case 1:
		s.Vertices.Vertex = s.Vertices.Vertex[:1]
		w.Add(p, x, slices.ErrSliceInsufficientVertices)
	case 2:
		s.Polygons = nil
		w.Add(p, x, slices.ErrSliceInsufficientPolygons)
	case 3:
		s.Polygons[j].Segments = nil
		w.Add(p, x+"/"+lib.Idx("polygon", j), slices.ErrSliceInsufficientSegments)
	case 4:
		s.Polygons[j].StartV = r
		w.Add(p, res+"object[0]", slices.ErrSlicePolygonNotClosed)
	case 5:
		away.Slices[j%2].Polygons[0].StartV = 7
		w.Add(p, res+"object[1]", slices.ErrSlicePolygonNotClosed)
	case 6:
		own.Refs[k].SliceStackID = 9999
		w.Add(p, res+"slicestack[1]/"+lib.Idx("sliceref", k), errors.ErrMissingResource)
	case 7:
		own.Refs[k].Path = ""
		w.Missing(p, res+"slicestack[1]/"+lib.Idx("sliceref", k), "slicepath")
	case 8:
		m.Build.Items[k].Transform[2] = 1
		w.Add(p, res+lib.Idx("object", k%2), slices.ErrSliceInvalidTranform)
	case 9:
		own.Refs = append(own.Refs, own.Refs[k])
		w.Add(p, res+"slicestack[1]/"+lib.Idx("sliceref", n), slices.ErrSliceNoMonotonic)
	}
	w.Check(m.Validate())
}
