//go:build go1.22

// Package c25: lookup, path and enumeration helpers.
package c25

import (
	"encoding/xml"
	"errors"
	"sort"
	"strconv"

	"github.com/hpinc/go3mf"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

type asset struct{ id uint32 }

func (a *asset) Identify() uint32  { return a.id }
func (a *asset) XMLName() xml.Name { return xml.Name{Local: "asset"} }

func resources(na, no int) (rs go3mf.Resources) {
	for i := 0; i < na; i++ {
		rs.Assets = append(rs.Assets, &asset{sym.Uint32()})
	}
	for i := 0; i < no; i++ {
		rs.Objects = append(rs.Objects, &go3mf.Object{ID: sym.Uint32()})
	}
	return
}

// H_unused: the smallest positive id nobody uses.
func H_unused() {
	n := sym.Choice(sym.Bound(5, 7))
	na := sym.Choice(n + 1)
	rs := resources(na, n-na)
	got := rs.UnusedID()
	used := func(id uint32) bool {
		u := false
		for _, a := range rs.Assets {
			u = u || a.Identify() == id
		}
		for _, o := range rs.Objects {
			u = u || o.ID == id
		}
		return u
	}
	sym.Assert(got > 0, "the id is positive")
	sym.Assert(!used(got), "the id is not in use")
	for i := uint32(1); i <= uint32(n); i++ {
		sym.Assert(got <= i || used(i), "no smaller id is free")
	}
	sym.Cover("unused")
}

// H_many: many identifiers, one of which or none is free.
func H_many() {
	n := sym.Concrete(sym.Bound(1500, 6000))
	free := sym.Concrete([]int{1, 2, 100, 999, n - 1, n}[sym.Choice(6)])
	var rs go3mf.Resources
	for i := n; i > 0; i-- {
		if i == free {
			continue
		}
		if i%3 == 0 {
			rs.Objects = append(rs.Objects, &go3mf.Object{ID: uint32(i)})
		} else {
			rs.Assets = append(rs.Assets, &asset{uint32(i)})
		}
	}
	sym.Assert(rs.UnusedID() == uint32(free), "no smaller id is free")
	sym.Cover("many")
}

var paths = []string{"", go3mf.DefaultModelPath, "/a.model", "/b.model", "/c.model"}

func model() *go3mf.Model {
	m := &go3mf.Model{Path: paths[sym.Choice(3)], Childs: map[string]*go3mf.ChildModel{}}
	m.Resources = resources(2, 2)
	k := sym.Choice(3)
	if k >= 1 {
		m.Childs["/b.model"] = &go3mf.ChildModel{Resources: resources(1, 2)}
	}
	if k >= 2 {
		m.Childs["/3D/x.model"] = &go3mf.ChildModel{Resources: resources(2, 1)}
	}
	return m
}

// H_find: lookups by path and id.
func H_find() {
	m := model()
	q := append(paths[:len(paths):len(paths)], "/3D/x.model")[sym.Choice(6)]
	id := sym.Uint32()
	var want *go3mf.Resources
	switch {
	case q == "", q == m.Path, m.Path == "" && q == "/3D/3dmodel.model":
		want = &m.Resources
	case m.Childs[q] != nil:
		want = &m.Childs[q].Resources
	}
	rs, ok := m.FindResources(q)
	sym.Assert(ok == (want != nil) && (!ok || rs == want), "FindResources gives the part's resources")
	var wa go3mf.Asset
	var wo *go3mf.Object
	if want != nil {
		for i := len(want.Assets) - 1; i >= 0; i-- {
			if want.Assets[i].Identify() == id {
				wa = want.Assets[i]
			}
		}
		for i := len(want.Objects) - 1; i >= 0; i-- {
			if want.Objects[i].ID == id {
				wo = want.Objects[i]
			}
		}
	}
	a, ok := m.FindAsset(q, id)
	sym.Assert(ok == (wa != nil) && a == wa, "FindAsset gives the first asset of the part with the id")
	o, ok := m.FindObject(q, id)
	sym.Assert(ok == (wo != nil) && o == wo, "FindObject gives the first object of the part with the id")
	if want != nil {
		a, ok := want.FindAsset(id)
		sym.Assert(ok == (wa != nil) && a == wa, "Resources.FindAsset")
		o, ok := want.FindObject(id)
		sym.Assert(ok == (wo != nil) && o == wo, "Resources.FindObject")
	}
	sym.Cover("find")
}

type visit struct {
	path string
	v    interface{}
}

var errStop = errors.New("stop")

// H_walk: enumeration order and early stop.
func H_walk() {
	sym.MapOrder(4)
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{}}
	m.Resources = resources(sym.Choice(2), sym.Choice(2))
	for _, p := range []string{"/b.model", "/3D/x.model", "/a.model"}[:sym.Choice(4)] {
		m.Childs[p] = &go3mf.ChildModel{Resources: resources(sym.Choice(2), 1)}
	}
	var keys []string
	for k := range m.Childs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var wa, wo []visit
	for _, k := range keys {
		for _, a := range m.Childs[k].Resources.Assets {
			wa = append(wa, visit{k, a})
		}
		for _, o := range m.Childs[k].Resources.Objects {
			wo = append(wo, visit{k, o})
		}
	}
	for _, a := range m.Resources.Assets {
		wa = append(wa, visit{"", a})
	}
	for _, o := range m.Resources.Objects {
		wo = append(wo, visit{"", o})
	}
	stop := sym.Int(0, 6)
	n := 0
	err := m.WalkAssets(func(p string, a go3mf.Asset) error {
		sym.Assert(n < len(wa) && wa[n] == visit{p, a}, "assets are visited in order")
		n++
		if n-1 == stop {
			return errStop
		}
		return nil
	})
	check(err, n, len(wa), stop)
	n = 0
	err = m.WalkObjects(func(p string, o *go3mf.Object) error {
		sym.Assert(n < len(wo) && wo[n] == visit{p, o}, "objects are visited in order")
		n++
		if n-1 == stop {
			return errStop
		}
		return nil
	})
	check(err, n, len(wo), stop)
	sym.Cover("walk")
}

// H_rows: many entries in many parts.
func H_rows() {
	m := &go3mf.Model{Childs: map[string]*go3mf.ChildModel{}}
	n := sym.Concrete([]int{20, 300}[sym.Choice(2)])
	var keys []string
	for i := 0; i < 320/n*2; i++ {
		keys = append(keys, "/3D/p"+strconv.Itoa(100+i)+".model")
	}
	var wo, wa []visit
	fill := func(p string, rs *go3mf.Resources) {
		for i := 0; i < n; i++ {
			rs.Objects, rs.Assets = append(rs.Objects, &go3mf.Object{ID: uint32(2 * i)}), append(rs.Assets, &asset{uint32(2*i + 1)})
			wo, wa = append(wo, visit{p, rs.Objects[i]}), append(wa, visit{p, rs.Assets[i]})
		}
	}
	for _, k := range keys {
		c := new(go3mf.ChildModel)
		fill(k, &c.Resources)
		m.Childs[k] = c
	}
	fill("", &m.Resources)
	stop := sym.Concrete([]int{len(wo), len(wo) - 1, 256, 19}[sym.Choice(4)])
	var got []visit
	at := func(v visit) error {
		got = append(got, v)
		if len(got)-1 == stop {
			return errStop
		}
		return nil
	}
	if sym.Choice(2) == 0 {
		check(m.WalkObjects(func(p string, o *go3mf.Object) error { return at(visit{p, o}) }), len(got), len(wo), stop)
		for i, v := range got {
			sym.Assert(v == wo[i], "objects are visited in order")
		}
	} else {
		check(m.WalkAssets(func(p string, a go3mf.Asset) error { return at(visit{p, a}) }), len(got), len(wa), stop)
		for i, v := range got {
			sym.Assert(v == wa[i], "assets are visited in order")
		}
	}
	k := keys[len(keys)-1]
	o, ok := m.FindObject(k, uint32(2*n-2))
	sym.Assert(ok && o == m.Childs[k].Resources.Objects[n-1], "FindObject gives the first object with the id")
	a, ok := m.FindAsset("", uint32(2*n-1))
	sym.Assert(ok && a == m.Resources.Assets[n-1], "FindAsset gives the first asset with the id")
	sym.Cover("rows")
}

func check(err error, n, total, stop int) {
	if stop < total {
		sym.Assert(err == errStop && n == stop+1, "the walk stops at the first error")
	} else {
		sym.Assert(err == nil && n == total, "every entry is visited once")
	}
}
