//go:build go1.22

// Package c27: UUID generation and completion.
package c27

import (
	"errors"

	"github.com/hpinc/go3mf"
	ge "github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
	"github.com/hpinc/go3mf/production"
	"github.com/hpinc/go3mf/spec"
	"github.com/hpinc/go3mf/uuid"
)

// source returns the given bytes, at most n per call, then fails.
type source struct {
	b    []byte
	n    int
	used int
}

func (s *source) Read(p []byte) (int, error) {
	if s.used >= len(s.b) {
		return 0, errors.New("exhausted")
	}
	n := len(p)
	if n > s.n {
		n = s.n
	}
	n = copy(p[:n], s.b[s.used:])
	s.used += n
	return n, nil
}

func hexval(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	}
	return 0, false
}

// H_new: every random block gives a well-formed version 4 UUID carrying the other bits.
func H_new() {
	b := sym.Bytes(16)
	keep := append([]byte(nil), b...)
	uuid.SetRand(&source{b: b, n: 1 + sym.Choice(16)})
	defer uuid.SetRand(nil)
	s := uuid.New()
	sym.Assert(len(s) == 36, "36 characters")
	k := 0
	for i := 0; i < 36; i++ {
		if i == 8 || i == 13 || i == 18 || i == 23 {
			sym.Assert(s[i] == '-', "dashes in place")
			continue
		}
		v, ok := hexval(s[i])
		sym.Assert(ok, "lower case hexadecimal digits")
		w := keep[k/2] >> 4
		if k%2 == 1 {
			w = keep[k/2] & 15
		}
		switch k {
		case 12:
			w = 4
		case 16:
			w = 8 | w&3
		}
		sym.Assert(v == w, "version, variant and the source's bits")
		k++
	}
	sym.Assert(uuid.Validate(s) == nil, "it validates")
	sym.Cover("new")
}

// H_exhausted: a random source that fails is never papered over.
func H_exhausted() {
	uuid.SetRand(&source{b: sym.Bytes(sym.Choice(16)), n: 16})
	defer uuid.SetRand(nil)
	ok := func() (ok bool) {
		defer func() { ok = recover() != nil }()
		uuid.New()
		return
	}()
	sym.Assert(ok, "a failing random source panics as documented")
	sym.Cover("panic")
}

type counter struct{ n byte }

func (c *counter) Read(p []byte) (int, error) {
	c.n++
	for i := range p {
		p[i] = c.n
	}
	return len(p), nil
}

type other struct{}

func (other) Namespace() string { return "http://other" }

const given = "f47ac10b-58cc-0372-8567-0e02b2c3d479"

// attr makes any attribute list an element may have; what comes back is the UUID that must survive.
func attr(mk func(uuid, path string) spec.AttrGroup, path string) (spec.AnyAttr, string) {
	var a spec.AnyAttr
	k := sym.Int(0, 6)
	if k >= 4 {
		a = append(a, &spec.UnknownAttrs{Space: "http://u"})
		k -= 4
	}
	switch k {
	case 1:
		return append(a, mk("", path)), ""
	case 2:
		return append(a, mk(given, path)), given
	case 3:
		return append(a, mk(given[1:], path)), given[1:] // malformed, but not missing
	}
	return a, ""
}

func check(got string, want string, seen map[string]bool) {
	if want != "" {
		sym.Assert(got == want, "a UUID that is set stays")
		return
	}
	sym.Assert(got != "" && uuid.Validate(got) == nil, "a missing UUID is set")
	sym.Assert(!seen[got], "every new UUID is generated")
	seen[got] = true
}

// H_system: without a source, and after going back to none, the bytes are those of the system.
func H_system() {
	c := new(counter)
	switch sym.Choice(3) {
	case 1:
		uuid.SetRand(nil)
	case 2:
		uuid.SetRand(c)
		uuid.New()
		uuid.SetRand(nil)
	}
	n := *c
	s, t := uuid.New(), uuid.New()
	sym.Assert(uuid.Validate(s) == nil && uuid.Validate(t) == nil && s[14] == '4' && t[14] == '4', "new UUIDs are random ones")
	sym.Assert(s != t, "new UUIDs differ")
	sym.Assert(*c == n, "a source that was replaced is not read")
	sym.Cover("system")
}

// H_complete: every element that lacks a UUID gets one.
func H_complete() {
	uuid.SetRand(&counter{})
	defer uuid.SetRand(nil)
	m := new(go3mf.Model)
	m.Extensions = []go3mf.Extension{production.DefaultExtension}
	var build string
	var items, objs, comps []string
	object := func(id uint32, comp bool) *go3mf.Object {
		o := &go3mf.Object{ID: id}
		var w string
		o.AnyAttr, w = attr(func(u, p string) spec.AttrGroup { return &production.ObjectAttr{UUID: u} }, "")
		objs = append(objs, w)
		if comp {
			c := &go3mf.Component{ObjectID: 1}
			c.AnyAttr, w = attr(func(u, p string) spec.AttrGroup { return &production.ComponentAttr{UUID: u, Path: p} }, "/c")
			comps = append(comps, w)
			o.Components = &go3mf.Components{Component: []*go3mf.Component{c}}
		} else {
			o.Mesh = new(go3mf.Mesh)
		}
		return o
	}
	k := sym.Choice(3) // what varies: build and item, root objects, child objects
	switch k {
	case 0:
		m.Build.AnyAttr, build = attr(func(u, p string) spec.AttrGroup { return &production.BuildAttr{UUID: u} }, "")
		for i, n := 0, sym.Choice(3); i < n; i++ {
			it := &go3mf.Item{ObjectID: 1}
			var w string
			it.AnyAttr, w = attr(func(u, p string) spec.AttrGroup { return &production.ItemAttr{UUID: u, Path: p} }, "/p")
			items = append(items, w)
			m.Build.Items = append(m.Build.Items, it)
		}
	case 1:
		m.Resources.Objects = append(m.Resources.Objects, object(1, false), object(2, true))
	case 2:
		m.Childs = map[string]*go3mf.ChildModel{"/c": {}, "/d": {}}
		m.Childs["/c"].Resources.Objects = append(m.Childs["/c"].Resources.Objects, object(1, false), object(2, true))
		if sym.Choice(2) == 1 {
			m.Childs["/d"].Resources.Objects = append(m.Childs["/d"].Resources.Objects, object(1, true))
		}
	}
	production.SetMissingUUIDs(m)
	seen := map[string]bool{}
	sym.Assert(production.GetBuildAttr(&m.Build) != nil, "the build has the attribute")
	check(production.GetBuildAttr(&m.Build).UUID, build, seen)
	for i, w := range items {
		a := production.GetItemAttr(m.Build.Items[i])
		sym.Assert(a != nil, "every item has the attribute")
		check(a.UUID, w, seen)
		sym.Assert(w == "" || a.Path == "/p", "the path stays")
	}
	i, j := 0, 0
	m.WalkObjects(func(_ string, o *go3mf.Object) error {
		a := production.GetObjectAttr(o)
		sym.Assert(a != nil, "every object has the attribute")
		check(a.UUID, objs[i], seen)
		i++
		if o.Components != nil {
			for _, c := range o.Components.Component {
				a := production.GetComponentAttr(c)
				sym.Assert(a != nil, "every component has the attribute")
				check(a.UUID, comps[j], seen)
				sym.Assert(comps[j] == "" || a.Path == "/c", "the path stays")
				j++
			}
		}
		return nil
	})
	sym.Assert(i == len(objs) && j == len(comps), "no element is lost")
	sym.Assert(!reports(m.Validate()), "no missing UUID is reported any more")
	sym.Cover("complete")
}

// reports tells whether a validation result complains about a missing UUID.
func reports(err error) bool {
	switch e := err.(type) {
	case *ge.List:
		for _, x := range e.Errors {
			if reports(x) {
				return true
			}
		}
	case *ge.Error:
		return reports(e.Err)
	case *ge.MissingFieldError:
		return e.Name == "UUID"
	}
	return false
}
