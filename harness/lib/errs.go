//go:build go1.22

package lib

import (
	"strconv"

	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

// Loc is an expected validation error: where and why.
type Loc struct {
	Path, XPath string
	Err         error // nil: a missing field error naming Field
	Field       string
}

// Want collects expected errors.
type Want struct{ L []Loc }

func (w *Want) Add(path, xpath string, err error) { w.L = append(w.L, Loc{path, xpath, err, ""}) }
func (w *Want) Missing(path, xpath, field string) { w.L = append(w.L, Loc{path, xpath, nil, field}) }
func (w *Want) If(c bool, path, xpath string, err error) {
	if c {
		w.Add(path, xpath, err)
	}
}

// Idx is name[i].
func Idx(name string, i int) string { return name + "[" + strconv.Itoa(i) + "]" }

// Flatten lists the located errors of a validation result.
func Flatten(err error) []*errors.Error {
	switch e := err.(type) {
	case *errors.List:
		var r []*errors.Error
		for _, x := range e.Errors {
			r = append(r, Flatten(x)...)
		}
		return r
	case *errors.Error:
		return []*errors.Error{e}
	case nil:
		return nil
	}
	return []*errors.Error{{Err: err}}
}

func match(g *errors.Error, l Loc) bool {
	if g.Path != l.Path || g.XPath() != l.XPath {
		return false
	}
	if l.Err != nil {
		return g.Err == l.Err
	}
	m, ok := g.Err.(*errors.MissingFieldError)
	return ok && m.Name == l.Field
}

// Check asserts that exactly the expected errors are reported (repetitions of one error at one place aside).
func (w *Want) Check(err error) {
	got := Flatten(err)
	if len(w.L) == 0 {
		if len(got) > 0 {
			sym.ObserveStr("got", got[0].Error())
		}
		sym.Assert(err == nil && len(got) == 0, "nothing is reported when no rule is violated")
		sym.Cover("valid")
		return
	}
	for _, l := range w.L {
		found := false
		for _, g := range got {
			if match(g, l) {
				found = true
				break
			}
		}
		if !found {
			sym.ObserveStr("missing", l.XPath)
		}
		sym.Assert(found, "every violated rule is reported at its place")
	}
	for _, g := range got {
		found := false
		for _, l := range w.L {
			if match(g, l) {
				found = true
				break
			}
		}
		if !found {
			sym.ObserveStr("extra", g.Error())
		}
		sym.Assert(found, "nothing but violated rules is reported")
	}
	sym.Cover("invalid")
}
