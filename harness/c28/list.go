//go:build go1.22

package c28

import (
	stderr "errors"
	"strconv"

	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

var atoms = []error{stderr.New("a"), stderr.New("b"), stderr.New("c"), stderr.New("d"), stderr.New("e"), stderr.New("f"), stderr.New("g"), stderr.New("h"), stderr.New("i")}

// next hands out distinct atomic errors.
type gen struct{ n int }

func (g *gen) atom() error { g.n++; return atoms[g.n-1] }

// operand builds any operand of Append together with what it contributes.
func (g *gen) operand() (error, []error) {
	switch sym.Int(0, 4) {
	case 0:
		return nil, nil
	case 1:
		a := g.atom()
		return a, []error{a}
	case 2:
		return (*errors.List)(nil), nil
	case 3:
		return new(errors.List), nil
	}
	a, b := g.atom(), g.atom()
	l := &errors.List{Errors: make([]error, 0, sym.Concrete(sym.Int(0, 1))*4)}
	l.Errors = append(l.Errors, a, b)
	return l, []error{a, b}
}

// H_append checks that appending keeps every non-nil error, once, in order and flat.
func H_append() {
	g := &gen{}
	var want []error
	err, w := g.operand()
	want = append(want, w...)
	n := sym.Choice(3)
	errs := make([]error, n)
	for i := range errs {
		errs[i], w = g.operand()
		want = append(want, w...)
	}
	got := errors.Append(err, errs...)
	check(err, got, want, n)
}

func check(err, got error, want []error, n int) {
	if n == 0 {
		sym.Assert(got == err, "Append with nothing returns its first operand")
		return
	}
	l, ok := got.(*errors.List)
	if len(want) == 0 {
		sym.Assert(got == nil || ok && l.Len() == 0, "nothing to report stays empty")
		return
	}
	sym.Assert(ok && l != nil, "the result is a list")
	sym.Assert(l.Len() == len(want), "every non-nil error is kept once")
	for i := range want {
		sym.Assert(l.Errors[i] == want[i], "errors stay in order")
	}
	sym.Assert(stderr.Unwrap(got) == want[0], "Unwrap gives the first error")
	sym.Cover("list")
}

// H_many: more errors than fit a small counter, one at a time and as lists of lists.
func H_many() {
	n := sym.Concrete(sym.Bound(300, 1000))
	var all, want []error
	for i := 0; i < n; i++ {
		all = append(all, stderr.New(strconv.Itoa(i)))
	}
	step := sym.Concrete([]int{1, 7, n}[sym.Choice(3)])
	nested := sym.Choice(2) == 0
	var got error
	for i := 0; i < n; i += step {
		part := all[i:min(n, i+step)]
		want = append(want, part...)
		if nested {
			got = errors.Append(got, &errors.List{Errors: append([]error(nil), part...)}, nil)
		} else {
			got = errors.Append(got, part...)
		}
	}
	check(nil, got, want, 1)
	e := errors.WrapIndex(got, "x", 300)
	l, ok := e.(*errors.List)
	sym.Assert(ok && l.Len() == n, "every non-nil error is kept once")
	for i, e := range l.Errors {
		x, ok := e.(*errors.Error)
		sym.Assert(ok && x.Unwrap() == all[i] && x.XPath() == "/x[300]", "the location is prefixed by name and index")
	}
	sym.Cover("many")
}
