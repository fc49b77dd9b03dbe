//go:build go1.22

package c28

import (
	stderr "errors"
	"sort"
	"strconv"

	"github.com/hpinc/go3mf/errors"
	sym "github.com/hpinc/go3mf/internal/verifsym"
)

type leaf struct {
	cause error
	xpath string // built from the innermost level outwards
	plain bool
	path  string
}

// tree builds a single error or a list of them, some already located.
func (g *gen) tree(depth int) (error, []*leaf) {
	k := sym.Int(0, 2)
	if depth == 0 && k == 2 {
		k = 1
	}
	switch k {
	case 0:
		a := g.atom()
		return a, []*leaf{{cause: a, plain: true}}
	case 1:
		a, n := g.atom(), name()
		return &errors.Error{Err: a, Target: []errors.Level{{n, -1}}, Path: "/q"}, []*leaf{{cause: a, xpath: "/" + n, path: "/q"}}
	}
	l := new(errors.List)
	var ls []*leaf
	for i, n := 0, sym.Choice(3); i < n; i++ {
		e, w := g.tree(depth - 1)
		l.Errors = append(l.Errors, e)
		ls = append(ls, w...)
	}
	return l, ls
}

func name() string { return sym.StringOf(1, "abcdefghijklmnopqrstuvwxyz") }

func flat(err error) []error {
	if l, ok := err.(*errors.List); ok {
		var r []error
		for _, e := range l.Errors {
			r = append(r, flat(e)...)
		}
		return r
	}
	return []error{err}
}

// H_wrap: wrapping locates every contained error and keeps its cause.
func H_wrap() {
	g := &gen{}
	err, want := g.tree(sym.Bound(1, 2))
	for k := 0; k < 2; k++ {
		n, i := name(), sym.Int(-1, 12)
		seg := "/" + n
		switch sym.Choice(3) {
		case 0:
			err = errors.WrapIndex(err, n, i)
			if i >= 0 {
				seg += "[" + strconv.Itoa(i) + "]"
			}
		case 1:
			err = errors.Wrap(err, n)
		case 2:
			p := ""
			if sym.Choice(2) == 0 {
				p = "/" + name()
			}
			err = errors.WrapPath(err, n, p)
			for _, l := range want {
				l.path = p
			}
		}
		for _, l := range want {
			l.xpath = seg + l.xpath
		}
		got := flat(err)
		sym.Assert(len(got) == len(want), "wrapping keeps every error")
		for j, l := range want {
			e, ok := got[j].(*errors.Error)
			sym.Assert(ok, "wrapped errors are located")
			sym.Assert(e.Unwrap() == l.cause && stderr.Is(e, l.cause), "the cause stays reachable")
			sym.Assert(e.XPath() == l.xpath, "the location is prefixed by name and index")
			sym.Assert(e.Path == l.path, "the part path is the wrapping one")
			text := "go3mf: XPath: " + l.xpath + ": " + l.cause.Error()
			if l.path != "" {
				text = "go3mf: Path: " + l.path + " XPath: " + l.xpath + ": " + l.cause.Error()
			}
			sym.Assert(e.Error() == text, "the text names path, location and cause")
			sym.Cover("leaf")
		}
	}
}

// H_nil: nil stays nil.
func H_nil() {
	n := name()
	sym.Assert(errors.Wrap(nil, n) == nil && errors.WrapIndex(nil, n, sym.Int(-1, 9)) == nil && errors.WrapPath(nil, n, n) == nil, "nothing is wrapped")
	sym.Assert(errors.Append(nil) == nil && errors.Append(nil, nil) == nil && errors.Append(nil, nil, nil) == nil, "nothing is appended")
	sym.Cover("nil")
}

// H_fold: building a list by repeated Append, as the decoder and the validators do.
func H_fold() {
	g := &gen{}
	var acc error
	var want []error
	for k, n := 0, sym.Bound(3, 4); k < n; k++ {
		switch sym.Int(0, 3) {
		case 1:
			a := g.atom()
			acc = errors.Append(acc, a)
			want = append(want, a)
		case 2:
			a, b := g.atom(), g.atom()
			acc = errors.Append(acc, errors.Append(errors.Append(nil, a), b))
			want = append(want, a, b)
		case 3:
			acc = errors.Append(acc, nil)
		case 0:
			a := g.atom()
			acc = errors.Append(acc, errors.Wrap(a, "x"))
			want = append(want, a)
		}
		if len(want) == 0 {
			sym.Assert(acc == nil, "nothing to report is nil")
			continue
		}
		l, ok := acc.(*errors.List)
		sym.Assert(ok && l.Len() == len(want), "every error is kept once")
		for i, e := range l.Errors {
			if w, ok := e.(*errors.Error); ok {
				e = w.Err
			}
			sym.Assert(e == want[i], "errors stay in order")
		}
		if len(want) == 1 {
			sym.Assert(acc.Error() == "1 error occurred:\n\t* "+l.Errors[0].Error()+"\n", "the text of one error")
		} else {
			t := strconv.Itoa(len(want)) + " errors occurred:\n\t"
			for i, e := range l.Errors {
				if i > 0 {
					t += "\n\t"
				}
				t += "* " + e.Error()
			}
			sym.Assert(acc.Error() == t+"\n", "the text lists every error")
		}
		sym.Cover("fold")
	}
}

// H_share: lists made out of other lists are not changed by what happens to those later.
func H_share() {
	g := &gen{}
	type list struct {
		err  error
		want []error
	}
	var ls [3]list
	for k, n := 0, sym.Bound(4, 5); k < n; k++ {
		to := sym.Choice(min(k+1, 3))
		l := &ls[to]
		if from := (to + sym.Choice(3)) % 3; from == to {
			// as many as make lists have room for more
			var as []error
			for i, n := 0, 1+2*sym.Choice(2); i < n; i++ {
				if g.n == len(atoms) {
					return
				}
				as = append(as, g.atom())
			}
			l.err = errors.Append(l.err, as...)
			l.want = append(l.want, as...)
		} else {
			l.err = errors.Append(l.err, ls[from].err)
			l.want = append(l.want, ls[from].want...)
		}
		for _, l := range ls {
			got, _ := l.err.(*errors.List)
			sym.Assert(got.Len() == len(l.want), "every error is kept once")
			for i, e := range l.want {
				sym.Assert(got.Errors[i] == e, "errors stay in order")
			}
		}
		sym.Cover("share")
	}
}

// H_sort: lists sort by the text of their errors.
func H_sort() {
	n := sym.Choice(sym.Bound(4, 5))
	l := new(errors.List)
	for i := 0; i < n; i++ {
		l.Errors = append(l.Errors, stderr.New(sym.StringOf(1, "abc")))
	}
	had := append([]error(nil), l.Errors...)
	sort.Sort(l)
	sym.Assert(l.Len() == n, "sorting keeps every error")
	for i, e := range l.Errors {
		sym.Assert(i == 0 || l.Errors[i-1].Error() <= e.Error(), "sorted errors are in order")
		k := 0
		for _, h := range had {
			if h == e {
				k++
			}
		}
		sym.Assert(k == 1, "sorting keeps every error")
		for _, o := range l.Errors[:i] {
			sym.Assert(o != e, "sorting keeps every error")
		}
	}
	sym.Cover("sort")
}

// H_deep: locations of many levels, any of which has an index.
func H_deep() {
	cause := stderr.New("cause")
	err, x := cause, ""
	for k, n := 0, 1+sym.Choice(7); k < n; k++ {
		nm := string(rune('a' + k))
		if sym.Choice(2) == 0 {
			err, x = errors.Wrap(err, nm), "/"+nm+x
		} else {
			err, x = errors.WrapIndex(err, nm, k*7), "/"+nm+"["+strconv.Itoa(k*7)+"]"+x
		}
	}
	e, ok := err.(*errors.Error)
	sym.Assert(ok && e.Unwrap() == cause && e.XPath() == x, "the location is prefixed by name and index")
	sym.Assert(err.Error() == "go3mf: XPath: "+x+": cause", "the text names path, location and cause")
	sym.Cover("deep")
}
