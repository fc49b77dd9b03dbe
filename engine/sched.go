package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

type vclock []int

func (v vclock) get(i int) int {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v vclock) join(o vclock) vclock {
	r := append(vclock(nil), v...)
	for i, x := range o {
		if i < len(r) {
			r[i] = max(r[i], x)
		} else {
			r = append(r, x)
		}
	}
	return r
}

func (v vclock) inc(i int) vclock {
	r := append(vclock(nil), v...)
	for len(r) <= i {
		r = append(r, 0)
	}
	r[i]++
	return r
}

// G is a goroutine of the program under test.
type G struct {
	id     int
	depth  int
	top    *Frame
	chunk  []Val
	sp     int
	wake   chan struct{}
	done   bool
	ready  func() bool // nil: runnable
	vc     vclock
	exited chan struct{}
}

type killG struct{}

type lockState struct {
	locked  bool
	readers int
	vc      vclock
	rvc     vclock // of readers that unlocked
	cnt     int64
	done    bool
}

func (w *W) lockOf(p Val) *lockState {
	o, ok := p.P.(*Obj)
	if !ok {
		w.rtPanic("invalid memory address or nil pointer dereference")
	}
	m := w.mu2[o]
	if m == nil {
		m = map[int]*lockState{}
		w.mu2[o] = m
	}
	s := m[int(p.N)]
	if s == nil {
		s = &lockState{}
		m[int(p.N)] = s
	}
	return s
}

func (w *W) spawn(g *G, f Val, args []Val, in *Instr) {
	w.gseq++
	ng := &G{id: w.gseq, wake: make(chan struct{}), exited: make(chan struct{})}
	ng.vc = g.vc.inc(ng.id)
	g.vc = g.vc.inc(g.id)
	w.gs = append(w.gs, ng)
	// only harnesses that look for races keep the history of accesses, which
	// speculation cannot undo
	w.racing = w.h != nil && w.h.race
	go func() {
		<-ng.wake
		defer close(ng.exited)
		defer func() {
			r := recover()
			if _, ok := r.(killG); ok {
				return
			}
			ng.done = true
			if r != nil {
				if w.abort == nil {
					w.abort = r
				}
				// hand the baton to the main goroutine
				w.gs[0].wake <- struct{}{}
				return
			}
			w.finishG(ng)
		}()
		if w.abort != nil {
			panic(killG{})
		}
		w.callVal(ng, f, args, in, nil)
	}()
	w.yield(g, true)
}

func (w *W) runnable() []*G {
	var r []*G
	for _, x := range w.gs {
		if !x.done && (x.ready == nil || x.ready()) {
			r = append(r, x)
		}
	}
	return r
}

// finishG hands over control when a goroutine ends (runs on its host goroutine).
func (w *W) finishG(g *G) {
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if w.abort == nil {
					w.abort = r
				}
			}
		}()
		rs := w.runnable()
		if len(rs) == 0 {
			w.deadlock()
		}
		next = rs[w.pick(len(rs))]
	}()
	if w.abort != nil {
		next = w.gs[0]
	}
	w.g = next
	next.wake <- struct{}{}
}

func (w *W) deadlock() {
	w.violation("deadlock", "all goroutines are asleep")
}

func (w *W) switchTo(g, next *G) {
	if next == g {
		return
	}
	w.g = next
	next.wake <- struct{}{}
	<-g.wake
	if w.abort != nil {
		if g.id == 0 {
			r := w.abort
			panic(r)
		}
		panic(killG{})
	}
	w.g = g
}

// pick chooses who goes on. Harnesses whose subject is not the schedule follow only the first one.
func (w *W) pick(n int) int {
	if w.h.oneSched {
		return 0
	}
	return w.choose(n, "sched")
}

// yield is a scheduling point where g could go on running.
func (w *W) yield(g *G, free bool) {
	if len(w.gs) < 2 {
		return
	}
	w.noSpec()
	rs := w.runnable()
	if len(rs) < 2 {
		return
	}
	if w.preempt >= w.maxPreempt {
		return
	}
	// g first
	ord := []*G{g}
	for _, x := range rs {
		if x != g {
			ord = append(ord, x)
		}
	}
	n := w.pick(len(ord))
	if n > 0 {
		w.preempt++
		w.switchTo(g, ord[n])
	}
}

// block parks g until ready() holds.
func (w *W) block(g *G, ready func() bool) {
	if ready() {
		return
	}
	w.noSpec()
	g.ready = ready
	for !ready() {
		rs := w.runnable()
		if len(rs) == 0 {
			w.deadlock()
		}
		n := w.pick(len(rs))
		w.switchTo(g, rs[n])
	}
	g.ready = nil
}

func (w *W) killAll() {
	if len(w.gs) < 2 {
		return
	}
	if w.abort == nil {
		w.abort = killG{}
	}
	for _, x := range w.gs[1:] {
		if x.done {
			continue
		}
		select {
		case <-x.exited:
			continue
		case x.wake <- struct{}{}:
			<-x.exited
		}
	}
}

// ---- channels (unbounded-state, polling semantics over ready conditions)

type waiter struct {
	g    *G
	v    Val
	done bool
	vc   vclock
	rv   Val
	rok  bool
}

func (w *W) chanOf(c Val) *ChanObj {
	ch, _ := c.P.(*ChanObj)
	return ch
}

func (w *W) trySend(g *G, ch *ChanObj, v Val) bool {
	if ch.closed {
		w.rtPanic("send on closed channel")
	}
	for len(ch.recvq) > 0 {
		x := ch.recvq[0]
		ch.recvq = ch.recvq[1:]
		if x.done {
			continue
		}
		x.done, x.rv, x.rok, x.vc = true, v, true, g.vc
		g.vc = g.vc.inc(g.id)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(ch.buf, v)
		ch.vc = append(ch.vc, g.vc)
		g.vc = g.vc.inc(g.id)
		return true
	}
	return false
}

func (w *W) tryRecv(g *G, ch *ChanObj) (Val, bool, bool) {
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Val(nil), ch.buf[1:]...)
		g.vc = g.vc.join(ch.vc[0])
		ch.vc = append([]vclock(nil), ch.vc[1:]...)
		for len(ch.sendq) > 0 {
			x := ch.sendq[0]
			ch.sendq = ch.sendq[1:]
			if x.done {
				continue
			}
			x.done = true
			ch.buf = append(ch.buf, x.v)
			ch.vc = append(ch.vc, x.g.vc)
			break
		}
		return v, true, true
	}
	for len(ch.sendq) > 0 {
		x := ch.sendq[0]
		ch.sendq = ch.sendq[1:]
		if x.done {
			continue
		}
		x.done = true
		g.vc = g.vc.join(x.g.vc)
		return x.v, true, true
	}
	if ch.closed {
		g.vc = g.vc.join(ch.cvc)
		return Val{}, false, true
	}
	return Val{}, false, false
}

func (w *W) chanSend(g *G, c, v Val) {
	ch := w.chanOf(c)
	w.yield(g, false)
	if ch == nil {
		w.block(g, func() bool { return false })
	}
	if w.trySend(g, ch, v) {
		return
	}
	x := &waiter{g: g, v: v}
	ch.sendq = append(ch.sendq, x)
	w.block(g, func() bool { return x.done || ch.closed })
	if !x.done {
		w.rtPanic("send on closed channel")
	}
}

func (w *W) chanRecv(g *G, c Val) (Val, bool) {
	ch := w.chanOf(c)
	w.yield(g, false)
	if ch == nil {
		w.block(g, func() bool { return false })
	}
	if v, ok, done := w.tryRecv(g, ch); done {
		return v, ok
	}
	x := &waiter{g: g}
	ch.recvq = append(ch.recvq, x)
	w.block(g, func() bool { return x.done || ch.closed })
	if x.done {
		g.vc = g.vc.join(x.vc)
		return x.rv, x.rok
	}
	x.done = true
	g.vc = g.vc.join(ch.cvc)
	return Val{}, false
}

func (w *W) chanClose(g *G, c Val) {
	ch := w.chanOf(c)
	if ch == nil {
		w.rtPanic("close of nil channel")
	}
	if ch.closed {
		w.rtPanic("close of closed channel")
	}
	w.yield(g, false)
	ch.closed = true
	ch.cvc = g.vc
	g.vc = g.vc.inc(g.id)
}

func (w *W) doSelect(fr *Frame, in *Instr) Val {
	g := fr.g
	sel := in.aux.(*ssa.Select)
	get := func(i int32) Val { return fr.get(i) }
	type cs struct {
		ch   *ChanObj
		v    Val
		send bool
	}
	var cases []cs
	for i, s := range sel.States {
		c := cs{ch: w.chanOf(get(in.args[2*i]))}
		if s.Send != nil {
			c.send, c.v = true, get(in.args[2*i+1])
		}
		cases = append(cases, c)
	}
	w.yield(g, false)
	readyIdx := func() []int {
		var r []int
		for i, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				ok := c.ch.closed || len(c.ch.buf) < c.ch.cap
				for _, x := range c.ch.recvq {
					ok = ok || !x.done
				}
				if ok {
					r = append(r, i)
				}
			} else {
				ok := c.ch.closed || len(c.ch.buf) > 0
				for _, x := range c.ch.sendq {
					ok = ok || !x.done
				}
				if ok {
					r = append(r, i)
				}
			}
		}
		return r
	}
	rs := readyIdx()
	if len(rs) == 0 && in.flag {
		w.block(g, func() bool { return len(readyIdx()) > 0 })
		rs = readyIdx()
	}
	idx := -1
	var rv Val
	rok := false
	if len(rs) > 0 {
		idx = rs[w.choose(len(rs), "select")]
		c := cases[idx]
		if c.send {
			if !w.trySend(g, c.ch, c.v) {
				w.unsupported("select send")
			}
		} else {
			rv, rok, _ = w.tryRecv(g, c.ch)
		}
	}
	// tuple: (index int, recvOk bool, r_0 T_0, ...)
	ti := in.ti
	a := make([]Val, ti.n)
	a[0] = Val{N: uint64(int64(idx))}
	a[1] = Val{N: b2u(rok)}
	k := 2
	for i, c := range cases {
		if c.send {
			continue
		}
		f := ti.fields[k]
		if i == idx && f.ti.n > 0 {
			if f.ti.agg {
				if rv.P != nil {
					copy(a[f.off:], rv.P.(*Agg).v)
				}
			} else {
				a[f.off] = rv
			}
		}
		k++
	}
	return Val{P: &Agg{a}}
}

// ---- race detection

type raceObj struct {
	slots map[int]*raceSlot
	gen   *G // path identity: first goroutine of the path
}

type raceSlot struct {
	wg, wc int // last write: goroutine, clock
	wsite  string
	r      map[int]int
	rsite  map[int]string
}

func (w *W) raceSlot(o *Obj, i int) *raceSlot {
	if o.rd == nil || o.rd.gen != w.gs[0] {
		o.rd = &raceObj{slots: map[int]*raceSlot{}, gen: w.gs[0]}
	}
	s := o.rd.slots[i]
	if s == nil {
		s = &raceSlot{wg: -1}
		o.rd.slots[i] = s
	}
	return s
}

// inStub tells whether g runs a stub, whose own tables are not part of the code.
func (w *W) inStub(g *G) bool {
	if g.top == nil || g.top.code.fn == nil {
		return false
	}
	fn := g.top.code.fn
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg == w.eng.stubPkg
}

func (w *W) raceRead(o *Obj, off, n int) {
	if w.h == nil || !w.h.race {
		return
	}
	g := w.g
	if w.inStub(g) {
		return
	}
	for i := off; i < off+n; i++ {
		s := w.raceSlot(o, i)
		if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
			w.violation("race", fmt.Sprintf("read races with write at %s", s.wsite))
		}
		if s.r == nil {
			s.r = map[int]int{}
		}
		s.r[g.id] = g.vc.get(g.id)
	}
}

func (w *W) raceWrite(o *Obj, off, n int) {
	if w.h == nil || !w.h.race {
		return
	}
	g := w.g
	if w.inStub(g) {
		return
	}
	for i := off; i < off+n; i++ {
		s := w.raceSlot(o, i)
		if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.get(s.wg) {
			w.violation("race", fmt.Sprintf("write races with write at %s", s.wsite))
		}
		for rg, rc := range s.r {
			if rg != g.id && rc > g.vc.get(rg) {
				w.violation("race", "write races with an earlier read")
			}
		}
		s.wg, s.wc = g.id, g.vc.get(g.id)
		if g.top != nil && g.top.in != nil {
			s.wsite = w.posStr(g.top.in.pos)
		}
		s.r = nil
	}
}
