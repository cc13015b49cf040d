package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// G is a simulated goroutine. Exactly one G runs at a time (baton passing).
type G struct {
	mc      *Machine
	id      int
	name    string
	wake    chan struct{}
	gone    chan struct{}
	done    bool
	blocked func() bool // nil when runnable
	what    string
	fr      *frame
	depth   int
	vc      []int // vector clock (race detection)
	daemon  bool
	entry   Value // what to run, until it starts
	args    []Value
}

// twin reports that two goroutines that have not started run the same function
// on the same captured values, so that their order does not matter.
func twin(a, b *G) bool {
	if a.entry == nil || b.entry == nil || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if !sameVal(a.args[i], b.args[i], 2) {
			return false
		}
	}
	return sameVal(a.entry, b.entry, 3)
}

func sameVal(x, y Value, d int) bool {
	switch p := x.(type) {
	case *Closure:
		q, ok := y.(*Closure)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if d == 0 || p.fn != q.fn || p.native != nil || q.native != nil || len(p.env) != len(q.env) {
			return false
		}
		for i := range p.env {
			if !sameVal(p.env[i], q.env[i], d-1) {
				return false
			}
		}
		return true
	case *Value:
		q, ok := y.(*Value)
		if !ok {
			return false
		}
		if p == q {
			return true
		}
		if p == nil || q == nil || d == 0 {
			return false
		}
		// a cell that holds a captured variable
		switch (*p).(type) {
		case *Closure, *Value:
			return sameVal(*p, *q, d-1)
		}
		return false
	case *ssa.Function:
		q, ok := y.(*ssa.Function)
		return ok && p == q
	case *Term:
		q, ok := y.(*Term)
		return ok && p == q
	}
	return false
}

func (mc *Machine) newG(name string) *G {
	g := &G{mc: mc, id: len(mc.gs), name: name, wake: make(chan struct{}, 1), gone: make(chan struct{})}
	mc.gs = append(mc.gs, g)
	if len(mc.gs) > 4000 {
		panic(abortPath{"limit", "too many goroutines"})
	}
	return g
}

// main is the native body of a simulated goroutine.
func (g *G) main(f func()) {
	mc := g.mc
	<-g.wake
	defer close(g.gone)
	if mc.dead {
		g.done = true
		return
	}
	func() {
		defer func() {
			r := recover()
			switch x := r.(type) {
			case nil:
			case abortPath:
				if x.kind == "dead" {
					return
				}
				mc.finish(x)
			case *tpanic:
				func() {
					defer func() {
						if r := recover(); r != nil {
							mc.finish(r)
						}
					}()
					mc.uncaught(g, x)
				}()
			default:
				mc.finish(fmt.Sprintf("%v @ %s\n%s", r, mc.where(), stack()))
			}
		}()
		f()
	}()
	g.done = true
	if mc.dead {
		return
	}
	if g == mc.mainG {
		func() {
			defer func() {
				if r := recover(); r != nil {
					mc.finish(r)
				}
			}()
			mc.finish(nil)
		}()
		return
	}
	if mc.race != nil {
		mc.race.exit(g)
	}
	mc.switchFrom(g)
}

// finish ends the path; the explorer tears the other goroutines down.
func (mc *Machine) finish(why interface{}) {
	if mc.dead {
		return
	}
	mc.dead = true
	mc.fatal = why
	close(mc.endCh)
}

func (mc *Machine) uncaught(g *G, p *tpanic) {
	msg := "panic: " + mc.panicString(g, p.v)
	if mc.pos >= len(mc.prefix) {
		mc.report("panic", msg+" @ "+p.where, mc.model)
	}
	mc.finish(abortPath{"violated", "panic"})
}

func (mc *Machine) ready(g *G) bool {
	if g.done {
		return false
	}
	return g.blocked == nil || g.blocked()
}

// runnable lists ready goroutines in round-robin order starting after g.
func (mc *Machine) runnable(after *G) []*G {
	var out []*G
	n := len(mc.gs)
	for i := 1; i <= n; i++ {
		o := mc.gs[(after.id+i)%n]
		if o != after && mc.ready(o) {
			dup := false
			if o.entry != nil {
				for _, p := range out {
					if twin(p, o) {
						dup = true
						break
					}
				}
			}
			if !dup {
				out = append(out, o)
			}
		}
	}
	return out
}

func (mc *Machine) resume(o *G) {
	o.blocked = nil
	mc.cur = o
	o.wake <- struct{}{}
}

// switchFrom hands the baton on; g itself is finished.
func (mc *Machine) switchFrom(g *G) {
	defer func() {
		if r := recover(); r != nil {
			mc.finish(r)
		}
	}()
	rs := mc.runnable(g)
	for len(rs) == 0 && mc.fireTimer(g, true) {
		rs = mc.runnable(g)
	}
	if len(rs) == 0 {
		mc.deadlock(g)
		return
	}
	k := 0
	if mc.delays > 0 && len(rs) > 1 {
		k = mc.choose(len(rs))
		if k > 0 {
			mc.delays--
		}
	}
	mc.resume(rs[k])
}

// block waits until ready() holds.
func (g *G) block(what string, ready func() bool) {
	mc := g.mc
	if ready() {
		return
	}
	g.blocked, g.what = ready, what
	rs := mc.runnable(g)
	for len(rs) == 0 && mc.fireTimer(g, true) {
		if ready() {
			g.blocked = nil
			return
		}
		rs = mc.runnable(g)
	}
	if len(rs) == 0 {
		mc.deadlock(g)
		panic(abortPath{"dead", ""})
	}
	k := 0
	if mc.delays > 0 && len(rs) > 1 {
		k = mc.choose(len(rs))
		if k > 0 {
			mc.delays--
		}
	}
	mc.resume(rs[k])
	g.park()
}

func (g *G) park() {
	<-g.wake
	if g.mc.dead {
		panic(abortPath{"dead", ""})
	}
	g.mc.cur = g
	g.blocked = nil
}

// yield is a scheduling point at which a bounded number of preemptions is explored.
func (g *G) yield() {
	mc := g.mc
	if mc.delays <= 0 {
		return
	}
	rs := mc.runnable(g)
	if len(rs) == 0 {
		return
	}
	k := mc.choose(len(rs) + 1)
	if k == 0 {
		return
	}
	mc.delays--
	g.blocked = nil
	mc.resume(rs[k-1])
	g.park()
}

// gosched runs every other runnable goroutine until quiescence.
func (g *G) quiesce() {
	mc := g.mc
	for {
		rs := mc.runnable(g)
		if len(rs) == 0 && mc.fireTimer(g, false) {
			continue
		}
		if len(rs) == 0 {
			return
		}
		// run o until it blocks; this goroutine becomes ready when nobody else is
		g.blocked = func() bool {
			for _, o := range mc.gs {
				if o != g && mc.readyNoSelf(o, g) {
					return false
				}
			}
			return true
		}
		mc.resume(rs[0])
		g.park()
	}
}

func (mc *Machine) readyNoSelf(o, self *G) bool {
	if o.done || o == self {
		return false
	}
	return o.blocked == nil || o.blocked()
}

func (mc *Machine) deadlock(g *G) {
	msg := "deadlock: all goroutines blocked:"
	for _, o := range mc.gs {
		if !o.done {
			msg += fmt.Sprintf(" [%s: %s at %s]", o.name, o.what, mc.w.e.prog.posG(o))
		}
	}
	if mc.pos >= len(mc.prefix) {
		mc.report("deadlock", "deadlock @ "+msg, mc.model)
	}
	mc.finish(abortPath{"violated", "deadlock"})
}

// Chan follows the runtime's sudog protocol.
type Chan struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	zero   Value
	vc     []int
	bvc    [][]int
	rvc    []int
}

type waiter struct {
	g    *G
	val  Value
	ok   bool
	sel  *selState
	idx  int
	done *bool
	vc   []int
}

type selState struct {
	fired bool
	idx   int
	val   Value
	ok    bool
	vc    []int
}

func popW(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if w.sel.fired {
			continue
		}
		return w
	}
	return nil
}

func hasW(q []*waiter) bool {
	for _, w := range q {
		if !w.sel.fired {
			return true
		}
	}
	return false
}

func (ch *Chan) canSend() bool {
	return ch != nil && (ch.closed || hasW(ch.recvq) || len(ch.buf) < ch.cap)
}
func (ch *Chan) canRecv() bool { return ch != nil && (len(ch.buf) > 0 || ch.closed || hasW(ch.sendq)) }

func (g *G) doSend(ch *Chan, v Value) {
	mc := g.mc
	if ch.closed {
		mc.throw("send on closed channel")
	}
	if w := popW(&ch.recvq); w != nil {
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, true
		if mc.race != nil {
			w.sel.vc = mc.race.release(g)
			mc.race.acquire(g, w.vc)
		}
		return
	}
	ch.buf = append(ch.buf, v)
	if mc.race != nil {
		mc.race.acquire(g, ch.rvc)
		ch.bvc = append(ch.bvc, mc.race.release(g))
	}
}

func (g *G) doRecv(ch *Chan) (Value, bool) {
	mc := g.mc
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		if mc.race != nil {
			if len(ch.bvc) > 0 {
				mc.race.acquire(g, ch.bvc[0])
				ch.bvc = ch.bvc[1:]
			}
			// a receive happens before the send that reuses its place
			ch.rvc = mc.rel(g, ch.rvc)
		}
		if w := popW(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			if mc.race != nil {
				ch.bvc = append(ch.bvc, w.vc)
				w.sel.vc = ch.rvc
			}
			w.sel.fired, w.sel.idx = true, w.idx
			w.sel.ok = true
		}
		return v, true
	}
	if w := popW(&ch.sendq); w != nil {
		w.sel.fired, w.sel.idx = true, w.idx
		w.sel.ok = true
		if mc.race != nil {
			mc.race.acquire(g, w.vc)
			w.sel.vc = mc.race.release(g)
		}
		return w.val, true
	}
	if mc.race != nil && ch.vc != nil {
		mc.race.acquire(g, ch.vc)
	}
	return ch.zero, false // closed
}

func (g *G) send(ch *Chan, v Value) {
	g.yield()
	if ch == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if ch.canSend() {
		g.doSend(ch, v)
		return
	}
	st := &selState{}
	w := &waiter{g: g, val: v, sel: st}
	if g.mc.race != nil {
		w.vc = g.mc.race.release(g)
	}
	ch.sendq = append(ch.sendq, w)
	g.block("chan send", func() bool { return st.fired })
	if g.mc.race != nil {
		g.mc.race.acquire(g, st.vc)
	}
	if !st.ok {
		g.mc.throw("send on closed channel")
	}
}

func (g *G) recv(ch *Chan) (Value, bool) {
	g.yield()
	if ch == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	if ch.canRecv() {
		return g.doRecv(ch)
	}
	st := &selState{}
	w := &waiter{g: g, sel: st}
	if g.mc.race != nil {
		w.vc = g.mc.race.release(g)
	}
	ch.recvq = append(ch.recvq, w)
	g.block("chan receive", func() bool { return st.fired })
	if g.mc.race != nil {
		g.mc.race.acquire(g, st.vc)
	}
	return st.val, st.ok
}

func (g *G) closeChan(ch *Chan) {
	g.yield()
	mc := g.mc
	if ch == nil {
		mc.throw("close of nil channel")
	}
	if ch.closed {
		mc.throw("close of closed channel")
	}
	ch.closed = true
	var vc []int
	if mc.race != nil {
		vc = mc.race.release(g)
		ch.vc = vc
	}
	for {
		w := popW(&ch.recvq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.val, w.sel.ok, w.sel.vc = true, w.idx, ch.zero, false, vc
	}
	for {
		w := popW(&ch.sendq)
		if w == nil {
			break
		}
		w.sel.fired, w.sel.idx, w.sel.ok = true, w.idx, false
	}
}

type selCase struct {
	ch   *Chan
	send bool
	val  Value
}

// selectOp returns the chosen index (-1 for default), the received value and ok.
func (g *G) selectOp(cs []selCase, blocking bool) (int, Value, bool) {
	mc := g.mc
	g.yield()
	var ready []int
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		if c.send && c.ch.canSend() || !c.send && c.ch.canRecv() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 && mc.sched {
			k = mc.choose(len(ready))
		}
		i := ready[k]
		if cs[i].send {
			g.doSend(cs[i].ch, cs[i].val)
			return i, nil, false
		}
		v, ok := g.doRecv(cs[i].ch)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	var vc []int
	if mc.race != nil {
		vc = mc.race.release(g)
	}
	for i, c := range cs {
		if c.ch == nil {
			continue
		}
		w := &waiter{g: g, val: c.val, sel: st, idx: i, vc: vc}
		if c.send {
			c.ch.sendq = append(c.ch.sendq, w)
		} else {
			c.ch.recvq = append(c.ch.recvq, w)
		}
	}
	g.block("select", func() bool { return st.fired })
	if mc.race != nil {
		mc.race.acquire(g, st.vc)
	}
	if cs[st.idx].send && !st.ok {
		mc.throw("send on closed channel")
	}
	return st.idx, st.val, st.ok
}

// race detection state (vector clocks); enabled by sym.Race.
type raceState struct {
	mc    *Machine
	fin   []int
	cells map[interface{}]*raceCell
	bytes map[*Value][]raceRange
}

func (r *raceState) grow(v []int, n int) []int {
	for len(v) <= n {
		v = append(v, 0)
	}
	return v
}
func (r *raceState) release(g *G) []int {
	g.vc = r.grow(g.vc, g.id)
	out := append([]int(nil), g.vc...)
	g.vc[g.id]++
	return out
}
func (r *raceState) acquire(g *G, vc []int) {
	for i, x := range vc {
		g.vc = r.grow(g.vc, i)
		if x > g.vc[i] {
			g.vc[i] = x
		}
	}
}
func (r *raceState) exit(g *G) {}
