package main

import "strings"

// raceCell is what the detector knows of one variable: the last write and the
// last read of each goroutine, as epochs of their vector clocks.
type raceCell struct {
	wg, wc int
	wpos   string
	rd     map[int]int
	rpos   map[int]string
}

// raceAccess reports two accesses of which one is a write and neither happens
// before the other. Accesses by harness code are left out.
func (mc *Machine) raceAccess(g *G, p Value, write bool) {
	if len(mc.gs) < 2 {
		return
	}
	if g.fr == nil || g.fr.cf.fn.Pkg != nil && strings.Contains(g.fr.cf.fn.Pkg.Pkg.Path(), "zzverif") {
		return
	}
	switch x := p.(type) {
	case *Value:
		if x == nil {
			return
		}
		mc.raceTree(g, x, write)
	case *MapObj:
		if x != nil {
			mc.raceOne(g, x, write)
		}
	case BytePtr:
		mc.raceBytes(x.cell, x.idx, mc.i64(1), write)
	}
}

// raceRange is an access to a window of a byte memory.
type raceRange struct {
	g, clk int
	write  bool
	off, n *Term
	pos    string
}

// raceBytes does the same for the bytes of a window: the solver decides
// whether two windows can overlap.
func (mc *Machine) raceBytes(cell *Value, off, n *Term, write bool) {
	g, r := mc.cur, mc.race
	if r == nil || cell == nil || len(mc.gs) < 2 || g == nil || g.fr == nil || n.isConst() && n.k == 0 {
		return
	}
	if g.fr.cf.fn.Pkg != nil && strings.Contains(g.fr.cf.fn.Pkg.Pkg.Path(), "zzverif") {
		return
	}
	if r.bytes == nil {
		r.bytes = map[*Value][]raceRange{}
	}
	g.vc = r.grow(g.vc, g.id)
	here := mc.w.e.prog.pos(g.fr)
	c := mc.c
	l := r.bytes[cell]
	keep := l[:0:0]
	for _, o := range l {
		if o.g == g.id {
			if o.off == off && o.n == n && (write || !o.write) {
				continue // replaced
			}
		} else if o.g >= len(g.vc) || o.clk > g.vc[o.g] {
			if write || o.write {
				d := c.Sub(off, o.off)
				e := c.Sub(o.off, off)
				apart := c.And(c.Not(c.Ult(d, o.n)), c.Not(c.Ult(e, n)))
				if !(o.n.isConst() && n.isConst()) {
					apart = c.Or(apart, c.Or(c.Eq(n, mc.i64(0)), c.Eq(o.n, mc.i64(0))))
				}
				if apart != c.True {
					mc.raceMsg = "data race with " + o.pos
					mc.assert(apart, "race")
				}
			}
		} else if o.off == off && o.n == n && (write || !o.write) {
			continue // before this one, which stands for it
		}
		keep = append(keep, o)
	}
	r.bytes[cell] = append(keep, raceRange{g.id, g.vc[g.id], write, off, n, here})
}

func (mc *Machine) raceView(b BSlice, write bool) {
	if mc.race != nil {
		mc.raceBytes(b.cell, b.off, b.ln, write)
	}
}

func (mc *Machine) raceTree(g *G, x *Value, write bool) {
	switch s := (*x).(type) {
	case Struct:
		for i := range s {
			mc.raceTree(g, &s[i], write)
		}
		return
	case Array:
		for i := range s {
			mc.raceTree(g, &s[i], write)
		}
		return
	}
	mc.raceOne(g, x, write)
}

func (mc *Machine) raceSlice(g *G, s []Value, write bool) {
	for i := range s {
		mc.raceAccess(g, &s[i], write)
	}
}

func (mc *Machine) raceOne(g *G, x interface{}, write bool) {
	r := mc.race
	if r.cells == nil {
		r.cells = map[interface{}]*raceCell{}
	}
	g.vc = r.grow(g.vc, g.id)
	c := r.cells[x]
	if c == nil {
		c = &raceCell{wg: -1}
		r.cells[x] = c
	}
	before := func(id, clk int) bool {
		if id == g.id {
			return true
		}
		return id < len(g.vc) && clk <= g.vc[id]
	}
	bad, at := -1, ""
	if c.wg >= 0 && !before(c.wg, c.wc) {
		bad, at = c.wg, c.wpos
	}
	here := mc.w.e.prog.pos(g.fr)
	if write {
		for id, clk := range c.rd {
			if !before(id, clk) {
				bad, at = id, c.rpos[id]
			}
		}
		c.wg, c.wc, c.wpos = g.id, g.vc[g.id], here
		c.rd, c.rpos = nil, nil
	} else {
		if c.rd == nil {
			c.rd, c.rpos = map[int]int{}, map[int]string{}
		}
		c.rd[g.id], c.rpos[g.id] = g.vc[g.id], here
	}
	if bad >= 0 {
		mc.raceMsg = "data race with " + at
		mc.assert(mc.c.False, "race")
	}
}
