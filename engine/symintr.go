package main

import (
	"fmt"

	"golang.org/x/tools/go/ssa"
)

// symIntrinsics implement the harness API (package zzverif/sym) symbolically.
var symIntrinsics = map[string]intrinsic{}

func (mc *Machine) fresh(name Value) string {
	n, ok := name.(string)
	if !ok {
		mc.unsupported("symbolic variable name")
	}
	k := mc.names[n]
	mc.names[n]++
	if k > 0 {
		n = fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (mc *Machine) rangeVar(name string, lo, hi *Term) *Term {
	c := mc.c
	v := c.Var(64, name)
	if lo.isConst() && hi.isConst() {
		if int64(lo.k) > int64(hi.k) {
			panic(abortPath{"assume", ""})
		}
		if lo == hi {
			// still a named input for replay
			mc.setVar(name, lo.k)
			mc.addPC(c.Eq(v, lo))
			return lo
		}
		if int64(lo.k) >= 0 {
			// narrow variables keep the bit-vector problems small
			w := uint8(1)
			for w < 63 && hi.k>>w != 0 {
				w++
			}
			v = c.Zext(64, c.Var(w, name))
		}
		mc.setVar(name, lo.k)
		mc.addPC(c.Sle(lo, v))
		mc.addPC(c.Sle(v, hi))
		return v
	}
	mc.setVar(name, mc.eval(lo))
	mc.assume(c.Sle(lo, v))
	mc.assume(c.Sle(v, hi))
	return v
}

func init() {
	s := symIntrinsics
	s["Int"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.rangeVar(g.mc.fresh(a[0]), a[1].(*Term), a[2].(*Term))
	}
	s["Int64"] = s["Int"]
	s["Uint64"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.mc.fresh(a[0])
		g.mc.setVar(n, 0)
		return g.mc.c.Var(64, n)
	}
	s["AnyInt"] = s["Uint64"]
	s["AnyInt64"] = s["Uint64"]
	s["Byte"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.mc.fresh(a[0])
		g.mc.setVar(n, 0)
		return g.mc.c.Var(8, n)
	}
	s["Bool"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n := g.mc.fresh(a[0])
		g.mc.setVar(n, 0)
		return g.mc.c.Var(0, n)
	}
	s["Choice"] = func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		n := mc.fresh(a[0])
		k := mc.concretize(a[1].(*Term))
		i := mc.choose(int(k.k))
		t := mc.c.Const(64, uint64(i))
		mc.forceVar(n, uint64(i))
		mc.addPC(mc.c.Eq(mc.c.Var(64, n), t))
		return t
	}
	s["Bytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		n := mc.fresh(a[0])
		return mc.newBytes(&Mem{kind: MBase, name: n}, a[1].(*Term))
	}
	s["Assume"] = func(g *G, fn *ssa.Function, a []Value) Value { g.mc.assume(a[0].(*Term)); return nil }
	s["Assert"] = func(g *G, fn *ssa.Function, a []Value) Value {
		id, _ := a[1].(string)
		g.mc.assert(a[0].(*Term), id)
		return nil
	}
	s["AssertEqBytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		c := mc.c
		x, y := mc.bytesView(a[0].(BSlice)), mc.bytesView(a[1].(BSlice))
		id, _ := a[2].(string)
		mc.assert(c.Eq(x.n, y.n), id+"/len")
		x, y = mc.view(x.m, x.off, x.n), mc.view(y.m, y.off, x.n)
		if x.m == y.m && x.off == y.off {
			mc.assert(c.True, id)
			return nil
		}
		if tx, ty := mc.wholeToken(x), mc.wholeToken(y); tx != nil && ty != nil {
			mc.assert(mc.tokensEq(tx, ty), id)
			return nil
		}
		i := c.Var(64, mc.fresh("skolem"))
		mc.setVar(i.name, 0)
		in := c.Ult(i, x.n)
		bx, by := mc.memRead(x.m, c.Add(x.off, i)), mc.memRead(y.m, c.Add(y.off, i))
		mc.assertOnly(c.Or(c.Not(in), c.Eq(bx, by)), id)
		return nil
	}
	s["Reach"] = func(g *G, fn *ssa.Function, a []Value) Value {
		id, _ := a[0].(string)
		e := g.mc.w.e
		e.mu.Lock()
		e.Reached[id]++
		e.mu.Unlock()
		return nil
	}
	s["Observe"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n, _ := a[0].(string)
		g.mc.obs = append(g.mc.obs, obsEnt{n, a[1]})
		return nil
	}
	s["ObserveStr"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n, _ := a[0].(string)
		v, ok := a[1].(string)
		if !ok {
			v = "<sym>"
		}
		g.mc.obs = append(g.mc.obs, obsEnt{n, v})
		return nil
	}
	s["And"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.c.And(a[0].(*Term), a[1].(*Term)) }
	s["Or"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.c.Or(a[0].(*Term), a[1].(*Term)) }
	s["Implies"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.c.Or(g.mc.c.Not(a[0].(*Term)), a[1].(*Term))
	}
	s["Ite"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.c.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	s["Ite64"] = s["Ite"]
	s["EqBytes"] = func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.viewsEq(g.mc.bytesView(a[0].(BSlice)), g.mc.bytesView(a[1].(BSlice)))
	}
	s["Concretize"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.concretize(a[0].(*Term)) }
	s["Symbolic"] = func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.c.True }
	s["Sched"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.mc.delays = int(a[0].(*Term).k)
		g.mc.sched = g.mc.delays > 0
		return nil
	}
	s["MapOrder"] = func(g *G, fn *ssa.Function, a []Value) Value { g.mc.symCfg["maporder"] = 1; return nil }
	s["Hang"] = func(g *G, fn *ssa.Function, a []Value) Value { g.mc.symCfg["hang"] = 1; return nil }
	s["Race"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.mc.race = &raceState{mc: g.mc}
		for _, o := range g.mc.gs {
			o.vc = g.mc.race.grow(nil, o.id)
			o.vc[o.id] = 1
		}
		return nil
	}
	s["Quiesce"] = func(g *G, fn *ssa.Function, a []Value) Value {
		g.quiesce()
		n := 0
		for _, o := range g.mc.gs {
			if o != g && !o.done {
				n++
			}
		}
		return g.mc.i64(int64(n))
	}
	s["Param"] = func(g *G, fn *ssa.Function, a []Value) Value {
		n, _ := a[0].(string)
		if v, ok := g.mc.w.e.params[n]; ok {
			return g.mc.c.Const(64, uint64(v))
		}
		return a[1]
	}
	s["Skip"] = func(g *G, fn *ssa.Function, a []Value) Value { panic(abortPath{"assume", ""}) }
	s["Fail"] = func(g *G, fn *ssa.Function, a []Value) Value {
		id, _ := a[0].(string)
		g.mc.assert(g.mc.c.False, id)
		return nil
	}
}

// forceVar overrides the model value of an input chosen by the engine.
func (mc *Machine) forceVar(name string, v uint64) {
	if o, ok := mc.model.v[name]; ok && o == v {
		return
	}
	mc.model = mc.model.clone()
	mc.shared = false
	mc.model.v[name] = v
	mc.memo = map[*Term]uint64{}
}

// assertOnly discharges cond without recording it on the path.
func (mc *Machine) assertOnly(cond *Term, id string) {
	e := mc.w.e
	e.mu.Lock()
	s := e.assertStat(id)
	e.mu.Unlock()
	if cond.isConst() && cond.k == 1 {
		e.mu.Lock()
		s.Discharged++
		s.Trivial++
		e.mu.Unlock()
		return
	}
	if mc.pos < len(mc.prefix) {
		return
	}
	r, m := mc.sat(mc.c.Not(cond))
	e.mu.Lock()
	switch r {
	case Unsat:
		s.Discharged++
	case Unknown:
		s.Unknown++
		e.Unknown++
	case Sat:
		s.Violated++
	}
	e.mu.Unlock()
	if r == Sat {
		mc.report(id, "assertion "+id+" can fail", m)
	}
}
