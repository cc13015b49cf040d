package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of further parts of the standard library: timers in virtual time,
// sync.Map, sync.Cond, string searches on symbolic text, DeepEqual.

type vtimer struct {
	live   bool
	at     int64
	seq    int
	period int64
	fire   func(g *G)
}

// fireTimer lets virtual time pass: nothing can run, so the next timer fires.
func (mc *Machine) fireTimer(g *G, tickers bool) bool {
	var best *vtimer
	for _, t := range mc.timers {
		if t.live && (tickers || t.period == 0) && (best == nil || t.at < best.at || t.at == best.at && t.seq < best.seq) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if mc.now < best.at {
		mc.now = best.at
	}
	if best.period > 0 {
		best.at += best.period
	} else {
		best.live = false
		for i, t := range mc.timers {
			if t == best {
				mc.timers = append(mc.timers[:i:i], mc.timers[i+1:]...)
				break
			}
		}
	}
	best.fire(g)
	return true
}

func (mc *Machine) addTimer(d int64, f func(g *G)) *vtimer {
	mc.tseq++
	if d < 0 {
		d = 0
	}
	t := &vtimer{live: true, at: mc.now + d, seq: mc.tseq, fire: f}
	mc.timers = append(mc.timers, t)
	return t
}

func (mc *Machine) dur(v Value) int64 {
	t := v.(*Term)
	if !t.isConst() {
		mc.unsupported("symbolic duration")
	}
	return int64(t.k)
}

// spawn starts a goroutine that calls f.
func (mc *Machine) spawn(g *G, name string, f Value) {
	ng := mc.newG(name)
	if mc.race != nil {
		ng.vc = append([]int(nil), mc.race.release(g)...)
		ng.vc = mc.race.grow(ng.vc, ng.id)
		ng.vc[ng.id] = 1
	}
	go ng.main(func() { ng.callValue(f, nil) })
}

func (mc *Machine) chanTimer(ch *Chan) func(g *G) {
	return func(g *G) {
		if hasW(ch.recvq) || len(ch.buf) < ch.cap {
			g.doSend(ch, copyVal(ch.zero))
		}
	}
}

func (mc *Machine) timeChan() *Chan {
	return &Chan{cap: 1, zero: mc.c.zero(mc.namedType("time", "Time"))}
}

// timerVal builds a *time.Timer or *time.Ticker.
func (mc *Machine) timerVal(name string, ch *Chan, t *vtimer) *Value {
	c := new(Value)
	s := mc.c.zero(mc.namedType("time", name)).(Struct)
	if ch != nil {
		s[0] = ch
	}
	*c = s
	mc.side[c] = t
	return c
}

type condState struct {
	q []*bool
}

// index of b in a as a term, -1 when absent.
func (mc *Machine) indexViews(a, b ByteView, last bool) *Term {
	c := mc.c
	an, bn := mc.concretize(a.n), mc.concretize(b.n)
	if an.k > 4096 {
		mc.unsupported("search in long memory")
	}
	r := c.Const(64, ^uint64(0))
	n := int64(an.k) - int64(bn.k)
	for j := int64(0); j <= n; j++ {
		i := n - j
		if last {
			i = j
		}
		r = c.Ite(mc.viewsEq(ByteView{a.m, c.Add(a.off, mc.i64(i)), bn}, ByteView{b.m, b.off, bn}), mc.i64(i), r)
	}
	return r
}

func (mc *Machine) countViews(a, b ByteView) *Term {
	c := mc.c
	an, bn := mc.concretize(a.n), mc.concretize(b.n)
	if bn.k != 1 || an.k > 4096 {
		mc.unsupported("count in symbolic text")
	}
	r := mc.i64(0)
	for i := int64(0); i < int64(an.k); i++ {
		r = c.Add(r, c.Ite(c.Eq(mc.memRead(a.m, c.Add(a.off, mc.i64(i))), mc.memRead(b.m, b.off)), mc.i64(1), mc.i64(0)))
	}
	return r
}

func (mc *Machine) deepEq(a, b Value, depth int) *Term {
	c := mc.c
	if depth > 64 {
		mc.unsupported("DeepEqual too deep")
	}
	and := func(x *Term, f func() *Term) *Term {
		if x == c.False {
			return x
		}
		return c.And(x, f())
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.t == nil) != (y.t == nil) {
			return c.False
		}
		if x.t == nil {
			return c.True
		}
		if !types.Identical(x.t, y.t) {
			return c.False
		}
		return mc.deepEq(x.v, y.v, depth+1)
	case *Value:
		y, ok := b.(*Value)
		if !ok || (x == nil) != (y == nil) {
			return c.False
		}
		if x == y {
			return c.True
		}
		return mc.deepEq(*x, *y, depth+1)
	case Struct:
		y := b.(Struct)
		r := c.True
		for i := range x {
			i := i
			r = and(r, func() *Term { return mc.deepEq(x[i], y[i], depth+1) })
		}
		return r
	case Slice:
		y, ok := b.(Slice)
		if !ok || len(x.s) != len(y.s) || (x.s == nil) != (y.s == nil) {
			return c.False
		}
		r := c.True
		for i := range x.s {
			i := i
			r = and(r, func() *Term { return mc.deepEq(x.s[i], y.s[i], depth+1) })
		}
		return r
	case BSlice:
		y, ok := b.(BSlice)
		if !ok || (x.cell == nil) != (y.cell == nil) {
			return c.False
		}
		return mc.viewsEq(mc.bytesView(x), mc.bytesView(y))
	case *MapObj:
		y, ok := b.(*MapObj)
		if !ok || (x == nil) != (y == nil) {
			return c.False
		}
		if x == nil || x == y {
			return c.True
		}
		if x.live != y.live {
			return c.False
		}
		r := c.True
		for i, k := range x.keys {
			if x.del[i] {
				continue
			}
			j := mc.mapFind(y, k)
			if j < 0 {
				return c.False
			}
			i := i
			r = and(r, func() *Term { return mc.deepEq(*x.vals[i], *y.vals[j], depth+1) })
		}
		return r
	case *Closure:
		y, ok := b.(*Closure)
		return c.Bool(ok && x == nil && y == nil)
	}
	return mc.eqVal(a, b)
}

func (mc *Machine) smap(p Value) *MapObj {
	c := mc.deref(p)
	if s, ok := mc.side[c]; ok {
		return s.(*smapState).m
	}
	s := &smapState{m: &MapObj{idx: map[string]int{}}}
	mc.side[c] = s
	return s.m
}

type smapState struct {
	m  *MapObj
	vc []int
}

func init() {
	// sync.Map: every operation is one atomic step and synchronises
	sm := func(f func(mc *Machine, m *MapObj, a []Value) Value) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			g.yield()
			mc := g.mc
			m := mc.smap(a[0])
			s := mc.side[mc.deref(a[0])].(*smapState)
			mc.acq(g, s.vc)
			r := f(mc, m, a)
			s.vc = mc.rel(g, s.vc)
			return r
		}
	}
	get := func(mc *Machine, m *MapObj, k Value) (Value, bool) {
		if i := mc.mapFind(m, k); i >= 0 {
			return copyVal(*m.vals[i]), true
		}
		return Iface{}, false
	}
	reg("(*sync.Map).Load", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		return Tuple{v, mc.c.Bool(ok)}
	}))
	reg("(*sync.Map).Store", sm(func(mc *Machine, m *MapObj, a []Value) Value { mc.mapSet(m, a[1], a[2]); return nil }))
	reg("(*sync.Map).Delete", sm(func(mc *Machine, m *MapObj, a []Value) Value { mc.mapDelete(m, a[1]); return nil }))
	reg("(*sync.Map).LoadOrStore", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		if !ok {
			v = a[2]
			mc.mapSet(m, a[1], a[2])
		}
		return Tuple{v, mc.c.Bool(ok)}
	}))
	reg("(*sync.Map).LoadAndDelete", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		mc.mapDelete(m, a[1])
		return Tuple{v, mc.c.Bool(ok)}
	}))
	reg("(*sync.Map).Swap", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		mc.mapSet(m, a[1], a[2])
		return Tuple{v, mc.c.Bool(ok)}
	}))
	reg("(*sync.Map).Clear", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		*m = MapObj{idx: map[string]int{}}
		return nil
	}))
	reg("(*sync.Map).CompareAndSwap", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		if ok && mc.branch(mc.eqVal(v, a[2])) {
			mc.mapSet(m, a[1], a[3])
			return mc.c.True
		}
		return mc.c.False
	}))
	reg("(*sync.Map).CompareAndDelete", sm(func(mc *Machine, m *MapObj, a []Value) Value {
		v, ok := get(mc, m, a[1])
		if ok && mc.branch(mc.eqVal(v, a[2])) {
			mc.mapDelete(m, a[1])
			return mc.c.True
		}
		return mc.c.False
	}))
	reg("(*sync.Map).Range", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.smap(a[0])
		s := g.mc.side[g.mc.deref(a[0])].(*smapState)
		g.mc.acq(g, s.vc)
		for i := 0; i < len(m.keys); i++ {
			if m.del[i] {
				continue
			}
			if !g.mc.branch(g.callValue(a[1], []Value{copyVal(m.keys[i]), copyVal(*m.vals[i])}).(*Term)) {
				break
			}
		}
		return nil
	})
	// sync.Cond
	cond := func(mc *Machine, p Value) *condState {
		c := mc.deref(p)
		s, _ := mc.side[c].(*condState)
		if s == nil {
			s = &condState{}
			mc.side[c] = s
		}
		return s
	}
	reg("(*sync.Cond).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		s := cond(g.mc, a[0])
		l := (*g.mc.deref(a[0])).(Struct)[1].(Iface)
		if l.t == nil {
			l = (*g.mc.deref(a[0])).(Struct)[0].(Iface)
		}
		woken := new(bool)
		s.q = append(s.q, woken)
		g.callMethod(l, "Unlock")
		g.block("cond wait", func() bool { return *woken })
		g.callMethod(l, "Lock")
		return nil
	})
	reg("(*sync.Cond).Signal", func(g *G, fn *ssa.Function, a []Value) Value {
		s := cond(g.mc, a[0])
		if len(s.q) > 0 {
			*s.q[0] = true
			s.q = s.q[1:]
		}
		return nil
	})
	reg("(*sync.Cond).Broadcast", func(g *G, fn *ssa.Function, a []Value) Value {
		s := cond(g.mc, a[0])
		for _, w := range s.q {
			*w = true
		}
		s.q = nil
		return nil
	})
	// context
	reg("context.WithValue", func(g *G, fn *ssa.Function, a []Value) Value {
		if a[0].(Iface).t == nil {
			g.mc.throwVal(Iface{g.mc.w.canT.of(types.Typ[types.String]), "cannot create context from nil parent"})
		}
		c := new(Value)
		*c = Struct{a[0], a[1], a[2]}
		return Iface{g.mc.w.canT.of(types.NewPointer(g.mc.namedType("context", "valueCtx"))), c}
	})
	// time: nothing but timers makes it pass
	reg("time.Since|time.Until|time.runtimeNano|time.runtimeNow", func(g *G, fn *ssa.Function, a []Value) Value {
		if fn.Name() == "Until" {
			if f := g.mc.w.methodByName(g.mc.namedType("time", "Time"), "Sub"); f != nil {
				return g.call(f, []Value{a[0], g.mc.c.zero(g.mc.namedType("time", "Time"))}, nil)
			}
		}
		return noopIntr(g, fn, a)
	})
	reg("time.After", func(g *G, fn *ssa.Function, a []Value) Value {
		ch := g.mc.timeChan()
		g.mc.addTimer(g.mc.dur(a[0]), g.mc.chanTimer(ch))
		return ch
	})
	reg("time.NewTimer", func(g *G, fn *ssa.Function, a []Value) Value {
		ch := g.mc.timeChan()
		return g.mc.timerVal("Timer", ch, g.mc.addTimer(g.mc.dur(a[0]), g.mc.chanTimer(ch)))
	})
	reg("time.NewTicker", func(g *G, fn *ssa.Function, a []Value) Value {
		ch := g.mc.timeChan()
		d := g.mc.dur(a[0])
		if d <= 0 {
			g.mc.throwVal(Iface{g.mc.w.canT.of(types.Typ[types.String]), "non-positive interval for NewTicker"})
		}
		t := g.mc.addTimer(d, g.mc.chanTimer(ch))
		t.period = d
		return g.mc.timerVal("Ticker", ch, t)
	})
	reg("time.AfterFunc", func(g *G, fn *ssa.Function, a []Value) Value {
		f := a[1]
		mc := g.mc
		return mc.timerVal("Timer", nil, mc.addTimer(mc.dur(a[0]), func(g *G) { mc.spawn(g, "timer", f) }))
	})
	reg("(*time.Timer).Stop|(*time.Ticker).Stop", func(g *G, fn *ssa.Function, a []Value) Value {
		t, _ := g.mc.side[g.mc.deref(a[0])].(*vtimer)
		was := t != nil && t.live
		if t != nil {
			t.live = false
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return g.mc.c.Bool(was)
	})
	reg("(*time.Timer).Reset|(*time.Ticker).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		t, _ := mc.side[mc.deref(a[0])].(*vtimer)
		if t == nil {
			mc.unsupported("reset of an unknown timer")
		}
		was := t.live
		d := mc.dur(a[1])
		t.live = false
		n := mc.addTimer(d, t.fire)
		if t.period > 0 {
			n.period = d
		}
		mc.side[mc.deref(a[0])] = n
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return mc.c.Bool(was)
	})
	reg("runtime.NumGoroutine", func(g *G, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, o := range g.mc.gs {
			if !o.done {
				n++
			}
		}
		return g.mc.i64(int64(n))
	})
	// searches
	both := func(a []Value) (string, string, bool) {
		x, ok1 := a[0].(string)
		y, ok2 := a[1].(string)
		return x, y, ok1 && ok2
	}
	sidx := func(last bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			if x, y, ok := both(a); ok {
				if last {
					return g.mc.i64(int64(strings.LastIndex(x, y)))
				}
				return g.mc.i64(int64(strings.Index(x, y)))
			}
			return g.mc.indexViews(g.mc.strView(a[0]), g.mc.strView(a[1]), last)
		}
	}
	bidx := func(last bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			return g.mc.indexViews(g.mc.bytesView(a[0].(BSlice)), g.mc.bytesView(a[1].(BSlice)), last)
		}
	}
	reg("strings.Index|internal/bytealg.IndexString|internal/stringslite.Index", sidx(false))
	reg("strings.LastIndex", sidx(true))
	reg("bytes.Index|internal/bytealg.Index", bidx(false))
	reg("bytes.LastIndex", bidx(true))
	reg("strings.Contains", func(g *G, fn *ssa.Function, a []Value) Value {
		i := sidx(false)(g, fn, a).(*Term)
		return g.mc.c.Not(g.mc.c.Eq(i, g.mc.c.Const(64, ^uint64(0))))
	})
	reg("internal/bytealg.CountString|internal/bytealg.Count", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		b := mc.newBytes(mc.memStore(memZero, mc.i64(0), a[1].(*Term)), mc.i64(1))
		if s, ok := a[0].(BSlice); ok {
			return mc.countViews(mc.bytesView(s), mc.bytesView(b))
		}
		return mc.countViews(mc.strView(a[0]), mc.bytesView(b))
	})
	reg("strings.Count", func(g *G, fn *ssa.Function, a []Value) Value {
		if x, y, ok := both(a); ok {
			return g.mc.i64(int64(strings.Count(x, y)))
		}
		return g.mc.countViews(g.mc.strView(a[0]), g.mc.strView(a[1]))
	})
	// the pieces between the separators, on concrete text or on symbolic text with a one-byte separator
	split := func(limit bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			mc := g.mc
			n := -1
			if limit {
				n = int(int64(mc.concretize(a[2].(*Term)).k))
			}
			var out []Value
			if x, y, ok := both(a); ok {
				r := strings.SplitN(x, y, n)
				if r == nil {
					return Slice{}
				}
				for _, s := range r {
					out = append(out, s)
				}
				return Slice{out, true}
			}
			if n == 0 {
				return Slice{}
			}
			sep := mc.strView(a[1])
			sn := mc.concretize(sep.n)
			if sn.k == 0 {
				mc.unsupported("split of symbolic text into characters")
			}
			s := a[0]
			for n < 0 || len(out) < n-1 {
				i := mc.concretize(mc.indexViews(mc.strView(s), sep, false))
				if int64(i.k) < 0 {
					break
				}
				out = append(out, mc.sliceOp(s, nil, i, nil))
				s = mc.sliceOp(s, mc.c.Add(i, sn), nil, nil)
			}
			out = append(out, s)
			return Slice{out, true}
		}
	}
	reg("strings.Split", split(false))
	reg("strings.SplitN", split(true))
	reg("strings.Repeat", func(g *G, fn *ssa.Function, a []Value) Value {
		n := int64(g.mc.concretize(a[1].(*Term)).k)
		if n < 0 {
			g.mc.throwVal(Iface{g.mc.w.canT.of(types.Typ[types.String]), "strings: negative Repeat count"})
		}
		if s, ok := a[0].(string); ok {
			return strings.Repeat(s, int(n))
		}
		var r Value = ""
		for i := int64(0); i < n; i++ {
			r = g.mc.concat(r, a[0])
		}
		return r
	})
	reg("internal/bytealg.MakeNoZero", func(g *G, fn *ssa.Function, a []Value) Value {
		n := a[0].(*Term)
		return g.mc.newBytes(memZero, n)
	})
	reg("math/rand.Intn|math/rand.Int63n|math/rand.Int31n|math/rand.Int|math/rand.Int63|math/rand.Int31|math/rand.Uint32|math/rand.Uint64|math/rand.Float64|math/rand.Shuffle", noopIntr)
	for n, f := range map[string]func(float64) float64{"Ceil": math.Ceil, "Floor": math.Floor, "Trunc": math.Trunc, "Round": math.Round, "Log2": math.Log2, "Log": math.Log, "Log10": math.Log10, "Sqrt": math.Sqrt, "Exp": math.Exp} {
		f := f
		reg("math."+n, func(g *G, fn *ssa.Function, a []Value) Value { return f(a[0].(float64)) })
	}
	for n, f := range map[string]func(x, y float64) float64{"Pow": math.Pow, "Max": math.Max, "Min": math.Min, "Mod": math.Mod} {
		f := f
		reg("math."+n, func(g *G, fn *ssa.Function, a []Value) Value { return f(a[0].(float64), a[1].(float64)) })
	}
	reg("reflect.DeepEqual", func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.deepEq(a[0], a[1], 0) })
	// formatted output reaches the writer
	fout := func(kind byte) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			w := a[0].(Iface)
			if w.t == nil {
				g.mc.throw("invalid memory address or nil pointer dereference")
			}
			if strings.HasPrefix(w.t.String(), "*os.") {
				return noopIntr(g, fn, a)
			}
			var s Value
			if kind == 'f' {
				s = g.mc.sprintfVal(g, a[1], a[2].(Slice))
			} else {
				var ns []interface{}
				for _, x := range a[1].(Slice).s {
					ns = append(ns, g.mc.fmtArg(g, x.(Iface), 'v'))
				}
				if kind == 'l' {
					s = fmt.Sprintln(ns...)
				} else {
					s = fmt.Sprint(ns...)
				}
			}
			r, _ := g.callMethod(w, "Write", g.mc.viewToBytes(g.mc.strView(s)))
			return r
		}
	}
	reg("fmt.Fprintf", fout('f'))
	reg("fmt.Fprint", fout('p'))
	reg("fmt.Fprintln", fout('l'))
	reg("sort.Strings|slices.Sort[[]string string]", func(g *G, fn *ssa.Function, a []Value) Value {
		s := a[0].(Slice)
		ok := true
		for _, e := range s.s {
			if _, c := e.(string); !c {
				ok = false
			}
		}
		if ok {
			sort.SliceStable(s.s, func(i, j int) bool { return s.s[i].(string) < s.s[j].(string) })
			return nil
		}
		g.insertionSort(len(s.s), func(x, y int) bool {
			return g.mc.branch(g.mc.c.Slt(g.mc.cmpStr(s.s[x], s.s[y]), g.mc.i64(0)))
		}, func(x, y int) { g.swapCells(&s.s[x], &s.s[y]) })
		return nil
	})
}

// sprintfVal formats; plain %s and %v of symbolic text (and of symbolic bytes) keep it symbolic.
func (mc *Machine) sprintfVal(g *G, format Value, args Slice) Value {
	f, ok := format.(string)
	if !ok {
		return mc.sprintf(g, format, args)
	}
	symText := func(v Value) (Value, bool) {
		i, ok := v.(Iface)
		if !ok || i.t == nil {
			return nil, false
		}
		switch x := i.v.(type) {
		case *SStr:
			return x, true
		case BSlice:
			if _, ok := mc.concreteBytes(mc.bytesView(x)); !ok && x.cell != nil {
				return mc.strVal(mc.bytesView(x)), true
			}
		}
		return nil, false
	}
	any := false
	for _, a := range args.s {
		if _, ok := symText(a); ok {
			any = true
		}
	}
	if !any {
		return mc.sprintf(g, format, args)
	}
	var out Value = ""
	k := 0
	lit := 0
	emit := func(to int, n int) { // format f[lit:to] with the next n operands
		if to > lit {
			e := k + n
			if e > len(args.s) {
				e = len(args.s)
			}
			out = mc.concat(out, mc.sprintf(g, f[lit:to], Slice{args.s[k:e], true}))
			k = e
		}
		lit = to
	}
	pend := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		st := i
		i++
		n := 1
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			if f[i] == '*' {
				n++
			}
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if i == st+1 && (f[i] == 's' || f[i] == 'v') && k+pend < len(args.s) {
			if s, ok := symText(args.s[k+pend]); ok {
				if _, b := args.s[k+pend].(Iface).v.(BSlice); !b || f[i] == 's' {
					if hasText(mc, args.s[k+pend].(Iface)) {
						emit(st, pend)
						pend = 0
						out = mc.concat(out, s)
						k++
						lit = i + 1
						continue
					}
				}
			}
		}
		pend += n
	}
	emit(len(f), len(args.s)-k)
	return out
}

// hasText: the operand has no method that would replace its text.
func hasText(mc *Machine, i Iface) bool {
	return mc.w.methodByName(i.t, "Error") == nil && mc.w.methodByName(i.t, "String") == nil
}
