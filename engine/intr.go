package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

// prefixes of functions that do nothing observable
var noopPkgs = []string{"github.com/ipfs/go-log", "go.uber.org/zap", "internal/race", "github.com/opentracing/", "internal/msan", "internal/asan", "runtime/trace"}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func lookupIntrinsic(fn *ssa.Function) (intrinsic, bool) {
	k := fnKey(fn)
	if in, ok := intrinsics[k]; ok {
		return in, true
	}
	if fn.Pkg != nil {
		p := fn.Pkg.Pkg.Path()
		for _, n := range noopPkgs {
			if strings.HasPrefix(p, n) {
				return noopIntr, true
			}
		}
		if strings.HasSuffix(p, "/zzverif/sym") {
			if in, ok := symIntrinsics[fn.Name()]; ok && fn.Signature.Recv() == nil {
				return in, true
			}
		}
	} else if r := fn.Signature.Recv(); r != nil {
		for _, n := range noopPkgs {
			if strings.Contains(r.Type().String(), n) {
				return noopIntr, true
			}
		}
	}
	return nil, false
}

func noopIntr(g *G, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	if res.Len() == 0 {
		return nil
	}
	if res.Len() == 1 {
		if p, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
			c := new(Value)
			*c = g.mc.c.zero(p.Elem())
			return c
		}
		return g.mc.c.zero(res.At(0).Type())
	}
	return g.mc.c.zero(res)
}

func reg(names string, f intrinsic) {
	for _, n := range strings.Split(names, "|") {
		intrinsics[n] = f
	}
}

// error construction

func (mc *Machine) newError(msg string) Iface {
	p := mc.w.e.prog.prog.ImportedPackage("errors")
	t := types.NewPointer(p.Type("errorString").Type())
	c := new(Value)
	*c = Struct{msg}
	return Iface{mc.w.canT.of(t), c}
}

func (mc *Machine) namedType(pkg, name string) types.Type {
	p := mc.w.e.prog.prog.ImportedPackage(pkg)
	if p == nil {
		mc.unsupported("package %s not loaded", pkg)
	}
	return p.Type(name).Type()
}

func (g *G) callMethod(i Iface, name string, args ...Value) (Value, bool) {
	fn := g.mc.w.methodByName(i.t, name)
	if fn == nil {
		return nil, false
	}
	return g.call(fn, append([]Value{i.v}, args...), nil), true
}

type mutexState struct {
	w  bool
	r  int
	vc []int
}

func (mc *Machine) mu(p Value) *mutexState {
	c := mc.deref(p)
	if s, ok := mc.side[c]; ok {
		return s.(*mutexState)
	}
	s := &mutexState{}
	mc.side[c] = s
	return s
}

type wgState struct {
	n  int
	vc []int
}

func (mc *Machine) wg(p Value) *wgState {
	c := mc.deref(p)
	if s, ok := mc.side[c]; ok {
		return s.(*wgState)
	}
	s := &wgState{}
	mc.side[c] = s
	return s
}

type onceState struct {
	done, running bool
	vc            []int
}

type poolState struct{ items []Value }

func (mc *Machine) acq(g *G, vc []int) {
	if mc.race != nil && vc != nil {
		mc.race.acquire(g, vc)
	}
}
func (mc *Machine) rel(g *G, old []int) []int {
	if mc.race == nil {
		return nil
	}
	vc := mc.race.release(g)
	for i, x := range old {
		vc = mc.race.grow(vc, i)
		if x > vc[i] {
			vc[i] = x
		}
	}
	return vc
}

func structOf(mc *Machine, p Value) Struct { return (*mc.deref(p)).(Struct) }

func init() {
	reg("(*sync.Mutex).Lock|(*sync.RWMutex).Lock", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.mu(a[0])
		g.yield()
		g.block("mutex lock", func() bool { return !m.w && m.r == 0 })
		m.w = true
		g.mc.acq(g, m.vc)
		return nil
	})
	reg("(*sync.Mutex).TryLock|(*sync.RWMutex).TryLock", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.mu(a[0])
		g.yield()
		if m.w || m.r > 0 {
			return g.mc.c.False
		}
		m.w = true
		g.mc.acq(g, m.vc)
		return g.mc.c.True
	})
	reg("(*sync.Mutex).Unlock|(*sync.RWMutex).Unlock", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.mu(a[0])
		if !m.w {
			g.mc.throw("fatal error: sync: unlock of unlocked mutex")
		}
		m.w = false
		m.vc = g.mc.rel(g, m.vc)
		g.yield()
		return nil
	})
	reg("(*sync.RWMutex).RLock", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.mu(a[0])
		g.yield()
		g.block("rwmutex rlock", func() bool { return !m.w })
		m.r++
		g.mc.acq(g, m.vc)
		return nil
	})
	reg("(*sync.RWMutex).RUnlock", func(g *G, fn *ssa.Function, a []Value) Value {
		m := g.mc.mu(a[0])
		if m.r <= 0 {
			g.mc.throw("fatal error: sync: RUnlock of unlocked RWMutex")
		}
		m.r--
		m.vc = g.mc.rel(g, m.vc)
		g.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Add", func(g *G, fn *ssa.Function, a []Value) Value {
		w := g.mc.wg(a[0])
		d := g.mc.concretize(a[1].(*Term))
		w.n += int(int64(d.k))
		if w.n < 0 {
			g.mc.throwVal(Iface{g.mc.w.canT.of(types.Typ[types.String]), "sync: negative WaitGroup counter"})
		}
		w.vc = g.mc.rel(g, w.vc)
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(g *G, fn *ssa.Function, a []Value) Value {
		w := g.mc.wg(a[0])
		w.n--
		if w.n < 0 {
			g.mc.throwVal(Iface{g.mc.w.canT.of(types.Typ[types.String]), "sync: negative WaitGroup counter"})
		}
		w.vc = g.mc.rel(g, w.vc)
		g.yield()
		return nil
	})
	reg("(*sync.WaitGroup).Wait", func(g *G, fn *ssa.Function, a []Value) Value {
		w := g.mc.wg(a[0])
		g.block("waitgroup", func() bool { return w.n == 0 })
		g.mc.acq(g, w.vc)
		return nil
	})
	reg("(*sync.Once).Do|(*sync.Once).doSlow", func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.mc.deref(a[0])
		s, _ := g.mc.side[c].(*onceState)
		if s == nil {
			s = &onceState{}
			g.mc.side[c] = s
		}
		if s.done {
			g.mc.acq(g, s.vc)
			return nil
		}
		if s.running {
			g.block("once", func() bool { return s.done })
			g.mc.acq(g, s.vc)
			return nil
		}
		s.running = true
		func() {
			defer func() { s.done = true; s.vc = g.mc.rel(g, nil) }()
			g.callValue(a[1], nil)
		}()
		return nil
	})
	reg("(*sync.Pool).Get", func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.mc.deref(a[0])
		s, _ := g.mc.side[c].(*poolState)
		if s != nil && len(s.items) > 0 {
			v := s.items[len(s.items)-1]
			s.items = s.items[:len(s.items)-1]
			return v
		}
		st := (*c).(Struct)
		if f, ok := st[len(st)-1].(*Closure); ok && f != nil {
			return g.callValue(f, nil)
		}
		return Iface{}
	})
	reg("(*sync.Pool).Put", func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.mc.deref(a[0])
		s, _ := g.mc.side[c].(*poolState)
		if s == nil {
			s = &poolState{}
			g.mc.side[c] = s
		}
		s.items = append(s.items, a[1])
		return nil
	})
	// atomics: plain accesses, each a scheduling point
	last := func(mc *Machine, p Value) *Value {
		c := mc.deref(p)
		for {
			s, ok := (*c).(Struct)
			if !ok {
				return c
			}
			c = &s[len(s)-1]
		}
	}
	sync := func(g *G, c *Value) {
		if g.mc.race == nil {
			return
		}
		st, _ := g.mc.side[c].(*wgState)
		if st == nil {
			st = &wgState{}
			g.mc.side[c] = st
		}
		g.mc.acq(g, st.vc)
		st.vc = g.mc.rel(g, st.vc)
	}
	var ld, stn, sw, cas, add []string
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Value", "Pointer[T]"} {
		n := "(*sync/atomic." + t + ")."
		ld, stn, sw, cas, add = append(ld, n+"Load"), append(stn, n+"Store"), append(sw, n+"Swap"), append(cas, n+"CompareAndSwap"), append(add, n+"Add")
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		ld, stn, sw, cas, add = append(ld, "sync/atomic.Load"+t), append(stn, "sync/atomic.Store"+t), append(sw, "sync/atomic.Swap"+t), append(cas, "sync/atomic.CompareAndSwap"+t), append(add, "sync/atomic.Add"+t)
	}
	atomBool := func(fn *ssa.Function, v Value, c *TermCtx, load bool) Value {
		if strings.Contains(fnKey(fn), "atomic.Bool)") {
			t := v.(*Term)
			if load && t.w != 0 {
				return c.Not(c.Eq(t, c.Const(t.w, 0)))
			}
			if !load && t.w == 0 {
				return c.Ite(t, c.Const(32, 1), c.Const(32, 0))
			}
		}
		return v
	}
	reg(strings.Join(ld, "|"), func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		c := last(g.mc, a[0])
		sync(g, c)
		return atomBool(fn, copyVal(*c), g.mc.c, true)
	})
	reg(strings.Join(stn, "|"), func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		c := last(g.mc, a[0])
		sync(g, c)
		*c = atomBool(fn, a[1], g.mc.c, false)
		return nil
	})
	reg(strings.Join(sw, "|"), func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		c := last(g.mc, a[0])
		sync(g, c)
		old := *c
		*c = atomBool(fn, a[1], g.mc.c, false)
		return atomBool(fn, old, g.mc.c, true)
	})
	reg(strings.Join(cas, "|"), func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		c := last(g.mc, a[0])
		sync(g, c)
		if g.mc.branch(g.mc.eqVal(*c, atomBool(fn, a[1], g.mc.c, false))) {
			*c = atomBool(fn, a[2], g.mc.c, false)
			return g.mc.c.True
		}
		return g.mc.c.False
	})
	reg(strings.Join(add, "|"), func(g *G, fn *ssa.Function, a []Value) Value {
		g.yield()
		c := last(g.mc, a[0])
		sync(g, c)
		*c = g.mc.c.Add((*c).(*Term), a[1].(*Term))
		return *c
	})
	// errors
	reg("errors.Is", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.c.Bool(g.errorsIs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.As", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.c.Bool(g.errorsAs(a[0].(Iface), a[1].(Iface)))
	})
	reg("errors.New", func(g *G, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(string)
		if !ok {
			s = "<symbolic>"
		}
		return g.mc.newError(s)
	})
	reg("errors.Unwrap", func(g *G, fn *ssa.Function, a []Value) Value {
		e := a[0].(Iface)
		if e.t == nil {
			return Iface{}
		}
		r, ok := g.callMethod(e, "Unwrap")
		if !ok {
			return Iface{}
		}
		if i, ok := r.(Iface); ok {
			return i
		}
		return Iface{}
	})
	// runtime
	reg("runtime.Gosched", func(g *G, fn *ssa.Function, a []Value) Value { g.yieldForce(); return nil })
	reg("runtime.GOMAXPROCS|runtime.NumCPU", func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.i64(4) })
	reg("runtime.KeepAlive|runtime.SetFinalizer|runtime.GC|runtime.AddCleanup", func(g *G, fn *ssa.Function, a []Value) Value { return noopIntr(g, fn, a) })
	reg("time.Now", noopIntr)
	reg("time.Sleep", func(g *G, fn *ssa.Function, a []Value) Value { g.yieldForce(); return nil })
	// math/bits
	pop := func(w uint8) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.c.Popcount(a[0].(*Term), 64) }
	}
	reg("math/bits.OnesCount|math/bits.OnesCount64|math/bits.OnesCount32|math/bits.OnesCount16|math/bits.OnesCount8", pop(0))
	bl := func(mc *Machine, x *Term) *Term {
		c := mc.c
		r := c.Const(64, 0)
		for i := uint8(0); i < x.w; i++ {
			r = c.Ite(c.Eq(c.Extract(i, i, x), c.Const(1, 1)), c.Const(64, uint64(i)+1), r)
		}
		return r
	}
	reg("math/bits.Len|math/bits.Len64|math/bits.Len32|math/bits.Len16|math/bits.Len8", func(g *G, fn *ssa.Function, a []Value) Value { return bl(g.mc, a[0].(*Term)) })
	reg("math/bits.LeadingZeros|math/bits.LeadingZeros64|math/bits.LeadingZeros32|math/bits.LeadingZeros16|math/bits.LeadingZeros8", func(g *G, fn *ssa.Function, a []Value) Value {
		x := a[0].(*Term)
		return g.mc.c.Sub(g.mc.i64(int64(x.w)), bl(g.mc, x))
	})
	reg("math/bits.TrailingZeros|math/bits.TrailingZeros64|math/bits.TrailingZeros32|math/bits.TrailingZeros16|math/bits.TrailingZeros8", func(g *G, fn *ssa.Function, a []Value) Value {
		c := g.mc.c
		x := a[0].(*Term)
		r := c.Const(64, uint64(x.w))
		for i := int(x.w) - 1; i >= 0; i-- {
			r = c.Ite(c.Eq(c.Extract(uint8(i), uint8(i), x), c.Const(1, 1)), c.Const(64, uint64(i)), r)
		}
		return r
	})
	reg("math.Abs", func(g *G, fn *ssa.Function, a []Value) Value {
		f := a[0].(float64)
		if f < 0 {
			f = -f
		}
		return f
	})
	// bytes / strings on possibly symbolic data
	reg("bytes.Equal|internal/bytealg.Equal", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.viewsEq(g.mc.bytesView(a[0].(BSlice)), g.mc.bytesView(a[1].(BSlice)))
	})
	reg("bytes.Compare|internal/bytealg.Compare", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.cmpViews(g.mc.bytesView(a[0].(BSlice)), g.mc.bytesView(a[1].(BSlice)))
	})
	reg("strings.Compare|internal/bytealg.CompareString", func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.cmpStr(a[0], a[1]) })
	reg("bytes.IndexByte|internal/bytealg.IndexByte", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.indexByte(g.mc.bytesView(a[0].(BSlice)), a[1].(*Term))
	})
	reg("strings.IndexByte|internal/bytealg.IndexByteString", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.indexByte(g.mc.strView(a[0]), a[1].(*Term))
	})
	reg("strings.Join", func(g *G, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		for i, e := range a[0].(Slice).s {
			if i > 0 {
				r = g.mc.concat(r, a[1])
			}
			r = g.mc.concat(r, e)
		}
		return r
	})
	reg("strconv.Itoa", func(g *G, fn *ssa.Function, a []Value) Value {
		return strconv.Itoa(int(int64(g.mc.concretize(a[0].(*Term)).k)))
	})
	reg("strings.Clone|internal/stringslite.Clone", func(g *G, fn *ssa.Function, a []Value) Value { return a[0] })
	// sort
	sortS := func(stable bool) intrinsic {
		return func(g *G, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			s, ok := i.v.(Slice)
			if b, bs := i.v.(BSlice); bs {
				mc := g.mc
				if b.cell == nil {
					return nil
				}
				ptr := func(k int) BytePtr { return BytePtr{b.cell, mc.c.Add(b.off, mc.i64(int64(k)))} }
				g.insertionSort(int(mc.concretize(b.ln).k), func(x, y int) bool {
					return mc.branch(g.callValue(a[1], []Value{mc.i64(int64(x)), mc.i64(int64(y))}).(*Term))
				}, func(x, y int) {
					u, v := mc.load(ptr(x)), mc.load(ptr(y))
					mc.store(ptr(x), v)
					mc.store(ptr(y), u)
				})
				return nil
			}
			if !ok {
				g.mc.unsupported("sort of slice %T", i.v)
			}
			g.insertionSort(len(s.s), func(x, y int) bool {
				return g.mc.branch(g.callValue(a[1], []Value{g.mc.i64(int64(x)), g.mc.i64(int64(y))}).(*Term))
			}, func(x, y int) { g.swapCells(&s.s[x], &s.s[y]) })
			return nil
		}
	}
	reg("sort.Slice", sortS(false))
	reg("sort.SliceStable", sortS(true))
	reg("sort.Sort|sort.Stable", func(g *G, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		r, _ := g.callMethod(i, "Len")
		n := int(g.mc.concretize(r.(*Term)).k)
		g.insertionSort(n, func(x, y int) bool {
			r, _ := g.callMethod(i, "Less", g.mc.i64(int64(x)), g.mc.i64(int64(y)))
			return g.mc.branch(r.(*Term))
		}, func(x, y int) { g.callMethod(i, "Swap", g.mc.i64(int64(x)), g.mc.i64(int64(y))) })
		return nil
	})
	reg("(*strings.Builder).copyCheck|(*strings.Builder).Grow|(*strings.Builder).grow", noopIntr)
	reg("(*strings.Builder).String", func(g *G, fn *ssa.Function, a []Value) Value {
		b := structOf(g.mc, a[0])[1].(BSlice)
		if b.cell == nil {
			return ""
		}
		return g.mc.strVal(g.mc.bytesView(b))
	})
	reg("github.com/ipfs/go-cid.init#1|github.com/ipfs/go-merkledag.init#1|github.com/ipfs/go-merkledag.init#2|github.com/ipfs/go-merkledag/pb.init#1|github.com/ipfs/go-merkledag/pb.init#2|github.com/ipfs/go-unixfs/pb.init#1|github.com/ipfs/go-unixfs/pb.init#2", noopIntr)
	reg("github.com/ipfs/go-ipld-format.Register|github.com/ipfs/go-ipld-legacy.RegisterCodec", noopIntr)
}

func (g *G) swapCells(a, b *Value) {
	x, y := copyVal(*a), copyVal(*b)
	storeCell(a, y)
	storeCell(b, x)
}

func (g *G) insertionSort(n int, less func(i, j int) bool, swap func(i, j int)) {
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swap(j, j-1)
		}
	}
}

func (g *G) yieldForce() {
	mc := g.mc
	rs := mc.runnable(g)
	if len(rs) == 0 {
		return
	}
	g.blocked = nil
	mc.resume(rs[0])
	g.park()
}

func (mc *Machine) indexByte(v ByteView, b *Term) *Term {
	c := mc.c
	n := mc.concretize(v.n)
	if n.k > 4096 {
		mc.unsupported("IndexByte in long memory")
	}
	r := c.Const(64, ^uint64(0))
	for i := int64(n.k) - 1; i >= 0; i-- {
		r = c.Ite(c.Eq(mc.memRead(v.m, c.Add(v.off, mc.i64(i))), b), mc.i64(i), r)
	}
	return r
}

func (g *G) errorsIs(e, target Iface) bool {
	mc := g.mc
	for {
		if e.t == nil {
			return target.t == nil
		}
		if target.t == nil {
			return false
		}
		if types.Identical(e.t, target.t) && types.Comparable(e.t) && mc.branch(mc.eqVal(e, target)) {
			return true
		}
		if fn := mc.w.methodByName(e.t, "Is"); fn != nil && fn.Signature.Params().Len() == 1 {
			if mc.branch(g.call(fn, []Value{e.v, target}, nil).(*Term)) {
				return true
			}
		}
		r, ok := g.callMethod(e, "Unwrap")
		if !ok {
			return false
		}
		switch x := r.(type) {
		case Iface:
			if x.t == nil {
				return false
			}
			e = x
		case Slice:
			for _, y := range x.s {
				if g.errorsIs(y.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

func (g *G) errorsAs(e, target Iface) bool {
	mc := g.mc
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		mc.throw("errors: target must be a non-nil pointer")
	}
	tt := pt.Elem()
	cell := mc.deref(target.v)
	for e.t != nil {
		if it, ok := tt.Underlying().(*types.Interface); ok {
			if types.Implements(e.t, it) {
				storeCell(cell, e)
				return true
			}
		} else if types.Identical(e.t, tt) {
			storeCell(cell, e.v)
			return true
		}
		r, ok := g.callMethod(e, "Unwrap")
		if !ok {
			return false
		}
		switch x := r.(type) {
		case Iface:
			e = x
		case Slice:
			for _, y := range x.s {
				if g.errorsAs(y.(Iface), target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

var _ = fmt.Sprint
