package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ctl int

const (
	cNext ctl = iota
	cJump
	cRet
)

type instrFn func(fr *frame) ctl

type cfn struct {
	fn       *ssa.Function
	blocks   [][]instrFn
	srcs     [][]ssa.Instruction
	visited  []bool
	slots    map[ssa.Value]int
	nslots   int
	hasDefer bool
	intr     intrinsic
	noop     bool
	zeroRes  Value
}

type frame struct {
	g         *G
	mc        *Machine
	cf        *cfn
	caller    *frame
	regs      []Value
	env       []Value
	block     int
	prev      int
	ret       Value
	defers    []deferred
	panicking bool
	panic     interface{}
	ii        int
	done      bool
}

type deferred struct {
	fn   Value // *Closure or *ssa.Builtin
	args []Value
	ins  *ssa.Defer
}

type intrinsic func(g *G, fn *ssa.Function, args []Value) Value

type opnd struct {
	slot  int
	c     Value
	glob  *ssa.Global
	fvIdx int
	kind  uint8 // 0 slot, 1 const, 2 global, 3 freevar
}

func (fr *frame) get(o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.slot]
	case 1:
		return o.c
	case 2:
		return fr.mc.global(fr.g, o.glob)
	}
	return fr.env[o.fvIdx]
}

func (w *Worker) operand(cf *cfn, v ssa.Value) *opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return &opnd{kind: 1, c: w.constVal(x)}
	case *ssa.Global:
		return &opnd{kind: 2, glob: x}
	case *ssa.Function:
		return &opnd{kind: 1, c: &Closure{fn: x}}
	case *ssa.Builtin:
		return &opnd{kind: 1, c: x}
	case *ssa.FreeVar:
		for i, f := range cf.fn.FreeVars {
			if f == x {
				return &opnd{kind: 3, fvIdx: i}
			}
		}
		panic("freevar")
	}
	s, ok := cf.slots[v]
	if !ok {
		panic("no slot for " + v.String())
	}
	return &opnd{slot: s}
}

func (w *Worker) constVal(x *ssa.Const) Value {
	c := w.c
	t := x.Type()
	if x.Value == nil {
		return c.zero(t)
	}
	if wd, _, ok := scalarWidth(t); ok {
		if wd == 0 {
			return c.Bool(constant.BoolVal(x.Value))
		}
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return c.Const(wd, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return c.Const(wd, u)
	}
	if isStringType(t) {
		if x.Value.Kind() == constant.String {
			return constant.StringVal(x.Value)
		}
		i, _ := constant.Int64Val(x.Value)
		return string(rune(i))
	}
	if isFloatType(t) {
		f, _ := constant.Float64Val(x.Value)
		return f
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return complex128(0)
	}
	panic("const " + x.String())
}

func (w *Worker) compile(fn *ssa.Function) *cfn {
	if cf, ok := w.fns[fn]; ok {
		return cf
	}
	cf := &cfn{fn: fn, slots: map[ssa.Value]int{}}
	w.fns[fn] = cf
	if in, ok := lookupIntrinsic(fn); ok {
		cf.intr = in
		return cf
	}
	if fn.Blocks == nil {
		name := fn.String()
		cf.intr = func(g *G, fn *ssa.Function, args []Value) Value {
			g.mc.unsupported("call of external function %s", name)
			return nil
		}
		return cf
	}
	for _, p := range fn.Params {
		cf.slots[p] = cf.nslots
		cf.nslots++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				cf.slots[v] = cf.nslots
				cf.nslots++
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	cf.visited = make([]bool, len(fn.Blocks))
	cf.blocks = make([][]instrFn, len(fn.Blocks))
	cf.srcs = make([][]ssa.Instruction, len(fn.Blocks))
	return cf
}

func (w *Worker) compileBlock(cf *cfn, bi int) {
	b := cf.fn.Blocks[bi]
	var out []instrFn
	var srcs []ssa.Instruction
	// phis: parallel assignment
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	if len(phis) > 0 {
		np := len(b.Preds)
		ops := make([][]*opnd, np)
		dst := make([]int, len(phis))
		for i, p := range phis {
			dst[i] = cf.slots[p]
		}
		for pi := 0; pi < np; pi++ {
			for _, p := range phis {
				ops[pi] = append(ops[pi], w.operand(cf, p.Edges[pi]))
			}
		}
		predIdx := map[int]int{}
		for i, p := range b.Preds {
			predIdx[p.Index] = i
		}
		// duplicate predecessors (both If edges to one block) carry equal values only
		// when the edges agree; track by (pred, successor slot) is unnecessary because
		// go/ssa never emits an If with two identical successors and differing phis.
		tmp := make([]Value, len(phis))
		_ = tmp
		out = append(out, func(fr *frame) ctl {
			os := ops[predIdx[fr.prev]]
			if len(os) == 1 {
				fr.regs[dst[0]] = fr.get(os[0])
				return cNext
			}
			vals := make([]Value, len(os))
			for i, o := range os {
				vals[i] = fr.get(o)
			}
			for i, d := range dst {
				fr.regs[d] = vals[i]
			}
			return cNext
		})
		srcs = append(srcs, phis[0])
	}
	for _, in := range b.Instrs[len(phis):] {
		if _, ok := in.(*ssa.DebugRef); ok {
			continue
		}
		out = append(out, w.compileInstr(cf, in))
		srcs = append(srcs, in)
	}
	if out == nil {
		out = []instrFn{}
	}
	cf.srcs[bi] = srcs
	cf.blocks[bi] = out
}

func (g *G) callValue(fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			g.mc.throw("invalid memory address or nil pointer dereference")
		}
		if f.native != nil {
			return f.native(g, args)
		}
		return g.call(f.fn, args, f.env)
	case *ssa.Function:
		return g.call(f, args, nil)
	}
	panic(fmt.Sprintf("callValue %T", fv))
}

var traceCalls = os.Getenv("GOSYM_TRACE") != ""

func (g *G) call(fn *ssa.Function, args []Value, env []Value) Value {
	mc := g.mc
	cf := mc.w.compile(fn)
	if fn.Synthetic == "package initializer" && mc.initing != fn {
		mc.initPackage(g, fn.Pkg)
		return nil
	}
	mc.initing = nil
	if cf.intr != nil {
		if traceCalls {
			fmt.Fprintf(os.Stderr, "%*s[intr] %s\n", g.depth, "", fn)
		}
		return cf.intr(g, fn, args)
	}
	if traceCalls {
		fmt.Fprintf(os.Stderr, "%*s%s\n", g.depth, "", fn)
	}
	if g.depth > 2000 {
		panic(abortPath{"limit", "call depth in " + fn.String()})
	}
	fr := &frame{g: g, mc: mc, cf: cf, caller: g.fr, env: env, prev: -1}
	fr.regs = make([]Value, cf.nslots)
	copy(fr.regs, args)
	g.fr = fr
	g.depth++
	if cf.hasDefer {
		for {
			fr.runProtected()
			if fr.done {
				break
			}
		}
	} else {
		fr.run()
	}
	g.depth--
	g.fr = fr.caller
	return fr.ret
}

func (fr *frame) runProtected() {
	g := fr.g
	depth := g.depth
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		tp, ok := r.(*tpanic)
		if !ok {
			if r == nil {
				return
			}
			panic(r)
		}
		g.fr = fr
		g.depth = depth
		fr.panicking = true
		fr.panic = tp
		fr.runDefers()
		// recovered
		fr.prev = -1
		if fr.cf.fn.Recover != nil {
			fr.block = fr.cf.fn.Recover.Index
		} else {
			fr.ret = fr.mc.c.zero(fr.cf.fn.Signature.Results())
			fr.done = true
		}
	}()
	fr.run()
}

// runDefers executes the deferred calls; it re-panics if still panicking.
func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

func (fr *frame) runDefer(d deferred) {
	g := fr.g
	depth := g.depth
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if tp, is := r.(*tpanic); is {
				g.fr = fr
				g.depth = depth
				fr.panicking = true
				fr.panic = tp
				return
			}
			panic(r)
		}
	}()
	switch f := d.fn.(type) {
	case *ssa.Builtin:
		fr.g.mc.builtin(g, f, d.args, d.ins.Common())
	default:
		g.callValue(d.fn, d.args)
	}
	ok = true
}

func (fr *frame) run() {
	mc := fr.mc
	cf := fr.cf
	for {
		ins := cf.blocks[fr.block]
		if ins == nil {
			mc.w.compileBlock(cf, fr.block)
			ins = cf.blocks[fr.block]
		}
		cf.visited[fr.block] = true
		mc.steps += len(ins)
		if mc.steps > mc.w.e.maxSteps {
			mc.hang()
		}
		var k ctl
		for i, in := range ins {
			fr.ii = i
			if k = in(fr); k != cNext {
				break
			}
		}
		switch k {
		case cJump:
		case cRet:
			fr.done = true
			return
		default:
			panic("fell off block")
		}
	}
}

func (mc *Machine) hang() {
	if mc.w.e.stop {
		panic(abortPath{"limit", "stopped"})
	}
	if mc.symCfg["hang"] == 1 {
		mc.report("hang", "step limit reached @ "+mc.where(), mc.model)
	}
	panic(abortPath{"limit", "step limit @ " + mc.where()})
}

func (mc *Machine) throwVal(v Value) {
	panic(&tpanic{v: v, where: mc.where()})
}

// throw raises a Go runtime error.
func (mc *Machine) throw(msg string) {
	p := mc.w.e.prog
	panic(&tpanic{v: Iface{mc.w.canT.of(p.rtErr), "runtime error: " + msg}, where: mc.where()})
}

func (mc *Machine) panicString(g *G, v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(string); ok {
		return s
	}
	s := ""
	func() {
		defer func() { recover() }()
		s = mc.fmtValue(g, i, 'v', false)
	}()
	return s
}

func (mc *Machine) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		panic(fmt.Sprintf("deref of %T", v))
	}
	if p == nil {
		mc.throw("invalid memory address or nil pointer dereference")
	}
	return p
}

func (mc *Machine) load(v Value) Value {
	if bp, ok := v.(BytePtr); ok {
		return mc.memRead((*bp.cell).(ByteArr).m, bp.idx)
	}
	p := mc.deref(v)
	return copyVal(*p)
}

func (mc *Machine) store(p Value, v Value) {
	if bp, ok := p.(BytePtr); ok {
		a := (*bp.cell).(ByteArr)
		*bp.cell = ByteArr{mc.memStore(a.m, bp.idx, v.(*Term)), a.n}
		return
	}
	storeCell(mc.deref(p), v)
}

// idxCheck verifies 0 <= i < n, forking into the panic when feasible.
func (mc *Machine) idxCheck(i, n *Term) {
	c := mc.c
	if i.isConst() && n.isConst() {
		if i.k >= n.k {
			mc.throw(fmt.Sprintf("index out of range [%d] with length %d", int64(i.k), n.k))
		}
		return
	}
	if !mc.branch(c.Ult(i, n)) {
		mc.throw("index out of range")
	}
}

func (mc *Machine) toIdx(v Value, t types.Type) *Term {
	w, sg, _ := scalarWidth(t)
	x := v.(*Term)
	if w == 64 {
		return x
	}
	if sg {
		return mc.c.Sext(64, x)
	}
	return mc.c.Zext(64, x)
}

func (w *Worker) compileInstr(cf *cfn, in ssa.Instruction) instrFn {
	c := w.c
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = cf.slots[v]
	}
	op := func(v ssa.Value) *opnd { return w.operand(cf, v) }
	switch x := in.(type) {
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		return func(fr *frame) ctl {
			p := new(Value)
			*p = c.zero(t)
			fr.regs[dst] = p
			return cNext
		}
	case *ssa.BinOp:
		a, b := op(x.X), op(x.Y)
		f := w.binop(x.Op, x.X.Type(), x.Y.Type())
		return func(fr *frame) ctl {
			fr.regs[dst] = f(fr.mc, fr.get(a), fr.get(b))
			return cNext
		}
	case *ssa.UnOp:
		a := op(x.X)
		switch x.Op {
		case token.MUL:
			str := isStringType(x.Type())
			return func(fr *frame) ctl {
				p := fr.get(a)
				if fr.mc.race != nil {
					fr.mc.raceAccess(fr.g, p, false)
				}
				v := fr.mc.load(p)
				if str {
					if b, ok := v.(BSlice); ok { // a byte slice header read as a string
						v = fr.mc.strVal(fr.mc.bytesView(b))
					}
				}
				fr.regs[dst] = v
				return cNext
			}
		case token.ARROW:
			return func(fr *frame) ctl {
				ch := fr.get(a).(*Chan)
				v, ok := fr.g.recv(ch)
				if x.CommaOk {
					fr.regs[dst] = Tuple{v, c.Bool(ok)}
				} else {
					fr.regs[dst] = v
				}
				return cNext
			}
		case token.SUB:
			return func(fr *frame) ctl {
				switch v := fr.get(a).(type) {
				case *Term:
					fr.regs[dst] = c.Neg(v)
				case float64:
					fr.regs[dst] = -v
				}
				return cNext
			}
		case token.NOT:
			return func(fr *frame) ctl {
				fr.regs[dst] = c.Not(fr.get(a).(*Term))
				return cNext
			}
		case token.XOR:
			return func(fr *frame) ctl {
				fr.regs[dst] = c.BvNot(fr.get(a).(*Term))
				return cNext
			}
		}
	case *ssa.Call:
		call := w.compileCall(cf, &x.Call)
		return func(fr *frame) ctl {
			fr.regs[dst] = call(fr)
			return cNext
		}
	case *ssa.Go:
		prep := w.prepCall(cf, &x.Call)
		com := &x.Call
		return func(fr *frame) ctl {
			f, args := prep(fr)
			mc := fr.mc
			ng := mc.newG("go@" + mc.w.e.prog.pos(fr))
			if mc.race != nil {
				ng.vc = append([]int(nil), mc.race.release(fr.g)...)
				ng.vc = mc.race.grow(ng.vc, ng.id)
				ng.vc[ng.id] = 1
			}
			ng.entry, ng.args = f, args
			go ng.main(func() {
				ng.entry, ng.args = nil, nil
				if b, ok := f.(*ssa.Builtin); ok {
					mc.builtin(ng, b, args, com)
					return
				}
				ng.callValue(f, args)
			})
			fr.g.yield()
			return cNext
		}
	case *ssa.Defer:
		prep := w.prepCall(cf, &x.Call)
		return func(fr *frame) ctl {
			f, args := prep(fr)
			fr.defers = append(fr.defers, deferred{f, args, x})
			return cNext
		}
	case *ssa.RunDefers:
		return func(fr *frame) ctl {
			fr.runDefers()
			return cNext
		}
	case *ssa.Panic:
		a := op(x.X)
		return func(fr *frame) ctl {
			fr.mc.throwVal(fr.get(a))
			return cNext
		}
	case *ssa.Jump:
		to := x.Block().Succs[0].Index
		me := x.Block().Index
		return func(fr *frame) ctl {
			fr.prev, fr.block = me, to
			return cJump
		}
	case *ssa.If:
		a := op(x.Cond)
		me := x.Block().Index
		t, f := x.Block().Succs[0].Index, x.Block().Succs[1].Index
		return func(fr *frame) ctl {
			cond := fr.get(a).(*Term)
			var b bool
			if cond.op == OConst {
				b = cond.k == 1
			} else {
				b = fr.mc.branch(cond)
			}
			fr.prev = me
			if b {
				fr.block = t
			} else {
				fr.block = f
			}
			return cJump
		}
	case *ssa.Return:
		ops := make([]*opnd, len(x.Results))
		for i, r := range x.Results {
			ops[i] = op(r)
		}
		return func(fr *frame) ctl {
			switch len(ops) {
			case 0:
				fr.ret = nil
			case 1:
				fr.ret = fr.get(ops[0])
			default:
				t := make(Tuple, len(ops))
				for i, o := range ops {
					t[i] = fr.get(o)
				}
				fr.ret = t
			}
			return cRet
		}
	case *ssa.Store:
		a, v := op(x.Addr), op(x.Val)
		return func(fr *frame) ctl {
			p := fr.get(a)
			if fr.mc.race != nil {
				fr.mc.raceAccess(fr.g, p, true)
			}
			fr.mc.store(p, fr.get(v))
			return cNext
		}
	case *ssa.FieldAddr:
		a := op(x.X)
		fi := x.Field
		return func(fr *frame) ctl {
			p := fr.mc.deref(fr.get(a))
			s, ok := (*p).(Struct)
			if !ok {
				fr.mc.unsupported("field address in %T", *p)
			}
			fr.regs[dst] = &s[fi]
			return cNext
		}
	case *ssa.Field:
		a := op(x.X)
		fi := x.Field
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.get(a).(Struct)[fi]
			return cNext
		}
	case *ssa.IndexAddr:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		return func(fr *frame) ctl {
			mc := fr.mc
			idx := mc.toIdx(fr.get(i), it)
			switch s := fr.get(a).(type) {
			case BSlice:
				mc.idxCheck(idx, s.ln)
				fr.regs[dst] = BytePtr{s.cell, c.Add(s.off, idx)}
			case Slice:
				mc.idxCheck(idx, mc.i64(int64(len(s.s))))
				idx = mc.concretize(idx)
				fr.regs[dst] = &s.s[idx.k]
			case *Value:
				p := mc.deref(s)
				switch arr := (*p).(type) {
				case ByteArr:
					mc.idxCheck(idx, arr.n)
					fr.regs[dst] = BytePtr{p, idx}
				case Array:
					mc.idxCheck(idx, mc.i64(int64(len(arr))))
					idx = mc.concretize(idx)
					fr.regs[dst] = &arr[idx.k]
				default:
					mc.unsupported("index address in %T", *p)
				}
			default:
				mc.unsupported("index address of %T", s)
			}
			return cNext
		}
	case *ssa.Index:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		return func(fr *frame) ctl {
			mc := fr.mc
			idx := mc.toIdx(fr.get(i), it)
			switch s := fr.get(a).(type) {
			case Array:
				mc.idxCheck(idx, mc.i64(int64(len(s))))
				idx = mc.concretize(idx)
				fr.regs[dst] = s[idx.k]
			case ByteArr:
				mc.idxCheck(idx, s.n)
				fr.regs[dst] = mc.memRead(s.m, idx)
			case string, *SStr:
				fr.regs[dst] = mc.strIndex(s, idx)
			default:
				mc.unsupported("index of %T", s)
			}
			return cNext
		}
	case *ssa.Lookup:
		a, i := op(x.X), op(x.Index)
		it := x.Index.Type()
		if m, ok := x.X.Type().Underlying().(*types.Map); ok {
			et := m.Elem()
			return func(fr *frame) ctl {
				mc := fr.mc
				mo := fr.get(a).(*MapObj)
				if mc.race != nil {
					mc.raceAccess(fr.g, mo, false)
				}
				k := mc.mapFind(mo, fr.get(i))
				var v Value
				if k >= 0 {
					v = copyVal(*mo.vals[k])
				} else {
					v = c.zero(et)
				}
				if x.CommaOk {
					fr.regs[dst] = Tuple{v, c.Bool(k >= 0)}
				} else {
					fr.regs[dst] = v
				}
				return cNext
			}
		}
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.mc.strIndex(fr.get(a), fr.mc.toIdx(fr.get(i), it))
			return cNext
		}
	case *ssa.MapUpdate:
		m, k, v := op(x.Map), op(x.Key), op(x.Value)
		return func(fr *frame) ctl {
			if fr.mc.race != nil {
				fr.mc.raceAccess(fr.g, fr.get(m), true)
			}
			fr.mc.mapSet(fr.get(m).(*MapObj), fr.get(k), fr.get(v))
			return cNext
		}
	case *ssa.MakeMap:
		return func(fr *frame) ctl {
			fr.regs[dst] = &MapObj{idx: map[string]int{}}
			return cNext
		}
	case *ssa.MakeChan:
		sz := op(x.Size)
		et := x.Type().Underlying().(*types.Chan).Elem()
		return func(fr *frame) ctl {
			n := fr.mc.concretize(fr.get(sz).(*Term))
			if int64(n.k) < 0 || n.k > 1<<30 {
				fr.mc.throw("makechan: size out of range")
			}
			fr.regs[dst] = &Chan{cap: int(n.k), zero: c.zero(et)}
			return cNext
		}
	case *ssa.MakeSlice:
		ln, cp := op(x.Len), op(x.Cap)
		lt, ct := x.Len.Type(), x.Cap.Type()
		et := x.Type().Underlying().(*types.Slice).Elem()
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.mc.makeSlice(et, fr.mc.toIdx(fr.get(ln), lt), fr.mc.toIdx(fr.get(cp), ct))
			return cNext
		}
	case *ssa.Slice:
		a := op(x.X)
		var lo, hi, mx *opnd
		if x.Low != nil {
			lo = op(x.Low)
		}
		if x.High != nil {
			hi = op(x.High)
		}
		if x.Max != nil {
			mx = op(x.Max)
		}
		gt := func(fr *frame, o *opnd, v ssa.Value) *Term {
			if o == nil {
				return nil
			}
			return fr.mc.toIdx(fr.get(o), v.Type())
		}
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.mc.sliceOp(fr.get(a), gt(fr, lo, x.Low), gt(fr, hi, x.High), gt(fr, mx, x.Max))
			return cNext
		}
	case *ssa.SliceToArrayPointer:
		a := op(x.X)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		return func(fr *frame) ctl {
			mc := fr.mc
			switch s := fr.get(a).(type) {
			case BSlice:
				if !mc.branch(c.Ule(mc.i64(n), s.ln)) {
					mc.throw("cannot convert slice to array pointer: length")
				}
				if s.off.isConst() && s.off.k == 0 {
					fr.regs[dst] = s.cell
					if a, ok := (*s.cell).(ByteArr); ok && a.n.isConst() && a.n.k == uint64(n) {
						return cNext
					}
				}
				mc.unsupported("slice to array pointer view")
			}
			mc.unsupported("slice to array pointer")
			return cNext
		}
	case *ssa.MakeInterface:
		a := op(x.X)
		t := w.canT.of(x.X.Type())
		return func(fr *frame) ctl {
			fr.regs[dst] = Iface{t, fr.get(a)}
			return cNext
		}
	case *ssa.ChangeInterface:
		a := op(x.X)
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.get(a)
			return cNext
		}
	case *ssa.ChangeType:
		a := op(x.X)
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.get(a)
			return cNext
		}
	case *ssa.Convert:
		a := op(x.X)
		f := w.convert(x.X.Type(), x.Type())
		return func(fr *frame) ctl {
			fr.regs[dst] = f(fr.mc, fr.get(a))
			return cNext
		}
	case *ssa.MultiConvert:
		a := op(x.X)
		f := w.convert(x.X.Type(), x.Type())
		return func(fr *frame) ctl {
			fr.regs[dst] = f(fr.mc, fr.get(a))
			return cNext
		}
	case *ssa.Extract:
		a := op(x.Tuple)
		i := x.Index
		return func(fr *frame) ctl {
			fr.regs[dst] = fr.get(a).(Tuple)[i]
			return cNext
		}
	case *ssa.MakeClosure:
		bs := make([]*opnd, len(x.Bindings))
		for i, b := range x.Bindings {
			bs[i] = op(b)
		}
		f := x.Fn.(*ssa.Function)
		return func(fr *frame) ctl {
			env := make([]Value, len(bs))
			for i, b := range bs {
				env[i] = fr.get(b)
			}
			fr.regs[dst] = &Closure{fn: f, env: env}
			return cNext
		}
	case *ssa.TypeAssert:
		a := op(x.X)
		return w.typeAssert(x, a, dst)
	case *ssa.Range:
		a := op(x.X)
		return func(fr *frame) ctl {
			switch s := fr.get(a).(type) {
			case *MapObj:
				it := &mapIter{m: s}
				if fr.mc.race != nil {
					fr.mc.raceAccess(fr.g, s, false)
				}
				if s != nil {
					for i := range s.keys {
						if !s.del[i] {
							it.ord = append(it.ord, i)
						}
					}
					if fr.mc.symCfg["maporder"] == 1 && len(it.ord) > 1 {
						// Go leaves the order unspecified: explore rotations and reversal
						k := fr.mc.choose(2)
						if k == 1 {
							for l, r := 0, len(it.ord)-1; l < r; l, r = l+1, r-1 {
								it.ord[l], it.ord[r] = it.ord[r], it.ord[l]
							}
						}
					}
				}
				fr.regs[dst] = it
			case string:
				fr.regs[dst] = &strIter{s: s}
			default:
				fr.mc.unsupported("range over %T", s)
			}
			return cNext
		}
	case *ssa.Next:
		a := op(x.Iter)
		return func(fr *frame) ctl {
			switch it := fr.get(a).(type) {
			case *mapIter:
				for it.pos < len(it.ord) {
					k := it.ord[it.pos]
					it.pos++
					if it.m.del[k] {
						continue
					}
					fr.regs[dst] = Tuple{c.True, copyVal(it.m.keys[k]), copyVal(*it.m.vals[k])}
					return cNext
				}
				mt := x.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
				fr.regs[dst] = Tuple{c.False, c.zero(mt.Key()), c.zero(mt.Elem())}
			case *strIter:
				if it.pos >= len(it.s) {
					fr.regs[dst] = Tuple{c.False, c.Const(64, 0), c.Const(32, 0)}
					return cNext
				}
				p := it.pos
				for i, r := range it.s[p:] {
					if i > 0 {
						it.pos = p + i
						break
					}
					fr.regs[dst] = Tuple{c.True, c.Const(64, uint64(p)), c.Const(32, uint64(r))}
					it.pos = len(it.s)
				}
			}
			return cNext
		}
	case *ssa.Send:
		ch, v := op(x.Chan), op(x.X)
		return func(fr *frame) ctl {
			fr.g.send(fr.get(ch).(*Chan), copyVal(fr.get(v)))
			return cNext
		}
	case *ssa.Select:
		type sc struct {
			ch, v *opnd
			send  bool
		}
		var scs []sc
		for _, s := range x.States {
			e := sc{ch: op(s.Chan), send: s.Dir == types.SendOnly}
			if e.send {
				e.v = op(s.Send)
			}
			scs = append(scs, e)
		}
		tt := x.Type().(*types.Tuple)
		return func(fr *frame) ctl {
			cs := make([]selCase, len(scs))
			for i, s := range scs {
				cs[i].ch = fr.get(s.ch).(*Chan)
				cs[i].send = s.send
				if s.send {
					cs[i].val = copyVal(fr.get(s.v))
				}
			}
			i, v, ok := fr.g.selectOp(cs, x.Blocking)
			r := Tuple{c.Const(64, uint64(int64(i))), c.Bool(ok)}
			k := 2
			for j, s := range scs {
				if s.send {
					continue
				}
				if j == i {
					r = append(r, v)
				} else {
					r = append(r, c.zero(tt.At(k).Type()))
				}
				k++
			}
			fr.regs[dst] = r
			return cNext
		}
	}
	panic(fmt.Sprintf("unhandled instruction %T: %s in %s", in, in, cf.fn))
}

func (mc *Machine) strIndex(s Value, idx *Term) Value {
	switch x := s.(type) {
	case string:
		mc.idxCheck(idx, mc.i64(int64(len(x))))
		if idx.isConst() {
			return mc.c.Const(8, uint64(x[idx.k]))
		}
		v := mc.strView(x)
		return mc.memRead(v.m, idx)
	case *SStr:
		mc.idxCheck(idx, x.v.n)
		return mc.memRead(x.v.m, mc.c.Add(x.v.off, idx))
	}
	panic("strIndex")
}

const maxAlloc = 1 << 40

func (mc *Machine) makeSlice(et types.Type, ln, cp *Term) Value {
	c := mc.c
	if !mc.branch(c.Ule(ln, c.Const(64, maxAlloc))) {
		mc.throw("makeslice: len out of range")
	}
	if cp != ln {
		if !mc.branch(c.Ule(cp, c.Const(64, maxAlloc))) || !mc.branch(c.Ule(ln, cp)) {
			mc.throw("makeslice: cap out of range")
		}
	}
	if isByteType(et) {
		cell := new(Value)
		m := memZero
		if cp.isConst() && cp.k <= 256 {
			m = growFlat(c, m, cp)
		}
		*cell = ByteArr{m, cp}
		return BSlice{cell, mc.i64(0), ln, cp}
	}
	ln = mc.concretize(ln)
	n := int(ln.k)
	cn := n
	if cp.isConst() {
		cn = int(cp.k)
	}
	if cn > 1<<22 {
		panic(abortPath{"limit", fmt.Sprintf("allocation of %d elements @ %s", cn, mc.where())})
	}
	s := make([]Value, cn)
	for i := range s {
		s[i] = c.zero(et)
	}
	return Slice{s[:n], true}
}

func (mc *Machine) sliceOp(v Value, lo, hi, mx *Term) Value {
	c := mc.c
	if lo == nil {
		lo = mc.i64(0)
	}
	switch s := v.(type) {
	case string, *SStr:
		n := mc.strLen(s)
		if hi == nil {
			hi = n
		}
		if str, ok := s.(string); ok && lo.isConst() && hi.isConst() {
			if hi.k > uint64(len(str)) || lo.k > hi.k {
				mc.throw(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", int64(lo.k), int64(hi.k), len(str)))
			}
			return str[lo.k:hi.k]
		}
		if !mc.branch(c.Ule(hi, n)) || !mc.branch(c.Ule(lo, hi)) {
			mc.throw("slice bounds out of range")
		}
		vw := mc.strView(s)
		return mc.strVal(ByteView{vw.m, c.Add(vw.off, lo), c.Sub(hi, lo)})
	case BSlice:
		if s.cell == nil {
			z := func(t *Term) bool { return t == nil || mc.branch(c.Eq(t, mc.i64(0))) }
			if !z(lo) || !z(hi) || !z(mx) {
				mc.throw("slice bounds out of range with capacity 0")
			}
			return s
		}
		if hi == nil {
			hi = s.ln
		}
		cp := s.cap
		if mx != nil {
			if !mc.branch(c.Ule(mx, cp)) {
				mc.throw("slice bounds out of range [::max]")
			}
			cp = mx
		}
		if hi != cp && !(hi == s.ln && mx == nil) {
			if !mc.branch(c.Ule(hi, cp)) {
				mc.throw("slice bounds out of range [:hi] with capacity")
			}
		}
		if !(lo.isConst() && lo.k == 0) {
			if !mc.branch(c.Ule(lo, hi)) {
				mc.throw("slice bounds out of range [lo:hi]")
			}
		}
		return BSlice{s.cell, c.Add(s.off, lo), c.Sub(hi, lo), c.Sub(cp, lo)}
	case Slice:
		if hi == nil {
			hi = mc.i64(int64(len(s.s)))
		}
		capT := mc.i64(int64(cap(s.s)))
		if mx != nil {
			if !mc.branch(c.Ule(mx, capT)) {
				mc.throw("slice bounds out of range [::max]")
			}
			capT = mc.concretize(mx)
		}
		if !mc.branch(c.Ule(hi, capT)) {
			mc.throw(fmt.Sprintf("slice bounds out of range [:hi] with capacity %d", capT.k))
		}
		if !mc.branch(c.Ule(lo, hi)) {
			mc.throw("slice bounds out of range [lo:hi]")
		}
		l, h := mc.concretize(lo), mc.concretize(hi)
		return Slice{s.s[l.k:h.k:capT.k], s.nnl}
	case *Value:
		p := mc.deref(s)
		switch a := (*p).(type) {
		case ByteArr:
			return mc.sliceOp(BSlice{p, mc.i64(0), a.n, a.n}, lo, hi, mx)
		case Array:
			return mc.sliceOp(Slice{[]Value(a), true}, lo, hi, mx)
		}
	}
	panic(fmt.Sprintf("sliceOp %T", v))
}

// prepCall evaluates the callee and arguments.
func (w *Worker) prepCall(cf *cfn, com *ssa.CallCommon) func(fr *frame) (Value, []Value) {
	args := make([]*opnd, len(com.Args))
	for i, a := range com.Args {
		args[i] = w.operand(cf, a)
	}
	fo := w.operand(cf, com.Value)
	if com.IsInvoke() {
		return func(fr *frame) (Value, []Value) {
			recv := fr.get(fo).(Iface)
			if recv.t == nil {
				fr.mc.throw("invalid memory address or nil pointer dereference")
			}
			fn := w.method(recv.t, com.Method)
			if fn == nil {
				fr.mc.unsupported("method %s of %s", com.Method, recv.t)
			}
			vs := make([]Value, len(args)+1)
			vs[0] = recv.v
			for i, a := range args {
				vs[i+1] = fr.get(a)
			}
			return &Closure{fn: fn}, vs
		}
	}
	return func(fr *frame) (Value, []Value) {
		f := fr.get(fo)
		vs := make([]Value, len(args))
		for i, a := range args {
			vs[i] = fr.get(a)
		}
		return f, vs
	}
}

func (w *Worker) compileCall(cf *cfn, com *ssa.CallCommon) func(fr *frame) Value {
	args := make([]*opnd, len(com.Args))
	for i, a := range com.Args {
		args[i] = w.operand(cf, a)
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return func(fr *frame) Value {
			vs := make([]Value, len(args))
			for i, a := range args {
				vs[i] = fr.get(a)
			}
			return fr.mc.builtin(fr.g, b, vs, com)
		}
	}
	if fn := com.StaticCallee(); fn != nil && !com.IsInvoke() {
		if _, isMC := com.Value.(*ssa.MakeClosure); !isMC {
			return func(fr *frame) Value {
				vs := make([]Value, len(args))
				for i, a := range args {
					vs[i] = fr.get(a)
				}
				return fr.g.call(fn, vs, nil)
			}
		}
	}
	prep := w.prepCall(cf, com)
	return func(fr *frame) Value {
		f, vs := prep(fr)
		return fr.g.callValue(f, vs)
	}
}

func (w *Worker) method(t types.Type, m *types.Func) *ssa.Function {
	key := methKey{t, m.Name()}
	if fn, ok := w.canT.meth[key]; ok {
		return fn
	}
	fn := w.e.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	w.canT.meth[key] = fn
	return fn
}

func (w *Worker) methodByName(t types.Type, name string) *ssa.Function {
	key := methKey{t, name}
	if fn, ok := w.canT.meth[key]; ok {
		return fn
	}
	ms := w.e.prog.prog.MethodSets.MethodSet(t)
	var fn *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		if o := ms.At(i).Obj(); o.Name() == name && o.Exported() {
			fn = w.e.prog.prog.MethodValue(ms.At(i))
			break
		}
	}
	w.canT.meth[key] = fn
	return fn
}

type methKey struct {
	t    types.Type
	name string
}

func (w *Worker) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if v, ok := w.canT.impl[k]; ok {
		return v
	}
	v := types.Implements(t, i)
	w.canT.impl[k] = v
	return v
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (w *Worker) typeAssert(x *ssa.TypeAssert, a *opnd, dst int) instrFn {
	c := w.c
	at := x.AssertedType
	if it, ok := at.Underlying().(*types.Interface); ok {
		return func(fr *frame) ctl {
			v := fr.get(a).(Iface)
			ok := v.t != nil && w.implements(v.t, it)
			if x.CommaOk {
				if !ok {
					v = Iface{}
				}
				fr.regs[dst] = Tuple{v, c.Bool(ok)}
				return cNext
			}
			if !ok {
				fr.mc.throw("interface conversion: missing method or nil interface (" + at.String() + ")")
			}
			fr.regs[dst] = v
			return cNext
		}
	}
	ct := w.canT.of(at)
	return func(fr *frame) ctl {
		v := fr.get(a).(Iface)
		ok := v.t == ct
		if x.CommaOk {
			if ok {
				fr.regs[dst] = Tuple{v.v, c.True}
			} else {
				fr.regs[dst] = Tuple{c.zero(at), c.False}
			}
			return cNext
		}
		if !ok {
			d := "nil"
			if v.t != nil {
				d = v.t.String()
			}
			fr.mc.throw("interface conversion: interface is " + d + ", not " + at.String())
		}
		fr.regs[dst] = v.v
		return cNext
	}
}

// global returns the cell of a package-level variable.
func (mc *Machine) global(g *G, gl *ssa.Global) *Value {
	if p, ok := mc.globals[gl]; ok {
		return p
	}
	p := new(Value)
	*p = mc.c.zero(gl.Type().Underlying().(*types.Pointer).Elem())
	mc.globals[gl] = p
	if !mc.w.e.prog.initAllowed(gl.Pkg) {
		name := gl.Pkg.Pkg.Path() + "." + gl.Name()
		if alias, ok := globalAlias[name]; ok {
			i := strings.LastIndexByte(alias, '.')
			if pk := mc.w.e.prog.prog.ImportedPackage(alias[:i]); pk != nil {
				mc.initPackage(g, pk)
				*p = copyVal(*mc.global(g, pk.Var(alias[i+1:])))
				return p
			}
		}
		if lazyInit[gl.Pkg.Pkg.Path()] && gl.Name() != "init$guard" {
			if !mc.lazied[gl.Pkg] {
				mc.lazied[gl.Pkg] = true
				delete(mc.inited, gl.Pkg)
				sv := mc.initing
				mc.initPackage(g, gl.Pkg)
				mc.initing = sv
			}
			return p
		}
		if f, ok := globalInit[name]; ok {
			*p = f(mc)
		} else if !globalZeroOK(name) && gl.Name() != "init$guard" && !strings.HasPrefix(name, "internal/cpu") {
			mc.unsupported("global %s of a package whose initialiser is not run", name)
		}
	} else {
		mc.initPackage(g, gl.Pkg)
	}
	return p
}

var globalAlias = map[string]string{
	"os.ErrNotExist": "internal/oserror.ErrNotExist", "os.ErrExist": "internal/oserror.ErrExist", "os.ErrInvalid": "internal/oserror.ErrInvalid",
	"os.ErrPermission": "internal/oserror.ErrPermission", "os.ErrClosed": "internal/oserror.ErrClosed",
	"io/fs.ErrNotExist": "internal/oserror.ErrNotExist", "io/fs.ErrExist": "internal/oserror.ErrExist", "io/fs.ErrInvalid": "internal/oserror.ErrInvalid",
	"io/fs.ErrPermission": "internal/oserror.ErrPermission", "io/fs.ErrClosed": "internal/oserror.ErrClosed",
}

var globalInit = map[string]func(mc *Machine) Value{}

func globalZeroOK(name string) bool {
	return strings.HasPrefix(name, "github.com/ipfs/go-log") || strings.HasPrefix(name, "internal/race") ||
		strings.HasPrefix(name, "internal/testlog") || name == "time.localLoc" || name == "math.useFMA" || name == "github.com/ipfs/go-ipfs-util.Debug"
}

// initPackage runs a package initialiser once per path.
func (mc *Machine) initPackage(g *G, p *ssa.Package) {
	if p == nil || mc.inited[p] {
		return
	}
	mc.inited[p] = true
	if !mc.w.e.prog.initAllowed(p) && !mc.lazied[p] {
		return
	}
	for _, imp := range p.Pkg.Imports() {
		if ip := mc.w.e.prog.prog.Package(imp); ip != nil && mc.w.e.prog.initAllowed(ip) {
			mc.initPackage(g, ip)
		}
	}
	if f := p.Func("init"); f != nil {
		if f.Blocks != nil {
			mc.initing = f
			g.call(f, nil, nil)
		}
	}
}
