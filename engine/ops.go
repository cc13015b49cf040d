package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type typeCanon struct {
	m    typeutil.Map
	meth map[methKey]*ssa.Function
	impl map[implKey]bool
}

func newTypeCanon() *typeCanon {
	return &typeCanon{meth: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}}
}

func (tc *typeCanon) of(t types.Type) types.Type {
	t = types.Unalias(t)
	if v := tc.m.At(t); v != nil {
		return v.(types.Type)
	}
	tc.m.Set(t, t)
	return t
}

type binFn func(mc *Machine, a, b Value) Value

func (w *Worker) binop(op token.Token, tx, ty types.Type) binFn {
	c := w.c
	switch op {
	case token.EQL:
		return func(mc *Machine, a, b Value) Value {
			if x, ok := a.(*Term); ok {
				return c.Eq(x, b.(*Term))
			}
			return mc.eqVal(a, b)
		}
	case token.NEQ:
		return func(mc *Machine, a, b Value) Value {
			if x, ok := a.(*Term); ok {
				return c.Not(c.Eq(x, b.(*Term)))
			}
			return c.Not(mc.eqVal(a, b))
		}
	}
	if isStringType(tx) {
		switch op {
		case token.ADD:
			return func(mc *Machine, a, b Value) Value { return mc.concat(a, b) }
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return func(mc *Machine, a, b Value) Value {
				cmp := mc.cmpStr(a, b)
				switch op {
				case token.LSS:
					return c.Slt(cmp, c.Const(64, 0))
				case token.LEQ:
					return c.Sle(cmp, c.Const(64, 0))
				case token.GTR:
					return c.Slt(c.Const(64, 0), cmp)
				}
				return c.Sle(c.Const(64, 0), cmp)
			}
		}
	}
	if isFloatType(tx) {
		return func(mc *Machine, a, b Value) Value {
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if !ok1 || !ok2 {
				mc.unsupported("float op on %T %T", a, b)
			}
			switch op {
			case token.ADD:
				return x + y
			case token.SUB:
				return x - y
			case token.MUL:
				return x * y
			case token.QUO:
				return x / y
			case token.LSS:
				return c.Bool(x < y)
			case token.LEQ:
				return c.Bool(x <= y)
			case token.GTR:
				return c.Bool(x > y)
			case token.GEQ:
				return c.Bool(x >= y)
			}
			panic("float op")
		}
	}
	wd, sg, ok := scalarWidth(tx)
	if !ok {
		return func(mc *Machine, a, b Value) Value {
			mc.unsupported("binop %s on %s", op, tx)
			return nil
		}
	}
	t2 := func(f func(x, y *Term) *Term) binFn {
		return func(mc *Machine, a, b Value) Value { return f(a.(*Term), b.(*Term)) }
	}
	_, ysg, _ := scalarWidth(ty)
	shift := func(f func(x, y *Term) *Term) binFn {
		return func(mc *Machine, a, b Value) Value {
			x, y := a.(*Term), b.(*Term)
			if ysg && !y.isConst() {
				if !mc.branch(c.Sle(c.Const(y.w, 0), y)) {
					mc.throw("negative shift amount")
				}
			} else if ysg && sext64(y.k, y.w) < 0 {
				mc.throw("negative shift amount")
			}
			// bring the count to x's width, saturating
			switch {
			case y.w < x.w:
				y = c.Zext(x.w, y)
			case y.w > x.w:
				big := c.Ult(c.Const(y.w, uint64(x.w)), y)
				y = c.Ite(big, c.Const(x.w, uint64(x.w)), c.Extract(x.w-1, 0, y))
			}
			return f(x, y)
		}
	}
	switch op {
	case token.ADD:
		return t2(c.Add)
	case token.SUB:
		return t2(c.Sub)
	case token.MUL:
		return t2(c.Mul)
	case token.QUO, token.REM:
		return func(mc *Machine, a, b Value) Value {
			x, y := a.(*Term), b.(*Term)
			if mc.branch(c.Eq(y, c.Const(wd, 0))) {
				mc.throw("integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return c.Sdiv(x, y)
			case op == token.QUO:
				return c.Udiv(x, y)
			case sg:
				return c.Srem(x, y)
			}
			return c.Urem(x, y)
		}
	case token.AND:
		if wd == 0 {
			return t2(func(x, y *Term) *Term { return c.And(x, y) })
		}
		return t2(c.BvAnd)
	case token.OR:
		if wd == 0 {
			return t2(func(x, y *Term) *Term { return c.Or(x, y) })
		}
		return t2(c.BvOr)
	case token.XOR:
		return t2(c.BvXor)
	case token.AND_NOT:
		return t2(func(x, y *Term) *Term { return c.BvAnd(x, c.BvNot(y)) })
	case token.SHL:
		return shift(c.Shl)
	case token.SHR:
		if sg {
			return shift(c.Ashr)
		}
		return shift(c.Lshr)
	case token.LSS:
		if sg {
			return t2(c.Slt)
		}
		return t2(c.Ult)
	case token.LEQ:
		if sg {
			return t2(c.Sle)
		}
		return t2(c.Ule)
	case token.GTR:
		if sg {
			return t2(func(x, y *Term) *Term { return c.Slt(y, x) })
		}
		return t2(func(x, y *Term) *Term { return c.Ult(y, x) })
	case token.GEQ:
		if sg {
			return t2(func(x, y *Term) *Term { return c.Sle(y, x) })
		}
		return t2(func(x, y *Term) *Term { return c.Ule(y, x) })
	}
	panic("binop " + op.String())
}

func (mc *Machine) concat(a, b Value) Value {
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		return x + y
	}
	if ok1 && x == "" {
		return b
	}
	if ok2 && y == "" {
		return a
	}
	va, vb := mc.strView(a), mc.strView(b)
	n := mc.c.Add(va.n, vb.n)
	m := mc.memCopy(memZero, n, mc.i64(0), va.m, va.off, va.n)
	m = mc.memCopy(m, n, va.n, vb.m, vb.off, vb.n)
	return mc.strVal(ByteView{m, mc.i64(0), n})
}

// cmpStr is a three-way comparison term (-1, 0, 1).
func (mc *Machine) cmpStr(a, b Value) *Term {
	c := mc.c
	x, ok1 := a.(string)
	y, ok2 := b.(string)
	if ok1 && ok2 {
		switch {
		case x < y:
			return c.Const(64, ^uint64(0))
		case x > y:
			return c.Const(64, 1)
		}
		return c.Const(64, 0)
	}
	return mc.cmpViews(mc.strView(a), mc.strView(b))
}

func (mc *Machine) cmpViews(a, b ByteView) *Term {
	c := mc.c
	an, bn := mc.concretize(a.n), mc.concretize(b.n)
	n := an.k
	if bn.k < n {
		n = bn.k
	}
	if n > 256 {
		mc.unsupported("ordering of long symbolic strings")
	}
	var r *Term
	switch {
	case an.k < bn.k:
		r = c.Const(64, ^uint64(0))
	case an.k > bn.k:
		r = c.Const(64, 1)
	default:
		r = c.Const(64, 0)
	}
	for i := int64(n) - 1; i >= 0; i-- {
		p, q := mc.memRead(a.m, c.Add(a.off, mc.i64(i))), mc.memRead(b.m, c.Add(b.off, mc.i64(i)))
		r = c.Ite(c.Eq(p, q), r, c.Ite(c.Ult(p, q), c.Const(64, ^uint64(0)), c.Const(64, 1)))
	}
	return r
}

func (w *Worker) convert(from, to types.Type) func(mc *Machine, v Value) Value {
	c := w.c
	fw, fs, fok := scalarWidth(from)
	tw, _, tok := scalarWidth(to)
	if fok && tok {
		return func(mc *Machine, v Value) Value {
			x := v.(*Term)
			switch {
			case fw == tw:
				return x
			case fw > tw:
				return c.Extract(tw-1, 0, x)
			case fs:
				return c.Sext(tw, x)
			}
			return c.Zext(tw, x)
		}
	}
	if fok && isFloatType(to) {
		return func(mc *Machine, v Value) Value {
			x := v.(*Term)
			if !x.isConst() {
				if umaxOf(x) > 4096 {
					mc.unsupported("symbolic integer to float")
				}
				x = mc.concretize(x)
			}
			if fs {
				return float64(sext64(x.k, x.w))
			}
			return float64(x.k)
		}
	}
	if isFloatType(from) && tok {
		_, ts, _ := scalarWidth(to)
		return func(mc *Machine, v Value) Value {
			f := v.(float64)
			if ts {
				return c.Const(tw, uint64(int64(f)))
			}
			return c.Const(tw, uint64(f))
		}
	}
	if isFloatType(from) && isFloatType(to) {
		b := to.Underlying().(*types.Basic)
		return func(mc *Machine, v Value) Value {
			if b.Kind() == types.Float32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	}
	_, fsl := from.Underlying().(*types.Slice)
	tsl, tIsSl := to.Underlying().(*types.Slice)
	switch {
	case isStringType(to) && fsl:
		fe := from.Underlying().(*types.Slice).Elem()
		if isByteType(fe) {
			return func(mc *Machine, v Value) Value {
				return mc.strVal(mc.bytesView(v.(BSlice)))
			}
		}
		return func(mc *Machine, v Value) Value {
			var rs []rune
			for _, e := range v.(Slice).s {
				t := mc.concretize(e.(*Term))
				rs = append(rs, rune(sext64(t.k, t.w)))
			}
			return string(rs)
		}
	case isStringType(from) && tIsSl:
		if isByteType(tsl.Elem()) {
			return func(mc *Machine, v Value) Value {
				if s, ok := v.(string); ok {
					return mc.constBytes([]byte(s))
				}
				return mc.viewToBytes(mc.strView(v))
			}
		}
		return func(mc *Machine, v Value) Value {
			s, ok := v.(string)
			if !ok {
				mc.unsupported("[]rune of symbolic string")
			}
			var out []Value
			for _, r := range s {
				out = append(out, c.Const(32, uint64(r)))
			}
			return Slice{out, true}
		}
	case isStringType(to) && fok:
		return func(mc *Machine, v Value) Value {
			t := mc.concretize(v.(*Term))
			return string(rune(sext64(t.k, t.w)))
		}
	case isStringType(to) && isStringType(from):
		return func(mc *Machine, v Value) Value { return v }
	}
	// unsafe.Pointer and pointer conversions keep the pointer
	return func(mc *Machine, v Value) Value {
		switch v.(type) {
		case *Value, BytePtr:
			return v
		}
		if tok {
			mc.unsupported("conversion %s to %s", from, to)
		}
		return v
	}
}

// growCap mirrors runtime.growslice for element size es.
func growCap(oldCap, newLen int, es int64) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		nc = newLen
	} else if oldCap < 256 {
		nc = dbl
	} else {
		for nc < newLen {
			nc += (nc + 3*256) >> 2
		}
	}
	if es == 0 {
		return nc
	}
	return int(roundSize(int64(nc)*es) / es)
}

var sizeClasses = []int64{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundSize(n int64) int64 {
	for _, s := range sizeClasses {
		if n <= s {
			return s
		}
	}
	return (n + 8191) &^ 8191
}

var stdSizes = types.SizesFor("gc", "amd64")

func (mc *Machine) appendBytes(dst BSlice, src ByteView) BSlice {
	c := mc.c
	if src.n.isConst() && src.n.k == 0 {
		return dst
	}
	nl := c.Add(dst.ln, src.n)
	if dst.cell != nil && mc.branch(c.Ule(nl, dst.cap)) {
		if mc.race != nil {
			mc.raceBytes(dst.cell, c.Add(dst.off, dst.ln), src.n, true)
		}
		a := (*dst.cell).(ByteArr)
		*dst.cell = ByteArr{mc.memCopy(a.m, a.n, c.Add(dst.off, dst.ln), src.m, src.off, src.n), a.n}
		return BSlice{dst.cell, dst.off, nl, dst.cap}
	}
	ncap := nl
	if nl.isConst() && dst.cap.isConst() {
		ncap = mc.i64(int64(growCap(int(dst.cap.k), int(nl.k), 1)))
	}
	m := memZero
	if dst.cell != nil {
		mc.raceView(dst, false)
		a := (*dst.cell).(ByteArr)
		if dst.off.isConst() && dst.off.k == 0 && dst.ln == a.n {
			m = a.m
			if !ncap.isConst() || m.kind == MBase || m.kind == MTok {
				m = mc.memCopy(memZero, ncap, mc.i64(0), a.m, dst.off, dst.ln)
			} else if m.kind == MFlat {
				m = mc.memCopy(growFlat(c, memZero, ncap), ncap, mc.i64(0), a.m, dst.off, dst.ln)
			} else {
				m = mc.memCopy(memZero, ncap, mc.i64(0), a.m, dst.off, dst.ln)
			}
		} else {
			m = mc.memCopy(growFlat(c, memZero, ncap), ncap, mc.i64(0), a.m, dst.off, dst.ln)
		}
	} else if ncap.isConst() && ncap.k <= 4096 && src.m.kind == MFlat {
		m = growFlat(c, memZero, ncap)
	}
	m = mc.memCopy(m, ncap, dst.ln, src.m, src.off, src.n)
	cell := new(Value)
	*cell = ByteArr{m, ncap}
	return BSlice{cell, mc.i64(0), nl, ncap}
}

func growFlat(c *TermCtx, m *Mem, n *Term) *Mem {
	if !n.isConst() || n.k > 4096 {
		return m
	}
	f := make([]*Term, n.k)
	z := c.Const(8, 0)
	for i := range f {
		f[i] = z
	}
	return &Mem{kind: MFlat, flat: f}
}

func (mc *Machine) copyBytes(dst BSlice, src ByteView) *Term {
	c := mc.c
	n := src.n
	if n != dst.ln {
		if mc.branch(c.Ult(dst.ln, n)) {
			n = dst.ln
		}
	}
	if dst.cell == nil || n.isConst() && n.k == 0 {
		return n
	}
	if mc.race != nil {
		mc.raceBytes(dst.cell, dst.off, n, true)
	}
	a := (*dst.cell).(ByteArr)
	*dst.cell = ByteArr{mc.memCopy(a.m, a.n, dst.off, src.m, src.off, n), a.n}
	return n
}

func (mc *Machine) builtin(g *G, b *ssa.Builtin, args []Value, com *ssa.CallCommon) Value {
	c := mc.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return mc.strLen(x)
		case BSlice:
			return x.ln
		case Slice:
			return mc.i64(int64(len(x.s)))
		case *MapObj:
			if x == nil {
				return mc.i64(0)
			}
			return mc.i64(int64(x.live))
		case *Chan:
			if x == nil {
				return mc.i64(0)
			}
			return mc.i64(int64(len(x.buf)))
		case Array:
			return mc.i64(int64(len(x)))
		case ByteArr:
			return x.n
		case *Value:
			t := com.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mc.i64(t.Len())
		}
	case "cap":
		switch x := args[0].(type) {
		case BSlice:
			return x.cap
		case Slice:
			return mc.i64(int64(cap(x.s)))
		case *Chan:
			if x == nil {
				return mc.i64(0)
			}
			return mc.i64(int64(x.cap))
		case Array:
			return mc.i64(int64(len(x)))
		case ByteArr:
			return x.n
		case *Value:
			t := com.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return mc.i64(t.Len())
		}
	case "append":
		switch d := args[0].(type) {
		case BSlice:
			if len(args) == 1 {
				return d
			}
			switch s := args[1].(type) {
			case BSlice:
				return mc.appendBytes(d, mc.bytesView(s))
			default:
				return mc.appendBytes(d, mc.strView(s))
			}
		case Slice:
			if len(args) == 1 {
				return d
			}
			s := args[1].(Slice)
			if len(s.s) == 0 {
				return d
			}
			n := len(d.s) + len(s.s)
			if mc.race != nil {
				mc.raceSlice(g, s.s, false)
			}
			if n <= cap(d.s) {
				r := d.s[:n]
				if mc.race != nil {
					mc.raceSlice(g, r[len(d.s):], true)
				}
				tmp := make([]Value, len(s.s))
				for i, e := range s.s {
					tmp[i] = copyVal(e)
				}
				for i, e := range tmp {
					r[len(d.s)+i] = e
				}
				return Slice{r, true}
			}
			if mc.race != nil {
				mc.raceSlice(g, d.s, false)
			}
			et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
			nc := growCap(cap(d.s), n, stdSizes.Sizeof(et))
			if nc < n {
				nc = n
			}
			r := make([]Value, nc)
			for i, e := range d.s {
				r[i] = copyVal(e)
			}
			for i, e := range s.s {
				r[len(d.s)+i] = copyVal(e)
			}
			for i := n; i < nc; i++ {
				r[i] = c.zero(et)
			}
			return Slice{r[:n], true}
		}
	case "copy":
		switch d := args[0].(type) {
		case BSlice:
			switch s := args[1].(type) {
			case BSlice:
				v := s
				if v.ln != d.ln && mc.branch(c.Ult(d.ln, v.ln)) {
					v.ln = d.ln
				}
				return mc.copyBytes(d, mc.bytesView(v))
			default:
				return mc.copyBytes(d, mc.strView(s))
			}
		case Slice:
			s := args[1].(Slice)
			n := len(s.s)
			if len(d.s) < n {
				n = len(d.s)
			}
			if mc.race != nil {
				mc.raceSlice(g, s.s[:n], false)
				mc.raceSlice(g, d.s[:n], true)
			}
			tmp := make([]Value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(s.s[i])
			}
			for i := 0; i < n; i++ {
				storeCell(&d.s[i], tmp[i])
			}
			return mc.i64(int64(n))
		}
	case "delete":
		m := args[0].(*MapObj)
		if m != nil {
			if mc.race != nil {
				mc.raceAccess(g, m, true)
			}
			mc.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *MapObj:
			if m != nil {
				*m = MapObj{idx: map[string]int{}}
			}
		case BSlice:
			if m.cell != nil {
				mc.raceView(m, true)
				a := (*m.cell).(ByteArr)
				*m.cell = ByteArr{mc.memCopy(a.m, a.n, m.off, memZero, mc.i64(0), m.ln), a.n}
			}
		case Slice:
			et := com.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range m.s {
				storeCell(&m.s[i], c.zero(et))
			}
		}
		return nil
	case "close":
		g.closeChan(args[0].(*Chan))
		return nil
	case "panic":
		mc.throwVal(args[0])
	case "recover":
		// the deferred function's caller frame holds the panic
		fr := g.fr
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			tp := fr.caller.panic.(*tpanic)
			return tp.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				_, sg, _ := scalarWidth(com.Args[0].Type())
				y := a.(*Term)
				var lt *Term
				if sg {
					lt = c.Slt(y, x)
				} else {
					lt = c.Ult(y, x)
				}
				if b.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, y, x)
			case float64:
				y := a.(float64)
				if (y < x) == (b.Name() == "min") {
					r = y
				}
			case string:
				y := a.(string)
				if (y < x) == (b.Name() == "min") {
					r = y
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			mc.throw("value method called using nil pointer")
		}
		return args[0]
	case "SliceData":
		switch s := args[0].(type) {
		case BSlice:
			if s.cell == nil {
				return nilPtr
			}
			return BytePtr{s.cell, s.off}
		}
	case "StringData":
		v := mc.strView(args[0])
		b := mc.viewToBytes(v)
		return BytePtr{b.cell, b.off}
	case "String":
		switch p := args[0].(type) {
		case BytePtr:
			n := args[1].(*Term)
			return mc.strVal(ByteView{(*p.cell).(ByteArr).m, p.idx, n})
		case *Value:
			return ""
		}
	case "Slice":
		switch p := args[0].(type) {
		case BytePtr:
			n := args[1].(*Term)
			return BSlice{p.cell, p.idx, n, n}
		}
	}
	if b.Name() == "Sizeof" || b.Name() == "Offsetof" {
		mc.unsupported("unsafe %s", b.Name())
	}
	mc.unsupported("builtin %s on %T", b.Name(), func() interface{} {
		if len(args) > 0 {
			return args[0]
		}
		return nil
	}())
	panic(fmt.Sprint("unreachable"))
}
