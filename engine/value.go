package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a target value:
//
//	*Term (integers, booleans), float64, string, *SStr, *Value (pointers),
//	BytePtr, BSlice, Slice, Struct, Array, ByteArr, *MapObj, Iface, *Closure,
//	*Chan, Tuple, *mapIter, *strIter, *ssa.Builtin (in deferred calls)
type Value interface{}

type Struct []Value
type Array []Value
type Tuple []Value

// ByteArr is the value of a byte array: an immutable memory and a length.
type ByteArr struct {
	m *Mem
	n *Term
}

// BytePtr points at one byte of the ByteArr held by cell.
type BytePtr struct {
	cell *Value
	idx  *Term
}

// BSlice is a []byte.
type BSlice struct {
	cell         *Value
	off, ln, cap *Term
}

// Slice is a slice of non-byte elements.
type Slice struct {
	s   []Value // native slice, shares backing like the target's
	nnl bool    // non-nil
}

// SStr is a string that is not a known constant.
type SStr struct{ v ByteView }

type Iface struct {
	t types.Type // canonical; nil for the nil interface
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
	// native, when set, is an engine-provided function value
	native func(g *G, args []Value) Value
}

type MapObj struct {
	keys []Value
	vals []*Value
	idx  map[string]int
	live int
	symk bool
	del  []bool
}

type mapIter struct {
	m   *MapObj
	ord []int
	pos int
}

type strIter struct {
	s   string
	pos int
}

var nilPtr = (*Value)(nil)

func isByteType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// scalar describes an integer/bool type.
func scalarWidth(t types.Type) (w uint8, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func isStringType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isFloatType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// zero returns the zero value of t.
func (c *TermCtx) zero(t types.Type) Value {
	switch u := t.(type) {
	case *types.Named:
		return c.zero(u.Underlying())
	case *types.Alias:
		return c.zero(types.Unalias(u))
	case *types.Basic:
		if w, _, ok := scalarWidth(u); ok {
			return c.Const(w, 0)
		}
		switch {
		case u.Info()&types.IsString != 0:
			return ""
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		}
	case *types.Pointer:
		return nilPtr
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = c.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if isByteType(u.Elem()) {
			return ByteArr{memZero, c.Const(64, uint64(u.Len()))}
		}
		a := make(Array, u.Len())
		for i := range a {
			a[i] = c.zero(u.Elem())
		}
		return a
	case *types.Slice:
		if isByteType(u.Elem()) {
			z := c.Const(64, 0)
			return BSlice{nil, z, z, z}
		}
		return Slice{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Tuple:
		if u.Len() == 1 {
			return c.zero(u.At(0).Type())
		}
		s := make(Tuple, u.Len())
		for i := range s {
			s[i] = c.zero(u.At(i).Type())
		}
		return s
	case *types.TypeParam:
		panic("zero of type parameter " + u.String())
	}
	panic(fmt.Sprintf("zero: %T %v", t, t))
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		r := make(Struct, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case Array:
		r := make(Array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func storeCell(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		if dst, ok := (*p).(Struct); ok && len(dst) == len(x) {
			for i := range x {
				storeCell(&dst[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if dst, ok := (*p).(Array); ok && len(dst) == len(x) {
			for i := range x {
				storeCell(&dst[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

// tpanic is a panic of the target program.
type tpanic struct {
	v     Value
	where string
}

// abortPath stops the exploration of the current path.
type abortPath struct {
	kind   string // "unsupported", "assume", "limit", "dead", "exit"
	reason string
}

func (mc *Machine) unsupported(format string, a ...interface{}) {
	panic(abortPath{"unsupported", fmt.Sprintf(format, a...) + " @ " + mc.where()})
}

// strVal turns a view into a string value, concrete when possible.
func (mc *Machine) strVal(v ByteView) Value {
	if b, ok := mc.concreteBytes(v); ok {
		return string(b)
	}
	v = mc.view(v.m, v.off, v.n)
	return &SStr{v}
}

func (mc *Machine) strView(s Value) ByteView {
	switch x := s.(type) {
	case string:
		return ByteView{flatBytes(mc.c, []byte(x)), mc.i64(0), mc.i64(int64(len(x)))}
	case *SStr:
		return x.v
	}
	panic(fmt.Sprintf("strView %T", s))
}

func (mc *Machine) strLen(s Value) *Term {
	switch x := s.(type) {
	case string:
		return mc.i64(int64(len(x)))
	case *SStr:
		return x.v.n
	}
	panic(fmt.Sprintf("strLen %T", s))
}

func (mc *Machine) bytesView(b BSlice) ByteView {
	if b.cell == nil {
		return ByteView{memZero, mc.i64(0), mc.i64(0)}
	}
	mc.raceView(b, false)
	return ByteView{(*b.cell).(ByteArr).m, b.off, b.ln}
}

func (mc *Machine) newBytes(m *Mem, n *Term) BSlice {
	cell := new(Value)
	*cell = ByteArr{m, n}
	return BSlice{cell, mc.i64(0), n, n}
}

// viewToBytes makes a fresh []byte with the content of a view.
func (mc *Machine) viewToBytes(v ByteView) BSlice {
	cell := new(Value)
	if v.off.isConst() && v.off.k == 0 {
		*cell = ByteArr{v.m, v.n}
		return BSlice{cell, v.off, v.n, v.n}
	}
	m := mc.memCopy(memZero, v.n, mc.i64(0), v.m, v.off, v.n)
	*cell = ByteArr{m, v.n}
	return BSlice{cell, mc.i64(0), v.n, v.n}
}

func (mc *Machine) constBytes(b []byte) BSlice {
	return mc.newBytes(flatBytes(mc.c, b), mc.i64(int64(len(b))))
}

// viewsEq is the equality of two byte windows as a term.
func (mc *Machine) viewsEq(a, b ByteView) *Term {
	c := mc.c
	le := c.Eq(a.n, b.n)
	if le == c.False {
		return c.False
	}
	if a.m == b.m && a.off == b.off {
		return le
	}
	ta, tb := mc.wholeToken(a), mc.wholeToken(b)
	if ta != nil && tb != nil {
		if ta.hash == tb.hash {
			return c.True
		}
		return mc.tokensEq(ta, tb)
	}
	if mc.viewHash(a) == mc.viewHash(b) {
		return le
	}
	if !mc.branch(le) {
		return c.False
	}
	n := a.n
	if !n.isConst() {
		n = b.n
	}
	if !n.isConst() {
		n = mc.concretize(n)
	}
	if n.k > 4096 {
		mc.unsupported("symbolic comparison of %d bytes", n.k)
	}
	r := make([]*Term, n.k)
	for i := range r {
		k := mc.i64(int64(i))
		r[i] = c.Eq(mc.memRead(a.m, c.Add(a.off, k)), mc.memRead(b.m, c.Add(b.off, k)))
		if r[i] == c.False {
			return c.False
		}
	}
	return c.And(r...)
}

func (mc *Machine) tokensEq(a, b *Token) *Term {
	c := mc.c
	if a.kind != b.kind || len(a.fields) != len(b.fields) {
		return c.False
	}
	r := c.True
	for i := range a.fields {
		fa, fb := a.fields[i], b.fields[i]
		if fa.num != fb.num || fa.wire != fb.wire {
			return c.False
		}
		if fa.wire == 0 {
			r = c.And(r, c.Eq(fa.v, fb.v))
		} else {
			r = c.And(r, mc.viewsEq(fa.b, fb.b))
		}
		if r == c.False {
			return r
		}
	}
	return r
}

// eqVal is the Go == relation.
func (mc *Machine) eqVal(a, b Value) *Term {
	c := mc.c
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case float64:
		return c.Bool(x == b.(float64))
	case string:
		if y, ok := b.(string); ok {
			return c.Bool(x == y)
		}
		return mc.viewsEq(mc.strView(a), mc.strView(b))
	case *SStr:
		return mc.viewsEq(mc.strView(a), mc.strView(b))
	case *Value:
		y, ok := b.(*Value)
		return c.Bool(ok && x == y)
	case BytePtr:
		y, ok := b.(BytePtr)
		if !ok || x.cell != y.cell {
			return c.False
		}
		return c.Eq(x.idx, y.idx)
	case Struct:
		y := b.(Struct)
		r := c.True
		for i := range x {
			r = c.And(r, mc.eqVal(x[i], y[i]))
			if r == c.False {
				break
			}
		}
		return r
	case Array:
		y := b.(Array)
		r := c.True
		for i := range x {
			r = c.And(r, mc.eqVal(x[i], y[i]))
			if r == c.False {
				break
			}
		}
		return r
	case ByteArr:
		y := b.(ByteArr)
		return mc.viewsEq(ByteView{x.m, mc.i64(0), x.n}, ByteView{y.m, mc.i64(0), y.n})
	case Iface:
		y := b.(Iface)
		if x.t == nil || y.t == nil {
			return c.Bool(x.t == nil && y.t == nil)
		}
		if x.t != y.t && !types.Identical(x.t, y.t) {
			return c.False
		}
		if !types.Comparable(x.t) {
			mc.throw("comparing uncomparable type " + x.t.String())
		}
		return mc.eqVal(x.v, y.v)
	case *Closure:
		y, _ := b.(*Closure)
		return c.Bool(x == nil && y == nil)
	case *MapObj:
		y, _ := b.(*MapObj)
		return c.Bool(x == y)
	case *Chan:
		y, _ := b.(*Chan)
		return c.Bool(x == y)
	case BSlice:
		y := b.(BSlice)
		return c.Bool(x.cell == nil && y.cell == nil)
	case Slice:
		y := b.(Slice)
		return c.Bool(!x.nnl && !y.nnl)
	}
	panic(fmt.Sprintf("eqVal %T %T", a, b))
}

// mapKey returns a canonical concrete key.
func mapKey(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d;", x.k)
		return true
	case string:
		fmt.Fprintf(sb, "s%d:%s;", len(x), x)
		return true
	case *Value:
		fmt.Fprintf(sb, "p%p;", x)
		return true
	case *Chan:
		fmt.Fprintf(sb, "c%p;", x)
		return true
	case Struct:
		sb.WriteByte('{')
		for _, f := range x {
			if !mapKey(f, sb) {
				return false
			}
		}
		sb.WriteByte('}')
		return true
	case Array:
		sb.WriteByte('[')
		for _, f := range x {
			if !mapKey(f, sb) {
				return false
			}
		}
		sb.WriteByte(']')
		return true
	case Iface:
		if x.t == nil {
			sb.WriteString("nil;")
			return true
		}
		sb.WriteString("I" + x.t.String() + ":")
		return mapKey(x.v, sb)
	case float64:
		fmt.Fprintf(sb, "f%g;", x)
		return true
	case ByteArr:
		if !x.n.isConst() || x.m.kind != MFlat {
			if x.m.kind == MZero {
				fmt.Fprintf(sb, "z%d;", x.n.k)
				return true
			}
			return false
		}
		sb.WriteByte('b')
		for i := uint64(0); i < x.n.k; i++ {
			if i < uint64(len(x.m.flat)) {
				if !x.m.flat[i].isConst() {
					return false
				}
				sb.WriteByte(byte(x.m.flat[i].k))
			} else {
				sb.WriteByte(0)
			}
		}
		return true
	}
	return false
}

func (mc *Machine) mapFind(m *MapObj, k Value) int {
	if m == nil {
		return -1
	}
	var sb strings.Builder
	ck := mapKey(k, &sb)
	if ck && !m.symk {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		return -1
	}
	for i := range m.keys {
		if m.del[i] {
			continue
		}
		if mc.branch(mc.eqVal(m.keys[i], k)) {
			return i
		}
	}
	return -1
}

func (mc *Machine) mapSet(m *MapObj, k, v Value) {
	if m == nil {
		mc.throw("assignment to entry in nil map")
	}
	if i := mc.mapFind(m, k); i >= 0 {
		storeCell(m.vals[i], v)
		return
	}
	cell := new(Value)
	*cell = copyVal(v)
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, cell)
	m.del = append(m.del, false)
	m.live++
	var sb strings.Builder
	if mapKey(k, &sb) {
		m.idx[sb.String()] = len(m.keys) - 1
	} else {
		m.symk = true
	}
}

func (mc *Machine) mapDelete(m *MapObj, k Value) {
	i := mc.mapFind(m, k)
	if i < 0 {
		return
	}
	m.del[i] = true
	m.live--
	var sb strings.Builder
	if mapKey(m.keys[i], &sb) {
		delete(m.idx, sb.String())
	}
}
