package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Op is a term operator of the SMT term language (QF_UFBV, widths <= 64).
type Op uint8

const (
	OConst Op = iota // bit-vector (w>0) or Bool (w==0, k in {0,1}) constant
	OVar
	OApp // uninterpreted memory: name(idx) : BV8
	ONot
	OAnd
	OOr
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OSum // linear combination: k + sum coef_i * a_i (mod 2^w)
	OMul
	OUdiv
	OSdiv
	OUrem
	OSrem
	OBvAnd
	OBvOr
	OBvXor
	OBvNot
	OShl
	OLshr
	OAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
)

// Term is a hash-consed SMT term. w is the bit width, 0 for Bool.
type Term struct {
	op   Op
	w    uint8
	k    uint64
	name string
	a    []*Term
	coef []uint64
	id   int
	sh   uint64 // structural hash, identical across workers and runs
	vars []int32
	hasV bool
	gnd  bool    // depends on at most maxSup Boolean variables and nothing else
	sup  []*Term // those variables
	can  *Term   // canonical form of a ground term
}

const maxSup = 5

// ground computes the Boolean support of a term.
func (t *Term) ground() {
	switch t.op {
	case OConst:
		t.gnd = true
		return
	case OVar:
		if t.w == 0 {
			t.gnd, t.sup = true, []*Term{t}
		}
		return
	case OApp:
		return
	}
	var sup []*Term
	for _, x := range t.a {
		if !x.gnd {
			return
		}
	next:
		for _, v := range x.sup {
			for _, o := range sup {
				if o == v {
					continue next
				}
			}
			sup = append(sup, v)
		}
		if len(sup) > maxSup {
			return
		}
	}
	sort.Slice(sup, func(i, j int) bool { return sup[i].sh < sup[j].sh })
	t.gnd, t.sup = true, sup
}

// table evaluates a ground term for every assignment of vs; the other
// variables of its support have the values in base.
func (t *Term) table(vs []*Term, base map[string]uint64) []uint64 {
	m := &Model{v: map[string]uint64{}}
	for k, v := range base {
		m.v[k] = v
	}
	out := make([]uint64, 1<<uint(len(vs)))
	for i := range out {
		for j, v := range vs {
			m.v[v.name] = uint64(i>>uint(j)) & 1
		}
		out[i] = m.Eval(t, map[*Term]uint64{})
	}
	return out
}

// canon rewrites a ground term into a decision tree over its variables.
func (c *TermCtx) canon(t *Term) *Term {
	tab := t.table(t.sup, nil)
	var rec func(k int, base int) *Term
	rec = func(k, base int) *Term {
		if k < 0 {
			if t.w == 0 {
				return c.Bool(tab[base] == 1)
			}
			return c.Const(t.w, tab[base])
		}
		lo, hi := rec(k-1, base), rec(k-1, base|1<<uint(k))
		if lo == hi {
			return lo
		}
		if t.w == 0 {
			return c.Ite(t.sup[k], hi, lo)
		}
		return c.mkRaw(&Term{op: OIte, w: t.w, a: []*Term{t.sup[k], hi, lo}})
	}
	return rec(len(t.sup)-1, 0)
}

func (c *TermCtx) mk(t *Term) *Term {
	t = c.mkRaw(t)
	if t.can != nil {
		return t.can
	}
	if t.gnd {
		switch t.op {
		case OConst, OVar, ONot, OAnd, OOr:
		case OIte:
			if t.w > 0 {
				t.can = c.canon(t)
			}
		default:
			t.can = c.canon(t)
		}
		if t.can != nil {
			return t.can
		}
	}
	return t
}

// TermCtx owns one worker's hash-consing table.
type TermCtx struct {
	tab    map[uint64][]*Term
	n      int
	varIDs map[string]int32
	names  []string
	True   *Term
	False  *Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[uint64][]*Term{}, varIDs: map[string]int32{}}
	c.True = c.mk(&Term{op: OConst, w: 0, k: 1})
	c.False = c.mk(&Term{op: OConst, w: 0, k: 0})
	return c
}

func mix(h, x uint64) uint64 {
	h ^= x + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

func (c *TermCtx) mkRaw(t *Term) *Term {
	h := mix(uint64(t.op)<<8|uint64(t.w), t.k)
	if t.name != "" {
		h = mix(h, hashStr(t.name))
	}
	for _, x := range t.a {
		h = mix(h, x.sh)
	}
	for _, x := range t.coef {
		h = mix(h, x)
	}
	t.sh = h
outer:
	for _, o := range c.tab[h] {
		if o.op != t.op || o.w != t.w || o.k != t.k || o.name != t.name || len(o.a) != len(t.a) || len(o.coef) != len(t.coef) {
			continue
		}
		for i := range o.a {
			if o.a[i] != t.a[i] {
				continue outer
			}
		}
		for i := range o.coef {
			if o.coef[i] != t.coef[i] {
				continue outer
			}
		}
		return o
	}
	c.n++
	t.id = c.n
	t.ground()
	c.tab[h] = append(c.tab[h], t)
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (t *Term) isConst() bool { return t.op == OConst }

func sext64(k uint64, w uint8) int64 {
	if w >= 64 {
		return int64(k)
	}
	s := 64 - w
	return int64(k<<s) >> s
}

func (c *TermCtx) Const(w uint8, k uint64) *Term {
	return c.mk(&Term{op: OConst, w: w, k: k & mask(w)})
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) Var(w uint8, name string) *Term { return c.mk(&Term{op: OVar, w: w, name: name}) }
func (c *TermCtx) App(name string, idx *Term) *Term {
	return c.mk(&Term{op: OApp, w: 8, name: name, a: []*Term{idx}})
}

func (c *TermCtx) Not(x *Term) *Term {
	if x.isConst() {
		return c.Bool(x.k == 0)
	}
	switch x.op {
	case ONot:
		return x.a[0]
	case OUlt: // not (a<b) = b<=a
		return c.Ule(x.a[1], x.a[0])
	case OUle:
		return c.Ult(x.a[1], x.a[0])
	case OSlt:
		return c.Sle(x.a[1], x.a[0])
	case OSle:
		return c.Slt(x.a[1], x.a[0])
	}
	return c.mk(&Term{op: ONot, a: []*Term{x}})
}

func (c *TermCtx) nary(op Op, xs []*Term) *Term {
	var unit, zero *Term
	if op == OAnd {
		unit, zero = c.True, c.False
	} else {
		unit, zero = c.False, c.True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == zero {
			return false
		}
		if x == unit || seen[x] {
			return true
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[c.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].sh < out[j].sh })
	return c.mk(&Term{op: op, a: out})
}

func (c *TermCtx) And(xs ...*Term) *Term { return c.nary(OAnd, xs) }
func (c *TermCtx) Or(xs ...*Term) *Term  { return c.nary(OOr, xs) }

func (c *TermCtx) Ite(b, x, y *Term) *Term {
	if b.isConst() {
		if b.k == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if b.op == ONot {
		return c.Ite(b.a[0], y, x)
	}
	if x.w == 0 {
		if x == c.True {
			return c.Or(b, y)
		}
		if x == c.False {
			return c.And(c.Not(b), y)
		}
		if y == c.True {
			return c.Or(c.Not(b), x)
		}
		if y == c.False {
			return c.And(b, x)
		}
	}
	if x.op == OIte && x.a[0] == b {
		x = x.a[1]
	}
	if y.op == OIte && y.a[0] == b {
		y = y.a[2]
	}
	if x == y {
		return x
	}
	return c.mk(&Term{op: OIte, w: x.w, a: []*Term{b, x, y}})
}

func (c *TermCtx) Eq(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.w == 0 {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.k == 1 {
				return x
			}
			return c.Not(x)
		}
		if x.sh > y.sh {
			x, y = y, x
		}
		return c.mk(&Term{op: OEq, a: []*Term{x, y}})
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.k == y.k)
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OIte:
			if x.a[1].isConst() && x.a[2].isConst() {
				return c.Ite(x.a[0], c.Eq(x.a[1], y), c.Eq(x.a[2], y))
			}
			if x.a[1].isConst() && x.a[1].k != y.k {
				return c.And(c.Not(x.a[0]), c.Eq(x.a[2], y))
			}
			if x.a[2].isConst() && x.a[2].k != y.k {
				return c.And(x.a[0], c.Eq(x.a[1], y))
			}
		case OZext:
			iw := x.a[0].w
			if y.k > mask(iw) {
				return c.False
			}
			return c.Eq(x.a[0], c.Const(iw, y.k))
		case OSum:
			if len(x.a) == 1 && (x.coef[0] == 1 || x.coef[0] == mask(x.w)) {
				v := y.k - x.k
				if x.coef[0] != 1 {
					v = -v
				}
				return c.Eq(x.a[0], c.Const(x.w, v))
			}
		case OConcat:
			lw := x.a[1].w
			return c.And(c.Eq(x.a[0], c.Const(x.a[0].w, y.k>>lw)), c.Eq(x.a[1], c.Const(lw, y.k)))
		}
	} else if x.op == OSum || y.op == OSum {
		d := c.Sub(x, y)
		if d.isConst() {
			return c.Bool(d.k == 0)
		}
		// canonical: move everything to one side when it shrinks
		if d.op != OSum {
			return c.Eq(d, c.Const(d.w, 0))
		}
		if len(d.a) == 1 && (d.coef[0] == 1 || d.coef[0] == mask(d.w)) {
			return c.Eq(d, c.Const(d.w, 0))
		}
		if len(d.a) == 2 && d.k == 0 && d.coef[0] == 1 && d.coef[1] == mask(d.w) {
			x, y = d.a[0], d.a[1]
		} else if len(d.a) == 2 && d.k == 0 && d.coef[1] == 1 && d.coef[0] == mask(d.w) {
			x, y = d.a[1], d.a[0]
		}
	} else if x.op == OZext && y.op == OZext && x.a[0].w == y.a[0].w {
		return c.Eq(x.a[0], y.a[0])
	}
	if !y.isConst() && x.sh > y.sh {
		x, y = y, x
	}
	return c.mk(&Term{op: OEq, a: []*Term{x, y}})
}

// umaxOf gives a cheap upper bound on the unsigned value of x.
func umaxOf(x *Term) uint64 {
	switch x.op {
	case OConst:
		return x.k
	case OZext:
		return umaxOf(x.a[0])
	case OIte:
		a, b := umaxOf(x.a[1]), umaxOf(x.a[2])
		if a > b {
			return a
		}
		return b
	case OBvAnd:
		a, b := umaxOf(x.a[0]), umaxOf(x.a[1])
		if a < b {
			return a
		}
		return b
	case OLshr:
		if x.a[1].isConst() && x.a[1].k < 64 {
			return umaxOf(x.a[0]) >> x.a[1].k
		}
	case OUrem:
		if x.a[1].isConst() && x.a[1].k > 0 {
			return x.a[1].k - 1
		}
	case OSum:
		tot := x.k
		for i, y := range x.a {
			m := umaxOf(y)
			hi, lo := bits.Mul64(m, x.coef[i])
			if hi != 0 || x.coef[i] > 1<<32 {
				return mask(x.w)
			}
			s := tot + lo
			if s < tot {
				return mask(x.w)
			}
			tot = s
		}
		if tot <= mask(x.w) {
			return tot
		}
	}
	return mask(x.w)
}

func (c *TermCtx) Ult(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.k < y.k)
	}
	if y.isConst() {
		if y.k == 0 {
			return c.False
		}
		if umaxOf(x) < y.k {
			return c.True
		}
		if x.op == OZext && y.k <= mask(x.a[0].w) {
			return c.Ult(x.a[0], c.Const(x.a[0].w, y.k))
		}
	}
	if x.isConst() {
		if x.k == mask(x.w) {
			return c.False
		}
		if umaxOf(y) <= x.k {
			return c.False
		}
		if y.op == OZext {
			return c.Ult(c.Const(y.a[0].w, x.k), y.a[0])
		}
	}
	return c.mk(&Term{op: OUlt, a: []*Term{x, y}})
}
func (c *TermCtx) Ule(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.isConst() && y.isConst() {
		return c.Bool(x.k <= y.k)
	}
	if x.isConst() {
		if x.k == 0 {
			return c.True
		}
		return c.Not2Ult(y, x)
	}
	if y.isConst() {
		if y.k == mask(y.w) {
			return c.True
		}
		return c.Ult(x, c.Const(y.w, y.k+1))
	}
	return c.mk(&Term{op: OUle, a: []*Term{x, y}})
}

// Not2Ult builds not(y < x) for a constant x > 0 as (x-1 < y).
func (c *TermCtx) Not2Ult(y, x *Term) *Term { return c.Ult(c.Const(x.w, x.k-1), y) }

func smaxConst(w uint8) uint64 { return mask(w) >> 1 }
func sminConst(w uint8) uint64 { return uint64(1) << (w - 1) }

func (c *TermCtx) Slt(x, y *Term) *Term {
	if x == y {
		return c.False
	}
	if x.isConst() && y.isConst() {
		return c.Bool(sext64(x.k, x.w) < sext64(y.k, y.w))
	}
	half := smaxConst(x.w)
	if umaxOf(x) <= half && umaxOf(y) <= half {
		return c.Ult(x, y)
	}
	if y.isConst() && y.k == sminConst(y.w) {
		return c.False
	}
	if x.isConst() && x.k == smaxConst(x.w) {
		return c.False
	}
	if y.isConst() && sext64(y.k, y.w) <= 0 && umaxOf(x) <= half {
		return c.False
	}
	if x.isConst() && sext64(x.k, x.w) < 0 && umaxOf(y) <= half {
		return c.True
	}
	return c.mk(&Term{op: OSlt, a: []*Term{x, y}})
}
func (c *TermCtx) Sle(x, y *Term) *Term {
	if x == y {
		return c.True
	}
	if x.isConst() && y.isConst() {
		return c.Bool(sext64(x.k, x.w) <= sext64(y.k, y.w))
	}
	half := smaxConst(x.w)
	if umaxOf(x) <= half && umaxOf(y) <= half {
		return c.Ule(x, y)
	}
	if y.isConst() && y.k != smaxConst(y.w) {
		return c.Slt(x, c.Const(y.w, y.k+1))
	}
	if x.isConst() && x.k != sminConst(x.w) {
		return c.Slt(c.Const(x.w, x.k-1), y)
	}
	return c.mk(&Term{op: OSle, a: []*Term{x, y}})
}

// linear decomposition helpers
type lin struct {
	k uint64
	t []*Term
	c []uint64
}

func (c *TermCtx) linOf(x *Term) lin {
	switch x.op {
	case OConst:
		return lin{k: x.k}
	case OSum:
		return lin{k: x.k, t: x.a, c: x.coef}
	}
	return lin{t: []*Term{x}, c: []uint64{1}}
}

func (c *TermCtx) linAdd(w uint8, a, b lin, bc uint64) *Term {
	m := mask(w)
	r := lin{k: (a.k + b.k*bc) & m}
	i, j := 0, 0
	// terms are sorted by (sh,id)
	less := func(x, y *Term) bool {
		if x.sh != y.sh {
			return x.sh < y.sh
		}
		return x.id < y.id
	}
	for i < len(a.t) || j < len(b.t) {
		switch {
		case j >= len(b.t) || (i < len(a.t) && a.t[i] != b.t[j] && less(a.t[i], b.t[j])):
			r.t = append(r.t, a.t[i])
			r.c = append(r.c, a.c[i])
			i++
		case i >= len(a.t) || a.t[i] != b.t[j]:
			if k := (b.c[j] * bc) & m; k != 0 {
				r.t = append(r.t, b.t[j])
				r.c = append(r.c, k)
			}
			j++
		default:
			if k := (a.c[i] + b.c[j]*bc) & m; k != 0 {
				r.t = append(r.t, a.t[i])
				r.c = append(r.c, k)
			}
			i++
			j++
		}
	}
	return c.fromLin(w, r)
}

func (c *TermCtx) fromLin(w uint8, r lin) *Term {
	if len(r.t) == 0 {
		return c.Const(w, r.k)
	}
	if len(r.t) == 1 && r.c[0] == 1 && r.k == 0 {
		return r.t[0]
	}
	return c.mk(&Term{op: OSum, w: w, k: r.k, a: r.t, coef: r.c})
}

func (c *TermCtx) Add(x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		return c.Const(x.w, x.k+y.k)
	}
	if x.isConst() && x.k == 0 {
		return y
	}
	if y.isConst() && y.k == 0 {
		return x
	}
	return c.linAdd(x.w, c.linOf(x), c.linOf(y), 1)
}
func (c *TermCtx) Sub(x, y *Term) *Term {
	if x == y {
		return c.Const(x.w, 0)
	}
	if x.isConst() && y.isConst() {
		return c.Const(x.w, x.k-y.k)
	}
	if y.isConst() && y.k == 0 {
		return x
	}
	return c.linAdd(x.w, c.linOf(x), c.linOf(y), mask(x.w))
}
func (c *TermCtx) Neg(x *Term) *Term { return c.Sub(c.Const(x.w, 0), x) }
func (c *TermCtx) Mul(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		if x.isConst() {
			return c.Const(x.w, x.k*y.k)
		}
		if y.k == 0 {
			return y
		}
		return c.linAdd(x.w, lin{}, c.linOf(x), y.k)
	}
	if x.sh > y.sh {
		x, y = y, x
	}
	return c.mk(&Term{op: OMul, w: x.w, a: []*Term{x, y}})
}

func (c *TermCtx) bin(op Op, x, y *Term) *Term {
	return c.mk(&Term{op: op, w: x.w, a: []*Term{x, y}})
}

// Udiv etc.: callers guarantee a non-zero divisor on the path.
func (c *TermCtx) Udiv(x, y *Term) *Term {
	if y.isConst() && y.k != 0 {
		if x.isConst() {
			return c.Const(x.w, x.k/y.k)
		}
		if y.k == 1 {
			return x
		}
		if y.k&(y.k-1) == 0 {
			return c.Lshr(x, c.Const(x.w, uint64(bits.TrailingZeros64(y.k))))
		}
	}
	return c.bin(OUdiv, x, y)
}
func (c *TermCtx) Urem(x, y *Term) *Term {
	if y.isConst() && y.k != 0 {
		if x.isConst() {
			return c.Const(x.w, x.k%y.k)
		}
		if y.k&(y.k-1) == 0 {
			return c.BvAnd(x, c.Const(x.w, y.k-1))
		}
	}
	return c.bin(OUrem, x, y)
}
func (c *TermCtx) Sdiv(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.k != 0 {
		a, b := sext64(x.k, x.w), sext64(y.k, y.w)
		if b == -1 {
			return c.Neg(x)
		}
		return c.Const(x.w, uint64(a/b))
	}
	half := smaxConst(x.w)
	if umaxOf(x) <= half && umaxOf(y) <= half {
		return c.Udiv(x, y)
	}
	return c.bin(OSdiv, x, y)
}
func (c *TermCtx) Srem(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.k != 0 {
		a, b := sext64(x.k, x.w), sext64(y.k, y.w)
		if b == -1 {
			return c.Const(x.w, 0)
		}
		return c.Const(x.w, uint64(a%b))
	}
	half := smaxConst(x.w)
	if umaxOf(x) <= half && umaxOf(y) <= half {
		return c.Urem(x, y)
	}
	return c.bin(OSrem, x, y)
}

func (c *TermCtx) BvAnd(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.isConst() {
		if x.isConst() {
			return c.Const(x.w, x.k&y.k)
		}
		if y.k == 0 {
			return y
		}
		if y.k == mask(x.w) {
			return x
		}
		// low mask
		if y.k&(y.k+1) == 0 {
			n := uint8(bits.Len64(y.k))
			return c.Zext(x.w, c.Extract(n-1, 0, x))
		}
		if x.op == OBvAnd && x.a[1].isConst() {
			return c.BvAnd(x.a[0], c.Const(x.w, y.k&x.a[1].k))
		}
		// contiguous mask: (x[hi:lo] << lo)
		tz := uint8(bits.TrailingZeros64(y.k))
		if s := y.k >> tz; s&(s+1) == 0 {
			hi := tz + uint8(bits.Len64(s)) - 1
			r := c.Concat(c.Extract(hi, tz, x), c.Const(tz, 0))
			return c.Zext(x.w, r)
		}
	} else if x.sh > y.sh {
		x, y = y, x
	}
	return c.bin(OBvAnd, x, y)
}
func (c *TermCtx) BvOr(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return x
	}
	if y.isConst() {
		if x.isConst() {
			return c.Const(x.w, x.k|y.k)
		}
		if y.k == 0 {
			return x
		}
		if y.k == mask(x.w) {
			return y
		}
		if x.op == OBvOr && x.a[1].isConst() {
			return c.BvOr(x.a[0], c.Const(x.w, y.k|x.a[1].k))
		}
	} else if x.sh > y.sh {
		x, y = y, x
	}
	return c.bin(OBvOr, x, y)
}
func (c *TermCtx) BvXor(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x == y {
		return c.Const(x.w, 0)
	}
	if y.isConst() {
		if x.isConst() {
			return c.Const(x.w, x.k^y.k)
		}
		if y.k == 0 {
			return x
		}
		if y.k == mask(x.w) {
			return c.BvNot(x)
		}
	} else if x.sh > y.sh {
		x, y = y, x
	}
	return c.bin(OBvXor, x, y)
}
func (c *TermCtx) BvNot(x *Term) *Term {
	if x.isConst() {
		return c.Const(x.w, ^x.k)
	}
	if x.op == OBvNot {
		return x.a[0]
	}
	return c.mk(&Term{op: OBvNot, w: x.w, a: []*Term{x}})
}

// Shl, Lshr, Ashr: SMT semantics (count >= width gives 0 / sign), which match Go's.
func (c *TermCtx) Shl(x, y *Term) *Term {
	if y.isConst() {
		if y.k == 0 {
			return x
		}
		if y.k >= uint64(x.w) {
			return c.Const(x.w, 0)
		}
		return c.Mul(x, c.Const(x.w, 1<<y.k))
	}
	if x.isConst() && x.k == 0 {
		return x
	}
	return c.bin(OShl, x, y)
}
func (c *TermCtx) Lshr(x, y *Term) *Term {
	if y.isConst() {
		if y.k == 0 {
			return x
		}
		if y.k >= uint64(x.w) {
			return c.Const(x.w, 0)
		}
		if x.isConst() {
			return c.Const(x.w, x.k>>y.k)
		}
		return c.Zext(x.w, c.Extract(x.w-1, uint8(y.k), x))
	}
	if x.isConst() && x.k == 0 {
		return x
	}
	return c.bin(OLshr, x, y)
}
func (c *TermCtx) Ashr(x, y *Term) *Term {
	if y.isConst() {
		if y.k == 0 {
			return x
		}
		n := y.k
		if n >= uint64(x.w) {
			n = uint64(x.w) - 1
		}
		if x.isConst() {
			return c.Const(x.w, uint64(sext64(x.k, x.w)>>n))
		}
		return c.Sext(x.w, c.Extract(x.w-1, uint8(n), x))
	}
	return c.bin(OAshr, x, y)
}

func (c *TermCtx) Extract(hi, lo uint8, x *Term) *Term {
	if lo == 0 && hi == x.w-1 {
		return x
	}
	w := hi - lo + 1
	switch x.op {
	case OConst:
		return c.Const(w, x.k>>lo)
	case OExtract:
		l0 := uint8(x.k & 0xff)
		return c.Extract(hi+l0, lo+l0, x.a[0])
	case OZext:
		iw := x.a[0].w
		if lo >= iw {
			return c.Const(w, 0)
		}
		if hi < iw {
			return c.Extract(hi, lo, x.a[0])
		}
		return c.Zext(w, c.Extract(iw-1, lo, x.a[0]))
	case OSext:
		if hi < x.a[0].w {
			return c.Extract(hi, lo, x.a[0])
		}
	case OConcat:
		lw := x.a[1].w
		if hi < lw {
			return c.Extract(hi, lo, x.a[1])
		}
		if lo >= lw {
			return c.Extract(hi-lw, lo-lw, x.a[0])
		}
		return c.Concat(c.Extract(hi-lw, 0, x.a[0]), c.Extract(lw-1, lo, x.a[1]))
	case OIte:
		if x.a[1].isConst() || x.a[2].isConst() {
			return c.Ite(x.a[0], c.Extract(hi, lo, x.a[1]), c.Extract(hi, lo, x.a[2]))
		}
	case OSum:
		if lo == 0 {
			// low bits of a sum depend on low bits only
			r := c.Const(w, x.k)
			for i, y := range x.a {
				r = c.Add(r, c.Mul(c.Extract(hi, 0, y), c.Const(w, x.coef[i])))
			}
			return r
		}
	case OBvAnd:
		return c.BvAnd(c.Extract(hi, lo, x.a[0]), c.Extract(hi, lo, x.a[1]))
	case OBvOr:
		return c.BvOr(c.Extract(hi, lo, x.a[0]), c.Extract(hi, lo, x.a[1]))
	case OBvXor:
		return c.BvXor(c.Extract(hi, lo, x.a[0]), c.Extract(hi, lo, x.a[1]))
	}
	return c.mk(&Term{op: OExtract, w: w, k: uint64(hi)<<8 | uint64(lo), a: []*Term{x}})
}
func (c *TermCtx) Concat(x, y *Term) *Term {
	if y.w == 0 {
		return x
	}
	if x.isConst() && y.isConst() {
		return c.Const(x.w+y.w, x.k<<y.w|y.k)
	}
	if x.isConst() && x.k == 0 {
		return c.Zext(x.w+y.w, y)
	}
	if x.op == OExtract && y.op == OExtract && x.a[0] == y.a[0] {
		xl, yh, yl, xh := uint8(x.k&0xff), uint8(y.k>>8), uint8(y.k&0xff), uint8(x.k>>8)
		if xl == yh+1 {
			return c.Extract(xh, yl, x.a[0])
		}
	}
	return c.mk(&Term{op: OConcat, w: x.w + y.w, a: []*Term{x, y}})
}
func (c *TermCtx) Zext(w uint8, x *Term) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return c.Const(w, x.k)
	}
	if x.op == OZext {
		return c.Zext(w, x.a[0])
	}
	if x.op == OIte && (x.a[1].isConst() || x.a[2].isConst()) {
		return c.Ite(x.a[0], c.Zext(w, x.a[1]), c.Zext(w, x.a[2]))
	}
	return c.mk(&Term{op: OZext, w: w, a: []*Term{x}})
}
func (c *TermCtx) Sext(w uint8, x *Term) *Term {
	if w == x.w {
		return x
	}
	if x.isConst() {
		return c.Const(w, uint64(sext64(x.k, x.w)))
	}
	if x.op == OZext {
		return c.Zext(w, x.a[0])
	}
	return c.mk(&Term{op: OSext, w: w, a: []*Term{x}})
}

// Popcount as an adder tree over bits.
func (c *TermCtx) Popcount(x *Term, outw uint8) *Term {
	if x.isConst() {
		return c.Const(outw, uint64(bits.OnesCount64(x.k)))
	}
	r := c.Const(8, 0)
	for i := uint8(0); i < x.w; i++ {
		b := c.Extract(i, i, x)
		r = c.Add(r, c.Zext(8, b))
	}
	return c.Zext(outw, r)
}

func (c *TermCtx) varID(name string) int32 {
	id, ok := c.varIDs[name]
	if !ok {
		id = int32(len(c.names))
		c.varIDs[name] = id
		c.names = append(c.names, name)
	}
	return id
}

// Vars returns the sorted set of variable / memory names a term depends on.
func (c *TermCtx) Vars(t *Term) []int32 {
	if t.hasV {
		return t.vars
	}
	var out []int32
	switch t.op {
	case OConst:
	case OVar:
		out = []int32{c.varID(t.name)}
	default:
		set := map[int32]bool{}
		if t.op == OApp {
			set[c.varID("@"+t.name)] = true
		}
		for _, x := range t.a {
			for _, v := range c.Vars(x) {
				set[v] = true
			}
		}
		for v := range set {
			out = append(out, v)
		}
		sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	}
	t.vars, t.hasV = out, true
	return out
}

// Model is a (partial) assignment; missing entries default to zero.
type Model struct {
	v map[string]uint64
	m map[string]map[uint64]uint64
}

func newModel() *Model { return &Model{v: map[string]uint64{}, m: map[string]map[uint64]uint64{}} }
func (m *Model) clone() *Model {
	r := newModel()
	for k, v := range m.v {
		r.v[k] = v
	}
	for k, t := range m.m {
		n := make(map[uint64]uint64, len(t))
		for i, v := range t {
			n[i] = v
		}
		r.m[k] = n
	}
	return r
}

// Eval evaluates t under the model, with memo.
func (m *Model) Eval(t *Term, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	e := func(i int) uint64 { return m.Eval(t.a[i], memo) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case OVar:
		r = m.v[t.name]
	case OApp:
		ix := e(0)
		if tab, ok := m.m[t.name]; ok {
			if v, ok := tab[ix]; ok {
				r = v
				break
			}
		}
		r = fillByte(t.name, ix)
	case ONot:
		r = 1 - e(0)
	case OAnd:
		r = 1
		for i := range t.a {
			if e(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.a {
			if e(i) == 1 {
				r = 1
				break
			}
		}
	case OIte:
		if e(0) == 1 {
			r = e(1)
		} else {
			r = e(2)
		}
	case OEq:
		r = b2u(e(0) == e(1))
	case OUlt:
		r = b2u(e(0) < e(1))
	case OUle:
		r = b2u(e(0) <= e(1))
	case OSlt:
		r = b2u(sext64(e(0), t.a[0].w) < sext64(e(1), t.a[1].w))
	case OSle:
		r = b2u(sext64(e(0), t.a[0].w) <= sext64(e(1), t.a[1].w))
	case OSum:
		r = t.k
		for i := range t.a {
			r += t.coef[i] * e(i)
		}
	case OMul:
		r = e(0) * e(1)
	case OUdiv:
		if d := e(1); d == 0 {
			r = mask(t.w)
		} else {
			r = e(0) / d
		}
	case OUrem:
		if d := e(1); d == 0 {
			r = e(0)
		} else {
			r = e(0) % d
		}
	case OSdiv:
		a, d := sext64(e(0), t.w), sext64(e(1), t.w)
		if d == 0 {
			if a >= 0 {
				r = mask(t.w)
			} else {
				r = 1
			}
		} else if d == -1 {
			r = uint64(-a)
		} else {
			r = uint64(a / d)
		}
	case OSrem:
		a, d := sext64(e(0), t.w), sext64(e(1), t.w)
		if d == 0 {
			r = uint64(a)
		} else if d == -1 {
			r = 0
		} else {
			r = uint64(a % d)
		}
	case OBvAnd:
		r = e(0) & e(1)
	case OBvOr:
		r = e(0) | e(1)
	case OBvXor:
		r = e(0) ^ e(1)
	case OBvNot:
		r = ^e(0)
	case OShl:
		if s := e(1); s < 64 {
			r = e(0) << s
		}
	case OLshr:
		if s := e(1); s < 64 {
			r = e(0) >> s
		}
	case OAshr:
		s := e(1)
		if s > 63 {
			s = 63
		}
		r = uint64(sext64(e(0), t.w) >> s)
	case OConcat:
		r = e(0)<<t.a[1].w | e(1)
	case OExtract:
		r = e(0) >> (t.k & 0xff)
	case OZext:
		r = e(0)
	case OSext:
		r = uint64(sext64(e(0), t.a[0].w))
	default:
		panic("eval op")
	}
	if t.w == 0 {
		r &= 1
	} else {
		r &= mask(t.w)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if d == 0 {
		return "…"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.k == 1)
		}
		return fmt.Sprint(sext64(t.k, t.w))
	case OVar:
		return t.name
	}
	names := map[Op]string{OApp: t.name, ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OUlt: "u<", OUle: "u<=", OSlt: "<", OSle: "<=", OSum: "sum", OMul: "*", OUdiv: "udiv", OSdiv: "sdiv", OUrem: "urem", OSrem: "srem", OBvAnd: "&", OBvOr: "|", OBvXor: "^", OBvNot: "~", OShl: "<<", OLshr: ">>", OAshr: ">>a", OConcat: "++", OExtract: fmt.Sprintf("x[%d:%d]", t.k>>8, t.k&0xff), OZext: "zext", OSext: "sext"}
	var sb strings.Builder
	sb.WriteString("(" + names[t.op])
	if t.op == OSum && t.k != 0 {
		fmt.Fprintf(&sb, " %d", sext64(t.k, t.w))
	}
	for i, x := range t.a {
		sb.WriteString(" ")
		if t.op == OSum && t.coef[i] != 1 {
			fmt.Fprintf(&sb, "%d*", sext64(t.coef[i], t.w))
		}
		sb.WriteString(x.str(d - 1))
	}
	sb.WriteString(")")
	return sb.String()
}

// fillByte is the default content of input memory; the native runtime uses the same.
func fillByte(name string, i uint64) uint64 {
	h := hashStr(name) ^ (i * 0x9e3779b97f4a7c15)
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h & 0xff
}
