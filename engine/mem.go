package main

import (
	"fmt"
)

// Mem is an immutable functional byte memory: a total function from 64-bit
// indices to bytes. Slices are (cell, off, len, cap) windows over a cell that
// holds the current Mem.
type MemKind uint8

const (
	MZero  MemKind = iota
	MFlat          // concrete-length vector of byte terms
	MBase          // uninterpreted input memory
	MStore         // prev with [idx] = val
	MCopy          // prev with [off, off+n) replaced by src[soff, soff+n)
	MTok           // an encoded message; valid as a whole only
)

type Mem struct {
	kind MemKind
	name string  // MBase
	flat []*Term // MFlat
	prev *Mem
	idx  *Term // MStore
	val  *Term
	off  *Term // MCopy
	n    *Term
	src  *Mem
	soff *Term
	tok  *Token
	hash uint64
}

// Token is the opaque encoding of a message: an injective, deterministic
// serialisation of its fields with an exact symbolic length.
type Token struct {
	kind   string
	fields []TokField
	length *Term
	hash   uint64
	flat   *Mem // materialised wire bytes, when every length is concrete
}

// TokField is one field occurrence, in encoding order.
type TokField struct {
	num  int
	wire int      // 0 varint, 2 bytes
	v    *Term    // varint value (64 bits)
	b    ByteView // wire 2
	fp   string   // field tag name, informative
}

// ByteView is an immutable window over a memory.
type ByteView struct {
	m   *Mem
	off *Term
	n   *Term
}

var memZero = &Mem{kind: MZero, hash: 77}

func (m *Mem) h() uint64 {
	if m.hash != 0 {
		return m.hash
	}
	h := uint64(m.kind) + 1000
	switch m.kind {
	case MFlat:
		for _, t := range m.flat {
			h = mix(h, t.sh)
		}
	case MBase:
		h = mix(h, hashStr(m.name))
	case MStore:
		h = mix(mix(mix(h, m.prev.h()), m.idx.sh), m.val.sh)
	case MCopy:
		h = mix(mix(mix(mix(mix(h, m.prev.h()), m.off.sh), m.n.sh), m.src.h()), m.soff.sh)
	case MTok:
		h = mix(h, m.tok.hash)
	}
	if h == 0 {
		h = 1
	}
	m.hash = h
	return h
}

// read returns byte idx of m.
func (mc *Machine) memRead(m *Mem, idx *Term) *Term {
	c := mc.c
	for {
		switch m.kind {
		case MZero:
			return c.Const(8, 0)
		case MFlat:
			if idx.isConst() {
				if idx.k < uint64(len(m.flat)) {
					return m.flat[idx.k]
				}
				return c.Const(8, 0)
			}
			if len(m.flat) > 4096 {
				mc.unsupported("symbolic index into large flat memory")
			}
			r := c.Const(8, 0)
			for i := len(m.flat) - 1; i >= 0; i-- {
				r = c.Ite(c.Eq(idx, c.Const(64, uint64(i))), m.flat[i], r)
			}
			return r
		case MBase:
			return c.App(m.name, idx)
		case MStore:
			e := c.Eq(idx, m.idx)
			if e.isConst() {
				if e.k == 1 {
					return m.val
				}
				m = m.prev
				continue
			}
			return c.Ite(e, m.val, mc.memRead(m.prev, idx))
		case MCopy:
			// idx in [off, off+n)  <=>  (idx-off) u< n   (no wraparound: sizes < 2^62)
			d := c.Sub(idx, m.off)
			in := c.Ult(d, m.n)
			if in.isConst() {
				if in.k == 1 {
					m, idx = m.src, c.Add(d, m.soff)
				} else {
					m = m.prev
				}
				continue
			}
			if v, ok := mc.quickKnown(in); ok {
				if v {
					m, idx = m.src, c.Add(d, m.soff)
				} else {
					m = m.prev
				}
				continue
			}
			return c.Ite(in, mc.memRead(m.src, c.Add(d, m.soff)), mc.memRead(m.prev, idx))
		case MTok:
			if f := mc.tokFlat(m.tok); f != nil {
				m = f
				continue
			}
			mc.unsupported("byte-level read of an opaque encoded message")
		}
	}
}

// memStore writes one byte.
func (mc *Machine) memStore(m *Mem, idx, v *Term) *Mem {
	if m.kind == MFlat && idx.isConst() && idx.k < uint64(len(m.flat)) {
		f := make([]*Term, len(m.flat))
		copy(f, m.flat)
		f[idx.k] = v
		return &Mem{kind: MFlat, flat: f}
	}
	return &Mem{kind: MStore, prev: m, idx: idx, val: v}
}

func flatBytes(c *TermCtx, b []byte) *Mem {
	f := make([]*Term, len(b))
	for i, x := range b {
		f[i] = c.Const(8, uint64(x))
	}
	return &Mem{kind: MFlat, flat: f}
}

// memCopy returns dst with [doff,doff+n) replaced by src[soff,..).
func (mc *Machine) memCopy(dst *Mem, dn *Term, doff *Term, src *Mem, soff, n *Term) *Mem {
	c := mc.c
	if n.isConst() && n.k == 0 {
		return dst
	}
	if doff.isConst() && doff.k == 0 && n == dn && soff.isConst() && soff.k == 0 {
		return src
	}
	if n.isConst() && doff.isConst() && dst.kind == MFlat && n.k <= 8192 && doff.k+n.k <= uint64(len(dst.flat)) && src.kind != MTok {
		if src.kind == MFlat && soff.isConst() || n.k <= 64 {
			f := make([]*Term, len(dst.flat))
			copy(f, dst.flat)
			for i := uint64(0); i < n.k; i++ {
				f[doff.k+i] = mc.memRead(src, c.Add(soff, c.Const(64, i)))
			}
			return &Mem{kind: MFlat, flat: f}
		}
	}
	// skip copies that are completely shadowed by an identical window
	if dst.kind == MCopy && dst.off == doff && dst.n == n {
		dst = dst.prev
	}
	return &Mem{kind: MCopy, prev: dst, off: doff, n: n, src: src, soff: soff}
}

// view normalises a window: it peels copies whose range provably covers the window.
func (mc *Machine) view(m *Mem, off, n *Term) ByteView {
	c := mc.c
	for m.kind == MCopy {
		d := c.Sub(off, m.off)
		// window inside the copied range?
		in := c.And(c.Ule(d, m.n), c.Ule(n, c.Sub(m.n, d)))
		if in != c.True {
			if d.isConst() && d.k == 0 && m.n == n {
				in = c.True
			}
		}
		if in == c.True {
			m, off = m.src, c.Add(d, m.soff)
			continue
		}
		// window entirely before or after?
		d2 := c.Sub(m.off, off) // copy starts at or past the window's end
		if d2.isConst() && n.isConst() && d2.k >= n.k && d2.k < 1<<62 {
			m = m.prev
			continue
		}
		d3 := c.Sub(c.Sub(off, m.off), m.n)
		if d3.isConst() && d3.k < 1<<62 {
			m = m.prev
			continue
		}
		break
	}
	return ByteView{m, off, n}
}

// concreteBytes returns the bytes of a window if they are all constants.
func (mc *Machine) concreteBytes(v ByteView) ([]byte, bool) {
	if !v.n.isConst() || v.n.k > 1<<20 {
		return nil, false
	}
	if v.m.kind == MTok {
		f := mc.tokFlat(v.m.tok)
		if f == nil {
			return nil, false
		}
		v.m = f
	}
	if v.m.kind == MBase && v.n.k > 0 {
		return nil, false
	}
	out := make([]byte, v.n.k)
	for i := range out {
		if !mc.memReadable(v.m) {
			return nil, false
		}
		t := mc.memRead(v.m, mc.c.Add(v.off, mc.c.Const(64, uint64(i))))
		if !t.isConst() {
			return nil, false
		}
		out[i] = byte(t.k)
	}
	return out, true
}

// memReadable reports that byte reads cannot hit an opaque message.
func (mc *Machine) memReadable(m *Mem) bool {
	for m != nil {
		switch m.kind {
		case MTok:
			return mc.tokFlat(m.tok) != nil
		case MCopy:
			if !mc.memReadable(m.src) {
				return false
			}
			m = m.prev
		case MStore:
			m = m.prev
		default:
			return true
		}
	}
	return true
}

// fix forks on the value of a term over a few Boolean inputs, so that what is
// hashed does not depend on when it is hashed.
func (mc *Machine) fix(t *Term) *Term {
	if t.gnd {
		return mc.concretize(t)
	}
	return t
}

// fixView does so for the bytes of a short window.
func (mc *Machine) fixView(v ByteView) ByteView {
	v = mc.view(v.m, v.off, v.n)
	if v.m.kind == MTok || !v.n.isConst() || v.n.k > 64 || !mc.memReadable(v.m) {
		return v
	}
	if _, ok := mc.concreteBytes(v); ok {
		return v
	}
	flat := make([]*Term, 0, v.n.k)
	for i := uint64(0); i < v.n.k; i++ {
		t := mc.memRead(v.m, mc.c.Add(v.off, mc.c.Const(64, i)))
		if !t.gnd {
			return v
		}
		flat = append(flat, t)
	}
	for i, t := range flat {
		flat[i] = mc.concretize(t)
	}
	return ByteView{&Mem{kind: MFlat, flat: flat}, mc.i64(0), v.n}
}

// viewHash is a content hash of a window: equal for syntactically equal content.
func (mc *Machine) viewHash(v ByteView) uint64 {
	v = mc.fixView(v)
	if b, ok := mc.concreteBytes(v); ok {
		return mix(4242, hashStr(string(b)))
	}
	if v.m.kind == MTok && v.off.isConst() && v.off.k == 0 && v.n == v.m.tok.length {
		return mix(4243, v.m.tok.hash)
	}
	if v.n.isConst() && v.n.k <= 64 && mc.memReadable(v.m) {
		h := uint64(4244)
		for i := uint64(0); i < v.n.k; i++ {
			h = mix(h, mc.memRead(v.m, mc.c.Add(v.off, mc.c.Const(64, i))).sh)
		}
		return h
	}
	return mix(mix(mix(4245, v.m.h()), v.off.sh), v.n.sh)
}

// wholeToken returns the token if the window is exactly one encoded message.
func (mc *Machine) wholeToken(v ByteView) *Token {
	v = mc.view(v.m, v.off, v.n)
	if v.m.kind == MTok && v.off.isConst() && v.off.k == 0 {
		if v.n == v.m.tok.length {
			return v.m.tok
		}
		if e := mc.c.Eq(v.n, v.m.tok.length); e == mc.c.True || mc.must(e) {
			return v.m.tok
		}
	}
	return nil
}

// uvarintLen is the exact protobuf varint length of a 64-bit value.
func (c *TermCtx) uvarintLen(v *Term) *Term {
	if v.isConst() {
		n := uint64(1)
		for x := v.k; x >= 0x80; x >>= 7 {
			n++
		}
		return c.Const(64, n)
	}
	max := umaxOf(v)
	r := c.Const(64, 1)
	nMax := 1
	for x := max; x >= 0x80; x >>= 7 {
		nMax++
	}
	// built from the top so that small values are tested first
	r = c.Const(64, uint64(nMax))
	for i := nMax - 1; i >= 1; i-- {
		r = c.Ite(c.Ult(v, c.Const(64, 1<<(7*uint(i)))), c.Const(64, uint64(i)), r)
	}
	return r
}

func (mc *Machine) newToken(kind string, fs []TokField) *Token {
	c := mc.c
	h := hashStr(kind)
	ln := c.Const(64, 0)
	for i := range fs {
		f := &fs[i]
		h = mix(mix(h, uint64(f.num)), uint64(f.wire))
		ln = c.Add(ln, c.uvarintLen(c.Const(64, uint64(f.num)<<3|uint64(f.wire))))
		if f.wire == 0 {
			f.v = mc.fix(f.v)
			h = mix(h, f.v.sh)
			ln = c.Add(ln, c.uvarintLen(f.v))
		} else {
			f.b = mc.fixView(f.b)
			h = mix(h, mc.viewHash(f.b))
			ln = c.Add(ln, c.Add(c.uvarintLen(f.b.n), f.b.n))
		}
	}
	return &Token{kind: kind, fields: fs, length: ln, hash: h}
}

func (mc *Machine) tokenView(t *Token) ByteView {
	return ByteView{&Mem{kind: MTok, tok: t}, mc.c.Const(64, 0), t.length}
}

// tokFlat materialises the wire bytes of a token whose lengths are concrete.
func (mc *Machine) tokFlat(t *Token) *Mem {
	if t.flat != nil {
		return t.flat
	}
	if !t.length.isConst() || t.length.k > 1<<16 {
		return nil
	}
	c := mc.c
	var out []*Term
	uv := func(x uint64) {
		for x >= 0x80 {
			out = append(out, c.Const(8, x&0x7f|0x80))
			x >>= 7
		}
		out = append(out, c.Const(8, x))
	}
	for _, f := range t.fields {
		uv(uint64(f.num)<<3 | uint64(f.wire))
		if f.wire == 0 {
			if !f.v.isConst() {
				return nil
			}
			uv(f.v.k)
			continue
		}
		if !f.b.n.isConst() {
			return nil
		}
		uv(f.b.n.k)
		m := f.b.m
		if !mc.memReadable(m) {
			return nil
		}
		for i := uint64(0); i < f.b.n.k; i++ {
			out = append(out, mc.memRead(m, c.Add(f.b.off, c.Const(64, i))))
		}
	}
	if uint64(len(out)) != t.length.k {
		panic(fmt.Sprintf("token length mismatch: %d vs %d", len(out), t.length.k))
	}
	t.flat = &Mem{kind: MFlat, flat: out}
	return t.flat
}
