package main

import (
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Domain models: protobuf, dag-pb, multihash, buffer pool.

type pbField struct {
	idx      int
	num      int
	wire     string // varint | bytes
	req, rep bool
	t        types.Type
}

func pbFields(st *types.Struct) []pbField {
	var out []pbField
	for i := 0; i < st.NumFields(); i++ {
		tag := reflect.StructTag(st.Tag(i)).Get("protobuf")
		if tag == "" {
			continue
		}
		p := strings.Split(tag, ",")
		n, _ := strconv.Atoi(p[1])
		out = append(out, pbField{i, n, p[0], p[2] == "req", p[2] == "rep", st.Field(i).Type()})
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].num < out[j].num })
	return out
}

func (mc *Machine) to64(t *Term, typ types.Type) *Term {
	_, sg, _ := scalarWidth(typ)
	if t.w == 0 {
		return mc.c.Ite(t, mc.i64(1), mc.i64(0))
	}
	if sg {
		return mc.c.Sext(64, t)
	}
	return mc.c.Zext(64, t)
}

// pbMessage resolves a proto.Message argument to its struct cell and type.
func (mc *Machine) pbMessage(v Value) (*Value, *types.Struct, string) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		mc.throw("proto: nil message")
	}
	pt, ok := i.t.Underlying().(*types.Pointer)
	if !ok {
		mc.unsupported("proto message %s", i.t)
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		mc.unsupported("proto message %s", i.t)
	}
	return i.v.(*Value), st, pt.Elem().String()
}

func (mc *Machine) pbMarshal(msg Value) (*Token, string) {
	cell, st, name := mc.pbMessage(msg)
	if cell == nil {
		return nil, "proto: Marshal called with nil"
	}
	s := (*cell).(Struct)
	var fs []TokField
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "XXX_unrecognized" {
			if b := s[i].(BSlice); b.cell != nil && mc.branch(mc.c.Not(mc.c.Eq(b.ln, mc.i64(0)))) {
				mc.unsupported("marshal with unrecognised fields")
			}
		}
	}
	for _, f := range pbFields(st) {
		switch x := s[f.idx].(type) {
		case *Value: // optional/required scalar or string
			if x == nil {
				if f.req {
					return nil, "proto: required field \"" + st.Field(f.idx).Name() + "\" not set"
				}
				continue
			}
			switch v := (*x).(type) {
			case *Term:
				et := f.t.Underlying().(*types.Pointer).Elem()
				fs = append(fs, TokField{num: f.num, wire: 0, v: mc.to64(v, et)})
			case string, *SStr:
				fs = append(fs, TokField{num: f.num, wire: 2, b: mc.strView(v)})
			default:
				mc.unsupported("proto field %T", v)
			}
		case BSlice:
			if x.cell == nil {
				if f.req {
					return nil, "proto: required field not set"
				}
				continue
			}
			fs = append(fs, TokField{num: f.num, wire: 2, b: mc.bytesView(x)})
		case Slice:
			if !f.rep {
				mc.unsupported("proto slice field")
			}
			et := f.t.Underlying().(*types.Slice).Elem()
			for _, e := range x.s {
				t, ok := e.(*Term)
				if !ok {
					mc.unsupported("proto repeated %T", e)
				}
				fs = append(fs, TokField{num: f.num, wire: 0, v: mc.to64(t, et)})
			}
		default:
			mc.unsupported("proto field %T", x)
		}
	}
	return mc.newToken(name, fs), ""
}

// parseWire decodes concrete protobuf bytes.
func (mc *Machine) parseWire(b []byte) ([]TokField, string) {
	var fs []TokField
	for len(b) > 0 {
		k, n := binary.Uvarint(b)
		if n <= 0 {
			return nil, "unexpected EOF"
		}
		b = b[n:]
		num, wire := int(k>>3), int(k&7)
		if num == 0 {
			return nil, "proto: illegal tag 0"
		}
		switch wire {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return nil, "unexpected EOF"
			}
			b = b[n:]
			fs = append(fs, TokField{num: num, wire: 0, v: mc.c.Const(64, v)})
		case 2:
			v, n := binary.Uvarint(b)
			if n <= 0 || v > uint64(len(b)-n) {
				return nil, "unexpected EOF"
			}
			b = b[n:]
			fs = append(fs, TokField{num: num, wire: 2, b: ByteView{flatBytes(mc.c, b[:v]), mc.i64(0), mc.i64(int64(v))}})
			b = b[v:]
		case 1:
			if len(b) < 8 {
				return nil, "unexpected EOF"
			}
			b = b[8:]
			fs = append(fs, TokField{num: num, wire: 1})
		case 5:
			if len(b) < 4 {
				return nil, "unexpected EOF"
			}
			b = b[4:]
			fs = append(fs, TokField{num: num, wire: 5})
		default:
			return nil, "proto: illegal wireType"
		}
	}
	return fs, ""
}

// wireFields splits encoded bytes into field occurrences.
func (mc *Machine) wireFields(v ByteView) ([]TokField, string) {
	if t := mc.wholeToken(v); t != nil {
		return t.fields, ""
	}
	if b, ok := mc.concreteBytes(v); ok {
		return mc.parseWire(b)
	}
	if mc.branch(mc.c.Eq(v.n, mc.i64(0))) {
		return nil, ""
	}
	mc.unsupported("decoding of symbolic bytes as a protobuf message")
	return nil, ""
}

func (mc *Machine) pbUnmarshal(v ByteView, msg Value, reset bool) string {
	cell, st, _ := mc.pbMessage(msg)
	c := mc.c
	if cell == nil {
		mc.throw("invalid memory address or nil pointer dereference")
	}
	if reset {
		storeCell(cell, c.zero(st))
	}
	s := (*cell).(Struct)
	fs, e := mc.wireFields(v)
	if e != "" {
		return e
	}
	byNum := map[int]pbField{}
	for _, f := range pbFields(st) {
		byNum[f.num] = f
	}
	for _, o := range fs {
		f, ok := byNum[o.num]
		if !ok {
			// unknown field: kept as unrecognised bytes
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == "XXX_unrecognized" {
					s[i] = mc.constBytes([]byte{0})
				}
			}
			continue
		}
		set := func(v Value) {
			p := new(Value)
			*p = v
			s[f.idx] = p
		}
		switch {
		case f.wire == "varint" && f.rep:
			et := f.t.Underlying().(*types.Slice).Elem()
			w, _, _ := scalarWidth(et)
			var vals []*Term
			if o.wire == 2 {
				b, ok := mc.concreteBytes(o.b)
				if !ok {
					mc.unsupported("packed symbolic repeated field")
				}
				for len(b) > 0 {
					x, n := binary.Uvarint(b)
					if n <= 0 {
						return "unexpected EOF"
					}
					b = b[n:]
					vals = append(vals, c.Const(64, x))
				}
			} else if o.wire == 0 {
				vals = []*Term{o.v}
			} else {
				return "proto: bad wiretype"
			}
			sl := s[f.idx].(Slice)
			ns := append([]Value(nil), sl.s...)
			for _, x := range vals {
				ns = append(ns, c.Extract(w-1, 0, x))
			}
			s[f.idx] = Slice{ns[:len(ns):len(ns)], true}
		case f.wire == "varint":
			if o.wire != 0 {
				return "proto: bad wiretype"
			}
			et := f.t.Underlying().(*types.Pointer).Elem()
			w, _, _ := scalarWidth(et)
			if w == 0 {
				set(c.Not(c.Eq(o.v, mc.i64(0))))
			} else {
				set(c.Extract(w-1, 0, o.v))
			}
		case f.wire == "bytes":
			if o.wire != 2 {
				return "proto: bad wiretype"
			}
			if _, isSl := f.t.Underlying().(*types.Slice); isSl {
				s[f.idx] = mc.viewToBytes(o.b)
			} else {
				set(mc.strVal(o.b))
			}
		default:
			mc.unsupported("proto wire kind %s", f.wire)
		}
	}
	for _, f := range byNum {
		if f.req {
			if p, ok := s[f.idx].(*Value); ok && p == nil {
				return "proto: required field \"" + st.Field(f.idx).Name() + "\" not set"
			}
		}
	}
	return ""
}

func fieldIdx(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

func (mc *Machine) cidStr(v Value) string {
	s, ok := v.(Struct)[0].(string)
	if !ok {
		mc.unsupported("symbolic cid")
	}
	return s
}

// dagpbLink encodes one PBLink.
func (mc *Machine) dagpbLink(cid string, name Value, size *Term) *Token {
	fs := []TokField{
		{num: 1, wire: 2, b: ByteView{flatBytes(mc.c, []byte(cid)), mc.i64(0), mc.i64(int64(len(cid)))}},
		{num: 2, wire: 2, b: mc.strView(name)},
		{num: 3, wire: 0, v: size},
	}
	return mc.newToken("PBLink", fs)
}

func validCid(b []byte) bool {
	if len(b) == 34 && b[0] == 0x12 && b[1] == 0x20 {
		return true
	}
	v, n := binary.Uvarint(b)
	if n <= 0 || v != 1 {
		return false
	}
	b = b[n:]
	_, n = binary.Uvarint(b)
	if n <= 0 {
		return false
	}
	b = b[n:]
	_, n = binary.Uvarint(b)
	if n <= 0 {
		return false
	}
	b = b[n:]
	l, n := binary.Uvarint(b)
	return n > 0 && uint64(len(b)-n) == l
}

func init() {
	gp := "github.com/gogo/protobuf/proto."
	reg(gp+"Marshal", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		t, e := mc.pbMarshal(a[0])
		if e != "" {
			z := mc.i64(0)
			return Tuple{BSlice{nil, z, z, z}, mc.newError(e)}
		}
		b := mc.viewToBytes(mc.tokenView(t))
		return Tuple{b, Iface{}}
	})
	reg(gp+"Size", func(g *G, fn *ssa.Function, a []Value) Value {
		t, e := g.mc.pbMarshal(a[0])
		if e != "" {
			g.mc.unsupported("proto.Size of incomplete message")
		}
		return t.length
	})
	reg(gp+"Unmarshal", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		if e := mc.pbUnmarshal(mc.bytesView(a[0].(BSlice)), a[1], true); e != "" {
			return mc.newError(e)
		}
		return Iface{}
	})
	reg(gp+"UnmarshalMerge", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		if e := mc.pbUnmarshal(mc.bytesView(a[0].(BSlice)), a[1], false); e != "" {
			return mc.newError(e)
		}
		return Iface{}
	})
	reg(gp+"CompactTextString|"+gp+"MarshalTextString", func(g *G, fn *ssa.Function, a []Value) Value { return "<pb>" })
	reg(gp+"EnumName", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		m := a[0].(*MapObj)
		if i := mc.mapFind(m, a[1]); i >= 0 {
			return copyVal(*m.vals[i])
		}
		return "?"
	})
	reg(gp+"Clone", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		i := a[0].(Iface)
		cell, st, _ := mc.pbMessage(i)
		if cell == nil {
			return i
		}
		n := mc.c.zero(st).(Struct)
		for k, f := range (*cell).(Struct) {
			switch x := f.(type) {
			case *Value:
				if x != nil {
					p := new(Value)
					*p = copyVal(*x)
					n[k] = p
				}
			case BSlice:
				if x.cell != nil {
					n[k] = mc.viewToBytes(mc.bytesView(x))
				}
			case Slice:
				if x.nnl {
					n[k] = Slice{append([]Value{}, x.s...), true}
				}
			default:
				n[k] = copyVal(f)
			}
		}
		p := new(Value)
		*p = n
		return Iface{i.t, p}
	})
	reg("(*github.com/ipfs/go-unixfs/pb.Data).Reset|(*github.com/ipfs/go-unixfs/pb.Metadata).Reset", func(g *G, fn *ssa.Function, a []Value) Value {
		t := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		storeCell(g.mc.deref(a[0]), g.mc.c.zero(t))
		return nil
	})

	md := "github.com/ipfs/go-merkledag"
	reg("(*"+md+".ProtoNode).marshalImmutable", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		rt := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
		st := rt.Underlying().(*types.Struct)
		n := structOf(mc, a[0])
		var fs []TokField
		for _, l := range n[fieldIdx(st, "links")].(Slice).s {
			ls := structOf(mc, l) // Name, Size, Cid
			cs := mc.cidStr(ls[2])
			if cs == "" {
				return Tuple{nilPtr, mc.newError("missing required fields: Hash")}
			}
			t := mc.dagpbLink(cs, ls[0], ls[1].(*Term))
			fs = append(fs, TokField{num: 2, wire: 2, b: mc.tokenView(t)})
		}
		if d := n[fieldIdx(st, "data")].(BSlice); d.cell != nil {
			fs = append(fs, TokField{num: 1, wire: 2, b: mc.bytesView(d)})
		}
		tok := mc.newToken("PBNode", fs)
		imt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		im := mc.c.zero(imt).(Struct)
		im[0] = mc.viewToBytes(mc.tokenView(tok))
		p := new(Value)
		*p = im
		return Tuple{p, Iface{}}
	})
	reg(md+".unmarshal", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		b := a[0].(BSlice)
		fail := func(s string) Value { return Tuple{nilPtr, mc.newError(s)} }
		fs, e := mc.wireFields(mc.bytesView(b))
		if e != "" {
			return fail(e)
		}
		nt := fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		st := nt.Underlying().(*types.Struct)
		n := mc.c.zero(nt).(Struct)
		lt := st.Field(fieldIdx(st, "links")).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Pointer).Elem()
		var links []Value
		haveData := false
		for _, f := range fs {
			switch {
			case f.num == 1 && f.wire == 2 && !haveData:
				haveData = true
				n[fieldIdx(st, "data")] = mc.viewToBytes(f.b)
			case f.num == 2 && f.wire == 2:
				lf, e := mc.wireFields(f.b)
				if e != "" {
					return fail(e)
				}
				l := mc.c.zero(lt).(Struct)
				have := false
				for _, x := range lf {
					switch {
					case x.num == 1 && x.wire == 2:
						cb, ok := mc.concreteBytes(x.b)
						if !ok {
							mc.unsupported("symbolic cid in link")
						}
						if !validCid(cb) {
							return fail("invalid cid in link")
						}
						l[2] = Struct{string(cb)}
						have = true
					case x.num == 2 && x.wire == 2:
						l[0] = mc.strVal(x.b)
					case x.num == 3 && x.wire == 0:
						l[1] = x.v
					default:
						return fail("protobuf: (PBLink) invalid fieldNumber")
					}
				}
				if !have {
					return fail("protobuf: (PBLink) missing Hash")
				}
				p := new(Value)
				*p = l
				links = append(links, p)
			default:
				return fail("protobuf: (PBNode) invalid field")
			}
		}
		n[fieldIdx(st, "links")] = Slice{links, true}
		// cached encoding
		imt := st.Field(fieldIdx(st, "encoded")).Type().Underlying().(*types.Pointer).Elem()
		im := mc.c.zero(imt).(Struct)
		im[0] = b
		ip := new(Value)
		*ip = im
		n[fieldIdx(st, "encoded")] = ip
		p := new(Value)
		*p = n
		return Tuple{p, Iface{}}
	})

	// multihash
	mhp := "github.com/multiformats/go-multihash"
	reg(mhp+".Sum", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		code, ln := mc.concretize(a[1].(*Term)).k, int64(mc.concretize(a[2].(*Term)).k)
		fail := func(s string) Value {
			z := mc.i64(0)
			return Tuple{BSlice{nil, z, z, z}, mc.newError(s)}
		}
		v := mc.bytesView(a[0].(BSlice))
		var digest []byte
		if code == 0 {
			b, ok := mc.concreteBytes(v)
			if !ok {
				mc.unsupported("identity hash of symbolic bytes")
			}
			if ln >= 0 && ln != int64(len(b)) {
				return fail("identity length")
			}
			digest = b
		} else {
			sizes := map[uint64]int64{0x11: 20, 0x12: 32, 0x13: 64, 0x14: 64, 0x15: 48, 0x16: 32, 0x17: 28, 0x1e: 32, 0x22: 8, 0x56: 32, 0xb220: 32, 0xb240: 64, 0xd5: 16}
			n, ok := sizes[code]
			if !ok {
				return fail("unknown multihash code")
			}
			if ln > n {
				return fail("requested length was too large for digest")
			}
			if ln < 0 {
				ln = n
			}
			h := mix(mc.viewHash(v), code)
			digest = make([]byte, n)
			for i := range digest {
				if i%8 == 0 && i > 0 {
					h = mix(h, uint64(i))
				}
				digest[i] = byte(h >> (8 * (uint(i) % 8)))
			}
			digest = digest[:ln]
		}
		out := binary.AppendUvarint(nil, code)
		out = binary.AppendUvarint(out, uint64(len(digest)))
		out = append(out, digest...)
		return Tuple{mc.constBytes(out), Iface{}}
	})
	reg("(github.com/ipfs/go-cid.Cid).String|(github.com/ipfs/go-cid.Cid).GoString", func(g *G, fn *ssa.Function, a []Value) Value {
		s := g.mc.cidStr(a[0])
		if s == "" {
			return "b"
		}
		return "cid" + hex.EncodeToString([]byte(s))[:8]
	})
	reg("(github.com/multiformats/go-multihash.Multihash).String|(github.com/multiformats/go-multihash.Multihash).HexString|(github.com/multiformats/go-multihash.Multihash).B58String", func(g *G, fn *ssa.Function, a []Value) Value { return "mh" })
	globalInit[mhp+".Codes"] = func(mc *Machine) Value { return (*MapObj)(nil) }
	globalInit[mhp+".Names"] = func(mc *Machine) Value { mc.unsupported("multihash.Names"); return nil }

	// buffer pool
	reg("(*github.com/libp2p/go-buffer-pool.BufferPool).Get", func(g *G, fn *ssa.Function, a []Value) Value {
		n := a[1].(*Term)
		if g.mc.branch(g.mc.c.Eq(n, g.mc.i64(0))) {
			z := g.mc.i64(0)
			return BSlice{nil, z, z, z}
		}
		return g.mc.makeSlice(types.Typ[types.Uint8], n, n)
	})
	reg("github.com/libp2p/go-buffer-pool.Get", func(g *G, fn *ssa.Function, a []Value) Value {
		return g.mc.makeSlice(types.Typ[types.Uint8], a[0].(*Term), a[0].(*Term))
	})
	reg("(*github.com/libp2p/go-buffer-pool.BufferPool).Put|github.com/libp2p/go-buffer-pool.Put", noopIntr)
	_ = fmt.Sprint
}
