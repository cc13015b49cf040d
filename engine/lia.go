package main

import (
	"fmt"
	"io"
	"math/big"
	"strings"
)

// Linear integer translation of terms. A 64-bit term stands for its signed
// value, a narrower one for its unsigned value; wrap-around is made explicit
// wherever interval analysis cannot exclude it, so the translation is exact.
type liaT struct {
	ok     bool
	ref    string // how other terms refer to it
	body   string // definition, empty when ref is self-contained
	lo, hi *big.Int
	nonlin bool
}

type liaTr struct{ memo map[*Term]*liaT }

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

var (
	bigMin64 = new(big.Int).Neg(pow2(63))
	bigMax64 = new(big.Int).Sub(pow2(63), big.NewInt(1))
	big1     = big.NewInt(1)
)

func liaSort(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return "Int"
}

func liaLit(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func natRange(w uint8) (lo, hi *big.Int) {
	if w == 64 {
		return bigMin64, bigMax64
	}
	return big.NewInt(0), new(big.Int).Sub(pow2(uint(w)), big1)
}

func (l *liaTr) ok(cs []*Term) bool {
	for _, t := range cs {
		if !l.get(t).ok {
			return false
		}
	}
	return true
}

func (l *liaTr) bounds(w io.Writer, t *Term) {
	if t.w == 0 {
		return
	}
	r := l.get(t)
	fmt.Fprintf(w, "(assert (and (<= %s %s) (<= %s %s)))\n", liaLit(r.lo), r.ref, r.ref, liaLit(r.hi))
}

var liaBad = &liaT{}

func (l *liaTr) get(t *Term) *liaT {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.tr(t)
	l.memo[t] = r
	return r
}

// wrap brings an exact integer expression into the natural range of width w.
func wrap(expr string, lo, hi *big.Int, w uint8) (string, *big.Int, *big.Int, bool) {
	tl, th := natRange(w)
	if lo.Cmp(tl) >= 0 && hi.Cmp(th) <= 0 {
		return expr, lo, hi, true
	}
	m := pow2(uint(w))
	if new(big.Int).Add(lo, m).Cmp(tl) >= 0 && new(big.Int).Sub(hi, m).Cmp(th) <= 0 {
		e := "?x"
		if hi.Cmp(th) > 0 {
			e = "(ite (> ?x " + liaLit(th) + ") (- ?x " + m.String() + ") " + e + ")"
		}
		if lo.Cmp(tl) < 0 {
			e = "(ite (< ?x " + liaLit(tl) + ") (+ ?x " + m.String() + ") " + e + ")"
		}
		return "(let ((?x " + expr + ")) " + e + ")", tl, th, true
	}
	if lo.BitLen() > 80 || hi.BitLen() > 80 {
		return "", nil, nil, false
	}
	if tl.Sign() == 0 {
		return "(mod " + expr + " " + m.String() + ")", tl, th, true
	}
	return "(- (mod (+ " + expr + " " + pow2(63).String() + ") " + m.String() + ") " + pow2(63).String() + ")", tl, th, true
}

func (r *liaT) unsigned(w uint8) (string, bool) {
	if w < 64 || r.lo.Sign() >= 0 {
		return r.ref, true
	}
	if r.hi.Sign() < 0 {
		return "(+ " + r.ref + " 18446744073709551616)", true
	}
	return "(ite (< " + r.ref + " 0) (+ " + r.ref + " 18446744073709551616) " + r.ref + ")", true
}

func (r *liaT) signed(w uint8) (string, *big.Int, *big.Int) {
	h := pow2(uint(w) - 1)
	if w == 64 || r.hi.Cmp(h) < 0 {
		return r.ref, r.lo, r.hi
	}
	return "(ite (>= " + r.ref + " " + h.String() + ") (- " + r.ref + " " + pow2(uint(w)).String() + ") " + r.ref + ")", new(big.Int).Neg(h), new(big.Int).Sub(h, big1)
}

func (l *liaTr) tr(t *Term) *liaT {
	as := make([]*liaT, len(t.a))
	for i, x := range t.a {
		as[i] = l.get(x)
		if !as[i].ok {
			return liaBad
		}
	}
	name := fmt.Sprintf("i%d", t.id)
	mk := func(body string, lo, hi *big.Int) *liaT {
		return &liaT{ok: true, ref: name, body: body, lo: lo, hi: hi}
	}
	alias := func(r *liaT) *liaT { return &liaT{ok: true, ref: r.ref, lo: r.lo, hi: r.hi} }
	norm := func(e string, lo, hi *big.Int) *liaT {
		b, lo, hi, ok := wrap(e, lo, hi, t.w)
		if !ok {
			return liaBad
		}
		return mk(b, lo, hi)
	}
	boolT := func(op string) *liaT {
		var sb strings.Builder
		sb.WriteString("(" + op)
		for _, a := range as {
			sb.WriteString(" " + a.ref)
		}
		sb.WriteString(")")
		return mk(sb.String(), nil, nil)
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return &liaT{ok: true, ref: ref(t)}
		}
		v := new(big.Int).SetUint64(t.k)
		if t.w == 64 {
			v = big.NewInt(int64(t.k))
		}
		return &liaT{ok: true, ref: liaLit(v), lo: v, hi: v}
	case OVar:
		lo, hi := natRange(t.w)
		if t.w == 0 {
			lo, hi = nil, nil
		}
		return &liaT{ok: true, ref: "|" + t.name + "|", lo: lo, hi: hi}
	case OApp:
		return mk("(|@"+t.name+"| "+as[0].ref+")", big.NewInt(0), big.NewInt(255))
	case ONot:
		return boolT("not")
	case OAnd:
		return boolT("and")
	case OOr:
		return boolT("or")
	case OEq:
		return boolT("=")
	case OIte:
		b := "(ite " + as[0].ref + " " + as[1].ref + " " + as[2].ref + ")"
		if t.w == 0 {
			return mk(b, nil, nil)
		}
		lo, hi := as[1].lo, as[1].hi
		if as[2].lo.Cmp(lo) < 0 {
			lo = as[2].lo
		}
		if as[2].hi.Cmp(hi) > 0 {
			hi = as[2].hi
		}
		return mk(b, lo, hi)
	case OUlt, OUle:
		op := "<"
		if t.op == OUle {
			op = "<="
		}
		x, _ := as[0].unsigned(t.a[0].w)
		y, _ := as[1].unsigned(t.a[1].w)
		return mk("("+op+" "+x+" "+y+")", nil, nil)
	case OSlt, OSle:
		op := "<"
		if t.op == OSle {
			op = "<="
		}
		x, _, _ := as[0].signed(t.a[0].w)
		y, _, _ := as[1].signed(t.a[1].w)
		return mk("("+op+" "+x+" "+y+")", nil, nil)
	case OSum:
		k := big.NewInt(sext64(t.k, t.w))
		lo, hi := new(big.Int).Set(k), new(big.Int).Set(k)
		var sb strings.Builder
		sb.WriteString("(+ " + liaLit(k))
		for i, a := range as {
			cf := big.NewInt(sext64(t.coef[i], t.w))
			x, y := new(big.Int).Mul(cf, a.lo), new(big.Int).Mul(cf, a.hi)
			if cf.Sign() < 0 {
				x, y = y, x
			}
			lo.Add(lo, x)
			hi.Add(hi, y)
			if cf.Cmp(big1) == 0 {
				sb.WriteString(" " + a.ref)
			} else {
				sb.WriteString(" (* " + liaLit(cf) + " " + a.ref + ")")
			}
		}
		sb.WriteString(")")
		return norm(sb.String(), lo, hi)
	case OZext:
		return alias(as[0])
	case OSext:
		s, lo, hi := as[0].signed(t.a[0].w)
		if lo.Sign() >= 0 {
			return alias(as[0])
		}
		return norm(s, lo, hi)
	case OExtract:
		h, lw := uint(t.k>>8), uint(t.k&0xff)
		m := pow2(h - lw + 1)
		e, lo, hi := as[0].ref, as[0].lo, as[0].hi
		if lw > 0 {
			e = "(div " + e + " " + pow2(lw).String() + ")"
			lo, hi = new(big.Int).Rsh(lo, lw), new(big.Int).Rsh(hi, lw)
		}
		if lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			if lw == 0 {
				return alias(as[0])
			}
			return mk(e, lo, hi)
		}
		return mk("(mod "+e+" "+m.String()+")", big.NewInt(0), new(big.Int).Sub(m, big1))
	case OConcat:
		m := pow2(uint(t.a[1].w))
		lo := new(big.Int).Add(new(big.Int).Mul(as[0].lo, m), as[1].lo)
		hi := new(big.Int).Add(new(big.Int).Mul(as[0].hi, m), as[1].hi)
		return norm("(+ (* "+m.String()+" "+as[0].ref+") "+as[1].ref+")", lo, hi)
	case OUdiv, OSdiv, OUrem, OSrem:
		d := t.a[1]
		if !d.isConst() || d.k == 0 || as[1].lo.Sign() <= 0 {
			return liaBad
		}
		dv := as[1].lo
		if t.op == OUdiv || t.op == OUrem {
			e, _ := as[0].unsigned(t.w)
			lo, hi := as[0].lo, as[0].hi
			if lo.Sign() < 0 {
				lo, hi = big.NewInt(0), new(big.Int).Sub(pow2(64), big1)
			}
			if t.op == OUrem {
				return norm("(mod "+e+" "+as[1].ref+")", big.NewInt(0), new(big.Int).Sub(dv, big1))
			}
			return norm("(div "+e+" "+as[1].ref+")", new(big.Int).Div(lo, dv), new(big.Int).Div(hi, dv))
		}
		if t.w < 64 && dv.Cmp(pow2(uint(t.w)-1)) >= 0 {
			return liaBad
		}
		e, lo, hi := as[0].signed(t.w)
		q := "(div " + e + " " + as[1].ref + ")"
		if lo.Sign() < 0 {
			q = "(let ((?n " + e + ")) (ite (>= ?n 0) (div ?n " + as[1].ref + ") (- (div (- ?n) " + as[1].ref + "))))"
		}
		if t.op == OSdiv {
			return norm(q, new(big.Int).Quo(lo, dv), new(big.Int).Quo(hi, dv))
		}
		rl := big.NewInt(0)
		if lo.Sign() < 0 {
			rl = new(big.Int).Sub(big1, dv)
		}
		return norm("(- "+e+" (* "+as[1].ref+" "+q+"))", rl, new(big.Int).Sub(dv, big1))
	case OBvAnd:
		for i := 0; i < 2; i++ {
			if k := t.a[i]; k.isConst() && k.k&(k.k+1) == 0 && k.k != ^uint64(0) {
				o := as[1-i]
				m := new(big.Int).SetUint64(k.k + 1)
				if o.lo.Sign() >= 0 && o.hi.Cmp(m) < 0 {
					return alias(o)
				}
				return mk("(mod "+o.ref+" "+m.String()+")", big.NewInt(0), new(big.Int).Sub(m, big1))
			}
		}
	case OShl:
		if t.a[1].isConst() && t.a[1].k < 64 {
			m := pow2(uint(t.a[1].k))
			return norm("(* "+m.String()+" "+as[0].ref+")", new(big.Int).Mul(as[0].lo, m), new(big.Int).Mul(as[0].hi, m))
		}
	case OLshr, OAshr:
		if !t.a[1].isConst() || t.a[1].k >= uint64(t.w) {
			return liaBad
		}
		n := uint(t.a[1].k)
		if t.op == OAshr {
			// division by a positive number rounds down
			e, lo, hi := as[0].signed(t.w)
			return norm("(div "+e+" "+pow2(n).String()+")", new(big.Int).Rsh(lo, n), new(big.Int).Rsh(hi, n))
		}
		e, _ := as[0].unsigned(t.w)
		lo, hi := as[0].lo, as[0].hi
		if lo.Sign() < 0 {
			lo, hi = big.NewInt(0), new(big.Int).Sub(pow2(64), big1)
		}
		return norm("(div "+e+" "+pow2(n).String()+")", new(big.Int).Rsh(lo, n), new(big.Int).Rsh(hi, n))
	}
	return liaBad
}
