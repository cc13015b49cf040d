package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// native converts a target value to a Go value that fmt can print.
func (mc *Machine) native(g *G, v Value, t types.Type) interface{} {
	switch x := v.(type) {
	case *Term:
		if !x.isConst() {
			return "<sym>"
		}
		w, sg, _ := scalarWidth(t)
		if w == 0 {
			return x.k == 1
		}
		if sg {
			return sext64(x.k, x.w)
		}
		return x.k
	case string:
		return x
	case float64:
		return x
	case *SStr:
		return "<symstr>"
	case BSlice:
		if b, ok := mc.concreteBytes(mc.bytesView(x)); ok {
			return b
		}
		return "<symbytes>"
	case ByteArr:
		if b, ok := mc.concreteBytes(ByteView{x.m, mc.i64(0), x.n}); ok {
			return b
		}
		return "<symbytes>"
	case Slice:
		var out []interface{}
		et := t.Underlying().(*types.Slice).Elem()
		for _, e := range x.s {
			if i, ok := e.(Iface); ok {
				out = append(out, mc.fmtArg(g, i, 'v'))
			} else {
				out = append(out, mc.native(g, e, et))
			}
		}
		return out
	case Iface:
		return mc.fmtArg(g, x, 'v')
	case nil:
		return nil
	}
	return fmt.Sprintf("<%s>", t)
}

// fmtArg prepares one operand of a formatting call.
func (mc *Machine) fmtArg(g *G, i Iface, verb byte) interface{} {
	if i.t == nil {
		return nil
	}
	switch verb {
	case 's', 'v', 'q', 'x', 'X', 'w':
		for _, m := range []string{"Error", "String"} {
			if fn := mc.w.methodByName(i.t, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isStringType(fn.Signature.Results().At(0).Type()) {
				if p, ok := i.v.(*Value); ok && p == nil {
					return "<nil>"
				}
				switch s := g.call(fn, []Value{i.v}, nil).(type) {
				case string:
					return s
				default:
					return "<symstr>"
				}
			}
		}
	}
	return mc.native(g, i.v, i.t)
}

func (mc *Machine) fmtValue(g *G, i Iface, verb byte, plus bool) string {
	return fmt.Sprint(mc.fmtArg(g, i, verb))
}

func (mc *Machine) sprintf(g *G, format Value, args Slice) string {
	f, ok := format.(string)
	if !ok {
		return "<symfmt>"
	}
	var verbs []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.[]*", f[i]) >= 0 {
			if f[i] == '*' {
				verbs = append(verbs, 'd')
			}
			i++
		}
		if i < len(f) && f[i] != '%' {
			verbs = append(verbs, f[i])
		}
	}
	var ns []interface{}
	for i, a := range args.s {
		vb := byte('v')
		if i < len(verbs) {
			vb = verbs[i]
		}
		x := a.(Iface)
		if vb == 'T' {
			if x.t == nil {
				ns = append(ns, "<nil>")
			} else {
				ns = append(ns, x.t.String())
			}
			continue
		}
		if t, ok := x.v.(*Term); ok && !t.isConst() && strings.IndexByte("dxXobcU", vb) >= 0 {
			// the text matters (e.g. link name prefixes): enumerate the values
			x.v = mc.concretizeFmt(t)
		}
		n := mc.fmtArg(g, x, vb)
		if vb == '*' {
			if k, ok := n.(int64); ok {
				n = int(k)
			}
		}
		if k, ok := n.(int64); ok {
			n = int(k)
		}
		ns = append(ns, n)
	}
	f = strings.ReplaceAll(f, "%w", "%v")
	f = strings.ReplaceAll(f, "%T", "%s")
	return fmt.Sprintf(f, ns...)
}

// concretizeFmt enumerates small ranges and gives up on wide ones (messages only).
func (mc *Machine) concretizeFmt(t *Term) Value {
	if umaxOf(t) <= 4096 {
		return mc.concretize(t)
	}
	return t
}

func init() {
	reg("fmt.Sprintf", func(g *G, fn *ssa.Function, a []Value) Value { return g.mc.sprintfVal(g, a[0], a[1].(Slice)) })
	reg("fmt.Sprint|fmt.Sprintln", func(g *G, fn *ssa.Function, a []Value) Value {
		var ns []interface{}
		for _, x := range a[0].(Slice).s {
			ns = append(ns, g.mc.fmtArg(g, x.(Iface), 'v'))
		}
		if fn.Name() == "Sprintln" {
			return fmt.Sprintln(ns...)
		}
		return fmt.Sprint(ns...)
	})
	reg("fmt.Errorf", func(g *G, fn *ssa.Function, a []Value) Value {
		mc := g.mc
		args := a[1].(Slice)
		msg := mc.sprintf(g, a[0], args)
		f, _ := a[0].(string)
		// find %w operands
		n := 0
		var wrapped []Value
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) {
				break
			}
			if f[i] == '%' {
				continue
			}
			if f[i] == 'w' && n < len(args.s) {
				if e := args.s[n].(Iface); e.t != nil {
					wrapped = append(wrapped, e)
				}
			}
			n++
		}
		if len(wrapped) == 0 {
			return mc.newError(msg)
		}
		c := new(Value)
		if len(wrapped) == 1 {
			*c = Struct{msg, wrapped[0]}
			return Iface{mc.w.canT.of(types.NewPointer(mc.namedType("fmt", "wrapError"))), c}
		}
		*c = Struct{msg, Slice{wrapped, true}}
		return Iface{mc.w.canT.of(types.NewPointer(mc.namedType("fmt", "wrapErrors"))), c}
	})
	reg("fmt.Println|fmt.Printf|fmt.Print", noopIntr)
}
