package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// C40: a Publish is a stream over its payload.

// streamPosition is the field that holds the position in the payload: the number that Reset sets to zero.
func streamPosition(L *Loaded) (string, *packetRun) {
	pr := runMethod(L, "Publish", "Reset", nil)
	if pr == nil || len(pr.In.undec) > 0 || len(pr.In.outcomes) == 0 {
		return "", pr
	}
	u := pr.Typ.Underlying().(*types.Struct)
	found := ""
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Exported() || !isIntegral(f.Type()) {
			continue
		}
		all := true
		for _, o := range pr.In.outcomes {
			v := pr.In.peek(o.State, mkFA(pr.Obj, pr.Typ, i))
			if o.Kind != "return" || !v.isInt() || v.Int != 0 {
				all = false
			}
		}
		if all {
			if found != "" {
				return "", pr
			}
			found = f.Name()
		}
	}
	return found, pr
}

func checkC40(r *Report, L *Loaded) {
	r.Rule = "every path through Publish.Read and Publish.Write copies between the buffer and the payload at the position, moves the position on by exactly what it returns as the number of bytes, changes nothing else of the packet, cannot panic for any payload and any position that is not negative, and fails exactly if nothing is left, or if Write did not take all; every other function leaves the position alone or sets it to zero"
	pos, pr := streamPosition(L)
	if pr == nil {
		r.violate("missing:Reset", token.NoPos, "there is no Publish.Reset")
		return
	}
	if pos == "" {
		r.violate("position", pr.Fn.Pos(), "Publish.Reset sets no position to zero")
		return
	}
	u := pr.Typ.Underlying().(*types.Struct)
	unchanged := func(pr *packetRun, o *Outcome, what string) {
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == pos {
				continue
			}
			a := mkFA(pr.Obj, pr.Typ, i)
			if v := pr.In.peek(o.State, a); v != pr.In.peek(pr.Init, a) && v.Op != "struct" {
				r.violate("changes:"+what, o.Pos, "Publish.%s changes %s of the packet", what, u.Field(i).Name())
			}
		}
	}
	for _, o := range pr.In.outcomes {
		r.count("paths", 1)
		unchanged(pr, o, "Reset")
	}
	for _, m := range []string{"Read", "Write"} {
		var cell *Term
		var buf *Term
		pr := runMethod(L, "Publish", m, func(pr *packetRun, st *State, args []*Term) {
			cell, _ = fieldAddr(pr.Obj, pr.Typ, pos)
			st.facts.assume(tLe0(toPoly(pr.In.peek(st, cell)).scale(-1)), true)
			buf = args[1]
		})
		if pr == nil {
			r.violate("missing:"+m, token.NoPos, "there is no Publish.%s", m)
			continue
		}
		for _, x := range pr.In.undec {
			r.violate("undecided:"+m, pr.Fn.Pos(), "Publish.%s cannot be decided: %s", m, x)
		}
		obligations(r, "Publish."+m, pr.In.obligList(), nil)
		was := toPoly(pr.In.peek(pr.Init, cell))
		payload := pr.field("Payload")
		size := toPoly(pr.In.lenOf(pr.Init, payload))
		room := toPoly(pr.In.lenOf(pr.Init, buf))
		for _, o := range pr.In.outcomes {
			if o.Kind != "return" || len(o.Ret) != 2 {
				continue
			}
			r.count("paths", 1)
			f := o.State.facts
			le := func(p *Poly) bool { return f.proveLe(p) }
			same := func(a, b *Poly) bool { return le(a.minus(b)) && le(b.minus(a)) }
			n, err := toPoly(o.Ret[0]), o.Ret[1]
			isNil, known := f.eval(mkIsNil(err))
			if !known {
				r.violate("error:"+m, o.Pos, "Publish.%s returns an error that may or may not be nil", m)
				continue
			}
			unchanged(pr, o, m)
			if now := toPoly(pr.In.peek(o.State, cell)); !same(now.minus(was), n) {
				r.violate("position:"+m, o.Pos, "Publish.%s returns %s, but moves the position from %s to %s", m, short(o.Ret[0]), was, now)
			}
			copied := newPoly()
			for _, e := range o.State.trace {
				if e.Kind != "Copy" {
					continue
				}
				inBuf, inPay := e.Args[0], e.Args[1]
				if m == "Write" {
					inBuf, inPay = inPay, inBuf
				}
				b, bo := sliceBase(inBuf)
				p, po := sliceBase(inPay)
				if b != buf || !same(bo, copied) || p != payload || !same(po, was.plus(copied)) {
					r.violate("copy:"+m, e.Pos, "Publish.%s copies something other than the payload at its position", m)
					continue
				}
				c := toPoly(e.Ret[0])
				l0, l1 := toPoly(pr.In.lenOf(o.State, inBuf)), toPoly(pr.In.lenOf(o.State, inPay))
				// what is copied is the shorter of the two
				if le(l0.minus(l1)) {
					c = l0
				} else if le(l1.minus(l0)) {
					c = l1
				}
				copied = copied.plus(c)
				r.count("copies", 1)
			}
			sure := same(n, copied)
			if !sure {
				r.violate("count:"+m, o.Pos, "Publish.%s returns %s, but %s bytes were copied", m, short(o.Ret[0]), copied)
			}
			left := size.minus(was)
			switch {
			case !isNil && le(left): // nothing was left
			case !isNil && m == "Write" && le(n.plus(pConst(1)).minus(room)): // not all was taken
			case !isNil && m == "Read" && le(n) && le(pConst(1).minus(room)) && le(left): //
			case !isNil:
				r.violate("fails:"+m, o.Pos, "Publish.%s may fail although there is something left", m)
			case m == "Read" && (le(room) || le(pConst(1).minus(n)) || le(pConst(1).minus(left)) && len(copied.atoms()) > 0):
			case m == "Write" && le(room.minus(n)):
			case m == "Read":
				r.violate("eof:Read", o.Pos, "Publish.Read may return nothing and no error at the end of the payload")
			default:
				r.violate("short:Write", o.Pos, "Publish.Write may take less than it was given and return no error")
			}
		}
	}
	// who else moves the position
	for _, fn := range runEffects(L).fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || fieldNameOf(fa) != pos || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj() != pr.Typ.Obj() {
					continue
				}
				top := fn
				for top.Parent() != nil {
					top = top.Parent()
				}
				if n := top.Name(); top.Signature.Recv() != nil && (n == "Read" || n == "Write" || n == "Reset") {
					continue
				}
				for _, ref := range *fa.Referrers() {
					st, ok := ref.(*ssa.Store)
					if ok && st.Addr == fa {
						c, isC := st.Val.(*ssa.Const)
						r.count("other assignments of the position", 1)
						if !isC || c.Value == nil || c.Int64() != 0 {
							r.violate("moves:"+fn.Name(), st.Pos(), "%s moves the position of a payload", fn.Name())
						}
					}
				}
			}
		}
	}
	r.floor("paths", 5)
	r.floor("copies", 2)
}

// sliceBase is what a slice is a part of, and where it begins.
func sliceBase(t *Term) (*Term, *Poly) {
	off := newPoly()
	for t.Op == "slice" {
		off = off.plus(toPoly(t.Args[1]))
		t = t.Args[0]
	}
	return t, off
}

func fieldNameOf(fa *ssa.FieldAddr) string {
	p, ok := fa.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return ""
	}
	u, ok := p.Elem().Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	return u.Field(fa.Field).Name()
}

func init() { checks["C40"] = checkC40 }
