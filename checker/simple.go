package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) simple(st *State, ins ssa.Instruction) []*State {
	f := st.top()
	set := func(v ssa.Value, t *Term) { f.env[v] = t }
	next := func() []*State { f.idx++; return []*State{st} }
	switch x := ins.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		name := in.evalName(st, x)
		if x.Comment != "" {
			name += "(" + x.Comment + ")"
		}
		a := mk("alloc", name, 0, x.Type().Underlying().(*types.Pointer).Elem())
		for k := range st.heap {
			if addrRoot(k) == a {
				delete(st.heap, k)
			}
		}
		st.fresh[a] = true
		set(x, a)
		return next()
	case *ssa.FieldAddr:
		in.notNil(st, x, in.val(st, x.X))
		set(x, mkFA(in.val(st, x.X), x.X.Type(), x.Field))
		return next()
	case *ssa.Field:
		set(x, structField(in.val(st, x.X), x.X.Type(), x.Field))
		return next()
	case *ssa.IndexAddr:
		b, i := in.val(st, x.X), in.val(st, x.Index)
		var n *Term
		elem := x.Type().Underlying().(*types.Pointer).Elem()
		if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			n = cInt(pt.Elem().Underlying().(*types.Array).Len())
			in.notNil(st, x, b)
		} else {
			n = in.lenOf(st, b)
		}
		in.inBounds(st, x, i, n)
		set(x, elemAddr(b, i, elem))
		return next()
	case *ssa.Index:
		b, i := in.val(st, x.X), in.val(st, x.Index)
		var n *Term
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			n = cInt(u.Len())
		default:
			n = in.lenOf(st, b)
		}
		in.inBounds(st, x, i, n)
		if b.Op == "array" && i.isInt() && int(i.Int) < len(b.Args) && i.Int >= 0 {
			set(x, b.Args[i.Int])
		} else {
			set(x, mk("idx", "", 0, x.Type(), b, i))
		}
		return next()
	case *ssa.Slice:
		set(x, in.sliceOp(st, x))
		return next()
	case *ssa.MakeSlice:
		n := in.val(st, x.Len)
		in.oblig(st, "make", x, "length of make is not negative", st.facts.proveLe(toPoly(n).scale(-1)))
		if in.onMake != nil {
			in.oblig(st, "alloc", x, "the size of make is at most 65,535 or the remaining length of the packet", in.onMake(st, in.val(st, x.Cap)))
		}
		a := mk("alloc", in.evalName(st, x)+"(make)", 0, x.Type().Underlying().(*types.Slice).Elem())
		st.fresh[a] = true
		for k := range st.heap {
			if addrRoot(k) == a {
				delete(st.heap, k)
			}
		}
		if x.Cap != x.Len {
			m := in.val(st, x.Cap)
			in.oblig(st, "make", x, "length of make is not above the capacity", st.facts.proveLe(toPoly(n).minus(toPoly(m))))
		}
		st.heap[capCell(a)] = in.val(st, x.Cap)
		set(x, mk("slice", "", 0, x.Type(), a, cInt(0), n))
		return next()
	case *ssa.MakeMap:
		if in.onMake != nil && x.Reserve != nil {
			in.oblig(st, "alloc", x, "the size of make is at most 65,535 or the remaining length of the packet", in.onMake(st, in.val(st, x.Reserve)))
		}
		m := mk("makemap", in.evalName(st, x), 0, x.Type())
		for k := range st.heap {
			if addrRoot(k) == m {
				delete(st.heap, k)
			}
		}
		set(x, m)
		return next()
	case *ssa.MakeChan:
		set(x, mk("makechan", in.evalName(st, x), 0, x.Type(), in.val(st, x.Size)))
		return next()
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, in.val(st, b))
		}
		t := mk("clo", x.Fn.String(), 0, x.Type(), bs...)
		t.Ref = x.Fn.(*ssa.Function)
		set(x, t)
		return next()
	case *ssa.MakeInterface:
		v := in.val(st, x.X)
		set(x, mk("iface", "", 0, x.X.Type(), v))
		return next()
	case *ssa.ChangeInterface:
		set(x, in.val(st, x.X))
		return next()
	case *ssa.ChangeType:
		set(x, in.val(st, x.X))
		return next()
	case *ssa.Convert:
		set(x, in.convert(st, in.val(st, x.X), x.X.Type(), x.Type()))
		return next()
	case *ssa.Extract:
		t := in.val(st, x.Tuple)
		if t.Op == "tuple" && x.Index < len(t.Args) {
			set(x, t.Args[x.Index])
		} else {
			set(x, mk("extract", "", int64(x.Index), x.Type(), t))
		}
		return next()
	case *ssa.BinOp:
		set(x, in.binop(st, x.Op, in.val(st, x.X), in.val(st, x.Y), x.X.Type(), x.Type(), x))
		return next()
	case *ssa.UnOp:
		v := in.val(st, x.X)
		switch x.Op {
		case token.MUL:
			in.notNil(st, x, v)
			set(x, in.load(st, v, x.Type(), x.Pos(), x))
		case token.NOT:
			set(x, tNot(v))
		case token.SUB:
			set(x, polyTerm(toPoly(v).scale(-1), x.Type()))
		case token.XOR:
			bits, uns, _ := typeBits(x.Type())
			if v.isInt() {
				set(x, cInt(wrapInt(^v.Int, x.Type())))
			} else if uns && bits < 63 {
				set(x, in.bitop("^", v, cInt((1<<uint(bits))-1), x.Type()))
			} else {
				set(x, mk("compl", "", 0, x.Type(), v))
			}
		case token.ARROW:
			in.event(st, &Event{Kind: "Recv", Args: []*Term{v}, Pos: x.Pos(), instr: x})
			r := sym(in.evalName(st, x)+"#recv", v.chanElem(x))
			if x.CommaOk {
				set(x, mk("tuple", "", 0, nil, r, sym(in.evalName(st, x)+"#ok", types.Typ[types.Bool])))
			} else {
				set(x, r)
			}
		}
		return next()
	case *ssa.Store:
		a := in.val(st, x.Addr)
		in.notNil(st, x, a)
		in.store(st, a, in.val(st, x.Val), x.Val.Type(), x.Pos(), x)
		return next()
	case *ssa.Send:
		in.event(st, &Event{Kind: "Send", Args: []*Term{in.val(st, x.Chan), in.val(st, x.X)}, Pos: x.Pos(), instr: x})
		return next()
	case *ssa.Lookup:
		m, k := in.val(st, x.X), in.val(st, x.Index)
		if _, isMap := x.X.Type().Underlying().(*types.Map); !isMap {
			n := in.lenOf(st, m)
			in.inBounds(st, x, k, n)
			set(x, mk("idx", "", 0, x.Type(), m, k))
			return next()
		}
		if keys := in.tableKeys(st, m, k); keys != nil {
			// one case for each entry of a table
			var out []*State
			for _, n := range keys {
				c := st.clone()
				if c.facts.assume(tEq0(toPoly(k).minus(toPoly(n))), true) {
					c.top().env[x] = in.tableEntry(c, m, n, x)
					c.top().idx++
					out = append(out, c)
				}
				if !st.facts.assume(tEq0(toPoly(k).minus(toPoly(n))), false) {
					return out
				}
			}
			mt := x.X.Type().Underlying().(*types.Map)
			if x.CommaOk {
				set(x, mk("tuple", "", 0, nil, zeroTerm(mt.Elem()), cBool(false)))
			} else {
				set(x, zeroTerm(mt.Elem()))
			}
			return append(out, next()...)
		}
		v, ok := in.mapLookup(st, m, k, x.X.Type().Underlying().(*types.Map), x.Pos(), x)
		if x.CommaOk {
			set(x, mk("tuple", "", 0, nil, v, ok))
			return next()
		}
		// without comma-ok the value is zero if there is no entry
		yes, no := in.branch(st, ok)
		var out []*State
		if yes != nil {
			yes.top().env[x] = v
			yes.top().idx++
			out = append(out, yes)
		}
		if no != nil {
			no.top().env[x] = zeroTerm(x.Type())
			no.top().idx++
			out = append(out, no)
		}
		return out
	case *ssa.MapUpdate:
		m, k, v := in.val(st, x.Map), in.val(st, x.Key), in.val(st, x.Value)
		nonnil := m.Op == "makemap"
		if !nonnil {
			n, known := st.facts.eval(mkIsNil(m))
			nonnil = known && !n
		}
		in.oblig(st, "nilmap", x, "map is not nil when written", nonnil)
		in.mapSet(st, m, k, v, cBool(true), x.Map.Type().Underlying().(*types.Map), x.Pos(), x)
		return next()
	case *ssa.Range:
		m := in.val(st, x.X)
		if reg := in.region(mk("mc", "", 0, nil, m, cInt(0))); reg != "" {
			in.access(st, reg, false, x.Pos())
		}
		set(x, mk("range", in.evalName(st, x), 0, nil, m))
		if in.encoding {
			st.heap[mk("fa", "$next", 0, types.Typ[types.Int], in.val(st, x))] = cInt(0)
		}
		return next()
	case *ssa.Next:
		r := in.val(st, x.Iter)
		name := in.evalName(st, x)
		m := r.Args[0]
		rreg := in.region(mk("mc", "", 0, nil, m, cInt(0)))
		if rreg != "" {
			in.access(st, rreg, false, x.Pos())
		}
		if r.Op != "range" {
			rreg = ""
		}
		tt := x.Type().(*types.Tuple)
		k, v := sym(name+"#key", tt.At(1).Type()), sym(name+"#val", tt.At(2).Type())
		ok := sym(name+"#more", types.Typ[types.Bool])
		if in.encoding {
			// the first entry is there unless the map is empty
			c := mk("fa", "$next", 0, types.Typ[types.Int], r)
			if n := st.heap[c]; n != nil && n.isInt() && n.Int == 0 {
				ok = tNot(tEq0(toPoly(mk("len", "", 0, types.Typ[types.Int], m))))
			}
			st.heap[c] = cInt(1)
		}
		set(x, mk("tuple", "", 0, nil, ok, k, v))
		in.event(st, &Event{Kind: "RangeNext", Name: rreg, Args: []*Term{m, k, v, ok}, Pos: x.Pos(), instr: x})
		return next()
	case *ssa.TypeAssert:
		v := in.val(st, x.X)
		var ok, res *Term
		_, toIface := x.AssertedType.Underlying().(*types.Interface)
		switch {
		case v.Op == "iface" && !toIface:
			ok = cBool(types.Identical(v.Typ, x.AssertedType))
			res = v.Args[0]
		case v.Op == "iface" && toIface:
			ok = cBool(types.Implements(v.Typ, x.AssertedType.Underlying().(*types.Interface)))
			res = v
		case v.Op == "gerr" || v.Op == "newerr":
			if toIface && isErrorType(x.AssertedType) {
				ok, res = cBool(true), v
			}
		}
		if ok == nil {
			ok = mk("typeis", types.TypeString(x.AssertedType, nil), 0, types.Typ[types.Bool], v)
			res = mk("asserted", types.TypeString(x.AssertedType, nil), 0, x.AssertedType, v)
			if toIface {
				res = v
			}
		}
		if x.CommaOk {
			yes, no := in.branch(st, ok)
			var out []*State
			if yes != nil {
				if res.Op == "asserted" || toIface {
					yes.facts.assume(mkIsNil(v), false)
					if toIface {
						yes.facts.assume(mkIsNil(res), false)
					}
				}
				yes.top().env[x] = mk("tuple", "", 0, nil, res, cBool(true))
				yes.top().idx++
				out = append(out, yes)
			}
			if no != nil {
				no.top().env[x] = mk("tuple", "", 0, nil, zeroTerm(x.AssertedType), cBool(false))
				no.top().idx++
				out = append(out, no)
			}
			return out
		}
		if t, notNil, isPool := in.L.poolGet(x.X); isPool && types.Identical(t, x.AssertedType) {
			set(x, res)
			if !st.facts.assume(ok, true) {
				return nil
			}
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr && notNil {
				st.facts.assume(mkIsNil(res), false)
			}
			return next()
		}
		val, known := st.facts.eval(ok)
		in.oblig(st, "assert", x, "type assertion to "+types.TypeString(x.AssertedType, shortQual)+" cannot fail", known && val)
		set(x, res)
		if !st.facts.assume(ok, true) {
			return nil
		}
		return next()
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		in.oblig(st, "convert", ins, "conversion", false)
		set(ins.(ssa.Value), sym(in.evalName(st, ins), ins.(ssa.Value).Type()))
		return next()
	}
	if v, ok := ins.(ssa.Value); ok {
		set(v, sym(in.evalName(st, ins), v.Type()))
	}
	in.undecided("instruction %T not supported in %s", ins, f.fn)
	return next()
}

func (t *Term) chanElem(x *ssa.UnOp) types.Type {
	return x.X.Type().Underlying().(*types.Chan).Elem()
}

func elemAddr(b, i *Term, elem types.Type) *Term {
	if b.Op == "slice" {
		return mkIA(b.Args[0], tAdd(b.Args[1], i, nil), elem)
	}
	return mkIA(b, i, elem)
}

// notNil asks for a pointer that is used not to be nil.
func (in *Interp) notNil(st *State, ins ssa.Instruction, v *Term) {
	n, known := st.facts.eval(mkIsNil(v))
	in.oblig(st, "nil", ins, "the pointer is not nil", known && !n || v.Op == "asserted")
	if known && n {
		return
	}
	st.facts.assume(mkIsNil(v), false)
}

func (in *Interp) inBounds(st *State, ins ssa.Instruction, i, n *Term) {
	ok := st.facts.proveLe(toPoly(i).scale(-1)) && st.facts.proveLe(toPoly(i).minus(toPoly(n)).plus(pConst(1)))
	in.oblig(st, "index", ins, "index in range", ok)
}

func (in *Interp) lenOf(st *State, t *Term) *Term {
	switch t.Op {
	case "str":
		return cInt(int64(len(t.Str)))
	case "nil":
		return cInt(0)
	case "slice":
		return t.Args[2]
	case "data":
		return t.Args[0]
	case "bytes", "string":
		return in.lenOf(st, t.Args[0])
	case "append":
		return tAdd(in.lenOf(st, t.Args[0]), cInt(int64(len(t.Args)-1)), types.Typ[types.Int])
	case "appendslice":
		return tAdd(in.lenOf(st, t.Args[0]), in.lenOf(st, t.Args[1]), types.Typ[types.Int])
	case "concat":
		return tAdd(in.lenOf(st, t.Args[0]), in.lenOf(st, t.Args[1]), types.Typ[types.Int])
	case "substr":
		return tSub(t.Args[2], t.Args[1], types.Typ[types.Int])
	case "ite":
		g := guardPoly(t.Args[0])
		a, b := in.lenOf(st, t.Args[1]), in.lenOf(st, t.Args[2])
		return polyTerm(toPoly(b).plus(g.times(toPoly(a).minus(toPoly(b)))), types.Typ[types.Int])
	}
	return mk("len", "", 0, types.Typ[types.Int], t)
}

// literalPrefix is what a string begins with, as far as it is known, and whether that is all of it.
func literalPrefix(t *Term) (string, bool) {
	switch t.Op {
	case "str":
		return t.Str, true
	case "concat":
		a, whole := literalPrefix(t.Args[0])
		if !whole {
			return a, false
		}
		b, whole := literalPrefix(t.Args[1])
		return a + b, whole
	}
	return "", false
}

func (in *Interp) sliceOp(st *State, x *ssa.Slice) *Term {
	b := in.val(st, x.X)
	lo := cInt(0)
	if x.Low != nil {
		lo = in.val(st, x.Low)
	}
	var n *Term
	isStr := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		n = cInt(u.Elem().Underlying().(*types.Array).Len())
	case *types.Basic:
		isStr = true
		n = in.lenOf(st, b)
	default:
		n = in.lenOf(st, b)
	}
	hi := n
	if x.High != nil {
		hi = in.val(st, x.High)
	}
	ok := st.facts.proveLe(toPoly(lo).scale(-1)) && st.facts.proveLe(toPoly(lo).minus(toPoly(hi)))
	top := hi
	if x.Max != nil {
		top = in.val(st, x.Max)
		ok = ok && st.facts.proveLe(toPoly(hi).minus(toPoly(top)))
	}
	if ok && !st.facts.proveLe(toPoly(top).minus(toPoly(n))) {
		// behind the length there may be capacity
		ok = !isStr && st.facts.proveLe(toPoly(top).minus(toPoly(in.capOf(st, b))))
	}
	in.oblig(st, "slice", x, "slice bounds in range", ok)
	if isStr {
		if lo.isInt() && lo.Int == 0 && hi == n {
			return b
		}
		if b.Op == "str" && lo.isInt() && hi.isInt() && lo.Int >= 0 && lo.Int <= hi.Int && int(hi.Int) <= len(b.Str) {
			return cStr(b.Str[lo.Int:hi.Int])
		}
		if lit, _ := literalPrefix(b); lo.isInt() && hi.isInt() && lo.Int >= 0 && lo.Int <= hi.Int && int(hi.Int) <= len(lit) {
			return cStr(lit[lo.Int:hi.Int])
		}
		return mk("substr", "", 0, x.Type(), b, lo, hi)
	}
	if b.Op == "slice" {
		return mk("slice", "", 0, x.Type(), b.Args[0], tAdd(b.Args[1], lo, nil), tSub(hi, lo, nil))
	}
	if _, isPtr := x.X.Type().Underlying().(*types.Pointer); !isPtr && lo.isInt() && lo.Int == 0 && hi == n {
		return b
	}
	return mk("slice", "", 0, x.Type(), b, lo, tSub(hi, lo, nil))
}

// capOf is the capacity of a slice.
func (in *Interp) capOf(st *State, b *Term) *Term {
	if b.Op == "slice" {
		a := b.Args[0]
		c := st.heap[capCell(a)]
		if c == nil && a.Typ != nil {
			switch u := a.Typ.Underlying().(type) {
			case *types.Array:
				if a.Op == "alloc" && !strings.HasSuffix(a.Str, "(make)") {
					c = cInt(u.Len())
				}
			case *types.Slice:
				if a.Op != "alloc" {
					c = in.capOf(st, a)
				}
			}
		}
		if c != nil {
			return tSub(c, b.Args[1], nil)
		}
	}
	c := mk("cap", "", 0, types.Typ[types.Int], b)
	st.facts.assume(tLe0(toPoly(in.lenOf(st, b)).minus(toPoly(c))), true)
	if (b.Op == "append" || b.Op == "appendslice") && len(b.Args) > 0 {
		// what does not fit gets more capacity, what fits keeps it
		st.facts.assume(tLe0(toPoly(in.capOf(st, b.Args[0])).minus(toPoly(c))), true)
	}
	return c
}

// capCell stands for the capacity of what make has made, if it is not its length.
func capCell(a *Term) *Term { return mk("fa", "$cap", 0, types.Typ[types.Int], a) }

func wrapInt(n int64, t types.Type) int64 {
	bits, uns, ok := typeBits(t)
	if !ok || bits >= 64 {
		return n
	}
	m := int64(1) << uint(bits)
	n &= m - 1
	if !uns && n >= m/2 {
		n -= m
	}
	return n
}

func (in *Interp) convert(st *State, v *Term, from, to types.Type) *Term {
	fb, fok := from.Underlying().(*types.Basic)
	tb, tok := to.Underlying().(*types.Basic)
	if fok && tok && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		if v.isInt() {
			return cInt(wrapInt(v.Int, to))
		}
		bits, uns, _ := typeBits(to)
		rng := typeIv(to)
		iv := st.facts.ivOf(v)
		ft := typeIv(from)
		if ft.lo > iv.lo {
			iv.lo = ft.lo
		}
		if ft.hi < iv.hi {
			iv.hi = ft.hi
		}
		if iv.lo >= rng.lo && iv.hi <= rng.hi {
			return v
		}
		if bits == 64 && uns && iv.lo >= 0 {
			return v
		}
		if in.exact && bits >= 32 && iv.lo >= 0 {
			return v
		}
		u := "s"
		if uns {
			u = "u"
		}
		return mk("trunc", fmt.Sprintf("%s%d", u, bits), 0, to, v)
	}
	if tok && tb.Info()&types.IsString != 0 {
		if fok && fb.Info()&types.IsString != 0 {
			return v
		}
		if v.Op == "bytes" {
			return v.Args[0]
		}
		if v.Op == "slice" {
			if d := st.heap[bufCell(v.Args[0])]; d != nil && v.Args[1].isInt() && v.Args[1].Int == 0 && toPoly(v.Args[2]).eq(toPoly(in.lenOf(st, d))) {
				v = d
			}
		}
		if fok && fb.Info()&types.IsInteger != 0 {
			return mk("runestr", "", 0, to, v)
		}
		return mk("string", "", 0, to, v)
	}
	if _, isSl := to.Underlying().(*types.Slice); isSl {
		if v.Op == "string" {
			return v.Args[0]
		}
		return mk("bytes", "", 0, to, v)
	}
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return v
	}
	if tok && tb.Kind() == types.UnsafePointer {
		return v
	}
	return mk("conv", "", 0, to, v)
}

func isPow2(n int64) (uint, bool) {
	if n <= 0 || n&(n-1) != 0 {
		return 0, false
	}
	k := uint(0)
	for n > 1 {
		n >>= 1
		k++
	}
	return k, true
}

func (in *Interp) wrapPoly(st *State, p *Poly, t types.Type) *Term {
	r := canonBytes(polyTerm(p, t))
	bits, _, ok := typeBits(t)
	if !ok || r.isInt() {
		if r.isInt() {
			return cInt(wrapInt(r.Int, t))
		}
		return r
	}
	if bits <= 16 {
		rng := typeIv(t)
		if st.facts.proveLe(pConst(rng.lo).minus(p)) && st.facts.proveLe(p.minus(pConst(rng.hi))) {
			return r
		}
		return mk("wrap", fmt.Sprint(bits), 0, t, r)
	}
	if r.Op == "poly" && r.Typ == nil {
		r.Typ = t
	}
	return r
}

// unwrap removes the marks of arithmetic that may wrap around.
func unwrap(t *Term) *Term {
	for t.Op == "wrap" {
		t = t.Args[0]
	}
	return t
}

func (in *Interp) bitop(op string, a, b *Term, typ types.Type) *Term {
	if a.isInt() && b.isInt() {
		switch op {
		case "&":
			return cInt(a.Int & b.Int)
		case "|":
			return cInt(a.Int | b.Int)
		case "^":
			return cInt(wrapInt(a.Int^b.Int, typ))
		}
	}
	if a.isInt() {
		a, b = b, a
	}
	bits, uns, _ := typeBits(typ)
	all := int64(-1)
	if uns && bits < 63 {
		all = 1<<uint(bits) - 1
	}
	if b.isInt() {
		switch op {
		case "&":
			if b.Int == 0 {
				return cInt(0)
			}
			if b.Int == all {
				return a
			}
		case "|", "^":
			if b.Int == 0 {
				return a
			}
		}
	}
	if !b.isInt() && a.id > b.id {
		a, b = b, a
	}
	return canonBytes(mk(op, "", 0, typ, a, b))
}

// canonBytes recognises the big-endian number in bytes that were read, however it is put together.
func canonBytes(t *Term) *Term {
	d := someByte(t, 0)
	if d == nil {
		return t
	}
	b := bitsOf(t)
	if len(b) != 16 && len(b) != 32 && len(b) != 64 {
		return t
	}
	var first *Term
	if v := b[len(b)-8]; len(v.m) == 1 {
		for _, mo := range v.m {
			if mo.c == 1 && len(mo.a) == 1 && mo.a[0].Op == "bit" && mo.a[0].Args[0].Op == "byteof" {
				first = mo.a[0].Args[0]
			}
		}
	}
	if first == nil {
		return t
	}
	if n := bigEndian(first.Args[0], first.Int, len(b)); sameBits(bitsOf(n), b) {
		return n
	}
	return t
}

func someByte(t *Term, depth int) *Term {
	if depth > 12 {
		return nil
	}
	switch t.Op {
	case "byteof":
		return t
	case "be":
		return t
	case "poly":
		for _, a := range t.P.atoms() {
			if x := someByte(a, depth+1); x != nil {
				return x
			}
		}
		return nil
	case "|", "&", "^", "shl", "shr", "trunc", "wrap":
		for _, a := range t.Args {
			if x := someByte(a, depth+1); x != nil {
				return x
			}
		}
	}
	return nil
}

func (in *Interp) binop(st *State, op token.Token, a, b *Term, opTyp, resTyp types.Type, ins ssa.Instruction) *Term {
	bt, isBasic := opTyp.Underlying().(*types.Basic)
	isInt := isBasic && bt.Info()&types.IsInteger != 0
	isStr := isBasic && bt.Info()&types.IsString != 0
	if isInt {
		switch op {
		case token.ADD:
			return in.wrapPoly(st, toPoly(a).plus(toPoly(b)), opTyp)
		case token.SUB:
			return in.wrapPoly(st, toPoly(a).minus(toPoly(b)), opTyp)
		case token.MUL:
			return in.wrapPoly(st, toPoly(a).times(toPoly(b)), opTyp)
		case token.QUO, token.REM:
			nz := b.isInt() && b.Int != 0
			if !b.isInt() {
				v, k := st.facts.eval(tEq0(toPoly(b)))
				nz = k && !v
			}
			in.oblig(st, "div", ins, "divisor is not zero", nz)
			if a.isInt() && b.isInt() && b.Int != 0 {
				if op == token.QUO {
					return cInt(a.Int / b.Int)
				}
				return cInt(a.Int % b.Int)
			}
			if b.isInt() && st.facts.ivOf(a).lo >= 0 {
				if k, ok := isPow2(b.Int); ok {
					if op == token.QUO {
						return in.shr(a, int64(k), opTyp)
					}
					return in.bitop("&", a, cInt(b.Int-1), opTyp)
				}
			}
			if op == token.QUO {
				return mk("div", "", 0, opTyp, a, b)
			}
			return mk("rem", "", 0, opTyp, a, b)
		case token.AND:
			return in.bitop("&", a, b, opTyp)
		case token.OR:
			return in.bitop("|", a, b, opTyp)
		case token.XOR:
			return in.bitop("^", a, b, opTyp)
		case token.AND_NOT:
			if b.isInt() {
				bits, uns, _ := typeBits(opTyp)
				m := ^b.Int
				if uns && bits < 63 {
					m &= 1<<uint(bits) - 1
				}
				return in.bitop("&", a, cInt(m), opTyp)
			}
			return mk("andnot", "", 0, opTyp, a, b)
		case token.SHL:
			if a.isInt() && b.isInt() && b.Int < 62 {
				return cInt(wrapInt(a.Int<<uint(b.Int), opTyp))
			}
			if b.isInt() && b.Int == 0 {
				return a
			}
			bits, _, _ := typeBits(opTyp)
			return mk("shl", fmt.Sprint(bits), 0, opTyp, a, b)
		case token.SHR:
			if a.isInt() && b.isInt() && b.Int < 63 {
				return cInt(a.Int >> uint(b.Int))
			}
			if b.isInt() {
				return in.shr(a, b.Int, opTyp)
			}
			return mk("shrv", "", 0, opTyp, a, b)
		case token.LSS: // a < b <=> a - b + 1 <= 0
			return tLe0(toPoly(a).minus(toPoly(b)).plus(pConst(1)))
		case token.LEQ:
			return tLe0(toPoly(a).minus(toPoly(b)))
		case token.GTR:
			return tLe0(toPoly(b).minus(toPoly(a)).plus(pConst(1)))
		case token.GEQ:
			return tLe0(toPoly(b).minus(toPoly(a)))
		case token.EQL:
			return tEq0(toPoly(a).minus(toPoly(b)))
		case token.NEQ:
			return tNot(tEq0(toPoly(a).minus(toPoly(b))))
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		var t *Term
		switch {
		case isStr && b.Op == "str" && b.Str == "":
			t = tEq0(toPoly(in.lenOf(st, a)))
		case isStr && a.Op == "str" && a.Str == "":
			t = tEq0(toPoly(in.lenOf(st, b)))
		default:
			t = mkEq(a, b)
			if t.Op == "eq" {
				if _, isSt := opTyp.Underlying().(*types.Struct); !isSt && a.Op == "gerr" && b.Op == "gerr" {
					t = cBool(false)
				}
			}
		}
		if op == token.NEQ {
			return tNot(t)
		}
		return t
	case token.ADD:
		if isStr {
			if a.Op == "str" && b.Op == "str" {
				return cStr(a.Str + b.Str)
			}
			return mk("concat", "", 0, resTyp, a, b)
		}
	}
	return mk("bin", op.String(), 0, resTyp, a, b)
}

func (in *Interp) shr(a *Term, k int64, t types.Type) *Term {
	if k == 0 {
		return a
	}
	if a.isInt() {
		return cInt(a.Int >> uint(k))
	}
	if a.Op == "shr" && a.Args[1].isInt() {
		return mk("shr", "", 0, t, a.Args[0], cInt(a.Args[1].Int+k))
	}
	return mk("shr", "", 0, t, a, cInt(k))
}

// ---- maps

func (in *Interp) mapLookup(st *State, m, k *Term, mt *types.Map, pos token.Pos, ins ssa.Instruction) (v, ok *Term) {
	if m.isNil() {
		return zeroTerm(mt.Elem()), cBool(false)
	}
	hc := mk("mh", "", 0, types.Typ[types.Bool], m, k)
	vc := mk("mc", "", 0, mt.Elem(), m, k)
	reg := in.region(hc)
	cache := true
	if reg != "" {
		in.access(st, reg, false, pos)
		cache = in.stable(st, reg)
	}
	if cache {
		if h, has := st.heap[hc]; has {
			v = st.heap[vc]
			if v == nil {
				v = zeroTerm(mt.Elem())
			}
			in.event(st, &Event{Kind: "MapGet", Name: reg, Args: []*Term{m, k, v, h}, Pos: pos, instr: ins})
			return v, h
		}
	}
	if m.Op == "makemap" && !in.mapTouched(st, m) {
		return zeroTerm(mt.Elem()), cBool(false)
	}
	if cache {
		// the key of the current iteration over this map
	search:
		for i := len(st.trace) - 1; i >= 0; i-- {
			e := st.trace[i]
			switch e.Kind {
			case "RangeNext":
				if e.Args[0] == m && e.Args[1] == k {
					if more, known := st.facts.eval(e.Args[3]); known && more {
						in.event(st, &Event{Kind: "MapGet", Name: reg, Args: []*Term{m, k, e.Args[2], cBool(true)}, Pos: pos, instr: ins})
						return e.Args[2], cBool(true)
					}
				}
			case "MapSet", "MapDel", "Unlock", "Loop":
				break search
			}
		}
	}
	name := in.evalName(st, ins)
	v, ok = sym(name+"#val", mt.Elem()), sym(name+"#ok", types.Typ[types.Bool])
	if cache {
		st.heap[hc] = ok
		st.heap[vc] = v
	}
	in.event(st, &Event{Kind: "MapGet", Name: reg, Args: []*Term{m, k, v, ok}, Pos: pos, instr: ins})
	return v, ok
}

// tableKeys are the keys of a map that the path made itself and filled with constant keys, for a lookup of another key.
func (in *Interp) tableKeys(st *State, m, k *Term) []*Term {
	if m.Op != "makemap" || k.isInt() || !isIntegral(k.Typ) || in.region(mk("mh", "", 0, types.Typ[types.Bool], m, k)) != "" {
		return nil
	}
	var out []*Term
	for c, v := range st.heap {
		if c.Op != "mh" || c.Args[0] != m {
			continue
		}
		if !c.Args[1].isInt() || !v.isTrue() {
			return nil
		}
		out = append(out, c.Args[1])
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Int < out[j].Int })
	return out
}

func (in *Interp) tableEntry(st *State, m, k *Term, x *ssa.Lookup) *Term {
	v := st.heap[mk("mc", "", 0, x.X.Type().Underlying().(*types.Map).Elem(), m, k)]
	if x.CommaOk {
		return mk("tuple", "", 0, nil, v, cBool(true))
	}
	return v
}

func (in *Interp) mapTouched(st *State, m *Term) bool {
	for k := range st.heap {
		if (k.Op == "mh" || k.Op == "mc") && k.Args[0] == m {
			return true
		}
	}
	return false
}

func (in *Interp) mapSet(st *State, m, k, v, has *Term, mt *types.Map, pos token.Pos, ins ssa.Instruction) {
	hc := mk("mh", "", 0, types.Typ[types.Bool], m, k)
	vc := mk("mc", "", 0, mt.Elem(), m, k)
	reg := in.region(hc)
	for c := range st.heap {
		if (c.Op == "mh" || c.Op == "mc") && c.Args[0] == m && c.Args[1] != k {
			if c.Args[1].isInt() && k.isInt() || c.Args[1].Op == "str" && k.Op == "str" {
				continue
			}
			delete(st.heap, c)
		}
	}
	if has.isTrue() {
		st.heap[hc], st.heap[vc] = has, v
		in.event(st, &Event{Kind: "MapSet", Name: reg, Args: []*Term{m, k, v}, Pos: pos, instr: ins})
	} else {
		st.heap[hc] = has
		delete(st.heap, vc)
		in.event(st, &Event{Kind: "MapDel", Name: reg, Args: []*Term{m, k}, Pos: pos, instr: ins})
	}
	if reg != "" {
		in.access(st, reg, true, pos)
		if !in.stable(st, reg) {
			delete(st.heap, hc)
			delete(st.heap, vc)
		}
	}
}

// ---- calls with a built-in model

func (in *Interp) builtin(st *State, ci *CallInfo) (*Term, bool) {
	a := ci.args
	switch strings.TrimPrefix(ci.name, "builtin.") {
	case "len":
		if v := a[0]; v.Op == "array" {
			return cInt(v.Int), true
		}
		if t := callArgType(ci, 0); t != nil {
			if _, isMap := t.Underlying().(*types.Map); isMap {
				if reg := in.region(mk("mc", "", 0, nil, a[0], cInt(0))); reg != "" {
					in.access(st, reg, false, ci.pos)
					if !in.stable(st, reg) {
						return sym(in.evalName(st, ci.instr), types.Typ[types.Uint]), true
					}
				}
				return mk("len", "", 0, types.Typ[types.Int], a[0]), true
			}
			if p, isPtr := t.Underlying().(*types.Pointer); isPtr {
				return cInt(p.Elem().Underlying().(*types.Array).Len()), true
			}
		}
		return in.lenOf(st, a[0]), true
	case "cap":
		return in.capOf(st, a[0]), true
	case "append":
		s := a[0]
		t := a[1]
		if t.isNil() {
			return s, true
		}
		if t.Op == "slice" && t.Args[2].isInt() && t.Args[2].Int <= 16 && t.Args[1].isInt() {
			args := []*Term{s}
			et := ci.typ.Underlying().(*types.Slice).Elem()
			for i := int64(0); i < t.Args[2].Int; i++ {
				args = append(args, in.load(st, mkIA(t.Args[0], cInt(t.Args[1].Int+i), et), et, ci.pos, ci.instr))
			}
			if s.Op == "append" {
				args = append(append([]*Term{}, s.Args...), args[1:]...)
			}
			return mk("append", "", 0, ci.typ, args...), true
		}
		// an append in place may overwrite the elements behind its first operand
		if s.Op == "slice" || t.Op == "slice" {
			in.event(st, &Event{Kind: "AppendSlice", Args: []*Term{s, t}, Pos: ci.pos, instr: ci.instr})
		}
		return mk("appendslice", "", 0, ci.typ, s, t), true
	case "copy":
		n := sym(in.evalName(st, ci.instr)+"#copied", types.Typ[types.Uint])
		in.event(st, &Event{Kind: "Copy", Args: a, Ret: []*Term{n}, Pos: ci.pos, instr: ci.instr})
		st.facts.assume(tLe0(toPoly(n).minus(toPoly(in.lenOf(st, a[0])))), true)
		st.facts.assume(tLe0(toPoly(n).minus(toPoly(in.lenOf(st, a[1])))), true)
		return n, true
	case "delete":
		mt := callArgType(ci, 0).Underlying().(*types.Map)
		in.mapSet(st, a[0], a[1], cNil(), cBool(false), mt, ci.pos, ci.instr)
		return cNil(), true
	case "close":
		in.event(st, &Event{Kind: "Close", Args: a, Pos: ci.pos, instr: ci.instr})
		return cNil(), true
	case "Slice": // unsafe.Slice
		return mk("slice", "", 0, ci.typ, a[0], cInt(0), a[1]), true
	case "min", "max":
		t := mk("call", ci.name, 0, ci.typ, a...)
		if isIntegral(ci.typ) {
			for _, x := range a {
				d := toPoly(t).minus(toPoly(x))
				if ci.name == "builtin.max" {
					d = d.scale(-1)
				}
				st.facts.assume(tLe0(d), true)
			}
		}
		return t, true
	case "clear":
		m := a[0]
		for c := range st.heap {
			if (c.Op == "mh" || c.Op == "mc") && c.Args[0] == m {
				delete(st.heap, c)
			}
		}
		reg := in.region(mk("mc", "", 0, nil, m, cInt(0)))
		in.event(st, &Event{Kind: "MapClear", Name: reg, Args: a, Pos: ci.pos, instr: ci.instr})
		if reg != "" {
			in.access(st, reg, true, ci.pos)
		}
		return cNil(), true
	case "recover":
		return cNil(), true
	case "print", "println":
		return cNil(), true
	case "panic":
		in.oblig(st, "panic", ci.instr, "explicit panic", false)
		return nil, false
	case "ssa:wrapnilchk":
		return a[0], true
	}
	in.undecided("builtin %s not supported", ci.name)
	return sym(in.evalName(st, ci.instr), ci.typ), true
}

func callArgType(ci *CallInfo, i int) types.Type {
	c := ci.instr.Common()
	if i < len(c.Args) {
		return c.Args[i].Type()
	}
	return nil
}

func (in *Interp) lockErr(kind string, st *State, pos token.Pos, name string) {
	k := kind + "|" + name + "|" + in.posStr(pos) + "|" + in.root
	if _, ok := in.lockErrs[k]; !ok {
		in.lockErrs[k] = fmt.Sprintf("%s of %s at %s (in %s)", kind, name, in.posStr(pos), st.top().ctx)
	}
}

func (in *Interp) lockCall(st *State, ci *CallInfo) ([]*State, bool) {
	var kind string
	switch ci.name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		kind = "lock"
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		kind = "unlock"
	case "(*sync.RWMutex).RLock":
		kind = "rlock"
	case "(*sync.RWMutex).RUnlock":
		kind = "runlock"
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		kind = "trylock"
	case "(*sync.RWMutex).TryRLock":
		kind = "tryrlock"
	default:
		return nil, false
	}
	name := ci.args[0].String()
	l := st.locks[name]
	acquire := func(s *State, read, try bool) {
		if !try {
			for o, h := range s.locks {
				if o != name && (h.w > 0 || h.r > 0) {
					k := [2]string{o, name}
					if _, ok := in.order[k]; !ok {
						in.order[k] = fmt.Sprintf("%s (in %s)", in.posStr(ci.pos), s.top().ctx)
					}
				}
			}
		}
		x := s.locks[name]
		if read {
			x.r++
		} else {
			x.w++
		}
		x.pos = ci.pos
		s.locks[name] = x
		in.event(s, &Event{Kind: "Lock", Name: name, Pos: ci.pos, instr: ci.instr})
	}
	switch kind {
	case "lock", "rlock":
		if l.w > 0 || (l.r > 0) {
			in.lockErr("re-acquisition", st, ci.pos, name)
			return nil, true
		}
		acquire(st, kind == "rlock", false)
		return []*State{st}, true
	case "trylock", "tryrlock":
		n := st.clone()
		n.ghost["$ret"] = cBool(false)
		if l.w > 0 || (kind == "trylock" && l.r > 0) {
			return []*State{n}, true
		}
		acquire(st, kind == "tryrlock", true)
		st.ghost["$ret"] = cBool(true)
		return []*State{st, n}, true
	case "unlock":
		if l.w == 0 {
			in.lockErr("unlock without holding", st, ci.pos, name)
			return nil, true
		}
		l.w--
	case "runlock":
		if l.r == 0 {
			in.lockErr("unlock without holding", st, ci.pos, name)
			return nil, true
		}
		l.r--
	}
	if l.w == 0 && l.r == 0 {
		delete(st.locks, name)
	} else {
		st.locks[name] = l
	}
	in.event(st, &Event{Kind: "Unlock", Name: name, Pos: ci.pos, instr: ci.instr})
	// what others may change from now on is no longer known
	for a := range st.heap {
		if reg := in.region(a); reg != "" && !in.stable(st, reg) {
			delete(st.heap, a)
			if st.ver == nil {
				st.ver = map[*Term]int{}
			}
			st.ver[a]++
		}
	}
	return []*State{st}, true
}

// pure models calls outside of the repository that only compute.
func (in *Interp) pure(st *State, ci *CallInfo) (*Term, bool) {
	switch ci.name {
	case "errors.New", "fmt.Errorf":
		return mk("newerr", in.evalName(st, ci.instr), 0, ci.typ), true
	case "errors.Is":
		if ci.args[0] == ci.args[1] {
			return tNot(mkIsNil(ci.args[0])), true
		}
		if ci.args[0].Op == "gerr" && ci.args[1].Op == "gerr" {
			return cBool(false), true
		}
		if ci.args[0].isNil() {
			return mkIsNil(ci.args[1]), true
		}
		return mk("errIs", "", 0, types.Typ[types.Bool], ci.args...), true
	case "time.Now", "time.Sleep":
		return nil, false
	case "(time.Time).IsZero":
		if ci.args[0] == zeroTerm(timeTypeOf(ci)) {
			return cBool(true), true
		}
		return mk("call", ci.name, 0, ci.typ, ci.args...), true
	}
	if ci.fn != nil && ci.fn.Pkg != nil {
		switch ci.fn.Pkg.Pkg.Path() {
		case "time", "strings", "math", "unicode/utf8", "strconv", "unicode", "math/bits", "slices", "maps", "cmp":
			if ci.fn.Pkg.Pkg.Path() == "time" && (ci.fn.Name() == "After" || ci.fn.Name() == "Since" || ci.fn.Name() == "Until" || strings.HasPrefix(ci.fn.Name(), "New") || ci.fn.Name() == "Tick" || ci.fn.Name() == "AfterFunc") && ci.sig.Recv() == nil {
				return nil, false
			}
			if ci.name == "strings.HasPrefix" && ci.args[1].Op == "str" {
				lit, whole := literalPrefix(ci.args[0])
				pre := ci.args[1].Str
				n := in.lenOf(st, ci.args[0])
				switch {
				case whole || len(lit) >= len(pre):
					return cBool(strings.HasPrefix(lit, pre)), true
				case !strings.HasPrefix(pre, lit), st.facts.proveLe(toPoly(n).minus(pConst(int64(len(pre) - 1)))):
					return cBool(false), true
				}
			}
			t := mk("call", ci.name, 0, ci.typ, ci.args...)
			in.axioms(st, ci, t)
			if tup, ok := ci.typ.(*types.Tuple); ok {
				if tup.Len() == 0 {
					return cNil(), true
				}
				var as []*Term
				for i := 0; i < tup.Len(); i++ {
					as = append(as, mk("res", "", int64(i), tup.At(i).Type(), t))
				}
				return mk("tuple", "", 0, nil, as...), true
			}
			return t, true
		}
	}
	return nil, false
}

// axioms assumes what is known about the result of a function of the standard library.
func (in *Interp) axioms(st *State, ci *CallInfo, t *Term) {
	le := func(p *Poly) { st.facts.assume(tLe0(p), true) }
	at := func(i int) *Poly { return toPoly(in.lenOf(st, ci.args[i])) }
	one := pConst(1)
	switch ci.name {
	case "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny", "strings.IndexFunc", "strings.LastIndexFunc":
		le(toPoly(t).scale(-1).minus(one))
		le(toPoly(t).minus(at(0)).plus(one))
	case "strings.Index", "strings.LastIndex":
		le(toPoly(t).scale(-1).minus(one))
		if ci.args[1].Op == "str" && ci.args[1].Str != "" {
			le(toPoly(t).minus(at(0)).plus(one))
		} else {
			le(toPoly(t).minus(at(0)))
		}
	case "strings.Split", "strings.SplitAfter":
		if ci.args[1].Op == "str" && ci.args[1].Str != "" {
			le(one.minus(toPoly(in.lenOf(st, t))))
		}
	case "strings.SplitN":
		if ci.args[1].Op == "str" && ci.args[1].Str != "" && ci.args[2].isInt() && ci.args[2].Int != 0 {
			le(one.minus(toPoly(in.lenOf(st, t))))
			if ci.args[2].Int > 0 {
				le(toPoly(in.lenOf(st, t)).minus(pConst(ci.args[2].Int)))
			}
		}
	case "strings.Count", "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		le(toPoly(t).scale(-1))
	case "strings.TrimPrefix", "strings.TrimSuffix", "strings.TrimLeft", "strings.TrimRight", "strings.Trim", "strings.TrimSpace":
		le(toPoly(in.lenOf(st, t)).minus(at(0)))
	case "strings.Cut", "strings.CutPrefix", "strings.CutSuffix":
		tup, ok := ci.typ.(*types.Tuple)
		for i := 0; ok && i < tup.Len()-1; i++ {
			le(toPoly(in.lenOf(st, mk("res", "", int64(i), tup.At(i).Type(), t))).minus(at(0)))
		}
	}
}

// follows assumes what a condition means for the lengths of strings.
func (in *Interp) follows(st *State, c *Term, v bool) {
	for c.Op == "not" {
		c, v = c.Args[0], !v
	}
	if !v {
		return
	}
	switch {
	case c.Op == "res" && c.Int == 2 && c.Args[0].Op == "call" && c.Args[0].Str == "strings.Cut":
		cut := c.Args[0]
		p := toPoly(in.lenOf(st, cut.Args[0])).minus(toPoly(in.lenOf(st, cut.Args[1])))
		for i := int64(0); i < 2; i++ {
			p = p.minus(toPoly(in.lenOf(st, mk("res", "", i, types.Typ[types.String], cut))))
		}
		st.facts.assume(tEq0(p), true)
	case c.Op == "call" && (c.Str == "strings.HasPrefix" || c.Str == "strings.HasSuffix"):
		st.facts.assume(tLe0(toPoly(in.lenOf(st, c.Args[1])).minus(toPoly(in.lenOf(st, c.Args[0])))), true)
	case c.Op == "eq" && isStringType(c.Args[0].Typ) && isStringType(c.Args[1].Typ):
		st.facts.assume(tEq0(toPoly(in.lenOf(st, c.Args[0])).minus(toPoly(in.lenOf(st, c.Args[1])))), true)
	}
}

func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// panics asks for what functions of the standard library need not to panic.
func (in *Interp) panics(st *State, ci *CallInfo) {
	if ci.recv != nil && ci.recv.isNil() {
		in.oblig(st, "nilcall", ci.instr, "what is called is not nil", false)
	}
	if ci.fn == nil || in.L.inModule(ci.fn) || ci.fn.Pkg == nil {
		return
	}
	min := func(i int, n int64, what string) {
		if i < len(ci.args) {
			in.oblig(st, "argument", ci.instr, what, st.facts.proveLe(pConst(n).minus(toPoly(ci.args[i]))))
		}
	}
	switch ci.name {
	case "strings.Repeat", "bytes.Repeat", "(*bytes.Buffer).Grow", "(*strings.Builder).Grow", "(*bytes.Buffer).Truncate":
		min(1, 0, "the count is not negative")
		if in.onMake != nil && len(ci.args) > 1 && !strings.HasSuffix(ci.name, "Truncate") {
			in.oblig(st, "alloc", ci.instr, "what "+ci.name+" allocates is at most 65,535 or the remaining length of the packet", in.onMake(st, ci.args[1]))
		}
	case "slices.Grow", "bufio.NewReaderSize", "bufio.NewWriterSize":
		if in.onMake != nil && len(ci.args) > 1 {
			in.oblig(st, "alloc", ci.instr, "what "+ci.name+" allocates is at most 65,535 or the remaining length of the packet", in.onMake(st, ci.args[1]))
		}
	case "math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n", "math/rand/v2.IntN", "time.NewTicker":
		min(0, 1, "the argument is above zero")
	case "os.Exit", "runtime.Goexit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		in.oblig(st, "exit", ci.instr, ci.name+" is not called", false)
	}
	if strings.HasPrefix(ci.fn.Name(), "Must") {
		in.oblig(st, "exit", ci.instr, ci.name+" does not panic", false)
	}
}

func timeTypeOf(ci *CallInfo) types.Type {
	if ci.sig.Recv() != nil {
		return ci.sig.Recv().Type()
	}
	return nil
}

// guardPoly views a truth term as a polynomial over truth atoms.
func guardPoly(t *Term) *Poly {
	switch t.Op {
	case "bool":
		return pConst(t.Int)
	case "not":
		return pConst(1).minus(guardPoly(t.Args[0]))
	case "and":
		return guardPoly(t.Args[0]).times(guardPoly(t.Args[1]))
	case "or":
		a, b := guardPoly(t.Args[0]), guardPoly(t.Args[1])
		return a.plus(b).minus(a.times(b))
	case "gpoly":
		return t.P
	case "ite":
		g, a, b := guardPoly(t.Args[0]), guardPoly(t.Args[1]), guardPoly(t.Args[2])
		return b.plus(g.times(a.minus(b)))
	}
	return pAtom(t)
}

// gTerm is the truth term of a polynomial over truth atoms.
func gTerm(p *Poly) *Term {
	if c, ok := p.isConst(); ok {
		return cBool(c != 0)
	}
	if len(p.m) == 1 {
		for _, mo := range p.m {
			if mo.c == 1 && len(mo.a) == 1 {
				return mo.a[0]
			}
		}
	}
	k := "gpoly|" + p.key()
	if t, ok := internTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: "gpoly", P: p, Typ: types.Typ[types.Bool], id: termCount}
	internTab[k] = t
	return t
}
