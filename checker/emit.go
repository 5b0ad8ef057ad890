package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What an encoder writes is a list of items: b(x) is one byte, blob(x) the bytes of a string or slice, vi(x) a variable
// byte integer.

func itemByte(v *Term) *Term { return mk("b", "", 0, u8Type(), v) }
func itemBlob(v *Term) *Term { return mk("blob", "", 0, nil, v) }
func itemVi(v *Term) *Term   { return mk("vi", "", 0, nil, v) }

// itemLen is the number of bytes of an item.
func (in *Interp) itemLen(st *State, it *Term) *Poly {
	switch it.Op {
	case "b":
		return pConst(1)
	case "blob":
		return toPoly(in.lenOf(st, it.Args[0]))
	}
	return vlenPoly(it.Args[0])
}

// vlenPoly is the number of bytes that a number takes as a variable byte integer.
func vlenPoly(v *Term) *Poly {
	if v.isInt() {
		switch {
		case v.Int < 0 || v.Int > maxRemaining:
		case v.Int < 1<<7:
			return pConst(1)
		case v.Int < 1<<14:
			return pConst(2)
		case v.Int < 1<<21:
			return pConst(3)
		default:
			return pConst(4)
		}
	}
	return pAtom(mk("vlen", "", 0, types.Typ[types.Uint32], v))
}

// byteOfNumber is byte k of a number, counted from the low end.
func (in *Interp) byteOfNumber(st *State, v *Term, k int64) *Term {
	x := in.shr(v, 8*k, v.Typ)
	return in.convert(st, x, types.Typ[types.Int64], u8Type())
}

// contentOf is what a slice of bytes or a string holds.
func (in *Interp) contentOf(st *State, t *Term) ([]*Term, bool) {
	switch t.Op {
	case "nil":
		return nil, true
	case "str":
		var out []*Term
		for i := 0; i < len(t.Str); i++ {
			out = append(out, itemByte(cInt(int64(t.Str[i]))))
		}
		return out, true
	case "bytes", "string":
		return in.contentOf(st, t.Args[0])
	case "append":
		out, ok := in.contentOf(st, t.Args[0])
		if !ok {
			return nil, false
		}
		for _, a := range t.Args[1:] {
			out = append(out, itemByte(a))
		}
		return out, true
	case "appendslice", "concat":
		a, ok := in.contentOf(st, t.Args[0])
		b, ok2 := in.contentOf(st, t.Args[1])
		return append(append([]*Term(nil), a...), b...), ok && ok2
	case "encoded":
		// the result of an append of known bytes
		var out []*Term
		for _, a := range t.Args[1:] {
			out = append(out, itemByte(a))
		}
		a, ok := in.contentOf(st, t.Args[0])
		return append(append([]*Term(nil), a...), out...), ok
	case "slice":
		base, off, n := t.Args[0], t.Args[1], t.Args[2]
		if n.isInt() && n.Int == 0 {
			return nil, true
		}
		if base.Op != "alloc" && base.Op != "fa" && base.Op != "ia" && base.Op != "sym" && base.Op != "global" {
			// a part of a slice that is not known
			b, ok := in.contentOf(st, base)
			if !ok || !off.isInt() || !n.isInt() || off.Int < 0 || off.Int+n.Int > int64(len(b)) {
				if ok && len(b) == 1 && b[0].Op == "blob" && off.isInt() && off.Int == 0 && toPoly(n).eq(toPoly(in.lenOf(st, base))) {
					return b, true
				}
				return nil, false
			}
			for _, it := range b[:off.Int+n.Int] {
				if it.Op != "b" {
					return nil, false
				}
			}
			return b[off.Int : off.Int+n.Int], true
		}
		if n.isInt() && off.isInt() && n.Int <= 64 {
			var out []*Term
			if !isArrayCell(base) {
				if n.Int != 1 || off.Int != 0 {
					return nil, false
				}
				return []*Term{itemByte(in.peek(st, base))}, true
			}
			for i := int64(0); i < n.Int; i++ {
				a := mkIA(base, cInt(off.Int+i), u8Type())
				v := st.heap[a]
				if v == nil {
					v = in.peek(st, a)
				}
				out = append(out, itemByte(v))
			}
			return out, true
		}
		if d := st.heap[bufCell(base)]; d != nil && off.isInt() && off.Int == 0 {
			return in.contentOf(st, d)
		}
		return nil, false
	}
	return []*Term{itemBlob(t)}, true
}

// write is a write of the given items. It may fail.
func (pr *packetRun) write(st *State, ci *CallInfo, to *Term, items []*Term, ret func(n, err *Term) *Term, errT types.Type) []*State {
	n := newPoly()
	for _, it := range items {
		n = n.plus(pr.In.itemLen(st, it))
	}
	var dest *Term
	if to != pr.IO {
		dest = to
	}
	return pr.output(st, ci, &Event{Kind: "Out", Name: ci.name, Args: items, Dest: dest, Pos: ci.pos, instr: ci.instr}, to.Op == "newbuf" || to.Op == "alloc", polyTerm(n, types.Typ[types.Int]), ret, errT)
}

// output is something that is written, and that may fail.
func (pr *packetRun) output(st *State, ci *CallInfo, e0 *Event, noFail bool, n *Term, ret func(n, err *Term) *Term, errT types.Type) []*State {
	in, items := pr.In, e0.Args
	name := in.evalName(st, ci.instr)
	noFail = noFail || pr.noFail || st.ghost["$failed"] != nil
	var fail *State
	if !noFail {
		fail = st.clone()
	}
	in.event(st, e0)
	st.ghost["$ret"] = ret(n, cNil())
	if noFail {
		return []*State{st}
	}
	e := sym(name+"#err", errT)
	fail.facts.assume(mkIsNil(e), false)
	in.event(fail, &Event{Kind: "WriteFail", Name: ci.name, Args: append([]*Term{e}, items...), Pos: ci.pos, instr: ci.instr})
	fail.ghost["$ret"] = ret(sym(name+"#n", types.Typ[types.Uint]), e)
	fail.ghost["$failed"] = cBool(true)
	return []*State{st, fail}
}

// sink tells what takes what is written to w: the writer that the encoder was given, or a buffer of its own.
func (pr *packetRun) sink(w *Term) *Term {
	switch {
	case w == nil || w == pr.IO:
		return w
	case w.Op == "iface" && (typeIs(w.Typ, "bytes", "Buffer") || typeIs(w.Typ, "bufio", "Writer")):
		w = w.Args[0]
	}
	switch w.Op {
	case "newbuf", "newbufio":
		return w
	case "alloc":
		if typeIs(w.Typ, "bytes", "Buffer") {
			return w
		}
	}
	return nil
}

// bufferModel is what an encoder does with a buffer of its own: bytes.Buffer, which takes everything, or bufio.Writer, which
// may fail at any write.
func (pr *packetRun) bufferModel(in *Interp, st *State, ci *CallInfo) ([]*State, bool) {
	a := ci.args
	both := func(n, err *Term) *Term { return tuple(n, err) }
	one := func(t *Term) ([]*State, bool) {
		st.ghost["$ret"] = t
		return []*State{st}, true
	}
	name := in.evalName(st, ci.instr)
	amount := func(t types.Type) *Term {
		n := sym(name+"#held", t)
		st.facts.assume(tLe0(toPoly(n).scale(-1)), true)
		return n
	}
	switch ci.name {
	case "bytes.NewBuffer":
		if a[0].Op == "nil" || in.lenOf(st, a[0]).isInt() && in.lenOf(st, a[0]).Int == 0 {
			return one(mk("newbuf", name, 0, ci.typ))
		}
	case "bufio.NewWriter", "bufio.NewWriterSize":
		if a[0] == pr.IO {
			return one(mk("newbufio", name, 0, ci.typ))
		}
	case "io.Copy":
		if b := pr.sink(a[1]); b != nil && b != pr.IO && b.Op != "newbufio" && a[0] == pr.IO {
			n := amount(i64Type())
			return pr.output(st, ci, &Event{Kind: "Flush", Name: ci.name, Args: []*Term{n}, Dest: b, Pos: ci.pos, instr: ci.instr}, false, n, both, errOf(ci)), true
		}
	}
	if ci.fn == nil || ci.sig.Recv() == nil || ci.fn.Pkg == nil || ci.fn.Pkg.Pkg.Path() != "bytes" && ci.fn.Pkg.Pkg.Path() != "bufio" || len(a) == 0 {
		return nil, false
	}
	b := pr.sink(a[0])
	if b == nil || b == pr.IO {
		return nil, false
	}
	switch ci.fn.Name() {
	case "Write", "WriteString":
		return pr.writeSlice(st, ci, b, a[1])
	case "WriteByte":
		return pr.write(st, ci, b, []*Term{itemByte(a[1])}, func(n, err *Term) *Term { return err }, ci.typ), true
	case "Grow":
		return one(cNil())
	case "Flush":
		return pr.output(st, ci, &Event{Kind: "Flush", Name: ci.name, Args: []*Term{amount(i64Type())}, Dest: b, Pos: ci.pos, instr: ci.instr}, false, cInt(0), func(n, err *Term) *Term { return err }, ci.typ), true
	}
	if b.Op == "newbufio" {
		return nil, false
	}
	switch ci.fn.Name() {
	case "Len":
		n := amount(types.Typ[types.Int])
		in.event(st, &Event{Kind: "BufLen", Name: ci.name, Args: []*Term{n}, Dest: b, Pos: ci.pos, instr: ci.instr})
		return one(n)
	case "Bytes", "String":
		t := sym(name+"#bytes", ci.typ)
		in.event(st, &Event{Kind: "BufLen", Name: ci.name, Args: []*Term{in.lenOf(st, t), t}, Dest: b, Pos: ci.pos, instr: ci.instr})
		st.ghost["$held:"+t.String()] = t
		return one(t)
	case "Reset":
		in.event(st, &Event{Kind: "BufReset", Name: ci.name, Dest: b, Pos: ci.pos, instr: ci.instr})
		return one(cNil())
	case "WriteTo":
		if a[1] == pr.IO {
			n := amount(i64Type())
			return pr.output(st, ci, &Event{Kind: "Flush", Name: ci.name, Args: []*Term{n}, Dest: b, Pos: ci.pos, instr: ci.instr}, false, n, both, errOf(ci)), true
		}
	}
	return nil, false
}

// writeSlice is a write of a slice or string.
func (pr *packetRun) writeSlice(st *State, ci *CallInfo, to, what *Term) ([]*State, bool) {
	in := pr.In
	both := func(n, err *Term) *Term { return tuple(n, err) }
	if st.ghost["$held:"+what.String()] == what {
		e := &Event{Kind: "OutHeld", Name: ci.name, Args: []*Term{what}, Pos: ci.pos, instr: ci.instr}
		if to != pr.IO {
			e.Dest = to
		}
		return pr.output(st, ci, e, to.Op == "newbuf" || to.Op == "alloc", in.lenOf(st, what), both, errOf(ci)), true
	}
	items, ok := in.contentOf(st, what)
	if !ok {
		in.undecided("what is written at %s is not known", in.posStr(ci.pos))
		return nil, true
	}
	return pr.write(st, ci, to, items, both, errOf(ci)), true
}

func order(t *Term) (little, ok bool) {
	s := ""
	if t.Typ != nil {
		s = types.TypeString(t.Typ, nil)
	}
	return strings.HasSuffix(s, "littleEndian"), strings.HasSuffix(s, "littleEndian") || strings.HasSuffix(s, "bigEndian")
}

// numberItems are the bytes of a number in the given order.
func (in *Interp) numberItems(st *State, v *Term, bytes int64, little bool) []*Term {
	var out []*Term
	for i := int64(0); i < bytes; i++ {
		k := bytes - 1 - i
		if little {
			k = i
		}
		out = append(out, itemByte(in.byteOfNumber(st, v, k)))
	}
	return out
}

// writeModel is what the functions do that encoders use.
func (pr *packetRun) writeModel(in *Interp, st *State, ci *CallInfo) ([]*State, bool) {
	a := ci.args
	both := func(n, err *Term) *Term { return tuple(n, err) }
	if ss, ok := pr.bufferModel(in, st, ci); ok {
		return ss, true
	}
	if pr.atomic {
		switch pr.L.varintMethod(ci.fn) {
		case "Length":
			v := in.load(st, a[0], namedOf(ci.fn.Signature.Recv().Type()), ci.pos, ci.instr)
			p := vlenPoly(v)
			if a[1].isTrue() {
				p = p.plus(pConst(1))
			} else if !a[1].isFalse() {
				p = p.plus(guardPoly(a[1]))
			}
			st.ghost["$ret"] = polyTerm(p, ci.typ)
			return []*State{st}, true
		case "WriteTo":
			v := in.load(st, a[0], namedOf(ci.fn.Signature.Recv().Type()), ci.pos, ci.instr)
			to := pr.sink(a[1])
			if to == nil {
				in.undecided("a number is written to something else than the writer at %s", in.posStr(ci.pos))
				return nil, true
			}
			var out []*State
			big := st.clone()
			if st.facts.assume(tLe0(toPoly(v).minus(pConst(maxRemaining))), true) {
				out = pr.write(st, ci, to, []*Term{itemVi(v)}, both, errOf(ci))
			}
			if !pr.noFail && big.facts.assume(tLe0(toPoly(v).minus(pConst(maxRemaining))), false) {
				e := sym(in.evalName(big, ci.instr)+"#toolarge", errOf(ci))
				big.facts.assume(mkIsNil(e), false)
				in.event(big, &Event{Kind: "Refused", Name: ci.name, Args: []*Term{e}, Pos: ci.pos, instr: ci.instr})
				big.ghost["$ret"] = tuple(sym(in.evalName(big, ci.instr)+"#n", i64Type()), e)
				big.ghost["$failed"] = cBool(true)
				out = append(out, big)
			}
			return out, true
		}
	}
	if ci.recv != nil && ci.method != nil && ci.method.Name() == "Write" {
		if to := pr.sink(ci.recv); to != nil {
			return pr.writeSlice(st, ci, to, a[0])
		}
	}
	switch ci.name {
	case "io.WriteString":
		if to := pr.sink(a[0]); to != nil {
			return pr.writeSlice(st, ci, to, a[1])
		}
	case "encoding/binary.Write":
		little, ok := order(a[1])
		to := pr.sink(a[0])
		if to == nil || !ok || a[2].Op != "iface" {
			break
		}
		v, t := a[2].Args[0], a[2].Typ
		if pt, isPtr := t.Underlying().(*types.Pointer); isPtr {
			v, t = in.load(st, v, pt.Elem(), ci.pos, ci.instr), pt.Elem()
		}
		if bits, _, isInt := typeBits(t); isInt {
			if b := t.Underlying().(*types.Basic); b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
				break
			}
			return pr.write(st, ci, to, in.numberItems(st, v, int64(bits/8), little), func(n, err *Term) *Term { return err }, ci.typ), true
		}
		if _, isSl := t.Underlying().(*types.Slice); isSl {
			if items, ok := in.contentOf(st, v); ok {
				return pr.write(st, ci, to, items, func(n, err *Term) *Term { return err }, ci.typ), true
			}
		}
	case "encoding/binary.PutUvarint", "encoding/binary.AppendUvarint":
		v := a[1]
		k := bytesFor(st.facts.ivOf(v))
		if k == 0 {
			break
		}
		var bs []*Term
		for i := int64(0); i < k; i++ {
			x := in.convert(st, in.bitop("&", in.shr(v, 7*i, v.Typ), cInt(127), v.Typ), types.Typ[types.Int64], u8Type())
			if i < k-1 {
				x = in.bitop("|", x, cInt(128), u8Type())
			}
			bs = append(bs, x)
		}
		if ci.name == "encoding/binary.AppendUvarint" {
			st.ghost["$ret"] = appendBytes(a[0], bs, ci.typ)
			return []*State{st}, true
		}
		in.oblig(st, "index", ci.instr, "room for the number", in.proveAtLeast(st, in.lenOf(st, a[0]), k))
		if !in.putBytes(st, a[0], bs) {
			break
		}
		st.ghost["$ret"] = cInt(k)
		return []*State{st}, true
	}
	if ci.fn != nil && ci.sig.Recv() != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "encoding/binary" {
		bits := int64(0)
		switch {
		case strings.HasSuffix(ci.fn.Name(), "Uint16"):
			bits = 16
		case strings.HasSuffix(ci.fn.Name(), "Uint32"):
			bits = 32
		case strings.HasSuffix(ci.fn.Name(), "Uint64"):
			bits = 64
		}
		little := strings.Contains(types.TypeString(ci.sig.Recv().Type(), nil), "little")
		if bits > 0 && strings.HasPrefix(ci.fn.Name(), "Put") {
			in.oblig(st, "index", ci.instr, "room for the number", in.proveAtLeast(st, in.lenOf(st, a[1]), bits/8))
			var bs []*Term
			for _, it := range in.numberItems(st, a[2], bits/8, little) {
				bs = append(bs, it.Args[0])
			}
			if in.putBytes(st, a[1], bs) {
				st.ghost["$ret"] = cNil()
				return []*State{st}, true
			}
		}
		if bits > 0 && strings.HasPrefix(ci.fn.Name(), "Append") {
			var bs []*Term
			for _, it := range in.numberItems(st, a[2], bits/8, little) {
				bs = append(bs, it.Args[0])
			}
			st.ghost["$ret"] = appendBytes(a[1], bs, ci.typ)
			return []*State{st}, true
		}
	}
	if ci.fn != nil && ci.fn.Pkg != nil && ci.fn.Pkg.Pkg.Path() == "math/bits" && (ci.fn.Name() == "Len32" || ci.fn.Name() == "Len" || ci.fn.Name() == "Len64") {
		iv := st.facts.ivOf(a[0])
		if iv.lo >= 0 && bitLen(iv.lo) == bitLen(iv.hi) {
			st.ghost["$ret"] = cInt(bitLen(iv.lo))
			return []*State{st}, true
		}
	}
	return nil, false
}

func appendBytes(s *Term, bs []*Term, t types.Type) *Term {
	if s.Op == "append" {
		return mk("append", "", 0, t, append(append([]*Term{}, s.Args...), bs...)...)
	}
	return mk("append", "", 0, t, append([]*Term{s}, bs...)...)
}

// putBytes stores bytes at the beginning of a slice.
func (in *Interp) putBytes(st *State, s *Term, bs []*Term) bool {
	if s.Op != "slice" || !s.Args[1].isInt() {
		return false
	}
	for i, b := range bs {
		st.heap[mkIA(s.Args[0], cInt(s.Args[1].Int+int64(i)), u8Type())] = b
	}
	delete(st.heap, bufCell(s.Args[0]))
	return true
}

func bitLen(n int64) int64 {
	k := int64(0)
	for ; n > 0; n >>= 1 {
		k++
	}
	return k
}

// bytesFor is the number of base-128 digits of all numbers of an interval, or 0 if they differ.
func bytesFor(iv Iv) int64 {
	if iv.lo < 0 || iv.hi >= posInf {
		return 0
	}
	d := func(n int64) int64 { return max((bitLen(n)+6)/7, 1) }
	if d(iv.lo) != d(iv.hi) {
		return 0
	}
	return d(iv.lo)
}

// numberBits are the lowest bits of a number, as atoms if nothing more is known.
func numberBits(v *Term, w int) []*Poly {
	b := bitsOf(v)
	if b == nil {
		b = []*Poly{}
		for i := 0; i < w; i++ {
			b = append(b, pAtom(bitAtom(v, i)))
		}
	}
	if len(b) > w {
		b = b[:w]
	}
	return b
}

// emitsNumber tells whether items are the bytes of a number, high byte first.
func emitsNumber(items []*Term, v *Term) bool {
	var k numberKey
	if len(items) > len(k.items) {
		return false
	}
	copy(k.items[:], items)
	k.v, k.n = v, len(items)
	r, ok := numberMemo[k]
	if !ok {
		if len(numberMemo) > 50000 {
			numberMemo = map[numberKey]bool{}
		}
		r = isNumber(items, v)
		numberMemo[k] = r
	}
	return r
}

type numberKey struct {
	items [8]*Term
	v     *Term
	n     int
}

var numberMemo = map[numberKey]bool{}

func isNumber(items []*Term, v *Term) bool {
	w := 8 * len(items)
	b := numberBits(v, w)
	for i, it := range items {
		if it.Op != "b" {
			return false
		}
		x := numberBits(it.Args[0], 8)
		for j := 0; j < 8; j++ {
			if !bitAt(x, j).eq(bitAt(b, w-8-8*i+j)) {
				return false
			}
		}
	}
	return true
}

var _ = fmt.Sprint
var _ *ssa.Function
