package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The packet model runs encoders and decoders of the packets package with everything of the primitives inlined. Reads of
// the stream are events; the bytes they deliver are terms: data(name, n) is a block of n bytes that one read delivered,
// byteof(d, i) one of its bytes and be(d, i) of width k the big-endian number that starts there.

const maxRemaining = 268435455

// packetRun is the analysis of one encoder or decoder.
type packetRun struct {
	L    *Loaded
	In   *Interp
	Name string
	Fn   *ssa.Function
	Typ  *types.Named
	Obj  *Term
	IO   *Term // the reader or writer it was given
	Pos  *Term // cell with the number of bytes read from the reader
	Init *State

	atomic bool // variable byte integers are written as a whole
	noFail bool // writes do not fail
}

func bufCell(a *Term) *Term { return mk("fa", "$content", 0, nil, a) }

func u8Type() types.Type  { return types.Typ[types.Uint8] }
func i64Type() types.Type { return types.Typ[types.Int64] }

// bigEndian is the number of k bytes that starts at byte i of a block.
func bigEndian(d *Term, i int64, bits int) *Term {
	if bits == 8 {
		return mk("byteof", "", i, u8Type(), d)
	}
	t := types.Typ[types.Uint16]
	if bits == 32 {
		t = types.Typ[types.Uint32]
	} else if bits == 64 {
		t = types.Typ[types.Uint64]
	}
	return mk("be", fmt.Sprint(bits), i, t, d)
}

// reader looks at a reader: the limits on the way to the base reader.
func (pr *packetRun) reader(st *State, r *Term) (limits []*Term, ok bool) {
	for i := 0; i < 8; i++ {
		if r == pr.IO {
			return limits, true
		}
		if r.Op != "iface" {
			return nil, false
		}
		if !typeIs(r.Typ, "io", "LimitedReader") {
			return nil, false
		}
		a := r.Args[0]
		limits = append(limits, a)
		r = pr.In.peek(st, limitField(a, "R"))
	}
	return nil, false
}

var limitedReader *types.Named // io.LimitedReader

func limitField(a *Term, name string) *Term {
	st := limitedReader.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return mkFA(a, limitedReader, i)
		}
	}
	return nil
}

func findLimitedReader(L *Loaded) {
	for _, p := range L.prog.AllPackages() {
		if p.Pkg.Path() == "io" {
			if o := p.Pkg.Scope().Lookup("LimitedReader"); o != nil {
				limitedReader, _ = o.Type().(*types.Named)
			}
		}
	}
}

// take consumes n bytes of the stream. The facts must not contradict it.
func (pr *packetRun) take(st *State, limits []*Term, n *Poly) bool {
	for _, l := range limits {
		nc := limitField(l, "N")
		v := toPoly(pr.In.peek(st, nc))
		if !st.facts.assume(tLe0(n.minus(v)), true) {
			return false
		}
		st.heap[nc] = polyTerm(v.minus(n), i64Type())
	}
	st.heap[pr.Pos] = polyTerm(toPoly(st.heap[pr.Pos]).plus(n), i64Type())
	return true
}

// guard is the number of bytes that may at most have been consumed after a read of n bytes, if anything limits that.
func (pr *packetRun) guard(st *State, limits []*Term, n *Poly) []*Poly {
	var out []*Poly
	pos := toPoly(st.heap[pr.Pos])
	if n != nil {
		out = append(out, pos.plus(n))
	}
	for _, l := range limits {
		out = append(out, pos.plus(toPoly(pr.In.peek(st, limitField(l, "N")))))
	}
	return out
}

func (pr *packetRun) failTake(st *State, limits []*Term, name string, n *Poly) *Term {
	k := sym(name+"#part", types.Typ[types.Uint])
	if n != nil {
		if !st.facts.assume(tLe0(pAtom(k).minus(n)), true) {
			return nil
		}
	}
	if !pr.take(st, limits, pAtom(k)) {
		return nil
	}
	return k
}

// readEvent records a read: Args are what was read, the position before it and how much may have been read at most.
func (pr *packetRun) readEvent(st *State, ci *CallInfo, kind string, v *Term, before *Term, guards []*Poly) {
	args := []*Term{v, before}
	for _, g := range guards {
		args = append(args, polyTerm(g, i64Type()))
	}
	pr.In.event(st, &Event{Kind: kind, Name: ci.name, Args: args, Pos: ci.pos, instr: ci.instr})
}

// readFull reads exactly n bytes: deliver stores them.
func (pr *packetRun) readFull(st *State, ci *CallInfo, r *Term, n *Term, deliver func(s *State, d *Term), ret func(s *State, n, err *Term) *Term, errT types.Type) []*State {
	limits, ok := pr.reader(st, r)
	if !ok {
		pr.In.undecided("read from something else than the stream at %s", pr.In.posStr(ci.pos))
		return nil
	}
	name := pr.In.evalName(st, ci.instr)
	var out []*State
	fail := st.clone()
	p := toPoly(n)
	before := st.heap[pr.Pos]
	g := pr.guard(st, limits, p)
	// complete
	if pr.take(st, limits, p) {
		d := mk("data", name, 0, types.NewSlice(u8Type()), n)
		pr.readEvent(st, ci, "Read", d, before, g)
		deliver(st, d)
		st.ghost["$ret"] = ret(st, n, cNil())
		out = append(out, st)
	}
	// failed: less than n
	if fail.facts.assume(tLe0(pConst(1).minus(p)), true) {
		e := sym(name+"#err", errT)
		fail.facts.assume(mkIsNil(e), false)
		if k := pr.failTake(fail, limits, name, p.minus(pConst(1))); k != nil {
			pr.readEvent(fail, ci, "ReadFail", e, before, g)
			fail.ghost["$ret"] = ret(fail, k, e)
			out = append(out, fail)
		}
	}
	return out
}

// fill puts a block that was read into the memory of a buffer.
func (pr *packetRun) fill(st *State, ci *CallInfo, buf, d *Term) {
	if buf.Op != "slice" {
		pr.In.undecided("read into a buffer that is not known at %s", pr.In.posStr(ci.pos))
		return
	}
	base, off, n := buf.Args[0], buf.Args[1], buf.Args[2]
	if n.isInt() && n.Int == 1 && off.isInt() && off.Int == 0 && base.Typ != nil && !isArrayCell(base) {
		// the address of a byte
		pr.In.store(st, base, bigEndian(d, 0, 8), u8Type(), ci.pos, ci.instr)
	}
	if n.isInt() && n.Int <= 64 && off.isInt() {
		for i := int64(0); i < n.Int; i++ {
			st.heap[mkIA(base, cInt(off.Int+i), u8Type())] = bigEndian(d, i, 8)
		}
	} else {
		for a := range st.heap {
			if a.Op == "ia" && a.Args[0] == base {
				delete(st.heap, a)
			}
		}
	}
	delete(st.heap, bufCell(base))
	if off.isInt() && off.Int == 0 {
		st.heap[bufCell(base)] = d
	}
}

func isArrayCell(a *Term) bool {
	if a.Typ == nil {
		return false
	}
	_, ok := a.Typ.Underlying().(*types.Array)
	return ok || strings.HasSuffix(a.Str, "(make)")
}

func tuple(a ...*Term) *Term { return mk("tuple", "", 0, nil, a...) }

func errOf(ci *CallInfo) types.Type {
	if t, ok := ci.typ.(*types.Tuple); ok && t.Len() > 0 {
		return t.At(t.Len() - 1).Type()
	}
	return ci.typ
}

// varint tells whether a function is a method of the variable byte integer type.
func (L *Loaded) varintMethod(fn *ssa.Function) string {
	if fn == nil || fn.Signature.Recv() == nil {
		return ""
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg() != L.prims.Pkg || n.Obj().Name() != "VariableByteInt" {
		return ""
	}
	return fn.Name()
}

func (pr *packetRun) model(in *Interp, st *State, ci *CallInfo) ([]*State, bool) {
	if ss, ok := pr.writeModel(in, st, ci); ok {
		return ss, true
	}
	a := ci.args
	both := func(s *State, n, err *Term) *Term { return tuple(n, err) }
	switch pr.L.varintMethod(ci.fn) {
	case "ReadFrom":
		name := in.evalName(st, ci.instr)
		v := sym(name+"#varint", types.Typ[types.Uint32])
		st.facts.assume(tLe0(toPoly(v).minus(pConst(maxRemaining))), true)
		limits, ok := pr.reader(st, a[1])
		if !ok {
			in.undecided("variable byte integer read from something else than the stream at %s", in.posStr(ci.pos))
			return nil, true
		}
		fail := st.clone()
		n := mk("vlen", "", 0, i64Type(), v)
		before := st.heap[pr.Pos]
		g := pr.guard(st, limits, pAtom(n))
		var out []*State
		if pr.take(st, limits, pAtom(n)) {
			pr.readEvent(st, ci, "Read", v, before, g)
			vt := namedOf(ci.fn.Signature.Recv().Type())
			in.store(st, a[0], v, vt, ci.pos, ci.instr)
			st.ghost["$ret"] = tuple(n, cNil())
			out = append(out, st)
		}
		e := sym(name+"#err", errOf(ci))
		fail.facts.assume(mkIsNil(e), false)
		if k := pr.failTake(fail, limits, name, pConst(4)); k != nil {
			pr.readEvent(fail, ci, "ReadFail", e, before, g)
			fail.ghost["$ret"] = tuple(sym(name+"#n", i64Type()), e)
			out = append(out, fail)
		}
		return out, true
	}
	switch ci.name {
	case "io.ReadFull":
		buf := a[1]
		return pr.readFull(st, ci, a[0], in.lenOf(st, buf), func(s *State, d *Term) { pr.fill(s, ci, buf, d) }, both, errOf(ci)), true
	case "io.ReadAtLeast":
		buf := a[1]
		n := in.lenOf(st, buf)
		if toPoly(n).eq(toPoly(a[2])) {
			return pr.readFull(st, ci, a[0], n, func(s *State, d *Term) { pr.fill(s, ci, buf, d) }, both, errOf(ci)), true
		}
		return pr.readSome(st, ci, a[0], buf, a[2]), true
	case "io.ReadAll":
		return pr.readAll(st, ci, a[0]), true
	case "io.LimitReader":
		l := mk("alloc", in.evalName(st, ci.instr)+"(limit)", 0, limitedReader)
		st.fresh[l] = true
		st.heap[limitField(l, "R")] = a[0]
		st.heap[limitField(l, "N")] = a[1]
		st.ghost["$ret"] = mk("iface", "", 0, types.NewPointer(limitedReader), l)
		return []*State{st}, true
	case "io.CopyN":
		if a[0].Op == "init" && a[0].Args[0].Op == "global" && strings.HasSuffix(a[0].Args[0].Str, "io.Discard") || strings.Contains(a[0].String(), "Discard") {
			return pr.readFull(st, ci, a[1], a[2], func(*State, *Term) {}, both, errOf(ci)), true
		}
	case "encoding/binary.Read":
		ptr := a[2]
		if ptr.Op == "iface" {
			if pt, ok := ptr.Typ.Underlying().(*types.Pointer); ok {
				if bits, _, ok := typeBits(pt.Elem()); ok && (bits == 8 || isBigEndian(a[1])) {
					return pr.readFull(st, ci, a[0], cInt(int64(bits/8)), func(s *State, d *Term) {
						in.store(s, ptr.Args[0], bigEndian(d, 0, bits), pt.Elem(), ci.pos, ci.instr)
					}, func(s *State, n, err *Term) *Term { return err }, ci.typ), true
				}
				if bits, _, ok := typeBits(pt.Elem()); ok {
					return pr.readFull(st, ci, a[0], cInt(int64(bits/8)), func(s *State, d *Term) {
						in.store(s, ptr.Args[0], mk("le", fmt.Sprint(bits), 0, pt.Elem(), d), pt.Elem(), ci.pos, ci.instr)
					}, func(s *State, n, err *Term) *Term { return err }, ci.typ), true
				}
			}
		}
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64":
		bits := 16
		if strings.HasSuffix(ci.name, "32") {
			bits = 32
		} else if strings.HasSuffix(ci.name, "64") {
			bits = 64
		}
		b := a[1]
		ok := in.proveAtLeast(st, in.lenOf(st, b), int64(bits/8))
		in.oblig(st, "index", ci.instr, fmt.Sprintf("%d bytes to decode", bits/8), ok)
		st.ghost["$ret"] = sym(in.evalName(st, ci.instr)+"#num", ci.typ)
		if b.Op == "slice" && b.Args[1].isInt() {
			var d *Term
			start := int64(0)
			good := true
			for i := int64(0); i < int64(bits/8); i++ {
				v := st.heap[mkIA(b.Args[0], cInt(b.Args[1].Int+i), u8Type())]
				if v == nil || v.Op != "byteof" || i > 0 && (v.Args[0] != d || v.Int != start+i) {
					good = false
					break
				}
				if i == 0 {
					d, start = v.Args[0], v.Int
				}
			}
			if good {
				st.ghost["$ret"] = bigEndian(d, start, bits)
			}
		}
		return []*State{st}, true
	}
	if ci.recv != nil && ci.method != nil && ci.method.Name() == "Read" && (ci.recv == pr.IO || ci.recv.Op == "iface") {
		return pr.readSome(st, ci, ci.recv, a[0], cInt(0)), true
	}
	if ci.fn != nil && ci.fn.Name() == "Read" && ci.sig.Recv() != nil && typeIs(ci.sig.Recv().Type(), "io", "LimitedReader") {
		r := mk("iface", "", 0, types.NewPointer(limitedReader), a[0])
		return pr.readSome(st, ci, r, a[1], cInt(0)), true
	}
	return nil, false
}

func (in *Interp) proveAtLeast(st *State, n *Term, k int64) bool {
	return st.facts.proveLe(pConst(k).minus(toPoly(n)))
}

func isBigEndian(t *Term) bool {
	return t.Op == "iface" && t.Typ != nil && strings.HasSuffix(types.TypeString(t.Typ, nil), "bigEndian")
}

// readSome is a read that may deliver anything from min to all bytes of a buffer without an error.
func (pr *packetRun) readSome(st *State, ci *CallInfo, r, buf, min *Term) []*State {
	limits, ok := pr.reader(st, r)
	if !ok {
		pr.In.undecided("read from something else than the stream at %s", pr.In.posStr(ci.pos))
		return nil
	}
	in := pr.In
	name := in.evalName(st, ci.instr)
	n := in.lenOf(st, buf)
	before := st.heap[pr.Pos]
	g := pr.guard(st, limits, toPoly(n))
	fail := st.clone()
	var out []*State
	k := sym(name+"#got", types.Typ[types.Uint])
	if st.facts.assume(tLe0(pAtom(k).minus(toPoly(n))), true) && st.facts.assume(tLe0(toPoly(min).minus(pAtom(k))), true) && pr.take(st, limits, pAtom(k)) {
		d := mk("data", name, 0, types.NewSlice(u8Type()), n)
		in.event(st, &Event{Kind: "ReadPart", Name: ci.name, Args: []*Term{d, before, polyTerm(toPoly(n).minus(pAtom(k)), nil)}, Pos: ci.pos, instr: ci.instr})
		pr.readEvent(st, ci, "Read", d, before, g)
		pr.fill(st, ci, buf, d)
		st.ghost["$ret"] = tuple(k, cNil())
		out = append(out, st)
	}
	e := sym(name+"#err", errOf(ci))
	fail.facts.assume(mkIsNil(e), false)
	if m := pr.failTake(fail, limits, name, toPoly(n)); m != nil {
		pr.readEvent(fail, ci, "ReadFail", e, before, g)
		fail.ghost["$ret"] = tuple(m, e)
		out = append(out, fail)
	}
	return out
}

// readAll reads until the end of the stream, which for a limited reader need not be the limit.
func (pr *packetRun) readAll(st *State, ci *CallInfo, r *Term) []*State {
	limits, ok := pr.reader(st, r)
	if !ok {
		pr.In.undecided("read from something else than the stream at %s", pr.In.posStr(ci.pos))
		return nil
	}
	name := pr.In.evalName(st, ci.instr)
	before := st.heap[pr.Pos]
	g := pr.guard(st, limits, nil)
	fail := st.clone()
	var out []*State
	k := sym(name+"#got", types.Typ[types.Uint])
	if pr.take(st, limits, pAtom(k)) {
		d := mk("data", name, 0, types.NewSlice(u8Type()), k)
		rest := cInt(1)
		if len(limits) > 0 {
			rest = pr.In.peek(st, limitField(limits[0], "N"))
		}
		pr.In.event(st, &Event{Kind: "ReadPart", Name: ci.name, Args: []*Term{d, before, rest}, Pos: ci.pos, instr: ci.instr})
		pr.readEvent(st, ci, "Read", d, before, g)
		st.ghost["$ret"] = tuple(d, cNil())
		out = append(out, st)
	}
	e := sym(name+"#err", errOf(ci))
	fail.facts.assume(mkIsNil(e), false)
	if m := pr.failTake(fail, limits, name, nil); m != nil {
		pr.readEvent(fail, ci, "ReadFail", e, before, g)
		fail.ghost["$ret"] = tuple(sym(name+"#buf", types.NewSlice(u8Type())), e)
		out = append(out, fail)
	}
	return out
}

// remainingOf and headerOf are the cells of the fixed header of a packet.
func headerCells(obj *Term, t types.Type) (head, rem *Term) {
	a, ft := fieldAddr(obj, t, "Header")
	if a == nil {
		return nil, nil
	}
	if _, ok := ft.Underlying().(*types.Struct); !ok {
		// the fixed header itself
		rem, _ = fieldAddr(obj, t, "Remaining")
		return a, rem
	}
	head, _ = fieldAddr(a, ft, "Header")
	rem, _ = fieldAddr(a, ft, "Remaining")
	return
}

// runDecoder analyses the ReadFrom of a packet type. The fixed header has been read: its first byte is header, or
// anything if that is nil.
func runDecoder(L *Loaded, named string, header *Term) *packetRun {
	return runDecoderOpt(L, named, header, nil)
}

func runDecoderOpt(L *Loaded, named string, header *Term, opt func(pr *packetRun, in *Interp)) *packetRun {
	t := L.namedType(L.packets, named)
	fn := L.method(L.packets, named, "ReadFrom")
	if t == nil || fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	if limitedReader == nil {
		findLimitedReader(L)
	}
	n := namedOf(t)
	pr := &packetRun{L: L, Name: named, Fn: fn, Typ: n}
	in := newInterp(L)
	in.root = named + ".ReadFrom"
	in.model = pr.model
	pr.In = in
	pr.Obj = sym("p", types.NewPointer(n))
	pr.IO = sym("r", fn.Params[1].Type())
	pr.Pos = mk("fa", "$consumed", 0, i64Type(), pr.IO)
	in.linkCell = pr.Pos
	st := in.newState(fn, []*Term{pr.Obj, pr.IO})
	st.facts.assume(mkIsNil(pr.Obj), false)
	st.facts.assume(mkIsNil(pr.IO), false)
	st.heap[pr.Pos] = cInt(0)
	h, rem := headerCells(pr.Obj, n)
	if h != nil && header != nil {
		st.heap[h] = header
	}
	if rem != nil {
		st.facts.assume(tLe0(toPoly(in.peek(st, rem)).minus(pConst(maxRemaining))), true)
	}
	if opt != nil {
		opt(pr, in)
	}
	pr.Init = st.clone()
	in.run(st)
	return pr
}

// remaining is the remaining length of the fixed header that the decoder was given.
func (pr *packetRun) remaining() *Poly {
	_, rem := headerCells(pr.Obj, pr.Typ)
	if rem == nil {
		return nil
	}
	return toPoly(pr.In.peek(pr.Init, rem))
}

// runPrimitive analyses a method of a type of the primitives package.
func runPrimitive(L *Loaded, named, method string, opts ...func(pr *packetRun, st *State)) *packetRun {
	t := L.namedType(L.prims, named)
	fn := L.method(L.prims, named, method)
	if t == nil || fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	if limitedReader == nil {
		findLimitedReader(L)
	}
	pr := &packetRun{L: L, Name: named, Fn: fn, Typ: namedOf(t)}
	in := newInterp(L)
	in.root = named + "." + method
	in.model = pr.model
	pr.In = in
	pr.Obj = sym("p", types.NewPointer(pr.Typ))
	pr.IO = sym("r", fn.Params[len(fn.Params)-1].Type())
	pr.Pos = mk("fa", "$consumed", 0, i64Type(), pr.IO)
	in.linkCell = pr.Pos
	args := []*Term{pr.Obj}
	for i := 1; i < len(fn.Params)-1; i++ {
		args = append(args, sym(fn.Params[i].Name(), fn.Params[i].Type()))
	}
	args = append(args, pr.IO)
	st := in.newState(fn, args)
	st.facts.assume(mkIsNil(pr.Obj), false)
	st.facts.assume(mkIsNil(pr.IO), false)
	st.heap[pr.Pos] = cInt(0)
	for _, o := range opts {
		o(pr, st)
	}
	pr.Init = st.clone()
	in.run(st)
	return pr
}

func runVarint(L *Loaded, method string) *packetRun {
	return runPrimitive(L, "VariableByteInt", method)
}
