package main

import (
	"fmt"
	"go/token"
)

// C08: the variable byte integer codec, its loops unrolled. The encoder and the length are analysed for each number of
// significant bits, 0 to 32, which together are all values; the decoder for any bytes.

// bitClass is the interval of the numbers with k significant bits.
func bitClass(k int) Iv {
	if k == 0 {
		return Iv{0, 0}
	}
	return Iv{1 << uint(k-1), 1<<uint(k) - 1}
}

// inClass replaces the bits of x that are known in its class.
func inClass(b []*Poly, x *Term, k int) []*Poly {
	var out []*Poly
	for _, p := range b {
		out = append(out, p.subst(func(a *Term) *Poly {
			if a.Op == "bit" && a.Args[0] == x {
				if int(a.Int) >= k {
					return newPoly()
				}
				if int(a.Int) == k-1 {
					return pConst(1)
				}
			}
			return nil
		}))
	}
	return out
}

// written is the concatenation of what a path wrote.
func written(tr []*Event) []*Term {
	var out []*Term
	for _, e := range tr {
		if e.Kind == "Out" {
			out = append(out, e.Args...)
		}
	}
	return out
}

func checkC08(r *Report, L *Loaded) {
	r.Rule = "with its loops unrolled, the encoder writes, for every number of significant bits, the base-128 digits of the value with continuation bits on all but the last, as few as possible, or fails without writing above 268,435,455; the length is that number of bytes; the decoder takes at most 4 bytes, ends at the first without the continuation bit, yields the value of their bits and fails only for a fourth byte with it"
	r.Assume = append(r.Assume, "values are split by their number of significant bits (33 classes that cover uint32); the unrolling bound is an outcome of the analysis: a loop that may run longer is reported")
	for k := 0; k <= 32; k++ {
		iv := bitClass(k)
		digits := bytesFor(iv)
		if iv.lo > maxRemaining {
			digits = 0
		}
		var x *Term
		pr := runPrimitive(L, "VariableByteInt", "WriteTo", func(pr *packetRun, st *State) {
			pr.In.unroll = 12
			x = mk("init", "", 0, pr.Typ, pr.Obj)
			if iv.lo == iv.hi {
				st.heap[pr.Obj] = cInt(iv.lo)
				x = cInt(iv.lo)
			} else {
				between(st, x, iv)
			}
		})
		if pr == nil {
			r.violate("missing:WriteTo", token.NoPos, "the variable byte integer has no WriteTo")
			return
		}
		checkVarintWrite(r, pr, x, k, digits)
		for _, prop := range []bool{false, true} {
			checkVarintLength(r, L, k, digits, prop)
		}
	}
	checkVarintRead(r, L)
	r.floor("encoder classes", 33)
	r.floor("decoder paths", 8)
}

func checkVarintWrite(r *Report, pr *packetRun, x *Term, k int, digits int64) {
	r.count("encoder classes", 1)
	for _, u := range pr.In.undec {
		r.violate("undecided:WriteTo", pr.Fn.Pos(), "VariableByteInt.WriteTo cannot be decided: %s", u)
	}
	what := fmt.Sprintf("a value of %d significant bits", k)
	ok := 0
	for _, o := range pr.In.outcomes {
		if o.Kind != "return" {
			r.violate("panic:WriteTo", o.Pos, "VariableByteInt.WriteTo does not return for %s", what)
			continue
		}
		r.count("encoder paths", 1)
		failed := hasKind(o.State.trace, "WriteFail") != nil
		items := written(o.State.trace)
		err := retErr(o)
		switch {
		case failed && err != 1:
			r.violate("ignored:WriteTo", o.Pos, "VariableByteInt.WriteTo may return without an error although a write failed")
		case failed:
		case digits == 0:
			if err != 1 {
				r.violate("too-large:WriteTo", o.Pos, "VariableByteInt.WriteTo accepts %s, more than 268,435,455", what)
			}
			if len(items) > 0 {
				r.violate("too-large-written:WriteTo", o.Pos, "VariableByteInt.WriteTo writes something for %s, more than 268,435,455", what)
			}
		case err != 0:
			r.violate("refused:WriteTo", o.Pos, "VariableByteInt.WriteTo refuses %s, which 4 bytes can hold", what)
		default:
			ok++
			if int64(len(items)) != digits {
				r.violate("digits:WriteTo", o.Pos, "VariableByteInt.WriteTo writes %d bytes for %s instead of %d", len(items), what, digits)
				continue
			}
			if n := toPoly(o.Ret[0]); !n.eq(pConst(digits)) {
				r.violate("count:WriteTo", o.Pos, "VariableByteInt.WriteTo reports another number of bytes than it wrote for %s", what)
			}
			want := inClass(numberBits(x, 32), x, k)
			for i, it := range items {
				if it.Op != "b" {
					r.violate("opaque:WriteTo", o.Pos, "what VariableByteInt.WriteTo writes for %s is not known", what)
					break
				}
				got := inClass(numberBits(it.Args[0], 8), x, k)
				bad := false
				for j := 0; j < 7; j++ {
					bad = bad || !bitAt(got, j).eq(bitAt(want, 7*i+j))
				}
				if bad {
					r.violate("value:WriteTo", o.Pos, "byte %d that VariableByteInt.WriteTo writes for %s does not hold bits %d to %d of the value", i+1, what, 7*i, 7*i+6)
				}
				more := int64(0)
				if int64(i) < digits-1 {
					more = 1
				}
				if !bitAt(got, 7).eq(pConst(more)) {
					r.violate("continuation:WriteTo", o.Pos, "byte %d of %d that VariableByteInt.WriteTo writes for %s has a wrong continuation bit", i+1, digits, what)
				}
			}
		}
	}
	if digits > 0 && ok == 0 {
		r.violate("never:WriteTo", pr.Fn.Pos(), "VariableByteInt.WriteTo never succeeds for %s", what)
	}
}

func checkVarintLength(r *Report, L *Loaded, k int, digits int64, prop bool) {
	fn := L.method(L.prims, "VariableByteInt", "Length")
	t := L.namedType(L.prims, "VariableByteInt")
	if fn == nil || t == nil || len(fn.Params) != 2 {
		r.violate("missing:Length", token.NoPos, "the variable byte integer has no Length(property)")
		return
	}
	pr := &packetRun{L: L, Name: "VariableByteInt", Fn: fn, Typ: namedOf(t)}
	in := newInterp(L)
	in.root, in.model, in.unroll = "VariableByteInt.Length", pr.model, 40
	pr.In = in
	pr.Obj = sym("p", fn.Params[0].Type())
	pr.IO = sym("none", nil)
	st := in.newState(fn, []*Term{pr.Obj, cBool(prop)})
	st.facts.assume(mkIsNil(pr.Obj), false)
	iv := bitClass(k)
	if iv.lo == iv.hi {
		st.heap[pr.Obj] = cInt(iv.lo)
	} else {
		between(st, mk("init", "", 0, pr.Typ, pr.Obj), iv)
	}
	in.run(st)
	for _, u := range in.undec {
		r.violate("undecided:Length", fn.Pos(), "VariableByteInt.Length cannot be decided: %s", u)
	}
	want := digits
	if prop && digits > 0 {
		want++
	}
	for _, o := range in.outcomes {
		if o.Kind != "return" {
			r.violate("panic:Length", o.Pos, "VariableByteInt.Length does not return for a value of %d significant bits", k)
			continue
		}
		r.count("length paths", 1)
		if digits == 0 {
			continue // cannot be encoded, there is no length
		}
		iv := o.State.facts.ivOf(o.Ret[0])
		if iv.lo != want || iv.hi != want {
			r.violate("length", o.Pos, "VariableByteInt.Length(%v) is not %d for a value of %d significant bits", prop, want, k)
		}
	}
}

// knownBits are the bits that the conditions on a path decide.
func knownBits(f *Facts) map[*Term]int64 {
	known := map[*Term]int64{}
	for changed := true; changed; {
		changed = false
		for t, v := range f.truth {
			p := truthPoly(t).subst(func(a *Term) *Poly {
				if n, ok := known[a]; ok {
					return pConst(n)
				}
				return nil
			})
			if !v {
				p = pConst(1).minus(p)
			}
			// p is 1: the product of all factors that are bits
			set := func(a *Term, n int64) {
				if _, ok := known[a]; !ok {
					known[a] = n
					changed = true
				}
			}
			if len(p.m) == 1 {
				for _, mo := range p.m {
					if mo.c == 1 {
						for _, a := range mo.a {
							if a.Op == "bit" {
								set(a, 1)
							}
						}
					}
				}
			}
			if q := pConst(1).minus(p); len(q.m) == 1 {
				for _, mo := range q.m {
					if mo.c == 1 && len(mo.a) == 1 && mo.a[0].Op == "bit" {
						set(mo.a[0], 0)
					}
				}
			}
		}
	}
	return known
}

func checkVarintRead(r *Report, L *Loaded) {
	pr := runPrimitive(L, "VariableByteInt", "ReadFrom", func(pr *packetRun, st *State) { pr.In.unroll = 12 })
	if pr == nil {
		r.violate("missing:ReadFrom", token.NoPos, "the variable byte integer has no ReadFrom")
		return
	}
	for _, u := range pr.In.undec {
		r.violate("undecided:ReadFrom", pr.Fn.Pos(), "VariableByteInt.ReadFrom cannot be decided: %s", u)
	}
	ends := map[int]bool{}
	for _, o := range pr.In.outcomes {
		if o.Kind != "return" {
			r.violate("panic:ReadFrom", o.Pos, "VariableByteInt.ReadFrom does not return")
			continue
		}
		r.count("decoder paths", 1)
		its := items(o.State.trace)
		n := len(its)
		bytes := true
		for _, it := range its {
			bytes = bytes && it.kind == "byte"
		}
		if !bytes {
			r.violate("opaque:ReadFrom", o.Pos, "VariableByteInt.ReadFrom does not read byte by byte")
			continue
		}
		attempts := n
		if hasKind(o.State.trace, "ReadFail") != nil {
			attempts++
		}
		if attempts > 4 {
			r.violate("fifth:ReadFrom", o.Pos, "VariableByteInt.ReadFrom may read more than 4 bytes")
			continue
		}
		known := knownBits(o.State.facts)
		cont := func(i int) (int64, bool) {
			b := bigEndian(its[i].d, its[i].i, 8)
			if n, ok := known[bitAtom(b, 7)]; ok {
				return n, true
			}
			if iv := o.State.facts.ivOf(b); iv.hi < 128 {
				return 0, true
			} else if iv.lo >= 128 {
				return 1, true
			}
			return 0, false
		}
		// nothing may be read behind a byte without the continuation bit
		early := false
		for i := 0; i < attempts-1; i++ {
			if c, ok := cont(i); !ok || c != 1 {
				early = true
			}
		}
		if early {
			r.violate("overread:ReadFrom", o.Pos, "VariableByteInt.ReadFrom may read on behind a byte without the continuation bit")
			continue
		}
		if hasKind(o.State.trace, "ReadFail") != nil {
			continue // C05
		}
		if n == 0 {
			r.violate("nothing:ReadFrom", o.Pos, "VariableByteInt.ReadFrom returns without reading")
			continue
		}
		last, ok := cont(n - 1)
		if retErr(o) != 0 {
			if n < 4 || !ok || last != 1 {
				r.violate("refused:ReadFrom", o.Pos, "VariableByteInt.ReadFrom may refuse %d bytes that are a variable byte integer", n)
			}
			continue
		}
		if !ok || last != 0 {
			r.violate("unfinished:ReadFrom", o.Pos, "VariableByteInt.ReadFrom may succeed although byte %d has the continuation bit", n)
			continue
		}
		ends[n] = true
		if c := toPoly(o.Ret[0]); !c.eq(pConst(int64(n))) {
			r.violate("count:ReadFrom", o.Pos, "VariableByteInt.ReadFrom reports another number of bytes than the %d it read", n)
		}
		fix := func(b []*Poly) []*Poly {
			var out []*Poly
			for _, p := range b {
				out = append(out, p.subst(func(a *Term) *Poly {
					if n, ok := known[a]; ok {
						return pConst(n)
					}
					for i := range its {
						if a == bitAtom(bigEndian(its[i].d, its[i].i, 8), 7) {
							if c, ok := cont(i); ok {
								return pConst(c)
							}
						}
					}
					return nil
				}))
			}
			return trim(out)
		}
		v := pr.In.peek(o.State, pr.Obj)
		got := bitsOf(v)
		if got == nil {
			r.violate("opaque-value:ReadFrom", o.Pos, "the value that VariableByteInt.ReadFrom decodes from %d bytes is not known", n)
			continue
		}
		var want []*Poly
		for i := range its {
			b := numberBits(bigEndian(its[i].d, its[i].i, 8), 8)
			for j := 0; j < 7; j++ {
				want = append(want, bitAt(b, j))
			}
		}
		if !sameBits(fix(got), fix(want)) {
			r.violate("value:ReadFrom", o.Pos, "VariableByteInt.ReadFrom does not decode the value of the %d bytes it read", n)
		}
	}
	for n := 1; n <= 4; n++ {
		if !ends[n] {
			r.violate(fmt.Sprintf("never:ReadFrom:%d", n), pr.Fn.Pos(), "VariableByteInt.ReadFrom never succeeds after %d bytes", n)
		}
	}
}

func init() {
	checks["C08"] = checkC08
}

// between assumes that a number lies in an interval.
func between(st *State, x *Term, iv Iv) {
	st.facts.assume(tLe0(pConst(iv.lo).minus(toPoly(x))), true)
	st.facts.assume(tLe0(toPoly(x).minus(pConst(iv.hi))), true)
}
