package main

import (
	"go/types"
	"strconv"
)

// Bits of integer values as polynomials over truth atoms. Such polynomials are canonical: two values are the same for all
// inputs iff their bits have the same polynomials.

func bitAtom(x *Term, i int) *Term { return mk("bit", "", int64(i), types.Typ[types.Bool], x) }

const maxMono = 600

func (p *Poly) small() bool { return len(p.m) <= maxMono }

// bitsOf is the binary representation of a value, lowest bit first, or nil if it is not known. Bits beyond the end are 0.
func bitsOf(t *Term) []*Poly {
	if b, ok := bitsMemo[t]; ok {
		return b
	}
	if len(bitsMemo) > 20000 {
		bitsMemo = map[*Term][]*Poly{}
	}
	b := bitsDepth(t, 0)
	bitsMemo[t] = b
	return b
}

var bitsMemo = map[*Term][]*Poly{}

func bitsDepth(t *Term, depth int) []*Poly {
	if t == nil || depth > 24 {
		return nil
	}
	sub := func(i int) []*Poly { return bitsDepth(t.Args[i], depth+1) }
	switch t.Op {
	case "int":
		if t.Int < 0 {
			return nil
		}
		var out []*Poly
		for n := t.Int; n > 0; n >>= 1 {
			out = append(out, pConst(n&1))
		}
		return trim(out)
	case "&", "|", "^", "andnot":
		if t.Op == "&" {
			for k := 0; k < 2; k++ {
				if m := t.Args[1-k]; m.isInt() && m.Int < 0 {
					// a mask of a wider type
					a := sub(k)
					if a == nil {
						return nil
					}
					var out []*Poly
					for i, b := range a {
						if i < 63 && m.Int>>uint(i)&1 == 0 {
							b = newPoly()
						}
						out = append(out, b)
					}
					return trim(out)
				}
			}
		}
		a, b := sub(0), sub(1)
		if a == nil || b == nil {
			return nil
		}
		var out []*Poly
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := bitAt(a, i), bitAt(b, i)
			var z *Poly
			xy := x.times(y)
			switch t.Op {
			case "&":
				z = xy
			case "|":
				z = x.plus(y).minus(xy)
			case "^":
				z = x.plus(y).minus(xy.scale(2))
			case "andnot":
				z = x.minus(xy)
			}
			if !z.small() {
				return nil
			}
			out = append(out, z)
		}
		return trim(out)
	case "shl":
		if !t.Args[1].isInt() {
			return nil
		}
		w, _ := strconv.Atoi(t.Str)
		a := sub(0)
		if a == nil {
			return nil
		}
		var out []*Poly
		for i := int64(0); i < t.Args[1].Int; i++ {
			out = append(out, newPoly())
		}
		out = append(out, a...)
		if len(out) > w {
			out = out[:w]
		}
		return trim(out)
	case "shr", "div":
		k, ok := uint(0), t.Op == "shr"
		if !t.Args[1].isInt() {
			return nil
		}
		if ok {
			k = uint(t.Args[1].Int)
		} else if k, ok = isPow2(t.Args[1].Int); !ok {
			return nil
		}
		a := sub(0)
		if a == nil {
			return nil
		}
		if int(k) >= len(a) {
			return []*Poly{}
		}
		return a[k:]
	case "rem":
		if !t.Args[1].isInt() {
			return nil
		}
		k, ok := isPow2(t.Args[1].Int)
		a := sub(0)
		if !ok || a == nil {
			return nil
		}
		if len(a) > int(k) {
			a = a[:k]
		}
		return trim(a)
	case "trunc", "wrap":
		w := 0
		s := t.Str
		if t.Op == "trunc" {
			if s[0] == 's' {
				return nil
			}
			s = s[1:]
		}
		w, _ = strconv.Atoi(s)
		a := sub(0)
		if a == nil {
			// the bits of the number, whatever they are
			x, k := t.Args[0], 0
			for x.Op == "shr" && x.Args[1].isInt() {
				x, k = x.Args[0], k+int(x.Args[1].Int)
			}
			if k+w > 64 || !isIntegral(x.Typ) && x.Op != "poly" {
				return nil
			}
			for i := 0; i < w; i++ {
				a = append(a, pAtom(bitAtom(x, k+i)))
			}
			return a
		}
		if len(a) > w {
			a = a[:w]
		}
		return trim(a)
	case "ite":
		g := truthPoly(t.Args[0])
		a, b := sub(1), sub(2)
		if g == nil || a == nil || b == nil {
			return nil
		}
		var out []*Poly
		for i := 0; i < len(a) || i < len(b); i++ {
			x, y := bitAt(a, i), bitAt(b, i)
			z := y.plus(g.times(x.minus(y)))
			if !z.small() {
				return nil
			}
			out = append(out, z)
		}
		return trim(out)
	case "be":
		w, _ := strconv.Atoi(t.Str)
		var out []*Poly
		for i := 0; i < w; i++ {
			b := mk("byteof", "", t.Int+int64(w/8-1-i/8), u8Type(), t.Args[0])
			out = append(out, pAtom(bitAtom(b, i%8)))
		}
		return out
	case "poly":
		return polyBits(t.P, depth)
	case "len":
		// never negative
		var out []*Poly
		for i := 0; i < 63; i++ {
			out = append(out, pAtom(bitAtom(t, i)))
		}
		return out
	}
	if isBoolTerm(t) {
		return []*Poly{truthPoly(t)}
	}
	if t.Typ == nil {
		return nil
	}
	w, uns, ok := typeBits(t.Typ)
	if !ok || !uns {
		return nil
	}
	var out []*Poly
	for i := 0; i < w; i++ {
		out = append(out, pAtom(bitAtom(t, i)))
	}
	return out
}

func bitAt(b []*Poly, i int) *Poly {
	if i < len(b) {
		return b[i]
	}
	return newPoly()
}

func trim(b []*Poly) []*Poly {
	n := len(b)
	for n > 0 && b[n-1].isZero() {
		n--
	}
	if n == 0 {
		return []*Poly{}
	}
	return b[:n]
}

// polyBits handles sums whose parts do not share bits, and differences that take bits away.
func polyBits(p *Poly, depth int) []*Poly {
	pos, neg := make([]*Poly, 64), make([]*Poly, 64)
	hi := 0
	for _, mo := range p.m {
		c, dst := mo.c, pos
		if c < 0 {
			c, dst = -c, neg
		}
		g := pConst(1)
		var x *Term
		for _, a := range mo.a {
			if isBoolTerm(a) {
				q := truthPoly(a)
				if q == nil {
					return nil
				}
				g = g.times(q)
			} else if x == nil {
				x = a
			} else {
				return nil
			}
		}
		var xb []*Poly
		if x == nil {
			xb = []*Poly{pConst(1)}
		} else if xb = bitsDepth(x, depth+1); xb == nil {
			return nil
		} else if _, ok := isPow2(c); !ok {
			return nil
		}
		for s := 0; s < 62 && c>>uint(s) > 0; s++ {
			if c>>uint(s)&1 == 0 {
				continue
			}
			for i, b := range xb {
				j := i + s
				if j >= 63 {
					return nil
				}
				v := b.times(g)
				if v.isZero() {
					continue
				}
				if dst[j] != nil && !dst[j].isZero() {
					// both must not be set at once
					if !dst[j].times(v).isZero() {
						return nil
					}
					v = dst[j].plus(v)
				}
				dst[j] = v
				if j >= hi {
					hi = j + 1
				}
			}
		}
	}
	var out []*Poly
	for i := 0; i < hi; i++ {
		a, b := pos[i], neg[i]
		if a == nil {
			a = newPoly()
		}
		if b != nil && !b.isZero() {
			if !a.times(b).eq(b) {
				return nil
			}
			a = a.minus(b)
		}
		if !a.small() {
			return nil
		}
		out = append(out, a)
	}
	return trim(out)
}

// truthPoly is a condition as a polynomial over truth atoms, down to single bits where it can be.
func truthPoly(t *Term) *Poly {
	switch t.Op {
	case "bool":
		return pConst(t.Int)
	case "not":
		return pConst(1).minus(truthPoly(t.Args[0]))
	case "and":
		return truthPoly(t.Args[0]).times(truthPoly(t.Args[1]))
	case "or":
		a, b := truthPoly(t.Args[0]), truthPoly(t.Args[1])
		return a.plus(b).minus(a.times(b))
	case "gpoly":
		return t.P.subst(func(a *Term) *Poly { return truthPoly(a) })
	case "ite":
		g, a, b := truthPoly(t.Args[0]), truthPoly(t.Args[1]), truthPoly(t.Args[2])
		return b.plus(g.times(a.minus(b)))
	case "eq0":
		if x, c, ok := splitConst(toPoly(t.Args[0])); ok {
			if b := bitsOf(x); b != nil && len(b) <= 10 {
				if c < 0 {
					return newPoly()
				}
				r := pConst(1)
				for i := 0; i < len(b) || c>>uint(i) > 0; i++ {
					v := bitAt(b, i)
					if c>>uint(i)&1 == 0 {
						v = pConst(1).minus(v)
					}
					r = r.times(v)
					if !r.small() {
						return pAtom(t)
					}
				}
				return r
			}
		}
	case "le0":
		// x <= c or x >= c
		p := toPoly(t.Args[0])
		if x, c, ok := splitConst(p); ok {
			if b := bitsOf(x); b != nil && len(b) <= 10 {
				return upTo(b, c)
			}
		}
		if x, c, ok := splitConst(p.scale(-1)); ok { // -x + c <= 0: x >= c
			if b := bitsOf(x); b != nil && len(b) <= 10 {
				return pConst(1).minus(upTo(b, c-1))
			}
		}
	}
	return pAtom(t)
}

// splitConst views p as x - c.
func splitConst(p *Poly) (x *Term, c int64, ok bool) {
	q := p.minus(pConst(p.constPart()))
	if q.isZero() {
		return nil, 0, false
	}
	for _, mo := range q.m {
		if mo.c < 0 && len(q.m) == 1 {
			return nil, 0, false
		}
	}
	return polyTerm(q, nil), -p.constPart(), true
}

// upTo is the condition that a number is at most c.
func upTo(b []*Poly, c int64) *Poly {
	if c < 0 {
		return newPoly()
	}
	if c>>uint(len(b)) > 0 {
		return pConst(1)
	}
	le := pConst(1)
	for i := 0; i < len(b); i++ {
		if c>>uint(i)&1 == 1 {
			le = pConst(1).minus(b[i]).plus(b[i].times(le))
		} else {
			le = pConst(1).minus(b[i]).times(le)
		}
	}
	return le
}

func sameBits(a, b []*Poly) bool {
	if a == nil || b == nil {
		return false
	}
	for i := 0; i < len(a) || i < len(b); i++ {
		if !bitAt(a, i).eq(bitAt(b, i)) {
			return false
		}
	}
	return true
}

// sameValue tells whether two numbers are equal for all inputs.
func sameValue(a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	return a == b || toPoly(a).eq(toPoly(b)) || sameBits(bitsOf(a), bitsOf(b))
}
