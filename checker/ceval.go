package main

// ceval evaluates a term whose atoms are given values; it is used to find out which values of a single byte the facts of
// a path allow, however the code took the byte apart.
func ceval(t *Term, env map[*Term]int64) (int64, bool) {
	if v, ok := env[t]; ok {
		return v, true
	}
	b2i := func(b bool) int64 {
		if b {
			return 1
		}
		return 0
	}
	two := func() (a, b int64, ok bool) {
		if len(t.Args) != 2 {
			return
		}
		a, k := ceval(t.Args[0], env)
		b, l := ceval(t.Args[1], env)
		return a, b, k && l
	}
	switch t.Op {
	case "int", "bool":
		return t.Int, true
	case "poly":
		return cevalPoly(t.P, env)
	case "shr", "shrv":
		if a, b, ok := two(); ok && b >= 0 && b < 63 {
			return a >> uint(b), true
		}
	case "shl":
		if a, b, ok := two(); ok && b >= 0 && b < 40 && a >= 0 && a < 1<<20 {
			return wrapInt(a<<uint(b), t.Typ), true
		}
	case "div":
		if a, b, ok := two(); ok && b != 0 {
			return a / b, true
		}
	case "rem":
		if a, b, ok := two(); ok && b != 0 {
			return a % b, true
		}
	case "&":
		if a, b, ok := two(); ok {
			return a & b, true
		}
	case "|":
		if a, b, ok := two(); ok {
			return a | b, true
		}
	case "^":
		if a, b, ok := two(); ok {
			return wrapInt(a^b, t.Typ), true
		}
	case "andnot":
		if a, b, ok := two(); ok {
			return wrapInt(a&^b, t.Typ), true
		}
	case "trunc", "wrap":
		if a, ok := ceval(t.Args[0], env); ok {
			return wrapInt(a, t.Typ), true
		}
	case "eq0":
		if a, ok := ceval(t.Args[0], env); ok {
			return b2i(a == 0), true
		}
	case "le0":
		if a, ok := ceval(t.Args[0], env); ok {
			return b2i(a <= 0), true
		}
	case "eq":
		if a, b, ok := two(); ok {
			return b2i(a == b), true
		}
	case "not":
		if a, ok := ceval(t.Args[0], env); ok {
			return 1 - a, true
		}
	case "and":
		a, k := ceval(t.Args[0], env)
		b, l := ceval(t.Args[1], env)
		if k && a == 0 || l && b == 0 {
			return 0, true
		}
		return 1, k && l
	case "or":
		a, k := ceval(t.Args[0], env)
		b, l := ceval(t.Args[1], env)
		if k && a == 1 || l && b == 1 {
			return 1, true
		}
		return 0, k && l
	}
	return 0, false
}

func cevalPoly(p *Poly, env map[*Term]int64) (int64, bool) {
	var sum int64
	for _, mo := range p.m {
		c := mo.c
		for _, a := range mo.a {
			v, ok := ceval(a, env)
			if !ok {
				return 0, false
			}
			c *= v
		}
		sum += c
	}
	return sum, true
}

func mentions(t, x *Term) bool {
	if t == nil {
		return false
	}
	if t == x {
		return true
	}
	if t.Op == "poly" {
		for _, mo := range t.P.m {
			for _, a := range mo.a {
				if mentions(a, x) {
					return true
				}
			}
		}
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

// allows tells whether the facts admit a value of an atom.
func (f *Facts) allowedValues(x *Term, from, to int64) []int64 {
	type cond struct {
		t      *Term
		lo, hi int64
		ne     []int64
		p      *Poly
	}
	var cs []cond
	for t, v := range f.truth {
		if mentions(t, x) {
			n := int64(0)
			if v {
				n = 1
			}
			cs = append(cs, cond{t: t, lo: n, hi: n})
		}
	}
	for t, v := range f.iv {
		if mentions(t, x) {
			cs = append(cs, cond{t: t, lo: v.lo, hi: v.hi})
		}
	}
	for t, v := range f.ne {
		if mentions(t, x) {
			cs = append(cs, cond{t: t, lo: negInf, hi: posInf, ne: v})
		}
	}
	for _, p := range f.le {
		for _, mo := range p.m {
			found := false
			for _, a := range mo.a {
				found = found || mentions(a, x)
			}
			if found {
				cs = append(cs, cond{p: p})
				break
			}
		}
	}
	var out []int64
	for v := from; v <= to; v++ {
		env := map[*Term]int64{x: v}
		ok := true
		for _, c := range cs {
			if c.p != nil {
				if n, k := cevalPoly(c.p, env); k && n > 0 {
					ok = false
				}
				continue
			}
			n, k := ceval(c.t, env)
			if !k {
				continue
			}
			if n < c.lo || n > c.hi {
				ok = false
			}
			for _, m := range c.ne {
				if n == m {
					ok = false
				}
			}
			if !ok {
				break
			}
		}
		if ok {
			out = append(out, v)
		}
	}
	return out
}
