package main

import (
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

type Iv struct{ lo, hi int64 }

func clampAdd(a, b int64) int64 {
	if a <= negInf || b <= negInf {
		return negInf
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	c := a + b
	if c < negInf {
		return negInf
	}
	if c > posInf {
		return posInf
	}
	return c
}
func clampMul(a, k int64) int64 {
	if k == 0 || a == 0 {
		return 0
	}
	if a <= negInf || a >= posInf {
		if (a < 0) == (k < 0) {
			return posInf
		}
		return negInf
	}
	r := a * k
	if r/k != a || r < negInf || r > posInf {
		if (a < 0) == (k < 0) {
			return posInf
		}
		return negInf
	}
	return r
}

// Facts is what is known at a program point: intervals, truth values of conditions, and linear inequalities p <= 0.
type Facts struct {
	iv    map[*Term]Iv
	ne    map[*Term][]int64
	truth map[*Term]bool
	le    []*Poly
}

func newFacts() *Facts {
	return &Facts{iv: map[*Term]Iv{}, ne: map[*Term][]int64{}, truth: map[*Term]bool{}}
}
func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.iv {
		g.iv[k] = v
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	for k, v := range f.truth {
		g.truth[k] = v
	}
	g.le = append([]*Poly(nil), f.le...)
	return g
}

func typeIv(t types.Type) Iv {
	if t != nil {
		if b, ok := t.Underlying().(*types.Basic); ok {
			switch b.Kind() {
			case types.Uint8:
				return Iv{0, 255}
			case types.Uint16:
				return Iv{0, 65535}
			case types.Uint32:
				return Iv{0, math.MaxUint32}
			case types.Uint, types.Uint64, types.Uintptr:
				return Iv{0, posInf}
			case types.Int8:
				return Iv{-128, 127}
			case types.Int16:
				return Iv{-32768, 32767}
			case types.Int32:
				return Iv{math.MinInt32, math.MaxInt32}
			}
		}
	}
	return Iv{negInf, posInf}
}

func typeBits(t types.Type) (bits int, unsigned bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, true, true
	case types.Uint16:
		return 16, true, true
	case types.Uint32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, true, true
	case types.Int8:
		return 8, false, true
	case types.Int16:
		return 16, false, true
	case types.Int32:
		return 32, false, true
	}
	return 64, false, true
}

// atomIv bounds an atom by its facts, its structure and its type.
func (f *Facts) atomIv(t *Term) Iv {
	r := Iv{negInf, posInf}
	meet := func(o Iv) {
		if o.lo > r.lo {
			r.lo = o.lo
		}
		if o.hi < r.hi {
			r.hi = o.hi
		}
	}
	if v, ok := f.iv[t]; ok {
		meet(v)
	}
	switch t.Op {
	case "int":
		return Iv{t.Int, t.Int}
	case "poly":
		return f.polyIv(t.P)
	case "len", "vlen", "cap":
		meet(Iv{0, posInf})
		if t.Op == "vlen" {
			meet(Iv{1, 4})
		}
	case "shr":
		v := f.atomIv(t.Args[0])
		if v.lo >= 0 && t.Args[1].isInt() {
			k := uint(t.Args[1].Int)
			hi := v.hi
			if hi < posInf {
				hi >>= k
			}
			meet(Iv{v.lo >> k, hi})
		}
	case "div":
		v := f.atomIv(t.Args[0])
		if v.lo >= 0 && t.Args[1].isInt() && t.Args[1].Int > 0 {
			hi := v.hi
			if hi < posInf {
				hi /= t.Args[1].Int
			}
			meet(Iv{v.lo / t.Args[1].Int, hi})
		}
	case "rem":
		v := f.atomIv(t.Args[0])
		if v.lo >= 0 && t.Args[1].isInt() && t.Args[1].Int > 0 {
			hi := t.Args[1].Int - 1
			if v.hi < hi {
				hi = v.hi
			}
			meet(Iv{0, hi})
		}
	case "&":
		for _, a := range t.Args {
			v := f.atomIv(a)
			if v.lo >= 0 {
				meet(Iv{0, v.hi})
			}
		}
	case "|", "^":
		a, b := f.atomIv(t.Args[0]), f.atomIv(t.Args[1])
		if a.lo >= 0 && b.lo >= 0 && a.hi < posInf && b.hi < posInf {
			m := int64(1)
			for m <= a.hi || m <= b.hi {
				m <<= 1
			}
			lo := int64(0)
			if t.Op == "|" {
				lo = max(a.lo, b.lo)
			}
			meet(Iv{lo, m - 1})
		}
	case "shl":
		a := f.atomIv(t.Args[0])
		if a.lo >= 0 && t.Args[1].isInt() && a.hi < posInf && t.Args[1].Int < 40 {
			meet(Iv{a.lo << uint(t.Args[1].Int), clampMul(a.hi, 1<<uint(t.Args[1].Int))})
		}
	case "trunc":
		meet(typeIv(t.Typ))
	case "wrap":
		meet(typeIv(t.Typ))
	default:
		if isBoolTerm(t) {
			meet(Iv{0, 1})
		} else {
			meet(typeIv(t.Typ))
		}
	}
	return r
}
func (f *Facts) polyIv(p *Poly) Iv {
	r := Iv{0, 0}
	for _, mo := range p.m {
		m := Iv{mo.c, mo.c}
		if len(mo.a) > 0 {
			v := f.atomIv(mo.a[0])
			for _, x := range mo.a[1:] {
				w := f.atomIv(x)
				if v.lo >= 0 && w.lo >= 0 {
					v = Iv{mulBig(v.lo, w.lo), mulBig(v.hi, w.hi)}
				} else {
					v = Iv{negInf, posInf}
				}
			}
			if mo.c >= 0 {
				m = Iv{clampMul(v.lo, mo.c), clampMul(v.hi, mo.c)}
			} else {
				m = Iv{clampMul(v.hi, mo.c), clampMul(v.lo, mo.c)}
			}
		}
		r = Iv{clampAdd(r.lo, m.lo), clampAdd(r.hi, m.hi)}
	}
	return r
}
func mulBig(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a >= posInf || b >= posInf {
		return posInf
	}
	return clampMul(a, b)
}
func (f *Facts) ivOf(t *Term) Iv { return f.atomIv(t) }

// proveLe tries to show p <= 0 with intervals and at most depth of the known inequalities.
func (f *Facts) proveEq(a, b *Poly) bool {
	return a.eq(b) || f.proveLe(a.minus(b)) && f.proveLe(b.minus(a))
}
func (f *Facts) proveLe(p *Poly) bool { return f.proveLeN(p, 4) }
func (f *Facts) proveLeN(p *Poly, depth int) bool {
	if f.polyIv(p).hi <= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	// Cancel an atom that is bounded by an inequality only
	atoms := map[*Term]int64{}
	for _, mo := range p.m {
		if len(mo.a) == 1 {
			atoms[mo.a[0]] = mo.c
		}
	}
	for _, q := range f.le {
		useful := false
		for _, mo := range q.m {
			if len(mo.a) == 1 {
				if c, ok := atoms[mo.a[0]]; ok && (c > 0) == (mo.c > 0) {
					useful = true
				}
			}
		}
		if useful && f.proveLeN(p.minus(q), depth-1) {
			return true
		}
	}
	return false
}

// eval decides a truth term, if the facts do.
func (f *Facts) eval(t *Term) (val, known bool) {
	switch t.Op {
	case "bool":
		return t.Int == 1, true
	case "not":
		v, k := f.eval(t.Args[0])
		return !v, k
	case "and":
		a, ka := f.eval(t.Args[0])
		b, kb := f.eval(t.Args[1])
		if ka && !a || kb && !b {
			return false, true
		}
		return true, ka && kb
	case "or":
		a, ka := f.eval(t.Args[0])
		b, kb := f.eval(t.Args[1])
		if ka && a || kb && b {
			return true, true
		}
		return false, ka && kb
	case "le0":
		p := toPoly(t.Args[0])
		if f.proveLe(p) {
			return true, true
		}
		if f.proveLe(pConst(1).minus(p)) {
			return false, true
		}
		return false, false
	case "eq0":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		p := toPoly(t.Args[0])
		if f.proveLe(p.plus(pConst(1))) || f.proveLe(pConst(1).minus(p)) {
			return false, true
		}
		if f.proveLe(p) && f.proveLe(p.scale(-1)) {
			return true, true
		}
		// single atom: c + k*x == 0
		if x, v, ok := solveSingle(p); ok {
			if v == nil {
				return false, true
			}
			for _, n := range f.ne[x] {
				if n == *v {
					return false, true
				}
			}
		}
		return false, false
	case "isnil":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		x := t.Args[0]
		if n, k := staticNil(x); k {
			return n, true
		}
		return false, false
	case "eq":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		// x == y is false if exactly one of them is known to be nil
		a, ka := f.eval(mkIsNil(t.Args[0]))
		b, kb := f.eval(mkIsNil(t.Args[1]))
		if ka && kb && a != b {
			return false, true
		}
		return false, false
	case "errIs":
		if v, ok := f.truth[t]; ok {
			return v, true
		}
		a, ka := f.eval(mkIsNil(t.Args[0]))
		if ka && a {
			return false, true
		}
		if t.Args[0] == t.Args[1] {
			return true, true
		}
		if v, k := f.eval(mkEq(t.Args[0], t.Args[1])); k && v {
			return true, true
		}
		return false, false
	}
	if v, ok := f.truth[t]; ok {
		return v, true
	}
	return false, false
}

// solveSingle solves c + k*x == 0 for a polynomial with a single atom; v is nil if there is no solution.
func solveSingle(p *Poly) (x *Term, v *int64, ok bool) {
	var k int64
	for _, mo := range p.m {
		if len(mo.a) == 0 {
			continue
		}
		if len(mo.a) > 1 || x != nil {
			return nil, nil, false
		}
		x, k = mo.a[0], mo.c
	}
	if x == nil {
		return nil, nil, false
	}
	c := p.constPart()
	if (-c)%k != 0 {
		return x, nil, true
	}
	n := -c / k
	return x, &n, true
}

// assume adds a condition to the facts. It returns false if that contradicts them.
func (f *Facts) assume(t *Term, val bool) bool {
	if v, known := f.eval(t); known {
		if v == val {
			if _, ok := f.truth[t]; !ok && (t.Op == "sym") {
				f.truth[t] = val
			}
			return true
		}
		return false
	}
	switch t.Op {
	case "not":
		return f.assume(t.Args[0], !val)
	case "and":
		if val {
			return f.assume(t.Args[0], true) && f.assume(t.Args[1], true)
		}
	case "or":
		if !val {
			return f.assume(t.Args[0], false) && f.assume(t.Args[1], false)
		}
	case "le0":
		p := toPoly(t.Args[0])
		if !val {
			p = pConst(1).minus(p)
		}
		return f.addLe(p)
	case "eq0":
		p := toPoly(t.Args[0])
		f.truth[t] = val
		if val {
			return f.addLe(p) && f.addLe(p.scale(-1))
		}
		if x, v, ok := solveSingle(p); ok && v != nil {
			f.ne[x] = append(append([]int64(nil), f.ne[x]...), *v)
			iv := f.atomIv(x)
			if iv.lo == *v {
				if !f.setIv(x, Iv{*v + 1, posInf}) {
					return false
				}
			}
			if iv.hi == *v {
				if !f.setIv(x, Iv{negInf, *v - 1}) {
					return false
				}
			}
			return true
		}
		if f.proveLe(p) {
			return f.addLe(p.plus(pConst(1)))
		}
		if f.proveLe(p.scale(-1)) {
			return f.addLe(pConst(1).minus(p))
		}
		return true
	case "eq":
		f.truth[t] = val
		if val {
			for i := 0; i < 2; i++ {
				if n, k := f.eval(mkIsNil(t.Args[i])); k {
					f.assume(mkIsNil(t.Args[1-i]), n)
				}
			}
		}
		return true
	case "errIs":
		f.truth[t] = val
		if val {
			return f.assume(mkIsNil(t.Args[0]), false)
		}
		return true
	}
	f.truth[t] = val
	return true
}

func (f *Facts) setIv(x *Term, v Iv) bool {
	cur := f.atomIv(x)
	if v.lo < cur.lo {
		v.lo = cur.lo
	}
	if v.hi > cur.hi {
		v.hi = cur.hi
	}
	for changed := true; changed; {
		changed = false
		for _, n := range f.ne[x] {
			if n == v.lo {
				v.lo++
				changed = true
			}
			if n == v.hi {
				v.hi--
				changed = true
			}
		}
	}
	if v.lo > v.hi {
		return false
	}
	f.iv[x] = v
	// push the bounds of a shifted or divided value back to the value
	var k int64
	switch x.Op {
	case "shr":
		if x.Args[1].isInt() && x.Args[1].Int < 40 {
			k = 1 << uint(x.Args[1].Int)
		}
	case "div":
		if x.Args[1].isInt() && x.Args[1].Int > 0 {
			k = x.Args[1].Int
		}
	case "wrap", "trunc":
		return true
	}
	if k > 0 && f.polyIv(toPoly(x.Args[0])).lo >= 0 {
		lo, hi := clampMul(v.lo, k), clampAdd(clampMul(v.hi, k), k-1)
		if !f.addLe(pConst(lo).minus(toPoly(x.Args[0]))) {
			return false
		}
		if hi < posInf && !f.addLe(toPoly(x.Args[0]).minus(pConst(hi))) {
			return false
		}
	}
	return true
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func (f *Facts) addLe(p *Poly) bool {
	if f.proveLeN(pConst(1).minus(p), 3) {
		return false
	}
	// single atom: k*x <= -c
	var x *Term
	var k int64
	n := 0
	for _, mo := range p.m {
		if len(mo.a) == 0 {
			continue
		}
		n++
		if len(mo.a) == 1 {
			x, k = mo.a[0], mo.c
		} else {
			n = 2
		}
	}
	c := p.constPart()
	if n == 1 && x != nil {
		if k > 0 {
			return f.setIv(x, Iv{negInf, floorDiv(-c, k)})
		}
		return f.setIv(x, Iv{-floorDiv(-c, -k), posInf})
	}
	if v, ok := f.truth[tEq0(p)]; ok && !v {
		p = p.plus(pConst(1))
	}
	f.le = append(f.le, p)
	return true
}

// staticNil decides whether a term is nil from its structure.
func staticNil(x *Term) (isNil, known bool) {
	switch x.Op {
	case "nil":
		return true, true
	case "alloc", "fa", "ia", "iface", "fn", "clo", "newerr", "gerr", "makemap", "makechan", "global":
		return false, true
	case "slice":
		if x.Args[0].Op == "nil" {
			return true, true
		}
		return false, true
	}
	return false, false
}

func mkIsNil(x *Term) *Term {
	if n, k := staticNil(x); k {
		return cBool(n)
	}
	return mk("isnil", "", 0, types.Typ[types.Bool], x)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return cBool(true)
	}
	if a.isNil() {
		return mkIsNil(b)
	}
	if b.isNil() {
		return mkIsNil(a)
	}
	if a.Op == "str" && b.Op == "str" {
		return cBool(a.Str == b.Str)
	}
	if a.Op == "bool" && b.Op == "bool" {
		return cBool(a.Int == b.Int)
	}
	if a.Op == "bool" {
		a, b = b, a
	}
	if b.Op == "bool" {
		if b.Int == 1 {
			return a
		}
		return tNot(a)
	}
	if a.Op == "alloc" && b.Op == "alloc" {
		return cBool(false)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("eq", "", 0, types.Typ[types.Bool], a, b)
}

// digest is a canonical text of the facts, to tell states apart.
func (f *Facts) digest() string {
	var out []string
	for k, v := range f.iv {
		out = append(out, "i"+strconv.Itoa(k.id)+":"+strconv.FormatInt(v.lo, 10)+":"+strconv.FormatInt(v.hi, 10))
	}
	for k, v := range f.truth {
		out = append(out, "t"+strconv.Itoa(k.id)+strconv.FormatBool(v))
	}
	for k := range f.ne {
		s := "n" + strconv.Itoa(k.id)
		for _, x := range f.ne[k] {
			s += "," + strconv.FormatInt(x, 10)
		}
		out = append(out, s)
	}
	for _, p := range f.le {
		out = append(out, "l"+p.key())
	}
	sort.Strings(out)
	return strings.Join(out, ";")
}
