package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value or address. Two terms are the same value iff they are the same pointer.
type Term struct {
	Op   string
	Args []*Term
	Str  string
	Int  int64
	P    *Poly
	Typ  types.Type
	id   int
	Ref  any // *ssa.Function for fn/clo
}

var (
	internTab = map[string]*Term{}
	termCount int
)

func mk(op, str string, n int64, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(str)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(n, 10))
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	if op == "iface" || op == "conv" {
		b.WriteString("|" + types.TypeString(typ, nil))
	}
	k := b.String()
	if t, ok := internTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: op, Args: args, Str: str, Int: n, Typ: typ, id: termCount}
	internTab[k] = t
	return t
}

func polyTerm(p *Poly, typ types.Type) *Term {
	if c, ok := p.isConst(); ok {
		return cInt(c)
	}
	if len(p.m) == 1 {
		for _, mo := range p.m {
			if mo.c == 1 && len(mo.a) == 1 && !isBoolTerm(mo.a[0]) {
				return mo.a[0]
			}
		}
	}
	k := "poly|" + p.key()
	if t, ok := internTab[k]; ok {
		return t
	}
	termCount++
	t := &Term{Op: "poly", P: p, Typ: typ, id: termCount}
	internTab[k] = t
	return t
}

func cInt(n int64) *Term  { return mk("int", "", n, nil) }
func cStr(s string) *Term { return mk("str", s, 0, types.Typ[types.String]) }
func cBool(b bool) *Term {
	if b {
		return mk("bool", "", 1, types.Typ[types.Bool])
	}
	return mk("bool", "", 0, types.Typ[types.Bool])
}
func cNil() *Term { return mk("nil", "", 0, nil) }
func sym(name string, typ types.Type) *Term {
	t := mk("sym", name, 0, typ)
	if typ == nil || t.Typ == nil || t.Typ == typ || types.Identical(t.Typ, typ) {
		return t
	}
	// the same name for something else
	return mk("sym", name+"·"+types.TypeString(typ, nil), 0, typ)
}

func (t *Term) isInt() bool  { return t.Op == "int" }
func (t *Term) isBool() bool { return t.Op == "bool" }
func (t *Term) isNil() bool  { return t.Op == "nil" }
func (t *Term) isTrue() bool { return t.Op == "bool" && t.Int == 1 }
func (t *Term) isFalse() bool {
	return t.Op == "bool" && t.Int == 0
}

func (t *Term) String() string {
	switch t.Op {
	case "int":
		return strconv.FormatInt(t.Int, 10)
	case "bool":
		if t.Int == 1 {
			return "true"
		}
		return "false"
	case "str":
		return strconv.Quote(t.Str)
	case "nil":
		return "nil"
	case "sym":
		return t.Str
	case "init":
		return t.Args[0].String()
	case "param":
		return t.Str
	case "fa":
		return t.Args[0].String() + "." + t.Str
	case "ia":
		return t.Args[0].String() + "[" + t.Args[1].String() + "]"
	case "alloc":
		return "&" + t.Str
	case "global":
		return t.Str
	case "poly":
		return t.P.String()
	case "cmp":
		return "(" + t.Args[0].String() + t.Str + t.Args[1].String() + ")"
	case "iface":
		return types.TypeString(t.Typ, shortQual) + "(" + t.Args[0].String() + ")"
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, a.String())
	}
	s := t.Op
	if t.Str != "" {
		s += ":" + t.Str
	}
	return s + "(" + strings.Join(as, ",") + ")"
}

func shortQual(p *types.Package) string { return p.Name() }

// isBoolTerm tells whether the term stands for a truth value, i.e. 0 or 1 as a polynomial atom.
func isBoolTerm(t *Term) bool {
	switch t.Op {
	case "bool", "le0", "eq0", "isnil", "eq", "typeis", "not", "and", "or", "mapok", "bit", "nonempty":
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
			return true
		}
	}
	return false
}

// Poly is a polynomial over atom terms with integer coefficients. Truth-valued atoms are idempotent.
type Poly struct {
	m map[string]*mono
	k string
}
type mono struct {
	c int64
	a []*Term // sorted by id
}

func monoKey(a []*Term) string {
	var b strings.Builder
	for _, t := range a {
		b.WriteString(strconv.Itoa(t.id))
		b.WriteByte('.')
	}
	return b.String()
}
func newPoly() *Poly { return &Poly{m: map[string]*mono{}} }
func pConst(c int64) *Poly {
	p := newPoly()
	if c != 0 {
		p.m[""] = &mono{c: c}
	}
	return p
}
func pAtom(t *Term) *Poly {
	p := newPoly()
	a := []*Term{t}
	p.m[monoKey(a)] = &mono{1, a}
	return p
}
func (p *Poly) isConst() (int64, bool) {
	if len(p.m) == 0 {
		return 0, true
	}
	if len(p.m) == 1 {
		if mo, ok := p.m[""]; ok {
			return mo.c, true
		}
	}
	return 0, false
}
func (p *Poly) constPart() int64 {
	if mo, ok := p.m[""]; ok {
		return mo.c
	}
	return 0
}
func (p *Poly) addMono(c int64, a []*Term) {
	if c == 0 {
		return
	}
	k := monoKey(a)
	if e, ok := p.m[k]; ok {
		n := e.c + c
		if n == 0 {
			delete(p.m, k)
		} else {
			p.m[k] = &mono{n, a}
		}
		return
	}
	p.m[k] = &mono{c, a}
}
func (p *Poly) add(q *Poly, f int64) *Poly {
	r := newPoly()
	for k, e := range p.m {
		r.m[k] = e
	}
	for _, e := range q.m {
		r.addMono(e.c*f, e.a)
	}
	return r
}
func (p *Poly) plus(q *Poly) *Poly  { return p.add(q, 1) }
func (p *Poly) minus(q *Poly) *Poly { return p.add(q, -1) }
func (p *Poly) scale(c int64) *Poly { return newPoly().add(p, c) }

// coef is the coefficient of an atom on its own.
func (p *Poly) coef(t *Term) int64 {
	for _, mo := range p.m {
		if len(mo.a) == 1 && mo.a[0] == t {
			return mo.c
		}
	}
	return 0
}

func (p *Poly) isZero() bool    { return len(p.m) == 0 }
func (p *Poly) eq(q *Poly) bool { return p.minus(q).isZero() }

func (p *Poly) times(q *Poly) *Poly {
	r := newPoly()
	for _, x := range p.m {
		for _, y := range q.m {
			r.addProduct(x.c*y.c, append(append([]*Term{}, x.a...), y.a...))
		}
	}
	return r
}

// addProduct normalises a product of atoms and adds it.
func (p *Poly) addProduct(c int64, a []*Term) {
	sort.Slice(a, func(i, j int) bool { return a[i].id < a[j].id })
	out := a[:0:0]
	for i, t := range a {
		if i > 0 && a[i-1] == t && isBoolTerm(t) {
			continue
		}
		out = append(out, t)
	}
	// Contradictions and absorption between related atoms
	out, f := absorb(out)
	p.addMono(c*f, out)
}

// absorb uses what relates atoms to each other: x * [x != 0] = x for numbers x, where eq0(x) is the truth of x == 0.
func absorb(a []*Term) ([]*Term, int64) {
	has := map[*Term]bool{}
	for _, t := range a {
		has[t] = true
	}
	for _, t := range a {
		// [x == 0] * x = 0
		if t.Op == "eq0" && has[t.Args[0]] {
			return nil, 0
		}
		if t.Op == "eq0" {
			x := t.Args[0]
			// [len s == 0] * sum over s = 0 ; handled through term relation "over"
			for _, u := range a {
				if u.Op == "sum" && u.Args[0] == x {
					return nil, 0
				}
			}
			// two different constants of the same value cannot hold together: [x == 0] * [x - 1 == 0]
			for _, u := range a {
				if u != t && u.Op == "eq0" {
					d := toPoly(x).minus(toPoly(u.Args[0]))
					if c, ok := d.isConst(); ok && c != 0 {
						return nil, 0
					}
				}
			}
		}
	}
	return a, 1
}

func (p *Poly) sorted() []*mono {
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*mono
	for _, k := range ks {
		r = append(r, p.m[k])
	}
	return r
}
func (p *Poly) key() string {
	if p.k == "" {
		var b strings.Builder
		for _, mo := range p.sorted() {
			fmt.Fprintf(&b, "%d*%s+", mo.c, monoKey(mo.a))
		}
		p.k = b.String() + "#"
	}
	return p.k
}
func (p *Poly) String() string {
	if len(p.m) == 0 {
		return "0"
	}
	var out []string
	for _, mo := range p.sorted() {
		var fs []string
		if mo.c != 1 || len(mo.a) == 0 {
			fs = append(fs, strconv.FormatInt(mo.c, 10))
		}
		for _, t := range mo.a {
			fs = append(fs, t.String())
		}
		out = append(out, strings.Join(fs, "·"))
	}
	sort.Strings(out)
	return strings.Join(out, " + ")
}
func (p *Poly) atoms() []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	for _, mo := range p.sorted() {
		for _, t := range mo.a {
			if !seen[t] {
				seen[t] = true
				r = append(r, t)
			}
		}
	}
	return r
}

// subst replaces atoms by polynomials.
func (p *Poly) subst(f func(*Term) *Poly) *Poly {
	r := newPoly()
	for _, mo := range p.m {
		q := pConst(mo.c)
		for _, t := range mo.a {
			if s := f(t); s != nil {
				q = q.times(s)
			} else {
				q = q.times(pAtom(t))
			}
		}
		r = r.plus(q)
	}
	return r
}

// toPoly views an integer term as a polynomial.
func toPoly(t *Term) *Poly {
	switch t.Op {
	case "int":
		return pConst(t.Int)
	case "bool":
		return pConst(t.Int)
	case "poly":
		return t.P
	}
	return pAtom(t)
}

func tAdd(a, b *Term, typ types.Type) *Term { return polyTerm(toPoly(a).plus(toPoly(b)), typ) }
func tSub(a, b *Term, typ types.Type) *Term { return polyTerm(toPoly(a).minus(toPoly(b)), typ) }

// Truth terms. A condition is canonicalised to an atom or its negation:
//
//	le0(p)  p <= 0     (p a polynomial over integers)
//	eq0(p)  p == 0
//	isnil(x), eq(x,y), typeis(x), sym of type bool
func tNot(t *Term) *Term {
	switch t.Op {
	case "bool":
		return cBool(t.Int == 0)
	case "not":
		return t.Args[0]
	case "le0":
		// !(p <= 0)  <=>  p >= 1  <=>  1 - p <= 0
		return tLe0(pConst(1).minus(toPoly(t.Args[0])))
	}
	return mk("not", "", 0, types.Typ[types.Bool], t)
}

// unsignedAtom tells whether an integer atom cannot be negative.
func nonNegAtom(t *Term) bool {
	if isBoolTerm(t) {
		return true
	}
	switch t.Op {
	case "len", "vlen", "sum":
		return true
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
			return true
		}
	}
	return false
}

func tLe0(p *Poly) *Term {
	if c, ok := p.isConst(); ok {
		return cBool(c <= 0)
	}
	// For sums of non-negative atoms: p <= 0 <=> p == 0, 1 - p <= 0 <=> p != 0
	if nonNegPoly(p) {
		return tEq0(p)
	}
	if q := pConst(1).minus(p); nonNegPoly(q) && q.constPart() == 0 {
		return tNot(tEq0(q))
	}
	return mk("le0", "", 0, types.Typ[types.Bool], polyTerm(p, nil))
}
func nonNegPoly(p *Poly) bool {
	for _, mo := range p.m {
		if mo.c < 0 {
			return false
		}
		for _, a := range mo.a {
			if !nonNegAtom(a) {
				return false
			}
		}
	}
	return true
}
func tEq0(p *Poly) *Term {
	if c, ok := p.isConst(); ok {
		return cBool(c == 0)
	}
	if nonNegPoly(p) && p.constPart() > 0 {
		return cBool(false)
	}
	// sign normalisation: the first monomial (other than the constant) has a positive coefficient
	s := p.sorted()
	for _, mo := range s {
		if len(mo.a) > 0 {
			if mo.c < 0 {
				p = p.scale(-1)
			}
			break
		}
	}
	return mk("eq0", "", 0, types.Typ[types.Bool], polyTerm(p, nil))
}
