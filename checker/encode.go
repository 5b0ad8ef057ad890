package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoder model. A WriteTo is run for a packet of which nothing is known, or only which of its fields are set. Every
// condition on a field splits the path, so that a path that succeeds knows which fields are set; what it wrote is a list of
// items over the values of the fields. Loops over user properties and topics are summarised: what they write is one body
// for every element, and what they add up is a sum over the elements.

type encOpts struct {
	exact  bool // numbers of 32 and more bits do not overflow
	noFail bool // writes do not fail
	header *Term
	assume func(pr *packetRun, st *State) bool
	small  bool // no string is too long for its length prefix
	done   func(pr *packetRun, o *Outcome)
}

// runEncoder analyses the WriteTo of a packet type.
func runEncoder(L *Loaded, named string, o encOpts) *packetRun {
	t := L.namedType(L.packets, named)
	fn := L.method(L.packets, named, "WriteTo")
	if t == nil || fn == nil || len(fn.Blocks) == 0 {
		return nil
	}
	if limitedReader == nil {
		findLimitedReader(L)
	}
	n := namedOf(t)
	pr := &packetRun{L: L, Name: named, Fn: fn, Typ: n, atomic: true, noFail: o.noFail}
	in := newInterp(L)
	in.root = named + ".WriteTo"
	in.model = pr.model
	in.exact = o.exact
	in.encoding = true
	in.counted = true
	in.noFacts = o.exact
	if o.done != nil {
		in.dropDone = true
		in.onDone = func(oc *Outcome) { o.done(pr, oc) }
	}
	in.maxSteps = 40000000
	pr.In = in
	pr.Obj = sym("p", types.NewPointer(n))
	pr.IO = sym("w", fn.Params[1].Type())
	pr.Pos = mk("fa", "$consumed", 0, i64Type(), pr.IO)
	st := in.newState(fn, []*Term{pr.Obj, pr.IO})
	st.facts.assume(mkIsNil(pr.Obj), false)
	st.facts.assume(mkIsNil(pr.IO), false)
	st.heap[pr.Pos] = cInt(0)
	if h, _ := headerCells(pr.Obj, n); h != nil && o.header != nil && named != "FixedHeader" {
		st.heap[h] = o.header
	}
	if o.small {
		u := n.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if b, ok := u.Field(i).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				l := in.lenOf(st, in.peek(st, mkFA(pr.Obj, n, i)))
				st.facts.assume(tLe0(toPoly(l).minus(pConst(65535))), true)
			}
		}
	}
	if o.assume != nil && !o.assume(pr, st) {
		return pr
	}
	pr.Init = st.clone()
	in.run(st)
	return pr
}

// field is the value of a field of the packet, when the encoder is called.
func (pr *packetRun) field(name string) *Term {
	a, t := fieldAddr(pr.Obj, pr.Typ, name)
	if a == nil {
		return nil
	}
	return mk("init", "", 0, t, a)
}

// isSet is the condition that a field has another value than the zero value.
func (pr *packetRun) isSet(name string) *Term {
	v := pr.field(name)
	if v == nil {
		return nil
	}
	switch u := v.Typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return tNot(tEq0(toPoly(pr.In.lenOf(nil, v))))
		case u.Info()&types.IsBoolean != 0:
			return v
		}
		return tNot(tEq0(toPoly(v)))
	}
	return tNot(tEq0(toPoly(pr.In.lenOf(nil, v))))
}

// encItem is an item that was written: one of b, blob and vi, or the body of a loop that was written for each element.
type encItem struct {
	t     *Term // in terms of the fields
	raw   *Term
	ev    *Event
	n     *Term // loop: number of elements
	over  *Term // loop: what it ranges over
	body  []encItem
	depth int
	dest  *Term // the buffer that took it, if it is not the writer
}

// encPath is a path through an encoder that returns without an error.
type encPath struct {
	pr    *packetRun
	o     *Outcome
	rw    *rewriter
	items []encItem
	fail  string
	pos   token.Pos
	f     *Facts
}

// rewriter replaces what loops computed by sums over the elements.
type rewriter struct {
	pr   *packetRun
	sub  map[*Term]*Term
	memo map[*Term]*Term
	f    *Facts
}

func newRewriter(pr *packetRun, f *Facts) *rewriter {
	return &rewriter{pr: pr, sub: map[*Term]*Term{}, memo: map[*Term]*Term{}, f: f}
}

func (rw *rewriter) set(a, b *Term) {
	rw.sub[a] = b
	rw.memo = map[*Term]*Term{}
}

func (rw *rewriter) poly(p *Poly) *Poly {
	return p.subst(func(a *Term) *Poly { return toPoly(rw.term(a)) })
}

func (rw *rewriter) term(t *Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := rw.memo[t]; ok {
		return r
	}
	r := rw.rebuild(t)
	if s, ok := rw.sub[r]; ok {
		r = s
	}
	// a number that the path has decided
	if rw.f != nil && !r.isInt() && isIntegral(r.Typ) && r.Op != "poly" {
		if iv := rw.f.ivOf(r); iv.lo == iv.hi {
			r = cInt(iv.lo)
		}
	}
	if rw.f != nil && isBoolTerm(r) && !r.isBool() && r.Op != "gpoly" {
		if r.Op == "bit" {
			if iv := rw.f.ivOf(r.Args[0]); iv.lo >= 0 && iv.hi < 1<<uint(r.Int) {
				r = cBool(false)
			} else if iv.lo == iv.hi && iv.lo >= 0 {
				r = cBool(iv.lo>>uint(r.Int)&1 == 1)
			}
		} else if v, k := rw.f.eval(r); k {
			r = cBool(v)
		}
	}
	rw.memo[t] = r
	return r
}

func (rw *rewriter) rebuild(t *Term) *Term {
	if s, ok := rw.sub[t]; ok {
		return s
	}
	switch t.Op {
	case "poly":
		return polyTerm(rw.poly(t.P), t.Typ)
	case "gpoly":
		return gTerm(rw.poly(t.P))
	case "fn", "clo":
		return t
	}
	if len(t.Args) == 0 {
		return t
	}
	same := true
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = rw.term(a)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	switch t.Op {
	case "eq0":
		return tEq0(toPoly(args[0]))
	case "le0":
		return tLe0(toPoly(args[0]))
	case "len":
		return rw.pr.In.lenOf(nil, args[0])
	case "vlen":
		return polyTerm(vlenPoly(args[0]), t.Typ)
	case "not":
		return tNot(args[0])
	case "sum":
		if n := args[0]; n.isInt() && n.Int == 0 {
			return cInt(0)
		} else if n.isInt() && n.Int == 1 {
			return args[1]
		}
	case "wrap":
		if args[0].isInt() {
			return cInt(wrapInt(args[0].Int, t.Typ))
		}
	case "trunc":
		if args[0].isInt() {
			return cInt(wrapInt(args[0].Int, t.Typ))
		}
	case "shr":
		if args[0].isInt() && args[1].isInt() {
			return cInt(args[0].Int >> uint(args[1].Int))
		}
	}
	r := mk(t.Op, t.Str, t.Int, t.Typ, args...)
	if r.Ref == nil {
		r.Ref = t.Ref
	}
	return r
}

// sumOver is the sum of p over n elements.
func sumOver(pr *packetRun, n, no *Term, p *Poly) *Poly {
	r := newPoly()
	if n.isInt() && n.Int == 1 {
		return p
	}
	if n.isInt() && n.Int == 0 {
		return r
	}
	for _, mo := range p.sorted() {
		if len(mo.a) == 0 {
			r = r.plus(toPoly(n).scale(mo.c))
			continue
		}
		q := newPoly()
		q.addMono(1, mo.a)
		// forwards or backwards is the same
		back := newRewriter(pr, nil)
		other := sym("#back", no.Typ)
		back.set(no, polyTerm(toPoly(n).plus(pConst(-1)).minus(pAtom(other)), no.Typ))
		name := newRewriter(pr, nil)
		name.set(other, no)
		if b := name.poly(back.poly(q)); !b.eq(q) && (len(b.String()) < len(q.String()) || len(b.String()) == len(q.String()) && b.String() < q.String()) {
			q = b
		}
		r = r.plus(pAtom(mk("sum", "", 0, types.Typ[types.Uint], n, polyTerm(q, nil))).scale(mo.c))
	}
	return r
}

// elemNo is the number of the element that a loop is at, from 0.
func elemNo(depth int) *Term { return sym(fmt.Sprintf("#%d", depth), types.Typ[types.Uint]) }

// path summarises a path.
func (pr *packetRun) path(o *Outcome) *encPath {
	p := &encPath{pr: pr, o: o, pos: o.Pos, f: o.State.facts}
	p.rw = newRewriter(pr, o.State.facts)
	for _, it := range p.flatten(o.State.trace, p.rw, 0) {
		if it.dest == nil { // the rest never left its buffer
			p.items = append(p.items, it)
		}
	}
	return p
}

func (p *encPath) undecided(format string, a ...any) {
	if p.fail == "" {
		p.fail = fmt.Sprintf(format, a...)
	}
}

// names gives the elements that the events deliver their canonical names.
func (p *encPath) names(evs []*Event, rw *rewriter) {
	for _, e := range evs {
		if e.Kind == "RangeNext" {
			m := rw.term(e.Args[0])
			k := mk("key", "", 0, e.Args[1].Typ, m)
			rw.set(e.Args[1], k)
			rw.set(e.Args[2], mk("val", "", 0, e.Args[2].Typ, m))
		}
	}
}

// flatten lists what a sequence of events wrote.
func (p *encPath) flatten(evs []*Event, rw *rewriter, depth int) []encItem {
	var out []encItem
	held := map[*Term][]encItem{}
	in := func(b *Term) (its []encItem) {
		for _, it := range out {
			if it.dest == b {
				its = append(its, it)
			}
		}
		return
	}
	for i, e := range evs {
		switch e.Kind {
		case "Flush", "BufLen", "BufReset", "OutHeld":
			if depth > 0 {
				p.undecided("a loop uses the buffer at %s", p.pr.L.pos(e.Pos))
				continue
			}
			its := in(e.Dest)
			switch e.Kind {
			case "BufLen":
				rw.set(e.Args[0], polyTerm(p.size(its), e.Args[0].Typ))
				if len(e.Args) > 1 {
					held[e.Args[1]] = its
				}
				continue
			case "OutHeld":
				for _, it := range held[e.Args[0]] {
					it.dest = e.Dest
					out = append(out, it)
				}
				continue
			}
			var rest []encItem
			for _, it := range out {
				if it.dest != e.Dest {
					rest = append(rest, it)
				}
			}
			if out = rest; e.Kind == "Flush" {
				rw.set(e.Args[0], polyTerm(p.size(its), e.Args[0].Typ))
				for _, it := range its {
					it.dest = nil
					out = append(out, it)
				}
			}
		case "Out":
			for _, a := range e.Args {
				t := rw.term(a)
				if t.Op == "blob" && t.Args[0].Op == "str" {
					for k := 0; k < len(t.Args[0].Str); k++ {
						out = append(out, encItem{t: itemByte(cInt(int64(t.Args[0].Str[k]))), raw: a, ev: e, dest: e.Dest})
					}
					continue
				}
				out = append(out, encItem{t: t, raw: a, ev: e, dest: e.Dest})
			}
		case "Loop":
			if it := p.loop(e, evs[i+1:], rw, depth); it != nil {
				if len(it.body) > 0 {
					it.dest = it.body[0].dest
					for _, b := range it.body {
						if b.dest != it.dest {
							p.undecided("the loop at %s writes to more than one buffer", p.pr.L.pos(e.Pos))
						}
					}
					out = append(out, *it)
				}
			}
		case "RangeNext":
			p.names(evs[i:i+1], rw)
		}
	}
	return out
}

// loop summarises a loop that has ended.
func (p *encPath) loop(e *Event, rest []*Event, rw *rewriter, depth int) *encItem {
	rec := e.Loop
	it := &encItem{ev: e, depth: depth}
	where := p.pr.L.pos(e.Pos)
	infos := rec.until(p.f)
	if len(infos) == 0 {
		p.undecided("the loop at %s has no iteration", where)
		return nil
	}
	// the counter: a number that grows by 1 in every iteration
	delta := func(bi *bodyInfo, s *Term, r *rewriter) *Poly {
		if bi.begin[s] == nil || bi.phi[s] == nil || !isIntegral(s.Typ) {
			return nil
		}
		return toPoly(r.term(bi.phi[s])).minus(toPoly(r.term(bi.begin[s])))
	}
	var syms []*Term
	for s := range infos[0].start {
		syms = append(syms, s)
	}
	sortTerms(syms)
	no := elemNo(depth)
	counters := map[*Term]int64{}
	for _, s := range syms {
		one := int64(0)
		for k, bi := range infos {
			d := delta(bi, s, newRewriter(p.pr, nil))
			c, ok := int64(0), false
			if d != nil {
				c, ok = d.isConst()
			}
			if !ok || c != 1 && c != -1 || k > 0 && c != one {
				one = 0
				break
			}
			one = c
		}
		if one != 0 {
			counters[s] = one
		}
	}
	// one rewriter for each kind of iteration
	type bodyRun struct {
		bi    *bodyInfo
		rw    *rewriter
		items []encItem
	}
	var runs []bodyRun
	for _, bi := range infos {
		r := newRewriter(p.pr, nil)
		for a, b := range rw.sub {
			r.sub[a] = b
		}
		if !bi.entry {
			for s, k := range counters {
				st := rw.term(bi.start[s])
				r.set(s, polyTerm(toPoly(st).plus(pAtom(no).scale(k)), s.Typ))
			}
		}
		var items []encItem
		sub := &encPath{pr: p.pr, o: p.o, f: bi.facts}
		items = sub.flatten(bi.body, r, depth+1)
		if sub.fail != "" {
			p.undecided("%s", sub.fail)
		}
		runs = append(runs, bodyRun{bi, r, items})
	}
	// all iterations must do the same
	var gen *bodyRun
	for i := range runs {
		if !runs[i].bi.entry {
			gen = &runs[i]
			break
		}
	}
	once := gen == nil
	if once {
		gen = &runs[0]
	}
	zero := newRewriter(p.pr, nil)
	zero.set(no, cInt(0))
	for i := range runs {
		r := &runs[i]
		a, b := r.items, gen.items
		if r.bi.entry {
			b = mapItems(b, zero)
			a = mapItems(a, zero)
		}
		if !sameItems(a, b) {
			p.undecided("the iterations of the loop at %s write different things", where)
			return nil
		}
	}
	it.body = gen.items
	if once {
		it.n = cInt(1)
	}
	// how many there are
	if !once {
		p.iterations(e, rec, rest, counters, it, rw, gen.bi)
	}
	if it.n == nil {
		p.undecided("it is not known how often the loop at %s runs", where)
		return nil
	}
	// what it adds up
	for _, s := range syms {
		d := delta(gen.bi, s, gen.rw)
		if d == nil {
			continue
		}
		st := rw.term(gen.bi.start[s])
		if k, ok := counters[s]; ok {
			rw.set(s, polyTerm(toPoly(st).plus(toPoly(it.n).scale(k)), s.Typ))
			continue
		}
		if mentionsLoop(polyTerm(d, nil), rec) {
			continue
		}
		ok := true
		for _, r := range runs {
			e := delta(r.bi, s, r.rw)
			if r.bi.entry {
				ok = ok && e != nil && zero.poly(e).eq(zero.poly(d))
			} else {
				ok = ok && e != nil && e.eq(d)
			}
		}
		if !ok {
			continue
		}
		rw.set(s, polyTerm(toPoly(st).plus(sumOver(p.pr, it.n, no, d)), s.Typ))
	}
	return it
}

// iterations finds what the loop ranges over: all entries of a map, or all elements of a slice.
func (p *encPath) iterations(e *Event, rec *loopRec, rest []*Event, counters map[*Term]int64, it *encItem, rw *rewriter, bi *bodyInfo) {
	f := p.f
	for _, b := range bi.body {
		if b.Kind == "RangeNext" {
			// it ended because there are no more entries
			for _, x := range rest {
				if x.Kind == "RangeNext" && x.instr == b.instr {
					if v, k := f.eval(x.Args[3]); k && !v {
						it.over = rw.term(b.Args[0])
						it.n = mk("len", "", 0, types.Typ[types.Int], it.over)
					}
				}
				break
			}
			return
		}
	}
	for s, k := range counters {
		diff := toPoly(s).minus(toPoly(bi.start[s])).scale(k)
		for _, l := range f.lengths() {
			d := diff.minus(pAtom(l))
			if f.proveLe(d) && f.proveLe(d.scale(-1)) {
				it.n = rw.term(l)
				it.over = it.n.Args[0]
				return
			}
		}
	}
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func mapItems(its []encItem, rw *rewriter) []encItem {
	var out []encItem
	for _, it := range its {
		n := it
		n.t, n.n = rw.term(it.t), rw.term(it.n)
		n.body = mapItems(it.body, rw)
		out = append(out, n)
	}
	return out
}

func sameItems(a, b []encItem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x.n != y.n || x.dest != y.dest || !sameItems(x.body, y.body) {
			return false
		}
		if x.t != y.t {
			if x.t == nil || y.t == nil || x.t.Op != y.t.Op || !sameValue(x.t.Args[0], y.t.Args[0]) {
				return false
			}
		}
	}
	return true
}

// size is the number of bytes of items.
func (p *encPath) size(its []encItem) *Poly {
	n := newPoly()
	for _, it := range its {
		if it.t == nil {
			n = n.plus(sumOver(p.pr, it.n, elemNo(it.depth), p.size(it.body)))
			continue
		}
		n = n.plus(p.pr.In.itemLen(nil, it.t))
	}
	return n
}

// reduce replaces what the facts of the path decide.
func (p *encPath) reduce(q *Poly) *Poly { return p.rw.poly(q) }

func (it encItem) String() string {
	if it.t != nil {
		return it.t.String()
	}
	var out []string
	for _, b := range it.body {
		out = append(out, b.String())
	}
	return "for " + it.n.String() + "{" + strings.Join(out, " ") + "}"
}

var _ *ssa.Function
