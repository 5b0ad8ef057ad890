package main

import (
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C38: what is allocated is bounded by the packet; C39: every loop ends.

func checkC38(r *Report, L *Loaded) {
	r.Rule = "at every make of a slice or map, and every call that reserves memory, that a decoder reaches, on every path, the size is proved to be at most 65,535 or at most the remaining length of the fixed header"
	count := func(pr *packetRun) {
		for _, u := range pr.In.undec {
			r.violate("undecided:"+pr.Name, pr.Fn.Pos(), "%s.ReadFrom cannot be decided: %s", pr.Name, u)
		}
		obls := pr.In.obligList()
		sort.Slice(obls, func(i, j int) bool { return obls[i].Pos < obls[j].Pos })
		for _, o := range obls {
			if o.Kind != "alloc" {
				continue
			}
			r.count("allocations", 1)
			r.count("times they were reached", o.Visits)
			if !o.Proved {
				r.violate("alloc:"+pr.Name+":"+o.Desc, o.Pos, "%s.ReadFrom may allocate more than the packet holds: it is not proved that %s (on the path %s)", pr.Name, o.Desc, o.Fail)
			}
		}
		r.count("decoders", 1)
	}
	small := func(st *State, n *Term) bool { return st.facts.proveLe(toPoly(n).minus(pConst(65535))) }
	for _, s := range decSpecs() {
		pr := runDecoderOpt(L, s.typ, nil, func(pr *packetRun, in *Interp) {
			in.onMake = func(st *State, n *Term) bool {
				if small(st, n) {
					return true
				}
				_, rem := headerCells(pr.Obj, pr.Typ)
				if rem == nil {
					return false
				}
				return st.facts.proveLe(toPoly(n).minus(toPoly(in.peek(st, rem))))
			}
		})
		if pr == nil {
			r.violate("missing:"+s.typ, token.NoPos, "the packets package has no decoder for %s", s.typ)
			continue
		}
		count(pr)
	}
	for _, p := range []string{"PrimitiveByte", "PrimitiveUint16", "PrimitiveUint32", "PrimitiveString", "VariableByteInt"} {
		pr := runPrimitive(L, p, "ReadFrom", func(pr *packetRun, st *State) { pr.In.onMake = small })
		if pr == nil {
			r.violate("missing:"+p, token.NoPos, "the primitives package has no decoder for %s", p)
			continue
		}
		count(pr)
	}
	r.floor("decoders", 15)
	r.floor("allocations", 3)
}

// variant looks for what makes a loop end.
func (in *Interp) variant(rec *loopRec) (how string, ok bool) {
	var infos []*bodyInfo
	for _, bi := range rec.infos {
		if !bi.entry && bi.gen == rec.gen {
			infos = append(infos, bi)
		}
	}
	if len(infos) == 0 {
		return "it goes around at most once", true
	}
	every := func(f func(bi *bodyInfo) bool) bool {
		for _, bi := range infos {
			if !f(bi) {
				return false
			}
		}
		return true
	}
	waits := func(bi *bodyInfo) bool {
		for _, e := range bi.body {
			switch e.Kind {
			case "SelectBlock", "Recv", "NetRead":
				return true
			case "Decode":
				if isConn(e.Args[1]) {
					return true
				}
			}
		}
		return false
	}
	ranges := func(bi *bodyInfo) bool {
		for _, e := range bi.body {
			if e.Kind == "RangeNext" && rec.body[e.instr.Block()] {
				return true
			}
		}
		return false
	}
	consumes := func(bi *bodyInfo) bool {
		c := rec.mod[in.linkCell]
		if in.linkCell == nil || c == nil || bi.phi[c] == nil {
			return false
		}
		return bi.facts.proveLe(pConst(1).plus(toPoly(bi.begin[c])).minus(toPoly(bi.phi[c])))
	}
	simple := func(bi *bodyInfo) bool { return waits(bi) || ranges(bi) || consumes(bi) }
	if every(simple) {
		switch {
		case every(consumes):
			return "every iteration consumes input", true
		case every(ranges):
			return "it ranges over a collection", true
		case every(waits):
			return "every iteration waits for the network or another goroutine", true
		}
		return "every iteration consumes input, waits or takes the next element", true
	}
	// what may move: numbers, and the lengths of strings and slices
	syms := map[*Term]bool{}
	for _, bi := range infos {
		for s := range bi.phi {
			if isIntegral(s.Typ) || hasLen(s.Typ) {
				syms[s] = true
			}
		}
	}
	inv := func(t *Term) bool {
		for s := range syms {
			if mentions(t, s) {
				return false
			}
		}
		return true
	}
	ends := func(bi *bodyInfo, s *Term) (begin, end *Term) {
		begin, end = bi.begin[s], bi.phi[s]
		if begin == nil || end == nil {
			return nil, nil
		}
		if hasLen(s.Typ) {
			return in.lenOf(nil, begin), in.lenOf(nil, end)
		}
		return begin, end
	}
	// moves tells whether a variable moves in a direction, or at least does not move back
	moves := func(bi *bodyInfo, s *Term, k int64) (atLeast0, atLeast1 bool) {
		begin, end := ends(bi, s)
		if begin == nil {
			return false, false
		}
		if q := unwrapExact(bi.facts, end); k < 0 && len(q.Args) > 0 && q.Args[0] == begin && bi.facts.proveLe(toPoly(begin).scale(-1)) {
			// a part of it, that is not zero
			if len(q.Args) == 2 && q.Args[1].isInt() && (q.Op == "div" && q.Args[1].Int >= 2 || q.Op == "shr" && q.Args[1].Int >= 1) && bi.facts.proveLe(pConst(1).minus(toPoly(q))) {
				return true, true
			}
		}
		d := toPoly(unwrapExact(bi.facts, end)).minus(toPoly(begin)).scale(k)
		return bi.facts.proveLe(d.scale(-1)), bi.facts.proveLe(pConst(1).minus(d))
	}
	bounded := func(bi *bodyInfo, s *Term, k int64) bool {
		begin, end := ends(bi, s)
		if begin == nil {
			return false
		}
		for _, x := range []*Poly{toPoly(begin).scale(k), toPoly(end).scale(k)} {
			if bi.facts.polyIv(x).hi < int64(1)<<40 {
				return true
			}
		}
		for _, q := range bi.facts.le {
			c := q.coef(s)
			if c == 0 || (c > 0) != (k > 0) {
				continue
			}
			good := true
			for _, a := range q.minus(pAtom(s).scale(c)).atoms() {
				if !inv(a) {
					good = false
				}
			}
			if good {
				return true
			}
		}
		return false
	}
	// turns tells whether a number goes through all numbers of its width, until it is one that the loop does not change
	turns := func(bi *bodyInfo, s *Term) bool {
		begin, end := bi.begin[s], bi.phi[s]
		if begin == nil || end == nil || !isIntegral(s.Typ) {
			return false
		}
		bits, _, ok := typeBits(s.Typ)
		if !ok {
			return false
		}
		d := toPoly(unwrap(end)).minus(toPoly(begin))
		k, ok := d.isConst()
		if !ok || k != 1 && k != -1 {
			return false
		}
		for t, v := range bi.facts.truth {
			if v || t.Op != "eq0" {
				continue
			}
			p := toPoly(t.Args[0])
			for _, x := range []*Term{begin, end} {
				if c := p.coef(x); c == 1 || c == -1 {
					good := true
					for _, a := range p.minus(pAtom(x).scale(c)).atoms() {
						good = good && inv(a)
					}
					if good && bits <= 32 {
						return true
					}
					// the number that ends it is ahead, and not too far
					if start := bi.start[s]; good && start != nil {
						ahead := toPoly(start).minus(pAtom(x).minus(p.scale(c))).scale(-k)
						if x == end {
							ahead = ahead.minus(pConst(1))
						}
						if bi.facts.proveLe(ahead.scale(-1)) && bi.facts.polyIv(ahead).hi < int64(1)<<40 {
							return true
						}
					}
				}
			}
		}
		return false
	}
	var list []*Term
	for s := range syms {
		list = append(list, s)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, s := range list {
		for _, k := range []int64{1, -1} {
			if every(func(bi *bodyInfo) bool {
				if simple(bi) {
					return true
				}
				_, one := moves(bi, s, k)
				return one && bounded(bi, s, k)
			}) {
				return short(s) + " moves on in every iteration, up to a bound", true
			}
		}
	}
	for _, s := range list {
		if every(func(bi *bodyInfo) bool { return simple(bi) || turns(bi, s) }) {
			return short(s) + " takes all numbers of its width in turn, up to one", true
		}
	}
	// two variables of which one or the other moves on, and none moves back
	for _, s := range list {
		for _, u := range list {
			if s == u {
				continue
			}
			if every(func(bi *bodyInfo) bool {
				if simple(bi) {
					return true
				}
				s0, s1 := moves(bi, s, 1)
				u0, u1 := moves(bi, u, 1)
				return s0 && u0 && (s1 && bounded(bi, s, 1) || u1 && bounded(bi, u, 1))
			}) {
				return short(s) + " or " + short(u) + " moves on in every iteration, up to a bound", true
			}
		}
	}
	return "", false
}

func hasLen(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Basic:
		return u.Info()&types.IsString != 0
	}
	return false
}

// unwrapExact removes the reduction to a width from a value that needs none.
func unwrapExact(f *Facts, t *Term) *Term {
	if t.Op != "wrap" {
		return t
	}
	iv, q := typeIv(t.Typ), toPoly(unwrap(t))
	if f.proveLe(q.minus(pConst(iv.hi))) && f.proveLe(pConst(iv.lo).minus(q)) {
		return unwrap(t)
	}
	return t
}

func checkC39(r *Report, L *Loaded) {
	r.Rule = "for every loop that an encoder, a decoder, a client method, the memory storage or a function that routes topics reaches, and every way through its body: the iteration consumes input of the packet, waits for the network or another goroutine, takes the next element of a collection, or moves a variable on that a fact of the iteration bounds"
	type place struct {
		fn   *ssa.Function
		head *ssa.BasicBlock
	}
	c := clientFor(r, L)
	if c == nil {
		return
	}
	bad := map[place]bool{}
	good := map[place]string{}
	look := func(in *Interp) {
		for _, rec := range in.recs {
			k := place{rec.fn, rec.head}
			how, ok := in.variant(rec)
			if ok {
				if good[k] == "" {
					good[k] = how
				}
				continue
			}
			if !bad[k] {
				bad[k] = true
				if c.endsWell(r, k.fn) {
					good[k] = "shown over abstract strings"
					continue
				}
				r.violate("endless:"+rec.fn.Name(), firstPos(rec.head), "a loop in %s may not end: no variable that has a bound moves on in every iteration, nor does every iteration consume input or wait", rec.fn.String())
			}
		}
	}
	pure := map[*ssa.Function]bool{}
	var fns []*ssa.Function
	for _, run := range c.Runs {
		look(run.In)
		for fn := range run.In.pureCalls {
			if !pure[fn] {
				pure[fn] = true
				fns = append(fns, fn)
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for i := 0; i < len(fns); i++ {
		in := runPure(L, fns[i])
		look(in)
		for f := range in.pureCalls {
			if !pure[f] {
				pure[f] = true
				fns = append(fns, f)
			}
		}
		r.count("functions without effects", 1)
	}
	for _, s := range decSpecs() {
		if pr := runDecoder(L, s.typ, nil); pr != nil {
			look(pr.In)
			r.count("decoders", 1)
		}
	}
	for _, p := range []string{"PrimitiveByte", "PrimitiveUint16", "PrimitiveUint32", "PrimitiveString", "VariableByteInt"} {
		if pr := runPrimitive(L, p, "ReadFrom"); pr != nil {
			look(pr.In)
			r.count("decoders", 1)
		}
	}
	for _, s := range encSpecs() {
		for _, fam := range s.errorFamilies(true) {
			if pr := runEncoder(L, s.typ, encOpts{exact: true, assume: fam.assume, done: func(*packetRun, *Outcome) {}}); pr != nil {
				look(pr.In)
			}
		}
		r.count("encoders", 1)
	}
	if pr := runPrimitive(L, "VariableByteInt", "WriteTo"); pr != nil {
		look(pr.In)
		r.count("encoders", 1)
	}
	if t := L.namedType(L.memory, "Storage"); t != nil {
		sc := runObject(L, namedOf(t), "s", true)
		for _, run := range sc.Runs {
			look(run.In)
		}
	}
	for k, how := range good {
		r.count("loops", 1)
		r.sample(L.pos(firstPos(k.head)) + " " + k.fn.Name() + ": " + how)
	}
	r.floor("decoders", 15)
	r.floor("loops", 12)
}

func init() {
	checks["C38"] = checkC38
	checks["C39"] = checkC39
}
