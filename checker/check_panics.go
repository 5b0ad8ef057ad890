package main

import (
	"go/token"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C06: nothing that a server sends makes the client panic.

// obligations reports the operations that could panic. What an instruction needs is asked for on every path to it.
func obligations(r *Report, where string, obls []*Oblig, skip map[string]bool) {
	sort.Slice(obls, func(i, j int) bool { return obls[i].Pos < obls[j].Pos })
	for _, o := range obls {
		if skip[o.Kind] {
			continue
		}
		r.count("operations that could panic", 1)
		r.count("times they were reached", o.Visits)
		if !o.Proved {
			fn := ""
			if o.Fn != nil {
				fn = o.Fn.Name()
			}
			r.violate("panic:"+o.Kind+":"+fn+":"+o.Desc, o.Pos, "%s could panic: it is not proved that %s (on the path %s)", fn, o.Desc, o.Fail)
		}
	}
}

func (in *Interp) obligList() []*Oblig {
	var out []*Oblig
	for _, o := range in.obls {
		out = append(out, o)
	}
	return out
}

// runPure analyses a function that the client calls with values only, for any arguments. Calls of itself return anything.
func runPure(L *Loaded, fn *ssa.Function) *Interp {
	in := newInterp(L)
	in.root = "pure:" + fn.String()
	in.noTrace = true
	in.inlinePure = true
	var args []*Term
	for _, p := range fn.Params {
		args = append(args, sym(p.Name(), p.Type()))
	}
	st := in.newState(fn, args)
	if fn.Signature.Recv() != nil {
		st.facts.assume(mkIsNil(args[0]), false)
	}
	in.run(st)
	return in
}

func checkC06(r *Report, L *Loaded) {
	r.Rule = "every index and slice expression, map write, type assertion, division, make, conversion, pointer dereference and explicit panic that is reached from an exported method of the client or of the memory storage, from a decoder, from the encoder of a packet that the client answers with, or in a function that routes topics is proved, on every path to it and for any decoded values, not to panic; an event channel is closed only while it is registered as open, and never sent to afterwards"
	c := clientFor(r, L)
	if c == nil {
		return
	}
	obligations(r, "client", c.Obls, nil)
	pure := map[*ssa.Function]bool{}
	for _, run := range c.Runs {
		for fn := range run.In.pureCalls {
			pure[fn] = true
		}
		r.count("client methods", 1)
	}
	var fns []*ssa.Function
	for fn := range pure {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for i := 0; i < len(fns); i++ {
		fn := fns[i]
		in := runPure(L, fn)
		for f := range in.pureCalls {
			if !pure[f] {
				pure[f] = true
				fns = append(fns, f)
			}
		}
		r.count("functions without effects", 1)
		open := len(in.undec) > 0
		for _, o := range in.obligList() {
			open = open || !o.Proved
		}
		if open && c.endsWell(r, fn) {
			continue
		}
		for _, u := range in.undec {
			r.violate("undecided:"+fn.Name(), fn.Pos(), "%s cannot be decided: %s", fn.Name(), u)
		}
		obligations(r, fn.Name(), in.obligList(), nil)
	}
	g := c.eventRegistries()
	if g.general == "" || g.topic == "" {
		r.violate("anchor:event channels", 0, "expected one map of general and one of topic-bound event channels that are delivered to, found %v", g.maps)
	} else {
		eventTypestate(r, c, g)
	}

	// decoders, for any first byte
	for _, s := range decSpecs() {
		pr := runDecoder(L, s.typ, nil)
		if pr == nil {
			r.violate("missing:"+s.typ, token.NoPos, "the packets package has no decoder for %s", s.typ)
			continue
		}
		r.count("decoders", 1)
		for _, u := range pr.In.undec {
			r.violate("undecided:"+s.typ, pr.Fn.Pos(), "%s.ReadFrom cannot be decided: %s", s.typ, u)
		}
		obligations(r, s.typ+".ReadFrom", pr.In.obligList(), nil)
	}
	for _, p := range []string{"PrimitiveByte", "PrimitiveUint16", "PrimitiveUint32", "PrimitiveString", "VariableByteInt"} {
		pr := runPrimitive(L, p, "ReadFrom")
		if pr == nil {
			r.violate("missing:"+p, token.NoPos, "the primitives package has no decoder for %s", p)
			continue
		}
		r.count("decoders", 1)
		for _, u := range pr.In.undec {
			r.violate("undecided:"+p, pr.Fn.Pos(), "%s.ReadFrom cannot be decided: %s", p, u)
		}
		obligations(r, p+".ReadFrom", pr.In.obligList(), nil)
	}
	// encoders of the packets that the client answers with
	for _, s := range encSpecs() {
		switch s.typ {
		case "Puback", "Pubrec", "Pubrel", "Pubcomp", "Disconnect":
		default:
			continue
		}
		for _, fam := range s.errorFamilies(true) {
			pr := runEncoder(L, s.typ, encOpts{exact: true, assume: fam.assume, done: func(*packetRun, *Outcome) {}})
			if pr == nil {
				r.violate("missing:"+s.typ, token.NoPos, "the packets package has no encoder for %s", s.typ)
				break
			}
			for _, u := range pr.In.undec {
				r.violate("undecided:"+s.typ, pr.Fn.Pos(), "%s.WriteTo cannot be decided: %s", s.typ, u)
			}
			obligations(r, s.typ+".WriteTo", pr.In.obligList(), nil)
		}
	}
	// storage
	if t := L.namedType(L.memory, "Storage"); t != nil {
		sc := runObject(L, namedOf(t), "s", true)
		for _, u := range sc.Undec {
			r.violate("undecided:storage", token.NoPos, "%s", u)
		}
		obligations(r, "storage", sc.Obls, nil)
	}
	r.floor("operations that could panic", 20)
	r.floor("decoders", 15)
	r.floor("client methods", 10)
}

func init() { checks["C06"] = checkC06 }
