package main

import (
	"go/token"
)

// C07: failures reach the caller.

// errorFamilies are the combinations of fields with which encoders are analysed for failing writes: nothing set, everything
// set, and all but one, one and two of the optional fields.
func (s *encSpec) errorFamilies(full bool) []family {
	var all []string
	for _, n := range append(fieldNames(s.props), fieldNames(s.will)...) {
		all = append(all, n)
	}
	if s.typ == "Connect" {
		all = append(all, "Username", "Password", "Will", "WillTopic", "ClientId")
	}
	if s.typ == "Publish" {
		all = append(all, "Payload")
	}
	out := []family{{name: "nothing", unset: all}, {name: "everything", set: all}}
	for i, a := range all {
		out = append(out, family{name: a, set: []string{a}, unset: except(all, a)}, family{name: "all but " + a, set: except(all, a), unset: []string{a}})
		if !full && s.typ == "Connect" {
			continue
		}
		for _, b := range all[i+1:] {
			out = append(out, family{name: a + " and " + b, set: []string{a, b}, unset: except(all, a, b)})
		}
	}
	return out
}

// encoderErrors checks that an encoder whose writer fails returns an error (part of C07).
func encoderErrors(r *Report, L *Loaded) {
	check := func(name string, pr *packetRun, o *Outcome) {
		if o.Kind != "return" {
			return
		}
		r.count("paths through encoders", 1)
		if o.State.ghost["$failed"] != nil {
			r.count("paths on which a write fails", 1)
			if retErr(o) != 1 {
				pos, what := o.Pos, "a write"
				for _, e := range o.State.trace {
					if e.Kind == "WriteFail" || e.Kind == "Refused" {
						pos, what = e.Pos, e.Name
					}
				}
				r.violate("ignored:"+name, pos, "%s may return without an error although %s failed", name, what)
			}
		}
	}
	// idle decides whether a loop only goes round after a write failed, without writing, and without the failure being
	// lost: it stays in s, and where the function succeeds nothing was in s.
	idle := func(rec *loopRec, b *bodyInfo, os []*Outcome) bool {
		non := func(f *Facts, t *Term) bool { v, k := f.eval(mkIsNil(t)); return t != nil && k && !v }
		if len(os) == 0 {
			return false
		}
	next:
		for s := range b.start {
			if b.phi[s] == nil || !non(b.facts, b.phi[s]) || !rec.sticks(s) {
				continue
			}
			for _, c := range rec.now() {
				if v, k := c.facts.eval(mkIsNil(c.begin[s])); k && v {
					continue
				}
				for _, x := range c.body {
					if x.Kind == "WriteFail" || x.Kind == "Out" || x.Kind == "Refused" || x.Loop != nil {
						continue next
					}
				}
			}
			for _, o := range os {
				if v, k := o.State.facts.eval(mkIsNil(s)); (!k || !v) && retErr(o) != 1 {
					continue next
				}
			}
			return true
		}
		return false
	}
	loops := func(name string, pr *packetRun, tr []*Event, with map[*loopRec][]*Outcome) {
		seen := map[*loopRec]bool{}
		var visit func(e *Event)
		visit = func(e *Event) {
			if e.Loop == nil || seen[e.Loop] {
				return
			}
			seen[e.Loop] = true
			for _, b := range e.Loop.infos {
				r.count("rounds of loops in encoders", 1)
				for _, x := range b.body {
					if (x.Kind == "WriteFail" || x.Kind == "Refused") && !idle(e.Loop, b, with[e.Loop]) {
						r.violate("goes-on:"+name, x.Pos, "%s goes on after %s failed", name, x.Name)
					}
					visit(x)
				}
			}
		}
		for _, e := range tr {
			visit(e)
		}
	}
	for _, s := range encSpecs() {
		s := s
		for _, h := range s.headers() {
			for _, fam := range s.errorFamilies(r.Tier == "thorough") {
				var recs []*Event
				with := map[*loopRec][]*Outcome{}
				pr := runEncoder(L, s.typ, encOpts{exact: true, header: h, assume: fam.assume, done: func(pr *packetRun, o *Outcome) {
					check(s.typ+".WriteTo", pr, o)
					for _, e := range o.State.trace {
						if e.Loop != nil {
							if with[e.Loop] == nil {
								recs = append(recs, e)
							}
							if o.Kind == "return" {
								with[e.Loop] = append(with[e.Loop], o)
							}
						}
					}
				}})
				if pr == nil {
					r.violate("missing:"+s.typ, token.NoPos, "the packets package has no encoder for %s", s.typ)
					break
				}
				loops(s.typ+".WriteTo", pr, recs, with)
				for _, u := range pr.In.undec {
					r.violate("undecided:"+s.typ, pr.Fn.Pos(), "%s.WriteTo cannot be decided: %s", s.typ, u)
				}
				if s.props == nil {
					break
				}
			}
		}
	}
	for _, p := range []string{"PrimitiveByte", "PrimitiveUint16", "PrimitiveUint32", "PrimitiveString", "VariableByteInt"} {
		for _, m := range []string{"WriteTo", "WriteToAsProperty"} {
			classes := []int{-1}
			if p == "VariableByteInt" {
				classes = []int{1, 7, 8, 14, 15, 21, 22, 28, 29, 32}
			}
			for _, k := range classes {
				pr := runPrimitive(L, p, m, func(pr *packetRun, st *State) {
					if k >= 0 {
						pr.In.unroll = 12
						between(st, mk("init", "", 0, pr.Typ, pr.Obj), bitClass(k))
					}
				})
				if pr == nil {
					continue
				}
				for _, o := range pr.In.outcomes {
					check(p+"."+m, pr, o)
					loops(p+"."+m, pr, o.State.trace, nil)
				}
				for _, u := range pr.In.undec {
					r.violate("undecided:"+p+"."+m, pr.Fn.Pos(), "%s.%s cannot be decided: %s", p, m, u)
				}
			}
		}
	}
	r.floor("paths on which a write fails", 200)
}

func checkC07(r *Report, L *Loaded) {
	r.Rule = "every path of every client method on which a writer, reader, deadline, encoder or store failed (other than a store that says the record is already there or already gone) returns a non-nil error, and no loop goes on after such a failure; every path of every encoder and of the primitives on which a write failed or a length was refused returns a non-nil error; no path of a decoder passes over a failed read"
	clientErrors(r, L)
	encoderErrors(r, L)
	readErrors(r, L)
}

func init() { checks["C07"] = checkC07 }
